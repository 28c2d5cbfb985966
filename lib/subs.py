"""Checks of filter objects, compositions and subscription sets against Filters.tla (C14, C15, C16, C18)."""
import json
from vlib import Violation, CheckError


def traces(c, mode, n, ops=40, seed=0):
    done = 0
    while done < n:
        k = min(n - done, 2000)
        out = c.path("subs.json")
        c.drive(["subs", "-mode", mode, "-n", k, "-ops", ops, "-seed", c.seed * 83 + seed + done, "-out", out])
        c.validate(json.load(open(out)), module="FiltersTrace", what="recorded calls (%s)" % mode)
        done += k


def graph(c, op, deep=False):
    """replays the cases of the bounded model of one kind on the code"""
    recs, dist, gen, out = c.tlc("FiltersGraph", env=dict(DEEP="1" if deep else "0"), workers=8, heap="6g")
    if dist != 2 * len(recs) or len(recs) < 12000:
        raise CheckError("FiltersGraph: %d cases, %d states" % (len(recs), dist))
    recs = [r for r in recs if r["c"]["op"] == op]
    fn, out = c.path("fcases.json"), c.path("subsgraph.json")
    with open(fn, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    c.drive(["subsgraph", "-in", fn, "-out", out])
    r = json.load(open(out))
    if r["Cases"] != len(recs):
        raise CheckError("the driver replayed %d of %d cases" % (r["Cases"], len(recs)))
    c.traces += r["Cases"]
    c.extra["cases_" + op] = c.extra.get("cases_" + op, 0) + r["Cases"]
    c.samples += [json.dumps(recs[(c.seed * p) % len(recs)]) for p in (7919, 104729)]
    f = r["Fail"]
    if f:
        raise Violation("case %s of FiltersGraph: the code gives %s %s, the specification demands %s (%d cases differ)"
                        % (json.dumps(f["Case"]["C"])[:600], f["Got"], f["What"], f["Case"]["Want"], r["Fails"]), f)


def c14(c):
    c.build()
    graph(c, "load", c.thorough)
    traces(c, "load", c.q(300, 3000))
    traces(c, "bigload", c.q(24, 120), ops=1, seed=50)
    import engine
    engine.traces(c, "file,all,static", c.q(100, 1500), ops=20, npats=12, seed=30)
    engine.traces(c, "file,bad,any,static", c.q(200, 2000), ops=20, npats=12, seed=31)


def c15(c):
    c.build()
    graph(c, "obj", c.thorough)
    traces(c, "obj", c.q(300, 3000))
    traces(c, "bigobj", c.q(60, 600), ops=10, seed=62)


def c16(c):
    c.build()
    graph(c, "nest", c.thorough)
    traces(c, "nest,store,subs", c.q(300, 3000))
    traces(c, "bigsubs", c.q(36, 200), ops=1, seed=60)
    traces(c, "bignest", c.q(8, 80), ops=1, seed=61)


def c18(c):
    c.build()
    graph(c, "comp", c.thorough)
    traces(c, "comp", c.q(300, 3000), ops=20)
    traces(c, "bigcomp", c.q(60, 600), ops=6, seed=63)


def c39(c):
    c.build()
    done, n = 0, c.q(300, 6000)
    while done < n:
        out = c.path("stored.json")
        c.drive(["stored", "-n", 300, "-ops", c.q(300, 600), "-seed", c.seed * 239 + done, "-out", out])
        c.validate(json.load(open(out)), module="StorageTrace", what="saved documents")
        done += 300


CHECKS = dict(C39=c39, C14=c14, C15=c15, C16=c16, C18=c18)
