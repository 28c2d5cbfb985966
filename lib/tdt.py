"""Checks of tag data translation against Tdt.tla (C08-C13)."""
import json
from vlib import Violation, CheckError


def record(c, mode, n, ops, seed=0):
    out = c.path("tdt.json")
    c.drive(["tdt", "-mode", mode, "-n", n, "-ops", ops, "-seed", c.seed * 89 + seed, "-out", out])
    return json.load(open(out))


def traces(c, mode, n, ops=40, seed=0):
    done = 0
    while done < n:
        k = min(n - done, 2000)
        c.validate(record(c, mode, k, ops, seed + done), module="TdtTrace", what="recorded calls (%s)" % mode)
        done += k


def graph(c, deep=False, ops=None):
    """replays the cases of the bounded model on the code; ops: the kinds of cases that matter to the property"""
    recs, dist, gen, out = c.tlc("TdtGraph", env=dict(DEEP="1" if deep else "0"), workers=8, heap="6g")
    if dist != 2 * len(recs) or len(recs) < 20000:
        raise CheckError("TdtGraph: %d cases, %d states" % (len(recs), dist))
    if ops:
        recs = [r for r in recs if r["op"] in ops]
    fn, out = c.path("cases.json"), c.path("tdtgraph.json")
    with open(fn, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    c.drive(["tdtgraph", "-in", fn, "-out", out])
    r = json.load(open(out))
    if r["Cases"] != len(recs):
        raise CheckError("the driver replayed %d of %d cases" % (r["Cases"], len(recs)))
    c.traces += r["Cases"]
    for k, v in r["ByOp"].items():
        c.extra["cases_" + k] = c.extra.get("cases_" + k, 0) + v
    c.samples += [json.dumps(recs[(c.seed * 7919) % len(recs)]), json.dumps(recs[(c.seed * 104729) % len(recs)])]
    f = r["Fail"]
    if f:
        raise Violation("case %s %s %s %s%s of TdtGraph: the code gives %s %s, the specification demands %s (%d cases differ)"
                        % (f["Case"]["Op"], f["Case"]["Typ"], f["Case"]["F"], f["Case"]["Pc"], f["Case"]["Id"], f["Got"], f["Remark"], f["Case"]["Want"], r["Fails"]), f)


def c08(c):
    c.build()
    graph(c, ops=["epc", "iso", "filter"])
    traces(c, "cover,filter", c.q(500, 6000))
    if c.thorough:
        graph(c, deep=True)


def c09(c):
    c.build()
    graph(c, ops=["filter"])
    traces(c, "badfilter,bsub", c.q(400, 5000))
    # unusable patterns in the subscription lists of engines
    import engine
    engine.traces(c, "bad,any", c.q(150, 1500), ops=30, npats=10, seed=20)
    engine.traces(c, "bad,adddel,any", c.q(150, 1500), ops=30, npats=10, seed=21)


def c10(c):
    c.build()
    graph(c, ops=["epc"])
    traces(c, "roundtrip", c.q(500, 6000))
    if c.thorough:
        graph(c, deep=True)


def c11(c):
    c.build()
    graph(c, ops=["translate", "epc"])
    traces(c, "translate,roundtrip", c.q(600, 8000))


def c12(c):
    c.build()
    graph(c, ops=["translate", "iso"])
    traces(c, "isotrip,isojunk", c.q(500, 6000))


def c13(c):
    c.build()
    graph(c, ops=["epc", "iso"])
    traces(c, "epc,iso,cd", c.q(800, 8000))
    if c.thorough:
        graph(c, deep=True)


def c41(c):
    c.build()
    traces(c, "print,print,six", c.q(400, 4000), seed=60)


CHECKS = dict(C41=c41, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13)
