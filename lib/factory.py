"""Checks of the engine factory against Factory.tla (C20 - C25)."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import Violation, CheckError, NCPU, SPEC


def scenario(c, binary, k, seed, ops, mode, race):
    out = c.path("fac-%s-%d.json" % ("race" if race else "run", k))
    e = dict(c.env)
    e.update(SCENARIO_OUT=out, SCENARIO_SEED=str(seed), SCENARIO_OPS=str(ops), SCENARIO_MODE=mode, GORACE="halt_on_error=1 exitcode=66")
    last = None
    if c.extra.get("deaths", 0) >= 4:
        return None
    for attempt in (1, 2, 3):
        if os.path.exists(out):
            os.remove(out)
        try:
            r = subprocess.run([binary, "-test.timeout", "30s"], cwd=c.tmp, env=e, capture_output=True, text=True, timeout=60)
            rc, text = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            rc, text = -9, "no end within 60 s"
        if rc == 0 and os.path.exists(out):
            t = json.load(open(out))
            os.remove(out)
            return t
        if last and last[0] == rc:       # it dies again
            break
        last = (rc, text)
    if rc == 2 and not text.strip():
        raise CheckError("the scenario could not be recorded")
    c.extra["deaths"] = c.extra.get("deaths", 0) + 1
    # what it did before is unknown: the recording ends with the death of the process
    return [dict(op="new", engines=[], interval=1, cap=0, t=0), dict(op="died", t=0, exit=rc, text=text[-6000:], seed=seed, ops=ops, mode=mode)]


def runs(c, mode, n, ops=60, seed=0, race=False):
    name = "fac-race" if race else "fac"
    if not os.path.exists(c.path(name)):
        c.build(what="./factory", out=name, test=True, race=race)
    base = (c.seed * 1009 + seed) * 100000
    with ThreadPoolExecutor(NCPU) as ex:
        traces = list(ex.map(lambda k: scenario(c, c.path(name), k, base + k, ops, mode, race), range(n)))
    explain(c, [t for t in traces if t], mode)


def explain(c, traces, mode, module="FactoryTrace", want=lambda t: "it cannot be explained"):
    """a trace is accepted if some behaviour of the specification contains its events (nondeterministic validation)"""
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]))
    k = min(NCPU, len(traces))
    shards = [order[j::k] for j in range(k)]

    def go(j):
        fn = c.path("shard-%s-%d.json" % (module, j))
        with open(fn, "w") as f:
            json.dump([traces[i] for i in shards[j]], f)
        recs, dist, gen, out = c.tlc(module, env=dict(TRACE=fn))
        os.remove(fn)
        if sorted(r["t"] for r in recs) != list(range(1, len(shards[j]) + 1)):
            raise CheckError("%s reports %d of %d traces\n%s" % (module, len(recs), len(shards[j]), out[-2000:]))
        return [(shards[j][r["t"] - 1], r["i"]) for r in recs]
    with ThreadPoolExecutor(k) as ex:
        far = [x for r in ex.map(go, range(k)) for x in r]
    rejs = [(t, i) for t, i in far if i <= len(traces[t])]
    c.traces += len(traces) - len(rejs)
    c.extra["events"] = c.extra.get("events", 0) + sum(map(len, traces))
    if len(c.samples) < 6:
        t = traces[c.seed % len(traces)]
        c.samples.append(json.dumps(t[:4] + t[-3:])[:1500])
    if rejs:
        t, i = min(rejs, key=lambda x: x[1])
        ev = traces[t][i - 1]
        raise Violation("run %d (%s) is no behaviour of %s: no explanation of step %d, %s, after %s (%d of %d rejected)"
                        % (t, mode, module, i, json.dumps(ev)[-1500:], json.dumps(traces[t][max(0, i - 6):i - 1]), len(rejs), len(traces)),
                        dict(spec=module, step=i, event=ev, trace=traces[t][:i]))


def impl(c, **over):
    """the goroutine-and-channel model of the factory refines Factory.tla, for every schedule within the bounds"""
    t = open(os.path.join(SPEC, "FactoryImpl.cfg")).read()
    for k, v in over.items():
        t, n = re.subn(r"(?m)^  %s (=|<-) .*$" % k, lambda m: "  %s %s %s" % (k, m.group(1), v), t)
        if n != 1:
            raise CheckError("FactoryImpl.cfg has no constant " + k)
    cfg = c.path("FactoryImpl.cfg")
    with open(cfg, "w") as f:
        f.write(t)
    dist = c.tlc("FactoryImpl", cfg=cfg, workers=NCPU, heap="12g")[1]
    c.extra["interleavings_states"] = c.extra.get("interleavings_states", 0) + dist


def impl_quick(c):
    impl(c)
    # ... and would not if selections were not made one at a time (the race this model found)
    try:
        impl(c, Locked="FALSE")
    except CheckError as e:
        if "Refines is violated" not in str(e):
            raise
    else:
        raise CheckError("FactoryImpl cannot tell apart atomic and interleaved selections")


def c20(c):
    runs(c, "gen", c.q(140, 4000), 40, 1)
    runs(c, "gen,atick", c.q(100, 4000), 40, 4)
    runs(c, "gen,slow,atick", c.q(120, 2000), 40, 2)
    runs(c, "gen,concurrent", c.q(24, 200), 40, 3, race=True)


def c21(c):
    runs(c, "busy", c.q(150, 3000), 60, 1)
    runs(c, "busy,concurrent", c.q(150, 3000), 60, 2)
    runs(c, "busy,concurrent,edge,slow", c.q(100, 2000), 60, 3)


def c22(c):
    runs(c, "busy,edge", c.q(150, 3000), 60, 1)
    runs(c, "busy,edge,slow", c.q(200, 4000), 60, 2)
    runs(c, "busy,concurrent,edge,slow", c.q(100, 2000), 60, 3)


def c23(c):
    runs(c, "slow", c.q(200, 4000), 60, 1)
    runs(c, "slow,concurrent,edge", c.q(100, 3000), 60, 2)
    runs(c, "gen", c.q(100, 2000), 60, 3)


def c24(c):
    impl_quick(c)
    if c.tier == "thorough":
        impl(c, Periods="2")
    runs(c, "", c.q(200, 4000), 100, 1)
    runs(c, "edge,concurrent", c.q(100, 2000), 80, 2)
    runs(c, "slow", c.q(100, 2000), 80, 3)
    runs(c, "gen,atick", c.q(60, 2000), 80, 4)


def c25(c):
    if c.tier == "thorough":
        impl(c, Callers='{"c1", "c2"}', Outcomes="OneOutcome", Kinds='{"List", "SplayTree"}')
    runs(c, "slow,concurrent,edge", c.q(200, 3000), 80, 1)
    runs(c, "slow,gen,atick", c.q(150, 2000), 80, 2)
    runs(c, "slow,busy,concurrent", c.q(100, 2000), 60, 3)


CHECKS = dict(C20=c20, C21=c21, C22=c22, C23=c23, C24=c24, C25=c25)
