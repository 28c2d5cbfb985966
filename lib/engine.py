"""Checks of the filtering engines against Engine.tla (C01-C07, C17, the engine part of C09)."""
import json
from vlib import Violation, CheckError

BYTE = "List,PatriciaTrie,SplayTree"
ALL = BYTE + ",LegacyEngine"


def record(c, mode, n, ops=40, npats=12, seed=0):
    out = c.path("trace.json")
    c.drive(["eng", "-mode", mode, "-n", n, "-ops", ops, "-npats", npats, "-seed", c.seed * 97 + seed, "-out", out])
    return json.load(open(out))


def traces(c, mode, n, ops=40, npats=12, seed=0):
    """records n random runs and validates them in batches"""
    done = 0
    while done < n:
        k = min(n - done, 4000)
        c.validate(record(c, mode, k, ops, npats, seed + done), what="recorded run (%s)" % mode)
        done += k


def edges(c):
    if not hasattr(c, "edges"):
        c.uni, c.edges = c.path("universes.json"), c.path("edges.json")
        recs, dist, gen, out = c.tlc("EngineGraph", env=dict(UNIVERSES=c.uni, DEEP=c.q("0", "1")))
        if (len(recs), dist) != c.q((22400, 768), (62336, 1792)):
            raise CheckError("EngineGraph: %d edges, %d states" % (len(recs), dist))
        with open(c.edges, "w") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")


def closure(c, kinds, ops, need="", limit=40000):
    """explores the product of the model's state graph and the engines' own states until nothing new is found"""
    edges(c)
    out = c.path("closure.json")
    c.drive(["closure", "-universes", c.uni, "-in", c.edges, "-kinds", kinds, "-mode", ops, "-need", need, "-n", limit, "-budget", c.q(100, 300), "-out", out], timeout=880)
    r = json.load(open(out))
    c.extra["engine_states_explored"] = c.extra.get("engine_states_explored", 0) + r["States"]
    c.extra["engine_transitions_explored"] = c.extra.get("engine_transitions_explored", 0) + r["Transitions"]
    c.extra["searches_compared"] = c.extra.get("searches_compared", 0) + r["Searches"]
    c.traces += r["Transitions"]
    c.samples.append("all engine states reachable by {%s}: %d explorations complete, %d cut off, longest history %d; %s"
                     % (ops, r["Complete"], r["Cut"], r["Deepest"], (r["PerRun"] or [""])[c.seed % max(1, len(r["PerRun"] or []))]))
    f = r["Fail"]
    if f:
        raise Violation("history of EngineGraph on %s: starting with %s then %s: %s, the specification says %s"
                        % (f["Engine"], f["Init"], f["Walk"], f["Got"], f["Want"]), f)


def graph(c, kinds, ops, need="", depth=1, depth2=2):
    """replays all bounded walks of the model's state graph on the engines"""
    edges(c)
    out = c.path("graph.json")
    c.drive(["graph", "-universes", c.uni, "-in", c.edges, "-kinds", kinds, "-mode", ops, "-need", need,
             "-depth", depth, "-depth2", depth2, "-out", out], timeout=880)
    r = json.load(open(out))
    c.traces += r["Walks"]
    c.extra["graph_walks_replayed"] = c.extra.get("graph_walks_replayed", 0) + r["Walks"]
    c.extra["graph_steps_replayed"] = c.extra.get("graph_steps_replayed", 0) + r["Steps"]
    c.extra["searches_compared"] = c.extra.get("searches_compared", 0) + r["Searches"]
    c.samples.append("walks of %s over {%s}, depth %d from every state, %d from empty/full" % (kinds, ops, depth, depth2))
    f = r["Fail"]
    if f:
        raise Violation("walk of EngineGraph on %s: starting with %s then %s: %s, the specification says %s"
                        % (f["Engine"], f["Init"], f["Walk"], f["Got"], f["Want"]), f)


ASSUME = ["one subscriber per filter (two different report URIs for the same filter bits: known finding F1)",
          "the explorations are exhaustive in six (deep: eight) universes of six to eight patterns; the random runs sample larger sets"]


def start(c):
    c.assumptions = list(ASSUME)
    c.build()


def c01(c):
    start(c)
    f1(c)
    graph(c, BYTE, "search", depth=0, depth2=1)
    traces(c, "byte,static", c.q(600, 6000), ops=40, npats=14)
    traces(c, "byte,static", c.q(60, 600), ops=60, npats=60, seed=1)
    traces(c, "all,static", c.q(100, 1000), ops=60, npats=10, seed=2)
    traces(c, "byte,static", c.q(8, 120), ops=150, npats=1000, seed=20)


def f1(c):
    """known finding F1: a filter subscribed by two report URIs reports only one of them"""
    out = c.path("f1.json")
    c.drive(["f1", "-out", out])
    for r in json.load(open(out)):
        want = sorted(r["dests"])
        if r["uris"] == want:
            continue
        if len(r["uris"]) == 1 and r["uris"][0] in want and c.known("F1"):
            line = "KNOWN-FINDING: property=C01 F1 " + c.known("F1")
            if line not in c.findings:
                c.findings.append(line)
            continue
        raise Violation("one filter, two subscribers: %s reports %s" % (r["engine"], r["uris"]), r)


def c02(c):
    start(c)
    closure(c, ALL, "search")
    graph(c, ALL, "search", depth=3, depth2=c.q(4, 6))
    traces(c, "byte,static", c.q(120, 1200), ops=200, npats=10)
    traces(c, "splay,static", c.q(120, 1200), ops=200, npats=16, seed=1)
    traces(c, "legacy,static", c.q(40, 400), ops=100, npats=8, seed=2)
    traces(c, "splay,static", c.q(8, 80), ops=120, npats=500, seed=24)
    traces(c, "any,static,storm", c.q(32, 320), ops=60, npats=12, seed=25)


def c03(c):
    start(c)
    closure(c, ALL, "add,del,search", need="add")
    graph(c, ALL, "add,search,del", need="add", depth=1, depth2=c.q(2, 4))
    graph(c, ALL, "add", need="add", depth=2, depth2=c.q(3, 5))
    traces(c, "adddel,any", c.q(400, 4000), ops=50, npats=12)
    traces(c, "adddel,save,any", c.q(120, 1200), ops=50, npats=30, seed=1)
    traces(c, "adddel,any", c.q(8, 120), ops=60, npats=500, seed=21)
    traces(c, "adddel,any,storm", c.q(96, 800), ops=100, npats=12, seed=26)


def c04(c):
    start(c)
    closure(c, ALL, "add,del,search", need="del")
    graph(c, ALL, "add,search,del", need="del", depth=1, depth2=c.q(2, 4))
    graph(c, ALL, "del", need="del", depth=2, depth2=c.q(3, 5))
    traces(c, "adddel,any", c.q(400, 4000), ops=50, npats=12, seed=3)
    traces(c, "adddel,save,any", c.q(120, 1200), ops=50, npats=30, seed=4)
    traces(c, "adddel,any", c.q(8, 120), ops=60, npats=500, seed=22)
    traces(c, "adddel,any,storm", c.q(96, 800), ops=100, npats=12, seed=27)


def c05(c):
    start(c)
    closure(c, ALL, "add,del,save,search", need="save")
    graph(c, ALL, "add,del,save,search", need="save", depth=2, depth2=c.q(2, 3))
    traces(c, "adddel,save,any", c.q(400, 4000), ops=50, npats=12, seed=5)
    traces(c, "save,any,static", c.q(120, 1200), ops=40, npats=40, seed=6)
    traces(c, "save,any,static", c.q(8, 120), ops=60, npats=600, seed=23)
    traces(c, "adddel,save,any,storm", c.q(64, 500), ops=100, npats=12, seed=28)


def c06(c):
    start(c)
    closure(c, ALL, "junk,search")
    closure(c, ALL, "add,del,junk", need="junk")
    traces(c, "junk,any", c.q(300, 3000), ops=50, npats=12, seed=7)
    traces(c, "junk,adddel,save,any", c.q(300, 3000), ops=50, npats=12, seed=8)
    traces(c, "junk,adddel,bad,any", c.q(150, 1500), ops=40, npats=12, seed=9)
    traces(c, "junk,any,storm", c.q(32, 320), ops=60, npats=12, seed=29)


def c07(c):
    start(c)
    c.assumptions = ["patterns are spelled canonically (decimal fields with the digits of their partition)"]
    closure(c, "LegacyEngine", "add,del,save,search,junk")
    graph(c, "LegacyEngine", "add,del,save,search", depth=2, depth2=c.q(3, 4))
    traces(c, "legacy,static", c.q(400, 4000), ops=60, npats=12, seed=10)
    traces(c, "legacy,adddel,junk", c.q(200, 2000), ops=50, npats=10, seed=11)
    traces(c, "legacy,adddel,save", c.q(8, 80), ops=60, npats=300, seed=30)
    traces(c, "legacy,adddel,save,storm", c.q(32, 320), ops=80, npats=12, seed=31)


def c40(c):
    start(c)
    traces(c, "dump,adddel,save,any", c.q(600, 6000), ops=60, npats=12, seed=40)
    traces(c, "dump,splay,adddel,save", c.q(200, 2000), ops=60, npats=16, seed=41)
    traces(c, "dump,junk,bad,adddel,any", c.q(100, 1000), ops=50, npats=12, seed=42)
    traces(c, "dump,adddel,save,any", c.q(8, 120), ops=60, npats=500, seed=43)
    traces(c, "dump,adddel,save,any,storm", c.q(32, 320), ops=60, npats=12, seed=44)
    import subs
    subs.traces(c, "outline", c.q(200, 2000), seed=45)


def c17(c):
    start(c)
    traces(c, "mutate,adddel,all", c.q(200, 2000), ops=60, npats=8, seed=12)
    traces(c, "mutate,adddel,save,two", c.q(300, 3000), ops=50, npats=10, seed=13)
    traces(c, "mutate,adddel,save,any", c.q(8, 80), ops=60, npats=300, seed=32)


CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C17=c17, C40=c40)
