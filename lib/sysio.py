"""Checks of the statistics manager (C30), the reader session (C32), the whole middleware (C33) and the tag-list tool (C34)."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import Violation, CheckError, NCPU


def process(c, args, out, timeout, deadtrace):
    """runs the driver once; the process under test may die: that ends the recording"""
    last = None
    for attempt in (1, 2, 3):
        if os.path.exists(out):
            os.remove(out)
        try:
            r = subprocess.run([c.path("vh")] + [str(a) for a in args] + ["-out", out], cwd=c.tmp, env=c.env, capture_output=True, text=True, timeout=timeout)
            rc, text = r.returncode, r.stderr + r.stdout
        except subprocess.TimeoutExpired:
            rc, text = -9, "no end within %d s" % timeout
        if rc == 0 and os.path.exists(out):
            t = json.load(open(out))
            os.remove(out)
            return t
        if last == rc:
            break
        last = rc
    return deadtrace + [dict(op="died", t=0, exit=rc, text=text[-4000:], args=[str(a) for a in args])]


def stat_runs(c, mode, n, ops, seed):
    def one(k):
        if c.extra.get("deaths", 0) >= 4:
            return None
        t = process(c, ["stat", "-mode", mode, "-ops", ops, "-seed", (c.seed * 1009 + seed) * 100000 + k], c.path("stat-%d.json" % k), 40,
                    [dict(op="start", db="", user="", **{"pass": ""}, t=0)])
        if t[-1]["op"] == "died":
            c.extra["deaths"] = c.extra.get("deaths", 0) + 1
        return t
    with ThreadPoolExecutor(NCPU) as ex:
        traces = list(ex.map(one, range(n)))
    c.validate([t for t in traces if t], module="StatTrace", what="run (%s)" % mode)


def c30(c):
    c.build()
    stat_runs(c, "", c.q(120, 2000), 60, 1)
    stat_runs(c, "concurrent", c.q(80, 1500), 60, 2)
    stat_runs(c, "concurrent", c.q(4, 40), 1500, 3)
    stat_runs(c, "patient,concurrent", c.q(8, 64), 20, 4)


def fc_runs(c, mode, n, seed):
    """runs of the middleware itself; a rejected run counts if it is rejected again when repeated"""
    def batch(k0, n):
        out = c.path("fc.json")
        c.drive(["fc", "-n", n, "-in", c.path("gosstrak-fc"), "-width", 24, "-mode", mode, "-seed", c.seed * 131 + seed + k0, "-out", out], timeout=860)
        return json.load(open(out))
    env = dict(STAT="1" if mode == "stat" else "0")
    done = 0
    while done < n:
        k = min(n - done, 240)
        for attempt in (1, 2):
            try:
                c.validate(batch(done, k), module="MiddlewareTrace", what="run of gosstrak-fc (%s)" % (mode or "session"), env=env)
                break
            except Violation as v:
                # something missing: the machine may have been too busy for the waiting times of the driver, so once more
                if attempt == 2 or v.replay["event"]["op"] not in ("end", "stuck"):
                    raise
                c.extra["repeated_runs"] = c.extra.get("repeated_runs", 0) + 1
        done += k


def c32(c):
    c.build()
    c.build_repo("./cmd/gosstrak-fc", "gosstrak-fc")
    fc_runs(c, "", c.q(96, 1500), 1)


def c33(c):
    c.build()
    c.build_repo("./cmd/gosstrak-fc", "gosstrak-fc")
    fc_runs(c, "stat", c.q(48, 720), 5)


def c34(c):
    c.build()
    c.build_repo("./cmd/gobtags", "gobtags")
    for mode, n in (("", c.q(240, 3000)), ("big", c.q(4, 60))):
        out = c.path("tags.json")
        c.drive(["tags", "-n", n, "-in", c.path("gobtags"), "-mode", mode, "-seed", c.seed * 211 + len(mode), "-out", out], timeout=860)
        c.validate(json.load(open(out)), module="TagFileTrace", what="conversion (%s)" % mode)


def c36(c):
    c.build()
    c.build_repo("./scheme/sixenc2bin", "sixenc2bin")
    out = c.path("six.json")
    c.drive(["six", "-n", c.q(9, 200), "-ops", 100, "-in", c.path("sixenc2bin"), "-seed", 0, "-out", out], timeout=860)
    c.validate(json.load(open(out)), module="SixEncTrace", what="encodings")
    c.drive(["six", "-n", c.q(8, 200), "-ops", 100, "-in", c.path("sixenc2bin"), "-seed", c.seed * 223 + 1, "-out", out], timeout=860)
    c.validate(json.load(open(out)), module="SixEncTrace", what="encodings")


def c37(c):
    c.build()
    c.build_repo("./cmd/ale-ec", "ale-ec")
    done, n = 0, c.q(96, 1500)
    while done < n:
        out = c.path("mirror.json")
        c.drive(["mirror", "-n", 96, "-width", 24, "-in", c.path("ale-ec"), "-seed", c.seed * 227 + done, "-out", out], timeout=860)
        c.validate(json.load(open(out)), module="MirrorTrace", what="run of ale-ec")
        done += 96


def c38(c):
    c.build()
    c.build_repo("./cmd/gosstrak-fc", "gosstrak-fc")
    subs = c.path("ecspec.csv")
    open(subs, "w").write("http://a.example/,urn:epc:pat:sgtin-96:3.0614141,urn:epc:pat:iso17365:25S.UN\nhttp://b.example/,urn:epc:pat:sgtin-96:3.0614141.812345\n")
    done, n = 0, c.q(72, 900)
    while done < n:
        out = c.path("mirror.json")
        c.drive(["mirror", "-n", 72, "-width", 24, "-in", c.path("gosstrak-fc"), "-mode", subs, "-seed", c.seed * 229 + done, "-out", out], timeout=860)
        c.validate(json.load(open(out)), module="MirrorTrace", what="run of gosstrak-fc")
        done += 72


CHECKS = dict(C38=c38, C36=c36, C37=c37, C30=c30, C32=c32, C33=c33, C34=c34)
