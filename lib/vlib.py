"""Shared machinery of the checks: building the driver, running TLC, evidence and verdicts."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class CheckError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    for kv in out.split(b"\0"):
        k, _, v = kv.decode(errors="replace").partition("=")
        if k.startswith("GO") or k in ("PATH", "CGO_ENABLED"):
            e[k] = v
    e["GOFLAGS"] = "-mod=mod"
    e["GOTRACEBACK"] = "all"
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vcheck-%s-" % prop)
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.extra = [], [], {}
        self.findings = []
        self.env = goenv()
        self.lock = threading.Lock()

    def path(self, name):
        return os.path.join(self.tmp, name)

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- driver ------------------------------------------------------------
    def build(self, what=".", out="vh", race=False, test=False, extra=()):
        """builds a command of the driver module against /repo's working tree"""
        src = self.path("harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            mod = open(os.path.join(src, "go.mod")).read().replace("=> /repo", "=> " + REPO)
            open(os.path.join(src, "go.mod"), "w").write(mod)
        # with the tag "link" the driver calls functions of gosstrak by their private names; where these are gone it does without
        for tags in (["-tags", "link"], []):
            cmd = ["go"] + (["test", "-c"] if test else ["build"]) + (["-race"] if race else []) + tags + list(extra) + ["-o", self.path(out), what]
            r = subprocess.run(cmd, cwd=src, env=self.env, capture_output=True, text=True, timeout=600)
            if r.returncode == 0:
                self.linked = bool(tags)
                break
        if r.returncode != 0:
            raise CheckError("cannot build the driver:\n" + r.stderr[-4000:])
        return self.path(out)

    def build_repo(self, pkg, out):
        """builds a command of /repo itself"""
        r = subprocess.run(["go", "build", "-o", self.path(out), pkg], cwd=REPO, env=self.env, capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise CheckError("cannot build %s:\n%s" % (pkg, r.stderr[-4000:]))
        return self.path(out)

    def drive(self, args, timeout=600, mem=14 << 30, env=None):
        """runs the driver; a crash inside gosstrak that happens twice is a violation"""
        for attempt in (1, 2):
            e = dict(self.env)
            e.update(env or {})
            try:
                r = subprocess.run([self.path("vh")] + [str(a) for a in args], cwd=self.tmp, env=e, capture_output=True, text=True,
                                   timeout=timeout, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem)))
            except subprocess.TimeoutExpired:
                raise CheckError("the driver timed out: %s" % args)
            if r.returncode == 0:
                return r.stdout
            crash = re.search(r"^(panic:|fatal error:|runtime: goroutine stack exceeds).*", r.stderr, re.M)
            if not crash or "gosstrak/" not in r.stderr:
                raise CheckError("the driver failed (%s): %s\n%s" % (r.returncode, args, r.stderr[-3000:]))
        raise Violation("the process dies: " + crash.group(0), dict(cmd=[str(a) for a in args], stderr=r.stderr[:6000]))

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=800, heap="3g", args=()):
        """runs TLC on a module of /verif/spec; returns (printed records, distinct states, generated states, output)"""
        meta = tempfile.mkdtemp(prefix="meta", dir=self.tmp)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-metadir", meta,
               "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if r.returncode != 0 or "Error:" in out or not m:
            i = out.find("Error:")
            raise CheckError("TLC failed on %s (%d): %s" % (module, r.returncode, out[i if i >= 0 else -3000:][:3000] + r.stderr[-500:]))
        recs = []
        for l in out.splitlines():
            if l.startswith('"@@'):
                recs.append(json.loads(json.loads(l)[2:]))
        gen, dist = int(m[-1][0]), int(m[-1][1])
        with self.lock:
            self.states += dist
            self.transitions += gen
        return recs, dist, gen, out

    def validate(self, traces, module="EngineTrace", cfg=None, what="run", env=None, heap="3g"):
        """validates recorded traces with a trace specification; raises Violation on a rejection"""
        traces = [t for t in traces if t]
        if not traces:
            raise CheckError("no traces recorded")
        k = min(NCPU, len(traces))
        # balance by length
        order = sorted(range(len(traces)), key=lambda i: -len(traces[i]))
        shards, load = [[] for _ in range(k)], [0] * k
        for i in order:
            j = load.index(min(load))
            shards[j].append(i)
            load[j] += len(traces[i])
        def go(j):
            fn = self.path("shard-%s-%d.json" % (module, j))
            with open(fn, "w") as f:
                json.dump([traces[i] for i in shards[j]], f)
            ev = dict(env or {})
            ev["TRACE"] = fn
            recs, dist, gen, out = self.tlc(module, cfg, ev, heap=heap)
            rej = [(shards[j][r["t"] - 1], r["i"], r.get("want", "")) for r in recs]
            want = sum(len(traces[i]) + 1 for i in shards[j]) - sum(len(traces[t]) - i for t, i, _ in rej)
            if dist != want:
                raise CheckError("%s: %d states, %d expected (a trace is stuck)\n%s" % (module, dist, want, out[-2000:]))
            return rej
        with ThreadPoolExecutor(k) as ex:
            rejs = [x for r in ex.map(go, range(k)) for x in r]
        self.traces += len(traces) - len(rejs)
        if len(self.samples) < 6:
            t = traces[self.seed % len(traces)]
            self.samples.append(json.dumps(t[:3] + t[-2:] if len(t) > 5 else t)[:1500])
        if rejs:
            t, i, want = min(rejs, key=lambda x: x[1])
            ev = traces[t][i - 1]
            raise Violation("%s %d is not a behaviour of %s: step %d is %s, the specification says %s (%d of %d rejected)"
                            % (what, t, module, i, json.dumps(ev)[:700], str(want)[:700], len(rejs), len(traces)),
                            dict(spec=module, step=i, event=ev, specification=want, trace=traces[t][:i]))
        return len(traces)

    # -- verdicts ----------------------------------------------------------
    def finish(self, viol=None):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:8] or ["none"])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=1 if viol else 0)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for l in self.findings:
            print(l)
        if viol:
            rp = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
            with open(rp, "w") as f:
                json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, what=viol.what, replay=viol.replay), f, indent=1)
            print(viol.what[:2000])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        else:
            print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))

    def known(self, fid):
        """the text of a listed known finding"""
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == self.prop and m.group(2) == fid:
                return m.group(3)
        return None


def main(checks):
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--quick" in sys.argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = Check(prop, tier, seed)
    code = 0
    try:
        try:
            checks[prop](c)
            c.finish()
        except Violation as v:
            c.finish(v)
            code = 1
    except CheckError as e:
        print("CHECK ERROR property=%s: %s" % (prop, e))
        code = 2
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", c.tmp)
        else:
            shutil.rmtree(c.tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)
