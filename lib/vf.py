"""Runs the specification (TLC) and the real library (the Go driver), and compares them.

Verdicts come from the real library only: TLC judges what the driver recorded.
Anything that keeps a check from its verdict (a build that fails, TLC stopping
early) raises Trouble, and the check exits with neither 0 nor 1.
"""
import json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = dict(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off",
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), GOMODCACHE="/root/go/pkg/mod", GOPATH="/root/go", HOME="/root")


class Trouble(Exception):
    pass


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.generated = 0
        self.traces = self.events = self.noise = 0
        self.violations, self.samples, self.notes, self.steps = [], [], [], []
        self.extra = {}
        self.kind = {}
        self.drv = {}
        self.count_, self.lock = 0, threading.Lock()
        self.procs, self.threads, self.failed = set(), [], []
        self.room = threading.Semaphore(2 if self.quick else 1)     # for what runs in the background

    quick = property(lambda self: self.tier != "thorough")

    def say(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def number(self):
        with self.lock:
            self.count_ += 1
            return self.count_

    def together(self, jobs, most=4):
        """Runs functions at the same time; returns what they return."""
        res, room = [None] * len(jobs), threading.Semaphore(most)

        def one(k):
            with room:
                try:
                    res[k] = (jobs[k](), None)
                except BaseException as e:
                    res[k] = (None, e)
        ts = [threading.Thread(target=one, args=(k,)) for k in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for _, e in res:
            if e:
                raise e
        return [r for r, _ in res]

    def later(self, job):
        """Runs a function in the background; join() waits for it."""
        def one():
            with self.room:
                try:
                    if not self.closed:
                        job()
                except BaseException as e:
                    self.failed.append(e)
        t = threading.Thread(target=one)
        self.threads.append(t)
        t.start()

    def join(self):
        for t in self.threads:
            t.join()
        if self.failed:
            raise self.failed[0]

    closed = False

    def close(self):
        self.closed = True
        for p in list(self.procs):
            p.kill()
        for t in self.threads:
            t.join()
        shutil.rmtree(self.work, ignore_errors=True)

    # -- the specification --

    def tlc(self, name, module=None, cfg=None, simulate=None, depth=None, workers=8, env=None, timeout=600, count=True,
            heap="6g", expect_ok=True, n=None):
        """Runs TLC on spec/<name>.tla, or on the module text given; returns the values printed as JSON."""
        n = n or self.number()
        d = os.path.join(self.work, "tlc-%s-%d" % (name, n))
        os.makedirs(d)
        if module is not None:
            open(os.path.join(d, name + ".tla"), "w").write(module)
        if cfg is None:
            cfg = open(os.path.join(SPEC, name + ".cfg")).read()
        open(os.path.join(d, name + ".cfg"), "w").write(cfg)
        tla = os.path.join(d, name + ".tla") if module is not None else os.path.join(SPEC, name + ".tla")
        cmd = ["java", "-XX:+UseParallelGC"] + (["-XX:TieredStopAtLevel=1"] if self.quick and name in ("Trace", "MCCover", "MCLaws") else []) + ["-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-workers", str(workers),
               "-config", os.path.join(d, name + ".cfg")]
        if simulate:
            cmd += ["-seed", str(self.seed * 7919 + n), "-simulate", "num=%d" % simulate, "-depth", str(depth or 200)]
        cmd.append(tla)
        e = dict(os.environ, **(env or {}))
        out = os.path.join(d, "out")
        t = time.time()
        with open(out, "w") as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=d)
            self.procs.add(p)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill(), p.wait()
                rc = -9
            finally:
                self.procs.discard(p)
        printed, gen, distinct = [], 0, 0
        with open(out) as f:
            for line in f:
                if line.startswith('"{'):
                    printed.append(json.loads(json.loads(line)))
                else:
                    m = re.match(r"([\d,]+) states generated.*?([\d,]+) distinct states found", line)
                    if m:
                        gen, distinct = (int(x.replace(",", "")) for x in m.groups())
                    m = re.match(r"The number of states generated: ([\d,]+)", line)
                    if m:
                        gen = distinct = int(m.group(1).replace(",", ""))
        with self.lock:
            if count:
                self.states += distinct
                self.transitions += gen
        self.steps.append("%s: rc %d, %d states, %d printed, %.1f s" % (name, rc, distinct, len(printed), time.time() - t))
        self.say("TLC", self.steps[-1])
        if expect_ok and rc != 0:
            text = open(out).read()
            i = text.find("Error:")
            raise Trouble("TLC %s ended with %d:\n%s" % (name, rc, text[max(0, i - 200):i + 1500] if i >= 0 else text[-1500:]))
        shutil.rmtree(d, ignore_errors=True)
        return printed

    # -- the real library --

    def build(self, race=False, cover=False):
        kind = "cover" if cover else race
        if kind in self.drv:
            return self.drv[kind]
        d = os.path.join(self.work, "driver")
        if not os.path.isdir(d):
            shutil.copytree(os.path.join(VERIF, "driver"), d)
        out = os.path.join(self.work, "drv-cover" if cover else "drv-race" if race else "drv")
        cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + (["-cover", "-coverpkg=github.com/ProtonMail/go-rfc5322"] if cover else []) + ["."]
        e = dict(os.environ, **GOENV, CGO_ENABLED="1" if race else "0")
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=700)
        if p.returncode != 0:
            raise Trouble("the driver does not build:\n" + (p.stdout + p.stderr)[-2000:])
        self.drv[kind] = out
        self.say("driver built", "(race)" if race else "(cover)" if cover else "")
        return out

    def mine(self):
        """The constants in the library's source: those that were there before, and the new ones."""
        o = os.path.join(self.work, "mined.json")
        e = dict(os.environ, **GOENV, DRV_MINE=REPO, DRV_OUT=o)
        p = subprocess.run([self.build()], env=e, cwd=self.work, capture_output=True, text=True, timeout=100)
        if p.returncode != 0:
            raise Trouble("mining failed:\n" + (p.stdout + p.stderr)[-1000:])
        d = json.load(open(o))
        known = json.load(open(os.path.join(VERIF, "lib", "known_constants.json")))
        return known, {k: [x for x in d[k] if x not in known[k]] for k in d}

    def drive(self, scripts, budget=0, race=False, procs=8, maxprocs=2, limit=60, cover=False, environ=()):
        """Executes scripts on the real library; returns them with what it did."""
        drv = self.build(race, cover)
        n = self.number()
        i, o = (os.path.join(self.work, "%s-%d.json" % (x, n)) for x in ("in", "out"))
        json.dump(scripts, open(i, "w"))
        e = dict(os.environ, **GOENV, DRV_IN=i, DRV_OUT=o, DRV_PROCS=str(procs), DRV_MAXPROCS=str(maxprocs),
                 DRV_BUDGET=str(budget), DRV_LIMIT=str(limit), DRV_TMP=self.work,
                 DRV_ENV="\n".join(environ), GORACE="halt_on_error=1 exitcode=66")
        t = time.time()
        p = subprocess.run([drv, "-test.timeout=0"], env=e, cwd=self.work, capture_output=True, text=True, timeout=850)
        if p.returncode != 0 or not os.path.exists(o):
            raise Trouble("the driver failed: rc %d\n%s" % (p.returncode, (p.stdout + p.stderr)[-2000:]))
        res = json.load(open(o))
        res.sort(key=lambda s: s["n"])
        os.remove(i), os.remove(o)
        self.steps.append("real library: %d of %d scripts, %.1f s" % (len(res), len(scripts), time.time() - t))
        self.say(self.steps[-1])
        if scripts and not res:
            raise Trouble("the driver answered nothing")
        return res

    # -- the comparison --

    def judge(self, results, what, timeout=700):
        """TLC checks the recorded histories against the specification."""
        hist = [s for s in results if s["ops"]]
        if not hist:
            return
        f = os.path.join(self.work, "trace-%d.json" % self.number())
        keep = ("e", "id", "goal", "text", "r", "want", "reader", "year", "objs", "room")
        json.dump([[{k: o[k] for k in keep if k in o} for o in s["ops"]] for s in hist], open(f, "w"))
        rejects = self.tlc("Trace", env=dict(TRACE=f), timeout=timeout)
        os.remove(f)
        self.traces += len(hist)
        self.events += sum(len(s["ops"]) for s in hist)
        off = [r for r in rejects if "stdoff" in r]
        if off:     # module Std does not write as this version of Go does: its laws are of no use for that text
            self.extra["texts that the standard library writes differently than module Std"] = self.extra.get("texts that the standard library writes differently than module Std", 0) + len(off)
            self.say("module Std differs: %s" % off[0])
        for r in rejects:
            if "stdoff" in r:
                continue
            h, l = r["reject"]["h"], r["reject"]["l"]
            s = hist[h - 1]
            op = s["ops"][l - 1]
            self.violation(what, op, r["expected"], s["ops"][:l])
        for s in hist:
            if s.get("noise"):
                self.noise += 1
                self.extra.setdefault("noise", s["noise"][:200])

    def violation(self, what, op, expected, history):
        self.violations.append(dict(what=what, event=op, expected=expected, history=history))

    def elapsed(self):
        return time.time() - self.t0

    def fresh(self):
        """The violations that are no known findings."""
        known = {k["text"] for k in load_known(self.prop)}
        return [v for v in self.violations if text_of(v["event"]) not in known]

    def finish(self, level="model_checking", assumptions=(), exhaustive=None):
        wall = time.time() - self.t0
        known = load_known(self.prop)
        fresh = []
        for v in self.violations:
            k = next((k for k in known if k["text"] == text_of(v["event"])), None)
            if k:
                if not k.get("said"):
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                    k["said"] = True
            else:
                fresh.append(v)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated_against_impl=self.events, samples=self.samples[:8], steps=self.steps)
        cov.update(self.extra)
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        ev = dict(property=self.prop, tier="quick" if self.quick else "thorough", seed=self.seed, level=level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(wall, 1), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        if fresh:
            path = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
            json.dump(dict(property=self.prop, seed=self.seed, violations=fresh[:20], total=len(fresh)), open(path, "w"), indent=1)
            for v in fresh[:3]:
                print("  %s" % describe(v))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s: %d histories (%d calls) of the real library validated, %d states, %.0f s"
              % (self.prop, self.traces, self.events, self.states, wall))
        return 0


def text_of(op):
    return "".join(chr(c) for c in op.get("text") or [])


def show(r):
    if isinstance(r, str):
        return r
    if isinstance(r, dict) and isinstance(r.get("v"), list):
        try:
            return "[" + ", ".join("%r <%r>" % (bytes(a).decode("utf-8", "replace"), bytes(b).decode("utf-8", "replace")) for a, b in r["v"]) + "]"
        except Exception:
            pass
    return json.dumps(r)


def describe(v):
    op = v["event"]
    s = "%s: %s %s\n      returned %s\n      expected %s" % (v["what"], op["e"], ascii(text_of(op)), show(op.get("r")),
                                                              show(v["expected"]) if v["expected"] != {"ok": False} else "an error")
    return s[:1500]


def load_known(prop):
    """known_findings.txt: lines 'finding: property=C01 text=<json string> <what>' and 'fixed: ...' (which suppress nothing)."""
    res = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) text=(\"(?:[^\"\\]|\\.)*\") (.*)", line)
            if m and m.group(1) == prop:
                res.append(dict(text=json.loads(m.group(2)), what=m.group(3)))
    return res


# -- scripts --

def cps(s):
    return [ord(c) for c in s]


def call(goal, text, **kw):
    return dict(e="call", goal=goal, text=text if isinstance(text, list) else cps(text), **kw)


def pack(cases, per=6):
    """Scripts of a few calls each.  A case is [goal, text, reader, year, want]; year 0 is the real clock."""
    groups, scripts = {}, []
    for c in cases:
        groups.setdefault((c.get("reader", "none"), c.get("year", 0)), []).append(c)
    for (reader, year), cs in groups.items():
        for i in range(0, len(cs), per):
            ops = []
            if reader != "none":
                ops.append(dict(e="reader", reader=reader))
            if year:
                ops.append(dict(e="year", date="%04d-07-01T12:00:00Z" % year))
            for c in cs[i:i + per]:
                o = call(c["goal"], c["text"])
                if "want" in c:
                    o.update(e="intended", want=c["want"])
                ops.append(o)
            scripts.append(dict(ops=ops, clock=bool(year)))
    return scripts
