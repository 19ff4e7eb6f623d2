"""Shared machinery: building the drivers from /repo's working tree, running TLC, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, glob, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
T0 = time.time()


class MachineryError(Exception):
    """The check could not decide; exit 2, never a violation."""


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def goenv():
    e = dict(os.environ)
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], capture_output=True, text=True)
    if p.returncode == 0:
        for kv in p.stdout.split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                if k in ("HOME", "PATH", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOWORK", "GOPATH", "GOMODCACHE", "GOCACHE"):
                    e[k] = v
    for k in list(e):
        if k.startswith("BBBRECORDER_"):
            del e[k]
    return e


class Scratch:
    """A scratch directory outside /repo and /verif, removed at exit."""

    def __init__(self, name):
        self.dir = tempfile.mkdtemp(prefix=f"verif-{name}-", dir="/tmp")
        os.chmod(self.dir, 0o755)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)


def run(cmd, timeout, env=None, cwd=None, input=None):
    try:
        p = subprocess.run(cmd, capture_output=True, timeout=timeout, env=env, cwd=cwd, input=input)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf-8", "replace"), (e.stderr or b"").decode("utf-8", "replace")


def _modfile(scratch):
    """A copy of go.mod/go.sum, so that a build can never touch the repository's."""
    m = scratch.path("go.mod")
    shutil.copy(f"{REPO}/go.mod", m)
    shutil.copy(f"{REPO}/go.sum", scratch.path("go.sum"))
    return m


def _overlay(scratch, srcdir, virtual, suffix=""):
    rep = {}
    for src, virt, suf in ((srcdir, virtual, suffix), ("media", "verifmedia", "")):
        for f in sorted(glob.glob(os.path.join(VERIF, "harness", src, "*.go"))):
            b = os.path.basename(f)
            rep[f"{REPO}/internal/{virt}/{b[:-3] + suf if suf else b}"] = f
    o = scratch.path(f"overlay-{virtual}.json")
    json.dump({"Replace": rep}, open(o, "w"))
    return o


def build_unit(scratch, race=False):
    """The in-process driver, compiled into the recorder's module from /repo's working tree."""
    out = scratch.path("unit.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out, "-overlay", _overlay(scratch, "unit", "verifunit", "_test.go"),
           "-modfile", _modfile(scratch)]
    if race:
        cmd.append("-race")
    rc, so, se = run(cmd + ["./internal/verifunit"], 600, goenv(), REPO)
    if rc != 0:
        raise MachineryError(f"building the unit driver failed: {so[-2000:]} {se[-4000:]}")
    return out


def build_e2e(scratch):
    """The real recorder binary and the end-to-end harness."""
    rec, har = scratch.path("recorder-bin"), scratch.path("e2e")
    mod = _modfile(scratch)
    version = open(f"{REPO}/VERSION").read().strip().replace(" ", "-")
    ld = f"-X 'github.com/bigbluebutton/bbb-webrtc-recorder/internal.AppVersion=v{version}'"
    rc, so, se = run(["go", "build", "-o", rec, "-modfile", mod, "-ldflags", ld, "./cmd/bbb-webrtc-recorder"], 600, goenv(), REPO)
    if rc != 0:
        raise MachineryError(f"building the recorder failed: {se[-4000:]}")
    rc, so, se = run(["go", "build", "-o", har, "-overlay", _overlay(scratch, "e2e", "verife2e"), "-modfile", mod,
                      "./internal/verife2e"], 600, goenv(), REPO)
    if rc != 0:
        raise MachineryError(f"building the e2e harness failed: {se[-4000:]}")
    return rec, har


# ---- drivers ---------------------------------------------------------------------------------

def run_unit(scratch, binary, domain, n, schedules=(), args=None, timeout=240, seed=None, name=None, only=0):
    """Runs the in-process driver; returns the list of traces.  A crash or hang of the real code is reproduced on the
    scenario alone before it becomes part of that scenario's trace."""
    name = name or domain
    job = dict(domain=domain, seed=SEED if seed is None else seed, n=n, only=0, out=scratch.path(f"{name}.ndjson"),
               progress=scratch.path(f"{name}.progress"), dir=scratch.path(f"{name}.d"), tier=TIER,
               schedules=list(schedules), args=args or {})
    os.makedirs(job["dir"], exist_ok=True)

    def go(only, tmo):
        j = dict(job, only=only)
        if only:
            j["out"] += f".{only}"
            j["progress"] += f".{only}"
        jf = scratch.path(f"{name}.{only}.job")
        json.dump(j, open(jf, "w"))
        env = goenv()
        env["VERIF_JOB"] = jf
        rc, so, se = run([binary, "-test.run", "^TestVerif$", "-test.timeout", f"{int(tmo)}s", "-test.v"], tmo + 10, env, scratch.dir)
        prog = open(j["progress"]).read().split("\n") if os.path.exists(j["progress"]) else []
        done = "done" in prog
        last = max([int(x.split()[1]) for x in prog if x.startswith("begin ")] or [0])
        traces = []
        if os.path.exists(j["out"]):
            for l in open(j["out"]):
                if l.endswith("\n"):
                    try:
                        traces.append(json.loads(l))
                    except ValueError:
                        pass
        return rc, so + se, done, last, traces

    rc, text, done, last, traces = go(only, timeout)
    if done and rc == 0:
        return traces
    if not last:
        raise MachineryError(f"driver {domain} did not start: rc={rc} {text[-3000:]}")
    # the driver died or hung in scenario `last`: does it do so again, alone?
    rc1, text1, done1, _, tr1 = go(last, 60)
    rc2, text2, done2, _, tr2 = go(last, 60)
    if (done1 and rc1 == 0) or (done2 and rc2 == 0):
        raise MachineryError(f"driver {domain} ended with rc={rc} in scenario {last}, not reproducible: {text[-3000:]}")
    if not real_code_failure(text1):
        raise MachineryError(f"driver {domain} fails in scenario {last} outside the code under test: {text1[-3000:]}")
    got = [t for t in traces if t["id"] != last]
    part = next((t for t in tr1 + traces if t["id"] == last), None) or {"id": last, "src": "random", "cfg": {}, "ev": []}
    part["ev"].append({"op": "crash", "msg": summarize_crash(text1)})
    return got + [part]


def run_e2e(scratch, bins, domain, n, schedules=(), args=None, timeout=240, name=None, only=0, par=64, repeat=1):
    """Runs scenarios of a domain of the end-to-end harness; returns the list of traces."""
    name = name or domain
    tag = f"{name}.{only}"
    job = dict(domain=domain, seed=SEED, n=n, only=only, repeat=repeat, out=scratch.path(f"{tag}.e2e.ndjson"), dir=scratch.path(f"{tag}.e2e.d"),
               rec=bins["rec"], par=par, schedules=list(schedules), args=args or {})
    os.makedirs(job["dir"], exist_ok=True)
    if os.path.exists(job["out"]):
        os.remove(job["out"])
    jf = scratch.path(f"{tag}.e2e.job")
    json.dump(job, open(jf, "w"))
    rc, so, se = run([bins["e2e"], jf], timeout, goenv(), scratch.dir)
    if rc != 0:
        run(["pkill", "-KILL", "-f", bins["rec"]], 10)
        raise MachineryError(f"the end-to-end harness failed ({domain}): rc={rc} {(so + se)[-3000:]}")
    return [json.loads(l) for l in open(job["out"])]


def real_code_failure(text):
    """A Go panic, fatal error or deadlock whose stacks show the recorder's own code."""
    if not re.search(r"panic:|fatal error:|test timed out|deadlock", text):
        return False
    # the recorder's own code, or the file writer's goroutines, which only the recorder starts
    return re.search(re.escape(REPO) + r"/internal/(?!verif)|ebml-go@|json5@", text) is not None


def summarize_crash(text):
    m = re.search(r"(panic: [^\n]*|fatal error: [^\n]*)", text)
    w = re.search(re.escape(REPO) + r"/internal/(?!verif)[^\s]*:\d+", text)
    return f"{m.group(1) if m else 'died'} at {w.group(0) if w else '?'}"[:300]


# ---- TLC -------------------------------------------------------------------------------------

class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "")) or \
            re.search(r"(\d+) states generated (\d+) distinct states found", out.replace(",", ""))
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        if not m:
            m = re.search(r"generated (\d+) states", out.replace(",", "")) or re.search(r"The number of states generated: (\d+)", out.replace(",", ""))
            self.generated = int(m.group(1)) if m else 0
        self.ok = rc == 0
        m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated", out)
        self.violated = (m.group(1) or m.group(2) or "temporal") if m else None

    def last_state(self):
        """Text of the last state of the printed counterexample."""
        parts = re.split(r"\nState \d+:[^\n]*\n", self.out)
        return parts[-1].split("\n\n")[0] if len(parts) > 1 else ""

    def coverage(self):
        """action name -> states found by it (from -coverage output)."""
        cov = {}
        for m in re.finditer(r"<(\w+) line[^>]*>: (\d+):(\d+)", self.out):
            cov[m.group(1)] = max(cov.get(m.group(1), 0), int(m.group(3)))
        return cov


def tlc(scratch, module, cfg, timeout=300, workers=8, extra=(), env=None, heap="3g", jvm=()):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch.dir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-Djava.io.tmpdir=" + scratch.dir, *jvm, "-cp",
           tla_classpath(), "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noTE", "-cleanup",
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    rc, so, se = run(cmd, timeout, e, SPEC)
    if rc is None:
        raise MachineryError(f"TLC timed out on {module}: {so[-1500:]}")
    return Tlc(rc, so + se)


_CP = None


def tla_classpath():
    global _CP
    if _CP is None:
        jars = [j for j in glob.glob("/opt/veriftools/tla/*.jar")]
        jars.sort(key=lambda j: "tla2tools" not in j)
        if not jars:
            raise MachineryError("no TLA+ tools found")
        _CP = ":".join(jars)
    return _CP


def model_check(scratch, module, cfg, timeout=300, extra=(), workers=8, need=()):
    """Exhaustive check of the design.  A failure here is a failure of the specification, never a verdict on the code."""
    r = tlc(scratch, module, cfg, timeout, workers, ("-coverage", "1", "-deadlock") + tuple(extra))
    if not r.ok:
        raise MachineryError(f"the specification {module}/{cfg} does not check: {r.out[-3000:]}")
    cov = r.coverage()
    for a in need:
        if not cov.get(a):
            raise MachineryError(f"vacuous: action {a} of {module} is never taken: {cov}")
    return r


def weak_check(scratch, module, cfg, timeout=250):
    """A design with one safeguard left out: the specification must notice."""
    r = tlc(scratch, module, cfg, timeout, 2, ("-deadlock",))
    if r.ok or not r.violated:
        raise MachineryError(f"the specification does not notice the weakened design {module}/{cfg}: {r.out[-2000:]}")
    return r


def generate(scratch, module, cfg, num, depth, seed=None, timeout=120):
    """Behaviours of the specification (TLC simulation, or all of them if depth is 0), printed by the module as lines GEN:<json>."""
    r = tlc(scratch, module, cfg, timeout, 1, (("-simulate", f"num={num}", "-depth", str(depth), "-seed",
                                                str(SEED if seed is None else seed)) if depth else ()) + ("-deadlock",))
    out, seen = [], set()
    for m in re.finditer(r"GEN:(.*)", r.out):
        s = m.group(1).strip()
        if s.endswith('"'):
            s = s[:-1]
        s = s.replace('\\"', '"')
        if s not in seen:
            seen.add(s)
            out.append(json.loads(s))
    if not out:
        raise MachineryError(f"no behaviours generated from {module}: {r.out[-3000:]}")
    # TLC evaluates the printing invariant on every successor of the last step: keep num of them, spread over all
    k = max(1, len(out) // num)
    return out[::k]


def check_traces(scratch, module, cfg, traces, timeout=400, workers=8, tag="", heap="6g"):
    """Evaluates the guards of the specification along the recorded traces.
    Returns (tlc result, None) or (tlc result, dict(tid, l, viol, state))."""
    f = scratch.path(f"{module}{tag}.ndjson")
    with open(f, "w") as w:
        for t in traces:
            w.write(json.dumps(t) + "\n")
    r = tlc(scratch, module, cfg, timeout, workers, ("-deadlock",), env={"TRACE": f}, heap=heap)
    if r.ok:
        need = sum(len(t["ev"]) for t in traces)
        if r.generated < need:
            raise MachineryError(f"{module}: only {r.generated} states for {need} events")
        return r, None
    if not r.violated:
        raise MachineryError(f"TLC failed on {module}: {r.out[-4000:]}")
    st = r.last_state()
    tid = int(re.search(r"\btid = (\d+)", st).group(1))
    l = int(re.search(r"\bl = (\d+)", st).group(1))
    viol = re.search(r"viol = (\{[^\n]*)", st)
    return r, dict(tid=tid, l=l, viol=viol.group(1) if viol else "", state=st, invariant=r.violated)


# ---- verdicts --------------------------------------------------------------------------------

def write_replay(pid, data):
    d = os.path.join(VERIF, "out")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, f"{pid}-{SEED}-{TIER}.json")
    json.dump(data, open(f, "w"), indent=1)
    return f


def write_evidence(pid, level, coverage, assumptions=(), violations=0):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=coverage, assumptions=list(assumptions),
              wall_s=round(time.time() - T0, 2), violations=violations)
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        coverage = dict(coverage)
        coverage["samples"] = coverage.get("samples", [])[:1]
        ev["coverage"] = coverage
        s = json.dumps(ev, indent=1)
        if len(s) > 60000:
            coverage["samples"] = [json.dumps(coverage["samples"])[:8000]]
            s = json.dumps(ev, indent=1)
    open(os.path.join(d, f"{pid}.json"), "w").write(s)
