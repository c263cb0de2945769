"""Shared machinery of the checks: build, run the harness, run TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ANT_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
NPROC = 8

class CheckError(Exception):
    pass

def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOSUMDB="off", GOWORK="off")
    for k in ("HEADLESS_SHELL", "HEADLESS_DEBUG"):
        e.pop(k, None)
    return e

def sh(cmd, timeout=600, cwd=None, env=None, ok=(0,)):
    p = subprocess.run(cmd, cwd=cwd, env=env or goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    if ok is not None and p.returncode not in ok:
        raise CheckError("%s\nexit %d\n%s" % (" ".join(cmd), p.returncode, p.stdout[-6000:]))
    return p

class Work:
    """A scratch directory, removed at the end."""
    def __init__(self, tag):
        base = os.environ.get("TMPDIR", "/tmp")
        self.dir = tempfile.mkdtemp(prefix="antv-%s-" % tag, dir=base)
        self.n = 0
    def path(self, *a):
        return os.path.join(self.dir, *a)
    def fresh(self, tag):
        self.n += 1
        p = self.path("%s%d" % (tag, self.n))
        os.makedirs(p)
        return p
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def build(work, pkg="h", os_dirs="", instrument=True):
    """Build the harness against the working tree of REPO; returns the binary
    and how it was built."""
    out = work.fresh("build")
    binary = os.path.join(out, "h.test")
    modargs = []
    harn = HARN
    if REPO != "/repo":
        # development only: build against a scratch copy
        mod = open(os.path.join(HARN, "go.mod")).read().replace("=> /repo", "=> " + REPO)
        mf = os.path.join(out, "go.mod")
        open(mf, "w").write(mod)
        shutil.copy(os.path.join(HARN, "go.sum"), os.path.join(out, "go.sum"))
        modargs = ["-modfile=" + mf]
    else:
        # keep go from touching the committed go.mod and go.sum
        mf = os.path.join(out, "go.mod")
        shutil.copy(os.path.join(HARN, "go.mod"), mf)
        shutil.copy(os.path.join(HARN, "go.sum"), os.path.join(out, "go.sum"))
        modargs = ["-modfile=" + mf]
    if instrument:
        for dirs, how in ((os_dirs, "instrumented"), ("", "instrumented, without file operations"))[:2 if os_dirs else 1]:
            ins = os.path.join(out, "instr" + str(len(dirs)))
            os.makedirs(ins)
            try:
                sh(["go", "run"] + modargs + ["./cmd/instr", "-root", REPO, "-out", ins, "-os", dirs], cwd=harn)
                sh(["go", "test", "-c", "-vet=off"] + modargs + ["-overlay", os.path.join(ins, "overlay.json"), "-o", binary, "./" + pkg], cwd=harn)
                return binary, how
            except CheckError:
                pass
        how = "plain (instrumentation failed)"
    else:
        how = "plain"
    sh(["go", "test", "-c", "-vet=off"] + modargs + ["-o", binary, "./" + pkg], cwd=harn)
    return binary, how

def culprit(out, m):
    """Whether the crash is in the code under test: its frame comes before
    any of the harness."""
    for ln in out[m.end():].splitlines():
        if ln.startswith("\t") or "antverif/yield." in ln or "antverif/sched." in ln:
            continue
        if "yields/ant" in ln and "(" in ln:
            return True
        if "antverif/" in ln:
            return False
    return False

def shard(binary, work, scn, opt, seed, runs, k, nproc, maxsec, extra=()):
    """Run shard k of nproc; returns (trace file, runs, abandoned runs, crashes).
    A crash is a panic or fatal error with the code under test on the stack."""
    d = work.fresh("shard")
    out = os.path.join(d, "trace.ndjson")
    open(out, "w").close()
    frm, left, lost, done, crashes = k, runs, [], 0, []
    t0 = time.time()
    while left > 0 and time.time() - t0 < maxsec and len(lost) < 40:
        sec = max(1, maxsec - (time.time() - t0))
        cmd = [binary, "-test.run", "TestScenario", "-test.timeout", "0", "-scn", scn, "-opt", opt, "-seed", str(seed),
               "-from", str(frm), "-step", str(nproc), "-runs", str(left), "-o", out, "-app", "-maxsec", str(sec), "-dir", d] + list(extra)
        try:
            p = subprocess.run(cmd, cwd=d, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=sec + 120, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("harness timed out: " + " ".join(cmd))
        m = re.search(r"ABANDONED run=(\d+)", p.stdout)
        if m:
            r = int(m.group(1))
            lost.append(r)
            n = (r - frm) // nproc + 1
            left -= n
            done += n
            frm = r + nproc
            continue
        m = re.search(r"^(panic|fatal error): (.*)", p.stderr + p.stdout, re.M)
        if m and p.returncode == 2 and "yields/ant" in p.stderr + p.stdout and (culprit(p.stderr + p.stdout, m) or "concurrent map" in m.group(2)):
            ours = not culprit(p.stderr + p.stdout, m)
            try:
                r = int(open(os.path.join(d, "cur")).read().split()[-1])
            except (OSError, IndexError):
                raise CheckError("harness crashed: %s\n%s" % (" ".join(cmd), p.stderr[-6000:]))
            if not ours:
                crashes.append((r, m.group(0), (p.stderr + p.stdout)[-5000:]))
            lost.append(r)
            n = (r - frm) // nproc + 1
            left -= n
            done += n
            frm = r + nproc
            continue
        m = re.search(r"RUNS (\d+)", p.stdout)
        if m and p.returncode == 0:
            done += int(m.group(1))
            break
        raise CheckError("harness failed: %s\nexit %d\n%s\n%s" % (" ".join(cmd), p.returncode, p.stdout[-3000:], p.stderr[-6000:]))
    return out, done, lost, crashes

def harness(binary, work, jobs, nproc=NPROC, maxsec=60, extra=()):
    """jobs: list of (scn, opt, seed, runs). Returns list of (scn,opt,seed,file,done,lost,crashes)."""
    tasks = []
    with cf.ThreadPoolExecutor(nproc) as ex:
        for scn, opt, seed, runs in jobs:
            n = min(nproc, max(1, runs))
            per = (runs + n - 1) // n
            for k in range(n):
                tasks.append((scn, opt, seed, ex.submit(shard, binary, work, scn, opt, seed, per, k, n, maxsec, extra)))
        return [(s, o, sd) + f.result() for s, o, sd, f in tasks]

TLCJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

def tlc(work, module, cfg=None, env=None, workers=1, timeout=600, args=(), heap="3g", deadlock=None):
    d = work.fresh("tlc")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-cp", TLCJAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", d, "-noGenerateSpecTE", "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out: %s" % module)
    finally:
        pass
    shutil.rmtree(d, ignore_errors=True)
    return p

def states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def validate(work, module, files, cfg=None, timeout=800, nproc=NPROC, consts=None):
    """Check recorded traces against a trace module. Returns (violations, events)."""
    def one(f):
        n = sum(1 for _ in open(f))
        if n == 0:
            return [], 0
        p = tlc(work, module, cfg, env={"TRACE": f}, timeout=timeout)
        if "Model checking completed. No error has been found." not in p.stdout:
            raise CheckError("TLC could not evaluate the trace %s\n%s" % (f, p.stdout[-5000:]))
        g, _ = states(p.stdout)
        if g != n + 1:
            raise CheckError("TLC consumed %d of %d events\n%s" % (g - 1, n, p.stdout[-3000:]))
        vs = []
        for line in p.stdout.splitlines():
            line = line.strip()
            if line.startswith('"VIOL '):
                js = json.loads(json.loads(line)[5:])
                for pid, msg in js["v"]:
                    vs.append(dict(run=js["run"], line=js["l"], prop=pid, msg=msg, file=f))
        return vs, n
    vs, n = [], 0
    with cf.ThreadPoolExecutor(nproc) as ex:
        for a, b in ex.map(one, files):
            vs += a
            n += b
    return vs, n

def design(work, module, cfg=None, workers=4, timeout=600, args=(), heap="6g", soft=False):
    """Exhaustive TLC check of a design model; must pass. It does not depend on
    the code, so on a slow machine (soft) the rest of a check goes on without it."""
    try:
        p = tlc(work, module, cfg, workers=workers, timeout=timeout, args=args, heap=heap)
    except CheckError:
        if not soft:
            raise
        return dict(model=cfg or module, states=0, transitions=0, note="not completed in %d s" % timeout)
    if "Model checking completed. No error has been found." not in p.stdout:
        raise CheckError("design model %s (%s) does not check\n%s" % (module, cfg, p.stdout[-6000:]))
    g, d = states(p.stdout)
    return dict(model=cfg or module, states=d, transitions=g)

def generate(work, module, cfg, timeout=900):
    """Lets TLC enumerate cases (lines "CASE <json>") of a model; returns the
    file of JSON lines and their number."""
    p = tlc(work, module, cfg, workers=3, timeout=timeout, heap="6g")
    if "Model checking completed. No error has been found." not in p.stdout:
        raise CheckError("case generation %s (%s) failed\n%s" % (module, cfg, p.stdout[-4000:]))
    cases = set()
    for line in p.stdout.splitlines():
        line = line.strip()
        if line.startswith('"CASE '):
            cases.add(json.loads(line)[5:])
    if not cases:
        raise CheckError("no cases generated by %s" % module)
    f = work.path("cases-%s.ndjson" % cfg)
    with open(f, "w") as o:
        for c in sorted(cases):
            o.write(c + "\n")
    return f, len(cases)

def run_events(f, run, line=None):
    """The events of the run in trace file f that contains the given line."""
    out = []
    for i, ln in enumerate(open(f), 1):
        e = json.loads(ln)
        if e["e"] == "begin":
            if line is not None and i > line:
                break
            out = []
        out.append(e)
    return out
