"""Harness shared by all checks: scratch space, TLC, forked execution of the
program under test, verdicts and evidence.

Exit codes: 0 held, 1 violation(s) reported, anything else machinery failure.
"""
import atexit, contextlib, json, os, pickle, re, select, shutil, signal, subprocess, sys, tempfile, time, traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
SPEC = ROOT / "spec"
REPO = Path(os.environ.get("VF_REPO", "/repo"))   # (another tree only during development)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NPROC = min(8, os.cpu_count() or 4)

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True


class Machinery(Exception):
    """The check itself could not do its work."""


_scratch = None


def scratch() -> Path:
    """A private directory that disappears with this process."""
    global _scratch
    if _scratch is None:
        _scratch = Path(tempfile.mkdtemp(prefix="vf-"))
        pid = os.getpid()

        def gone():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(gone)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    return _scratch


def newdir(prefix="d") -> Path:
    return Path(tempfile.mkdtemp(prefix=prefix + "-", dir=scratch()))


def use_repo():
    """Import the package from /repo's working tree (and from nowhere else)."""
    sys.path.insert(0, str(REPO / "src"))
    import warnings
    warnings.simplefilter("ignore")
    import wam2layers
    if not str(Path(wam2layers.__file__).resolve()).startswith(str(REPO.resolve())):
        raise Machinery(f"imported {wam2layers.__file__}")
    import numpy, xarray, netCDF4, cftime  # noqa: F401  (before forking)
    import wam2layers.cli  # noqa: F401


def stand_in(module, name, new):
    """Replace module.name, also where the program imported it by name; returns what undoes it."""
    old = getattr(module, name)
    places = [(module, name)] + [(m, k) for n, m in list(sys.modules.items()) if n.split(".")[0] == "wam2layers" and m is not None
                                 for k, v in list(vars(m).items()) if v is old]
    for m, k in places:
        setattr(m, k, new)

    def undo():
        for m, k in places:
            setattr(m, k, old)
    return undo


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
class TlcResult:
    def __init__(self, out, rc, secs):
        self.out, self.rc, self.secs = out, rc, secs
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0
        # 10-13: assumption, deadlock, safety and liveness violations
        self.violated = rc in (10, 11, 12, 13)


def tlc_start(module, cfg=None, env=None, workers=1, heap="1500m", args=(), spec=SPEC):
    meta = newdir("tlc")
    cmd = ["java", f"-Xmx{heap}", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Xss16m", f"-Djava.io.tmpdir={meta}", "-cp", JARS, f"-DTLA-Library={spec}", "tlc2.TLC", "-metadir", str(meta), "-noGenerateSpecTE",
           "-workers", str(workers), "-config", str(cfg or f"{module}.cfg"), *args, f"{module}.tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    logf = open(meta / "out.txt", "w+")
    p = subprocess.Popen(cmd, cwd=spec, env=e, stdout=logf, stderr=subprocess.STDOUT, start_new_session=True)
    p._vf = (logf, meta, time.time(), module)
    return p


def tlc_wait(p, timeout=800):
    logf, meta, t0, module = p._vf
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        with contextlib.suppress(ProcessLookupError):
            os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise Machinery(f"TLC on {module} exceeded {timeout}s")
    logf.seek(0)
    out = logf.read()
    logf.close()
    shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(out, rc, time.time() - t0)


def tlc(module, timeout=800, **kw):
    return tlc_wait(tlc_start(module, **kw), timeout)


def validate(module, cases, cfg=None, env=None, parts=NPROC, timeout=800, weight=None, heap="1500m"):
    """Let TLC judge recorded behaviours; cases are split over processes.

    Returns (verdict records, states, transitions).
    """
    if not cases:
        return [], 0, 0
    parts = max(1, min(parts, len(cases)))
    order = sorted(range(len(cases)), key=lambda i: -(weight(cases[i]) if weight else 1))
    bins = [[] for _ in range(parts)]
    load = [0] * parts
    for i in order:
        b = load.index(min(load))
        bins[b].append(cases[i])
        load[b] += weight(cases[i]) if weight else 1
    procs = []
    for b in bins:
        d = newdir("val")
        with open(d / "trace.ndjson", "w") as f:
            for case in b:
                f.write(json.dumps(case) + "\n")
        e = dict(env or {}, VF_TRACE=d / "trace.ndjson", VF_OUT=d / "verdict.json")
        procs.append((d, len(b), tlc_start(module, cfg=cfg, env=e, heap=heap)))
    verdict, states, trans = [], 0, 0
    err = None
    for d, n, p in procs:
        try:
            r = tlc_wait(p, timeout)
        except Machinery as ex:
            err = err or str(ex)
            continue
        if not r.ok or not (d / "verdict.json").exists():
            keep = scratch() / "failed.ndjson"
            shutil.copy(d / "trace.ndjson", keep)
            err = err or f"TLC failed on {module} (rc {r.rc}):\n" + r.out[-3000:]
            continue
        v = json.loads((d / "verdict.json").read_text())
        verdict += v
        states += r.distinct
        trans += r.generated
        shutil.rmtree(d, ignore_errors=True)
    if err:
        raise Machinery(err)
    return verdict, states, trans


def cfg(spec="Spec", constants=None, invariants=(), properties=(), extra=""):
    """Write a TLC configuration; constants are given as TLA+ text."""
    d = newdir("cfg")
    t = f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n"
    if constants:
        t += "CONSTANTS\n" + "".join(
            f"  {k} {'<-' if re.fullmatch('[A-Z][A-Z]+[0-9]+', str(v)) else '='} {v}\n" for k, v in constants.items())
    if invariants:
        t += "INVARIANTS " + " ".join(invariants) + "\n"
    if properties:
        t += "PROPERTIES " + " ".join(properties) + "\n"
    (d / "m.cfg").write_text(t + extra)
    return d / "m.cfg"


def model_check(module, cfg, timeout=800, workers=NPROC, heap="6g", env=None, args=()):
    """Exhaustive model checking of the specification itself."""
    r = tlc(module, cfg=cfg, timeout=timeout, workers=workers, heap=heap, env=env, args=args)
    if not r.ok:
        raise Machinery(f"TLC: {module} with {cfg} does not satisfy its own properties (rc {r.rc}):\n" + r.out[-4000:])
    return r


# --------------------------------------------------------------------------
# executing the program under test in forked children
# --------------------------------------------------------------------------
def _child(fn, arg, wfd, logdir):
    os.setsid()
    signal.signal(signal.SIGTERM, signal.SIG_DFL)   # pool workers are ended with it, in whichever thread
    null = os.open(str(Path(logdir) / f"child-{os.getpid()}.txt"), os.O_RDWR | os.O_CREAT)
    os.dup2(null, 1)
    os.dup2(null, 2)
    try:
        res = ("ok", fn(arg))
    except BaseException as ex:  # noqa: BLE001
        res = ("exc", f"{type(ex).__name__}: {ex}\n" + traceback.format_exc(limit=-6))
    with os.fdopen(wfd, "wb") as f:
        pickle.dump(res, f)
    os._exit(0)


STARTED = time.time()


def fork_map(fn, args, timeout=120, nproc=NPROC, progress=None):
    """Run fn(arg) for each arg in its own forked process.

    Returns a list of ("ok", value) | ("exc", text) | ("timeout", secs) | ("died", status).
    """
    args = list(args)
    out = [None] * len(args)
    todo = list(range(len(args)))[::-1]
    live = {}
    timeout = min(timeout, max(20, STARTED + 650 - time.time()))     # a check has to answer in time
    late = 0
    while todo or live:
        if late >= nproc:       # nothing ends any more
            for i in todo:
                out[i] = ("timeout", timeout)
            todo = []
        while todo and len(live) < nproc:
            i = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                _child(fn, args[i], w, scratch())
            os.close(w)
            live[r] = [i, pid, time.time(), b""]
        ready, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for r in list(live):
            i, pid, t0, buf = live[r]
            if r in ready:
                chunk = os.read(r, 1 << 20)
                if chunk:
                    live[r][3] = buf + chunk
                    continue
                os.close(r)
                _, status = os.waitpid(pid, 0)
                try:
                    out[i] = pickle.loads(buf)
                except Exception:
                    out[i] = ("died", status)
                del live[r]
            elif now - t0 > timeout:
                with contextlib.suppress(ProcessLookupError):
                    os.killpg(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                out[i] = ("timeout", timeout)
                late += 1
                del live[r]
    return out


# --------------------------------------------------------------------------
# verdicts
# --------------------------------------------------------------------------
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.violations, self.findings, self.samples = [], [], []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.assumptions = []
        kf = json.loads((ROOT / "known_findings.json").read_text())
        self.known = [k for k in kf["findings"] if k["property"] == prop]

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def model(self, r, name):
        self.add(states=r.distinct, transitions=r.generated)
        self.cov.setdefault("models", []).append(
            {"model": name, "distinct_states": r.distinct, "states_generated": r.generated, "depth": r.depth, "secs": round(r.secs, 1)})

    def violation(self, what, detail=None):
        self.violations.append({"what": what, "detail": detail})

    def finding(self, key, text):
        """A deviation listed in known_findings.json under this key."""
        for k in self.known:
            if k["key"] == key:
                if key not in [f[0] for f in self.findings]:
                    self.findings.append((key, k["what"]))
                return
        self.violation(text, {"key": key})

    def finish(self):
        self.cov["samples"] = self.samples or ["(none)"]
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        for key, what in self.findings:
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        if self.violations:
            d = ROOT / "replays"
            d.mkdir(exist_ok=True)
            f = d / f"{self.prop}.json"
            f.write_text(json.dumps(self.violations[:20], indent=1, default=str) + "\n")
            for v in self.violations[:5]:
                print("  ", v["what"][:600].replace("VIOLATION", "violation"))
            print(f"VIOLATION property={self.prop} replay={f}")
            sys.stdout.flush()
            return 1
        print(f"{self.prop} held: {self.cov['traces_validated_against_impl']} recorded behaviours validated, "
              f"{self.cov['states']} states, {ev['wall_s']} s")
        return 0


def main(prop, fn):
    """Run a check function; translate its outcome into an exit code."""
    chk = Check(prop)
    try:
        scratch()
        fn(chk)
        rc = chk.finish()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        print(f"ERROR: the check of {prop} could not be completed")
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
