"""Execution core of the runtime monitors.

The parent process imports escnn from /repo's working tree once (its on-disk cache is redirected to a scratch
directory made by this run), then every case runs in its own forked child, so each case starts from the same library
state.  A case drives the real library and reports to a Monitor; the Monitor evaluates the oracles, counts what it
observed and keeps the witnesses.  Verdicts are three-valued: violated / held on what was observed / inconclusive.
"""
import os, sys, time, json, hashlib, traceback, tempfile, shutil, signal, pickle, select, atexit

for _v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ESCNN_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "harness"))

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="escnnverif.")
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch


def redirect_joblib(location):
    """Keep the library's disk cache out of /repo (and unshared with earlier runs of other code)."""
    import joblib
    base = joblib.Memory
    if getattr(base, "_escnnverif", False):
        base._target = location
        return

    class Memory(base):
        _escnnverif = True
        _target = location

        def __init__(self, *a, **k):
            k.pop("location", None)
            k["verbose"] = 0
            super().__init__(Memory._target, *a[1:], **k)
    Memory.__name__ = "Memory"
    joblib.Memory = Memory


def load_library(cache=None):
    redirect_joblib(cache or os.path.join(scratch(), "cache"))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import numpy, torch
    torch.set_num_threads(1)
    import escnn, escnn.group, escnn.gspaces, escnn.kernels, escnn.nn
    assert os.path.realpath(escnn.__file__).startswith(os.path.realpath(REPO) + os.sep), escnn.__file__
    return escnn


def stable_int(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big") % (2 ** 62)


class Case:
    __slots__ = ("fn", "kw", "core", "timeout")

    def __init__(self, fn, core=True, timeout=None, **kw):
        self.fn, self.kw, self.core, self.timeout = fn, kw, core, timeout

    @property
    def name(self):
        return self.fn + "(" + ",".join(f"{k}={json.dumps(v)}" for k, v in sorted(self.kw.items())) + ")"


class Skip(Exception):
    """The case cannot be judged (inconclusive)."""


class Monitor:
    MAXV = 8

    def __init__(self, prop, case, seed, tier):
        self.prop, self.case, self.seed, self.tier = prop, case, seed, tier
        self.evals = 0
        self.kinds = {}
        self.maxerr = {}
        self.events = {}
        self.states = set()
        self.violations = []
        self.inconclusive = []

    # ---- randomness: a function of VERIF_SEED and the case only
    def rng(self, *tag):
        import numpy as np
        return np.random.RandomState(stable_int(self.seed, self.case, *tag) % (2 ** 32))

    def seed_global(self, *tag):
        import numpy as np, torch, random
        s = stable_int(self.seed, self.case, "global", *tag) % (2 ** 31)
        np.random.seed(s)
        torch.manual_seed(s)
        random.seed(s)
        return s

    # ---- observation
    def event(self, kind, key=None, n=1):
        self.events[kind] = self.events.get(kind, 0) + n
        if key is not None:
            self.states.add(f"{kind}:{key}")

    def violate(self, kind, /, **detail):
        if len(self.violations) < self.MAXV:
            self.violations.append({"kind": kind, "detail": {k: _short(v) for k, v in detail.items()}})

    def check(self, cond, kind, /, **detail):
        self.evals += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if not bool(cond):
            self.violate(kind, **detail)
            return False
        return True

    def close(self, a, b, kind, tol=1e-5, /, **detail):
        import numpy as np
        self.evals += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        a, b = _np(a), _np(b)
        if a.shape != b.shape:
            self.violate(kind, reason="shape", got=a.shape, expected=b.shape, **detail)
            return False
        if a.size == 0:
            return True
        if not (np.isfinite(a).all() and np.isfinite(b).all()):
            self.violate(kind, reason="non-finite", **detail)
            return False
        err = float(np.abs(a - b).max() / (1.0 + np.abs(b).max()))
        if err > self.maxerr.get(kind, 0.0):
            self.maxerr[kind] = err
        if err > tol:
            self.violate(kind, reason="mismatch", err=err, tol=tol, **detail)
            return False
        return True

    def raises(self, exc, fn, kind, /, **detail):
        """fn() must be refused with one of exc."""
        self.evals += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        try:
            fn()
        except exc:
            return True
        except Exception as e:   # refused another way: still refused
            self.event("refused-otherwise:" + type(e).__name__)
            return True
        self.violate(kind, reason="not refused", **detail)
        return False

    def unsure(self, why):
        if len(self.inconclusive) < 20:
            self.inconclusive.append(str(why)[:300])

    def result(self):
        return dict(evals=self.evals, kinds=self.kinds, maxerr=self.maxerr, events=self.events,
                    states=sorted(self.states), violations=self.violations, inconclusive=self.inconclusive)


def _np(a):
    import numpy as np, torch
    if isinstance(a, torch.Tensor):
        a = a.detach().cpu().numpy()
    return np.asarray(a)


def _short(v):
    s = v if isinstance(v, (int, float, bool)) else str(v)
    return s if not isinstance(s, str) else s[:400]


def judge_exception(e, m):
    """An exception out of the library on valid input is a violation; one out of the harness alone is inconclusive."""
    tb = traceback.extract_tb(e.__traceback__)
    repo = os.path.realpath(REPO)
    lib = [f for f in tb if os.path.realpath(f.filename).startswith(repo + os.sep)]
    txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    last_h = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(VERIF) + os.sep)]
    where = last_h[-1].line if last_h else ""
    if isinstance(e, Skip):
        m.unsure("skip: " + str(e))
        return
    if isinstance(e, MemoryError):
        m.unsure("memory")
        return
    if lib:
        m.evals += 1
        m.violations.append({"kind": f"exception:{type(e).__name__}", "detail": {
            "where": f"{os.path.relpath(lib[-1].filename, repo)}:{lib[-1].name}", "call": where, "trace": txt}})
    elif isinstance(e, (AttributeError, ImportError, NameError)):
        m.unsure("harness could not observe: " + txt[-600:])
    else:
        m.evals += 1
        m.violations.append({"kind": f"exception:{type(e).__name__}", "detail": {"where": "harness", "call": where,
                                                                               "trace": txt}})


def run_case(mod, case, prop, seed, tier):
    m = Monitor(prop, case.name, seed, tier)
    m.seed_global()
    try:
        getattr(mod, case.fn)(m, **case.kw)
    except Exception as e:
        judge_exception(e, m)
    return m.result()


def _child(mod, case, prop, seed, tier, wfd):
    try:
        os.setsid()
    except OSError:
        pass
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    t = time.time()
    try:
        r = run_case(mod, case, prop, seed, tier)
    except BaseException as e:
        r = Monitor(prop, case.name, seed, tier).result()
        r["inconclusive"] = ["harness crash " + repr(e)[:300]]
    r["wall"] = time.time() - t
    data = pickle.dumps(r)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def run_cases(mod, cases, prop, seed, tier, soft_deadline, jobs, log=None, stop=None):
    """Runs the cases in forked children; returns [(case, result)]."""
    pending = list(cases)
    running = {}
    out = []
    start = time.time()
    default_to = getattr(mod, "CASE_TIMEOUT", 120)
    while pending or running:
        while pending and len(running) < jobs:
            c = pending.pop(0)
            if time.time() - start > soft_deadline or (stop and stop()):
                out.append((c, None))
                continue
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in list(running):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                _child(mod, c, prop, seed, tier, w)
            os.close(w)
            running[r] = [pid, c, b"", time.time() + (c.timeout or default_to)]
        if not running:
            continue
        ready, _, _ = select.select(list(running), [], [], 0.5)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                running[fd][2] += chunk
                continue
            pid, c, buf, _dl = running.pop(fd)
            os.close(fd)
            _, st = os.waitpid(pid, 0)
            try:
                res = pickle.loads(buf)
            except Exception:
                res = Monitor(prop, c.name, seed, tier).result()
                res["inconclusive"] = [f"child died, status {st}"]
                res["wall"] = 0
            out.append((c, res))
            if log:
                log(c, res)
        now = time.time()
        for fd in list(running):
            if now > running[fd][3]:
                pid, c, buf, _dl = running.pop(fd)
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                os.waitpid(pid, 0)
                os.close(fd)
                res = Monitor(prop, c.name, seed, tier).result()
                res["inconclusive"] = ["watchdog"]
                res["wall"] = c.timeout or default_to
                out.append((c, res))
                if log:
                    log(c, res)
    return out
