"""C09: what the library computes does not depend on earlier requests, on the process or on the state of its caches."""
import gc, glob, os, pickle, random, shutil, signal, subprocess, sys, tempfile, textwrap, time
import numpy as np
import torch
import core
from core import Case, Skip
RULE = ("a request (representation, tensor product, restriction, homogeneous-space basis, grid, kernel basis, module forward, initialisation) served in a process with some history and some state of "
        "the in-memory and disk caches, together with everything handed out earlier; its result is compared with that of the same request alone in a fresh process with cold caches")
ASSUMPTIONS = ["the global random generators are seeded by the caller before requests that draw from them (initialisation)", "frequencies are requested explicitly where the default depends on the irreps built so far",
               "names documented as keys of a cache (spectral representations) are not reused for something else", "a damaged cache means files cut, overwritten, emptied or missing in the cache's folder"]
CASE_TIMEOUT = 240
import zoo
from nnlib import *
from spaces import *
import escnn.nn as enn

POOLS = [["SO3", "O3"], ["SO2", "O2", "Cyl"], ["C4", "D4", "C8", "D8"], ["Octa", "SO3", "FOcta"], ["D6", "C6", "D3", "C3"], ["SO2", "C4", "O2", "D4"], ["C2*C4", "CylD3", "FCylD3", "D3"], ["O3", "Octa", "FCyl"],
         ["Ico", "SO3"], ["O2", "D5", "SO2"]]


def cases(tier, seed):
    out = []
    k = 1 if tier == "quick" else 8
    for i in range(16 * k):
        out.append(Case("history", pool=i % len(POOLS), i=i))
    for i in range(14 * k):
        out.append(Case("modules", dim=[2, 0, 3][i % 3], i=i))
    for i in range(6 * k):
        out.append(Case("growth", i=i))
        out.append(Case("homonyms", i=i))
    for i in range(len(SIBLINGS) * k):
        out.append(Case("siblings", fam=i % len(SIBLINGS), i=i))
    for i in range(6 * k):
        out.append(Case("inits", i=i))
    for i in range(3 * k):
        out.append(Case("concurrent", i=i))
        out.append(Case("killed", i=i))
    for how in DAMAGE:
        for i in range(1 * k):
            out.append(Case("damaged", how=how, i=i))
    for how in ("absent", "empty", "populated"):
        out.append(Case("unwritable", how=how))
    out.append(Case("random_stream", i=0))
    return out


# ------------------------------------------------------------------------------------------------------------- processes
def cached_functions():
    from joblib.memory import MemorizedFunc
    out = []
    for n, mod in list(sys.modules.items()):
        if n == "escnn" or n.startswith("escnn."):
            for v in list(vars(mod).values()):
                if isinstance(v, MemorizedFunc) and v not in out:
                    out.append(v)
    return out


def point_cache(folder):
    """Every disk cache of the library now lives in `folder`."""
    n = 0
    for f in cached_functions():
        f.store_backend.location = os.path.join(folder, "joblib")
        n += 1
    return n


class Proc:
    """fn(*a) in a forked process with its disk cache in `folder`."""

    def __init__(self, fn, *a, folder=None, seed=None):
        self.own = folder is None
        self.folder = folder or tempfile.mkdtemp(prefix="c09.", dir=core.scratch())
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(r)
                self.n = point_cache(self.folder)
                if seed is not None:
                    np.random.seed(seed % 2 ** 32)
                    torch.manual_seed(seed)
                    random.seed(seed)
                try:
                    res = ("ok", fn(*a))
                except Skip as e:
                    res = ("skip", str(e))
                except Exception as e:
                    import traceback
                    fr = [f for f in traceback.extract_tb(e.__traceback__) if os.path.realpath(f.filename).startswith(os.path.realpath(core.REPO) + os.sep)]
                    res = ("raise", type(e).__name__, f"{os.path.basename(fr[-1].filename)}:{fr[-1].name}" if fr else "harness", traceback.format_exc()[-1500:])
                with os.fdopen(w, "wb") as f:
                    pickle.dump(res, f)
            except BaseException:
                code = 3
            os._exit(code)
        os.close(w)
        self.r = r

    def result(self):
        buf = b""
        while True:
            c = os.read(self.r, 1 << 20)
            if not c:
                break
            buf += c
        os.close(self.r)
        os.waitpid(self.pid, 0)
        if self.own:
            shutil.rmtree(self.folder, ignore_errors=True)
        try:
            return pickle.loads(buf)
        except Exception:
            return ("died",)


def fresh(req, seed):
    """The reference: the request alone, cold caches."""
    return Proc(serve, req, seed=seed).result()


# -------------------------------------------------------------------------------------------------------------- requests
# a request is a JSON tuple; begin(req) builds the objects and returns probe() -> list of arrays, which may be called again later
REFUSALS = [0]
_init = eg.InsufficientIrrepsException.__init__


def _counting(self, *a, **k):
    REFUSALS[0] += 1
    _init(self, *a, **k)


eg.InsufficientIrrepsException.__init__ = _counting


def begin(req):
    """A refusal for want of irreps is documented to depend on which were built before: such requests are not judged."""
    n = REFUSALS[0]
    try:
        p = globals()["q_" + req[0]](*req[1:])
    except eg.InsufficientIrrepsException:
        raise Skip("documented refusal")
    if REFUSALS[0] > n:
        raise Skip("documented refusal")
    return p


def serve(req):
    return begin(req)()


def ev(g, seed=5):
    return elements(g, np.random.RandomState(seed), 3, hostile=False)[:5]


def rep_probe(r):
    E = ev(r.group)
    return lambda: [np.array(r(g), float) for g in E] + [np.array(r.change_of_basis, float)] + [np.array([r.character(g) for g in E])] + [np.array([hash_id(i) for i in r.irreps])] + \
        [np.array(sorted(hash_id(s) for s in r.supported_nonlinearities))]


def hash_id(i):
    return float(core.stable_int(repr(i)) % 10 ** 6)


def q_rep(g, seed, maxf=2):
    rng = np.random.RandomState(seed)
    r, d = rand_rep(G(g), rng, maxf, 12, order_cap=24)
    return rep_probe(r)


def q_irrep(g, id):
    return rep_probe(G(g).irrep(*tup(id)))


def q_tensor(g, a, b):
    g = G(g)
    return rep_probe(g.irrep(*tup(a)).tensor(g.irrep(*tup(b))))


def q_restrict(g, a, sid):
    return rep_probe(G(g).irrep(*tup(a)).restrict(tup(sid)))


def q_restrict_rep(g, seed, sid):
    r, d = rand_rep(G(g), np.random.RandomState(seed), 2, 10, order_cap=12)
    return rep_probe(r.restrict(tup(sid)))


def q_maps(g, sid):
    g = G(g)
    H, parent, child = g.subgroup(tup(sid))
    E, F = ev(H), ev(g)

    def probe():
        out = [mat(parent(h)) for h in E]
        for x in F:
            c = child(x)
            out.append(np.zeros(1) if c is None else mat(c))
        return out
    return probe


def q_quotient(g, sid):
    g = G(g)
    if g.order() < 0 or g.order() > 24:
        raise Skip("size")
    return rep_probe(g.quotient_representation(tup(sid)))


def q_regular(g):
    g = G(g)
    if g.order() < 0 or g.order() > 48:
        raise Skip("size")
    return rep_probe(g.regular_representation)


def q_induced(g, sid, which):
    g = G(g)
    if g.order() < 0 or g.order() > 24:
        raise Skip("size")
    H, _, _ = g.subgroup(tup(sid))
    irr = irreps_of(H, 2)
    r = irr[which % len(irr)]
    if r.size * g.order() // H.order() > 30:
        raise Skip("size")
    return rep_probe(g.induced_representation(tup(sid), r))


def q_homspace(g, sid, which, hwhich):
    g = G(g)
    H, _, _ = g.subgroup(tup(sid))
    A, B = irreps_of(g, 2), irreps_of(H, 2)
    rho, psi = A[which % len(A)], B[hwhich % len(B)]
    X = g.homspace(tup(sid))
    E = ev(g)
    return lambda: [np.array(X.basis(e, rho.id, psi.id), float) for e in E] + [np.array([X.dimension_basis(rho.id, psi.id)], float)]


def q_spectral(g, seed):
    g = G(g)
    rng = np.random.RandomState(seed)
    irr = irreps_of(g, 2)
    sel = [irr[i].id for i in sorted(rng.choice(len(irr), min(len(irr), 2), replace=False))]
    if kind(g) == "Octa" or (kind(g) == "prod" and "Octa" in g.name):
        raise Skip("documented as not implemented")
    return rep_probe(g.spectral_regular_representation(*sel))


def q_grid(g, *a):
    g = G(g)
    E = g.grid(*a)
    return lambda: [mat(e) for e in E]


def q_sphere(g, *a):
    g = G(g)
    E = g.sphere_grid(*a)
    # the elements stand for points of the sphere: any representative of the coset will do
    return lambda: [mat(e)[:, 2] for e in E]


def q_kernel(d, seed):
    sp = space(d)
    rng = np.random.RandomState(seed)
    (a, _), (b, _) = reps_for(sp, rng, 6, 2, 2)
    D = sp.dimensionality
    P = rng.randn(5, D)
    try:
        B = sp.build_kernel_basis(a, b, sigma=[.6, .5], rings=[1., 2.], maximum_frequency=3)
    except ek.EmptyBasisException:
        return lambda: []
    X = torch.tensor(P, dtype=torch.float32)
    return lambda: [B.sample(X).detach().double().numpy()]


def q_type(d, seed):
    sp = space(d)
    rng = np.random.RandomState(seed)
    t = zoo._types(sp, rng)
    E = ev(sp.fibergroup)
    x = torch.tensor(np.random.RandomState(3).randn(2, t.size)).float()
    return lambda: [t.transform_fibers(x, e).numpy() for e in E] + [np.array([t.size, len(t), len(t.irreps)], float)]


def q_module(name, dim, seed):
    rng = np.random.RandomState(seed)
    S = zoo.make(name, rng, dim)
    if S.random:
        raise Skip("random")
    mod = randomize_stats(randomize(S.build(), np.random.RandomState(seed + 1), .7), np.random.RandomState(seed + 2))
    x = S.sample(np.random.RandomState(seed + 3), batch=3)
    mod.eval()
    mod2 = None

    def probe():
        with torch.no_grad():
            return [S(mod, x).tensor.numpy()]
    return probe


def q_init(kindn, seed, cache=False):
    rng = np.random.RandomState(seed)
    S = zoo.make(kindn, rng, 2 if kindn != "linear" else 0)
    torch.manual_seed(seed)
    np.random.seed(seed % 2 ** 31)
    mod = S.build()
    first = [p.detach().numpy().copy() for p in mod.parameters()]
    from escnn.nn import init
    torch.manual_seed(seed + 1)
    w = torch.zeros(mod.basisexpansion.dimension())
    init.generalized_he_init(w, mod.basisexpansion, **({"cache": True} if cache and CACHING[0] else {}))
    return lambda: first + [w.numpy().copy()]


CACHING = [False]      # histories use the documented in-memory cache of the variances, references do not


# -------------------------------------------------------------------------------------------------------------- workload
def draw(rng, groups):
    g = groups[rng.randint(len(groups))]
    gg = G(g)
    c = str(rng.choice(["rep", "rep", "irrep", "tensor", "tensor", "restrict", "restrict", "restrict_rep", "maps", "quotient", "regular", "induced", "homspace", "spectral"]))
    irr = irreps_of(gg, 3 if kind(gg) in ("SO2", "O2", "SO3", "O3") else 2)
    pick = lambda: list(irr[rng.randint(len(irr))].id)
    sids = subgroup_ids(gg)
    # a homogeneous space, induced or quotient representation of O(3) by a huge coset space is never asked for
    sid = sids[rng.randint(len(sids))] if sids else None
    s = int(rng.randint(10 ** 6))
    if c == "rep":
        return ["rep", g, s]
    if c == "irrep":
        return ["irrep", g, pick()]
    if c == "tensor":
        return ["tensor", g, pick(), pick()]
    if c == "restrict":
        return ["restrict", g, pick(), sid]
    if c in ("maps", "quotient"):
        return [c, g, sid]
    if c == "restrict_rep":
        return [c, g, s, sid]
    if c == "regular":
        return [c, g]
    if c == "induced":
        return [c, g, sid, s]
    if c == "homspace":
        return [c, g, sid, s, s // 7]
    return ["spectral", g, s]


def disturb(rng, groups):
    """Things a program does between requests that must not matter."""
    c = rng.randint(8)
    if c == 0:
        np.random.seed(int(rng.randint(10 ** 6)))
        torch.manual_seed(int(rng.randint(10 ** 6)))
    elif c == 1:
        np.random.rand(int(rng.randint(1, 50)))
    elif c == 2:
        g = G(groups[rng.randint(len(groups))])
        k = kind(g)
        f = int(rng.randint(3, 9))
        {"SO2": lambda: g.irrep(f), "O2": lambda: g.irrep(1, f), "SO3": lambda: g.irrep(f), "O3": lambda: g.irrep(int(rng.randint(2)), f)}.get(k, lambda: None)()
    elif c == 3:
        n = groups[rng.randint(len(groups))]
        if n in ("SO2", "O2", "SO3", "O3", "Cyl"):
            G(f"{n}:{int(rng.randint(1, 6))}")
    elif c == 4:
        g = G(groups[rng.randint(len(groups))])
        [g.sample() for _ in range(3)]
    elif c == 5:
        torch.set_default_dtype(torch.float32)
        gc.collect()
    elif c == 6:
        g = G(groups[rng.randint(len(groups))])
        e = ev(g, int(rng.randint(1000)))
        r = irreps_of(g, 2)
        r[rng.randint(len(r))](e[0])
    return int(c)


def run_history(reqs, seed, groups, twice=True):
    """The requests in the given order with disturbances; every request twice, and every object again at the end."""
    rng = np.random.RandomState(seed)
    CACHING[0] = True
    log, held = [], []
    for j, r in enumerate(reqs):
        d = disturb(rng, groups) if groups else -1
        try:
            p = begin(r)
            held.append((j, p))
            log.append(("first", j, "ok", p(), d))
            if twice and rng.rand() < .3:
                log.append(("again", j, "ok", begin(r)(), d))
        except Skip:
            log.append(("first", j, "skip", None, d))
        except Exception as e:
            import traceback
            log.append(("first", j, "raise", f"{type(e).__name__}: {e}"[:200] + traceback.format_exc()[-500:], d))
    for j, p in held:
        log.append(("held", j, "ok", p(), -1))
    return log


def agree(a, b, tol=2e-5):
    if len(a) != len(b):
        return False, "number of arrays"
    worst = 0.
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False, f"shape {x.shape} vs {y.shape}"
        if x.size:
            worst = max(worst, float(np.abs(x - y).max() / (1e-2 + np.abs(y).max())))
    return worst < tol, worst


def judge(m, reqs, log, refs, label):
    for phase, j, st, val, d in log:
        ref = refs[j]
        if ref[0] in ("died", "skip"):
            continue
        m.event("request:" + reqs[j][0], f"{reqs[j][:3]}:{phase}")
        if d >= 0:
            m.event(f"disturbance-{d}")
        if ref[0] == "raise":
            m.check(st == "raise", f"refusal-depends-on-history:{reqs[j][0]}", request=reqs[j], label=label, reference=ref[1:], got=st)
            continue
        if st != ref[0]:
            m.check(False, f"outcome-depends-on-history:{reqs[j][0]}", request=reqs[j], label=label, reference=ref[0], got=st, error=val if st == "raise" else "", history=[r[:3] for r in reqs])
            continue
        ok, why = agree(val, ref[1])
        m.check(ok, f"result-depends-on-history:{reqs[j][0]}:{phase}", request=reqs[j], label=label, why=why, history=[r[:4] for r in reqs[:j + 1]])


def references(m, reqs, seed0=0):
    """References in parallel processes with distinct random states."""
    out = []
    for j in range(0, len(reqs), 3):
        ps = [Proc(serve, r, seed=core.stable_int("ref", seed0, j + q) % 2 ** 31) for q, r in enumerate(reqs[j:j + 3])]
        out += [p.result() for p in ps]
    for r, o in zip(reqs, out):
        if o[0] == "raise":
            m.check(False, f"request-raises:{r[0]}", request=r, error=o[1:])
    return out


def compare(m, reqs, groups, label, orders=2):
    refs = references(m, reqs, label)
    rng = m.rng("orders")
    for o in range(orders):
        perm = list(rng.permutation(len(reqs)))
        rs = [reqs[i] for i in perm]
        res = Proc(run_history, rs, int(rng.randint(10 ** 6)), groups, seed=int(rng.randint(10 ** 6))).result()
        if res[0] != "ok":
            m.check(res[0] == "died", "history-raises", label=label, error=res[1:], history=rs)
            continue
        judge(m, rs, res[1], [refs[i] for i in perm], label)
        m.event("history", f"{label}:{o}")


def history(m, pool, i):
    rng = m.rng()
    groups = POOLS[pool]
    n = 9 if m.tier == "quick" else 14
    reqs = [draw(rng, groups) for _ in range(n)]
    reqs = [list(r) for r in {repr(r): r for r in reqs}.values()]
    compare(m, reqs, groups, f"pool{pool}")


def modules(m, dim, i):
    rng = m.rng()
    names = [n for n in zoo.names(dim) if n != "dropout"]
    reqs = [["module", str(names[rng.randint(len(names))]), dim, int(rng.randint(10 ** 6))] for _ in range(5)]
    S = TWO_D if dim == 2 else THREE_D
    if dim:
        for _ in range(3 if dim == 2 else 2):
            reqs.append(["kernel", S[rng.randint(len(S))], int(rng.randint(10 ** 6))])
        reqs.append(["type", S[rng.randint(len(S))], int(rng.randint(10 ** 6))])
    compare(m, reqs, ["SO2", "O2", "C4", "D4"] if dim < 3 else ["SO3", "O3", "Octa"], f"modules{dim}", orders=2)


def growth(m, i):
    """The same requests on a group whose irreps were grown in various orders."""
    rng = m.rng()
    g = ["SO2", "O2", "SO3", "O3"][i % 4]
    ids = {"SO2": [[l] for l in range(5)], "O2": [[0, 0]] + [[1, l] for l in range(5)], "SO3": [[l] for l in range(4)], "O3": [[j, l] for l in range(3) for j in (0, 1)]}[g]
    reqs = []
    for _ in range(5):
        reqs.append(["tensor", g, ids[rng.randint(len(ids))], ids[rng.randint(len(ids))]])
    for _ in range(3):
        reqs.append(["irrep", f"{g}:{int(rng.randint(1, 7))}", ids[rng.randint(len(ids))]])
    reqs += [["spectral", g, int(rng.randint(10 ** 6))], ["rep", g, int(rng.randint(10 ** 6)), 3]]
    if g in ("SO2", "O2"):
        reqs.append(["grid", g, int(rng.randint(3, 9)), "regular"])
        reqs.append(["kernel", ["rot2dOnR2", {"N": -1, "maximum_frequency": int(rng.randint(1, 6))}], int(rng.randint(10 ** 6))])
    else:
        reqs.append(["grid", g] + [["ico"], ["cube"], ["tetra"], ["fibonacci", 20], ["hopf", 20], ["thomson", 3], ["thomson_cube", 1]][int(rng.randint(7))])
        reqs.append(["sphere", g] + [["ico"], ["cube"], ["tetra"], ["fibonacci", 9], ["healpix", 12], ["thomson", 4], ["longlat", 3, 4]][int(rng.randint(7))])
        reqs.append(["kernel", [["rot3dOnR3", "flipRot3dOnR3"][int(rng.randint(2))], {"maximum_frequency": int(rng.randint(2, 5))}], int(rng.randint(10 ** 6))])
    compare(m, reqs, [g], f"growth-{g}")


def q_homonym(g, seed, name):
    """A representation with a name that other, different representations also carry, used in a type, a basis and a module."""
    rng = np.random.RandomState(seed)
    gg = G(g)
    irr = irreps_of(gg, 2)
    parts = [irr[rng.randint(len(irr))] for _ in range(2)]
    r = eg.directsum(parts, name=name) if rng.rand() < .5 else eg.change_basis(eg.directsum(parts, name=f"{name}_{seed}"), rand_orth(rng, sum(p.size for p in parts)), name)
    sp = {"C4": lambda: gs.rot2dOnR2(4), "D4": lambda: gs.flipRot2dOnR2(4), "O2": lambda: gs.flipRot2dOnR2(-1, maximum_frequency=3), "SO3": lambda: gs.rot3dOnR3(3)}[g]()
    t = enn.FieldType(sp, [r])
    u = enn.FieldType(sp, [gg.irrep(*irr[rng.randint(len(irr))].id), gg.trivial_representation])
    C = enn.R2Conv if sp.dimensionality == 2 else enn.R3Conv
    mods = []
    for a, b in ((t, u), (u, t), (t, t)):
        try:
            mods.append((a, randomize(C(a, b, 3, padding=1, initialize=False), np.random.RandomState(seed), .5).eval()))
        except ValueError:
            pass
    lin = randomize(enn.Linear(enn.FieldType(gs.no_base_space(gg), [r]), enn.FieldType(gs.no_base_space(gg), [r]), initialize=False), np.random.RandomState(seed), .5).eval()
    T_ = r.tensor(r) if r.size <= 3 and g in ("C4", "D4") else None
    p0 = rep_probe(r)

    def probe():
        out = list(p0())
        with torch.no_grad():
            for a, c in mods:
                x = rand_input(np.random.RandomState(1), a, (1,) + (3,) * sp.dimensionality)
                out.append(c(enn.GeometricTensor(torch.as_tensor(x), a)).tensor.numpy())
            x = torch.tensor(np.random.RandomState(2).randn(2, r.size)).float()
            out.append(lin(enn.GeometricTensor(x, lin.in_type)).tensor.numpy())
        if T_ is not None:
            out.append(np.array(T_(ev(gg)[1])))
        out.append(t.transform_fibers(x, ev(gg)[1]).numpy())
        return out
    return probe


def homonyms(m, i):
    rng = m.rng()
    g = ["C4", "D4", "O2", "SO3"][i % 4]
    reqs = [["homonym", g, int(rng.randint(10 ** 6)), "shared_name"] for _ in range(5)]
    compare(m, reqs, [g], f"homonyms-{g}")


A = [0., .3, np.pi / 4, np.pi / 3, np.pi / 2, 1.9]
SIBLINGS = [[["flipRot2dOnR2", {"N": 4, "axis": a}] for a in A], [["flipRot2dOnR2", {"N": 2, "axis": a}] for a in A], [["flipRot2dOnR2", {"N": -1, "axis": a}] for a in A], [["flip2dOnR2", {"axis": a}] for a in A],
            [["dihedralOnR3", {"n": 2, "axis": a, "adj": 4 * j}] for a, j in ((0., 0), (0., 1), (.4, 0), (.4, 1))], [["conicalOnR3", {"n": 2, "axis": a, "adj": 5 * j}] for a, j in ((0., 0), (0., 1), (.4, 0), (.4, 1))],
            [["mirOnR3", {"axis": a, "adj": 3 * j}] for a, j in ((0., 0), (0., 1), (.4, 0), (.4, 1))], [["rot2dOnR3", {"n": 4, "adj": j}] for j in (1, 2, 3)] + [["rot2dOnR3", {"n": 4}]],
            [["rot2dOnR3", {"n": -1, "adj": j}] for j in (1, 2, 3)] + [["rot2dOnR3", {"n": -1}]], [["cylindricalOnR3", {"n": 2, "adj": j}] for j in (1, 2)] + [["cylindricalOnR3", {"n": 2}]],
            [["flip2dOnR2", {}], ["rot2dOnR2", {"N": 2}], ["trivialOnR2", {}]], [["invOnR3", {}], ["mirOnR3", {}], ["rot2dOnR3", {"n": 2}]], [["dihedralOnR3", {"n": 3}], ["conicalOnR3", {"n": 3}]]]


_SPACES = {}
FILTERS = [None, lambda a: a["radius"] < 1.1, lambda a: a["radius"] >= 1.1, lambda a: a["idx"] % 2 == 0, lambda a: a["idx"] % 2 == 1]


def q_sibling(d, seed, sigma, rings, L, ksize, dil=1, filt=0):
    """A kernel basis and a convolution over representations drawn with this seed, hence alike for spaces with the same group.
    Within one process, equal spaces are one object (which keeps the bases it built)."""
    sp = _SPACES.setdefault(repr(d), space(d))
    rng = np.random.RandomState(seed)
    (a, _), (b, _) = reps_for(sp, rng, 4, 2, 1, ["irrep", "irrep", "sum", "regular"])
    D = sp.dimensionality
    X = torch.tensor(rng.randn(5, D), dtype=torch.float32)
    B = mod = None
    try:
        B = sp.build_kernel_basis(a, b, sigma=sigma, rings=rings, maximum_frequency=L)
    except ek.EmptyBasisException:
        pass
    try:
        mod = (enn.R2Conv if D == 2 else enn.R3Conv)(enn.FieldType(sp, [a]), enn.FieldType(sp, [b]), ksize, sigma=sigma, rings=rings, frequencies_cutoff=float(L), dilation=dil, basis_filter=FILTERS[filt], initialize=False)
        randomize(mod, np.random.RandomState(seed), .5)
    except ValueError:
        pass
    return lambda: ([B.sample(X).detach().double().numpy()] if B else []) + ([t.detach().numpy() for t in mod.expand_parameters() if t is not None] if mod else [])


def siblings(m, fam, i):
    """Spaces whose symmetries are conjugate (or abstractly equal) groups acting differently, and requests that differ in one argument."""
    rng = m.rng()
    F = SIBLINGS[fam]
    s = int(rng.randint(10 ** 6))
    base = ([.6, .5], [0., 1.2], 2, 3)
    vary = [([.6, .5], [0., 1.2], 2, 3), ([.6, .7], [0., 1.2], 2, 3), ([.6, .5], [0., 1.0], 2, 3), ([.6, .5], [0., 1.2], 1, 3), ([.6, .5], [0., 1.2], 2, 5), ([.5, .6], [0., 1.2], 2, 3), ([.6, .6], [0., 1.2], 2, 3),
            ([.6, .5], [0., 1.2], 2, 3, 2), ([.6, .5], [0., 1.2], 2, 3, 3)]
    # filters that keep as many elements of the basis, but not the same ones
    flt = [([.6, .5], [1., 1.2], 2, 3, 1, k) for k in range(len(FILTERS))]
    n = 4 if m.tier == "quick" else len(F)
    reqs = [["sibling", F[j], s, *base] for j in rng.permutation(len(F))[:n]]
    d = F[rng.randint(len(F))]
    reqs += [["sibling", d, s, *vary[j]] for j in rng.permutation(len(vary))[:4]]
    reqs += [["sibling", d, s, *flt[j]] for j in (([1, 2], [3, 4])[rng.randint(2)] if m.tier == "quick" else range(len(flt)))]
    reqs = list({repr(r): r for r in reqs}.values())
    compare(m, reqs, [], "siblings", orders=2)


def inits(m, i):
    """Initialisations with a given seed draw the same weights whatever was initialised before."""
    rng = m.rng()
    reqs = [["init", str(rng.choice(["conv", "conv", "linear"])), int(rng.randint(10 ** 6)), True] for _ in range(4)]
    compare(m, reqs, [], "inits")


# ------------------------------------------------------------------------------------------------------------ disk cache
def disk_requests(rng, n=5, thomson=False):
    """Requests whose results are kept on disk."""
    out = []
    for _ in range(n):
        g = str(rng.choice(["SO3", "O3", "D4", "O2", "Octa", "CylD3", "Ico"]))
        gg = G(g)
        irr = [r for r in irreps_of(gg, 2) if r.size < 5]
        a, b = irr[rng.randint(len(irr))], irr[rng.randint(len(irr))]
        if rng.rand() < .5:
            out.append(["tensor", g, list(a.id), list(b.id)])
        else:
            s = subgroup_ids(gg)
            out.append(["restrict", g, list(a.id), s[rng.randint(len(s))]])
    out.append(["rep", "Octa", int(rng.randint(10 ** 6))])
    out.append(["regular", "Octa"])
    if thomson:
        out.append(["sphere", "SO3", "thomson", int(rng.randint(2, 5))])
    return out


def serve_all(reqs):
    out = []
    for r in reqs:
        try:
            out.append(("ok", serve(r)))
        except Skip as e:
            out.append(("skip", str(e)))
        except Exception as e:
            import traceback
            out.append(("raise", type(e).__name__, str(e)[:200], traceback.format_exc()[-1200:]))
    return out


def judge_all(m, reqs, res, refs, label):
    if res[0] != "ok":
        m.check(False, f"cache-{label}:process", error=res[1:])
        return
    for r, v, ref in zip(reqs, res[1], refs):
        if ref[0] != "ok":
            continue
        m.event("disk-request", f"{label}:{r[0]}:{r[1]}")
        if v[0] != "ok":
            m.check(False, f"cache-{label}:raises", request=r, error=v[1:])
            continue
        ok, why = agree(v[1], ref[1])
        m.check(ok, f"cache-{label}:result", request=r, why=why)


def files(folder):
    return sorted(f for f in glob.glob(os.path.join(folder, "**", "*"), recursive=True) if os.path.isfile(f))


def concurrent(m, i):
    """Several processes share one cold cache at the same time; then a late one reads what they left."""
    rng = m.rng()
    reqs = disk_requests(rng, thomson=i == 0)
    refs = references(m, reqs, i)
    folder = tempfile.mkdtemp(prefix="c09c.", dir=core.scratch())
    try:
        perms = [list(rng.permutation(len(reqs))) for _ in range(4)]
        ps = [Proc(serve_all, [reqs[j] for j in p], folder=folder, seed=int(rng.randint(10 ** 6))) for p in perms]
        for p, pr in zip(perms, ps):
            judge_all(m, [reqs[j] for j in p], pr.result(), [refs[j] for j in p], "concurrent")
        m.event("cache-files", n=len(files(folder)))
        judge_all(m, reqs, Proc(serve_all, reqs, folder=folder, seed=1).result(), refs, "warm")
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def killed(m, i):
    """Writers are killed at random points; whoever comes next must get the right answers from what is left."""
    rng = m.rng()
    reqs = disk_requests(rng, 4)
    refs = references(m, reqs, i)
    folder = tempfile.mkdtemp(prefix="c09k.", dir=core.scratch())
    try:
        for k in range(4 if m.tier == "quick" else 8):
            p = Proc(serve_all, [reqs[j] for j in rng.permutation(len(reqs))], folder=folder, seed=k)
            n0 = len(files(folder))
            stop = time.time() + 5
            want = n0 + int(rng.randint(1, 6))
            while time.time() < stop and len(files(folder)) < want:      # kill shortly after some file appeared
                time.sleep(.001)
            time.sleep(float(rng.rand()) * .01)
            try:
                os.kill(p.pid, signal.SIGKILL)
            except OSError:
                pass
            r = p.result()
            m.event("killed" if r[0] == "died" else "finished-before-kill", f"{len(files(folder))}")
            judge_all(m, reqs, Proc(serve_all, reqs, folder=_copy(folder), seed=k).result(), refs, "killed-writer")
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def _copy(folder):
    d = tempfile.mkdtemp(prefix="c09d.", dir=core.scratch())
    shutil.rmtree(d)
    shutil.copytree(folder, d)
    return d


DAMAGE = ["truncate", "garbage", "empty", "delete", "nometa", "nocode", "pickle-garbage"]


def damaged(m, how, i):
    rng = m.rng()
    reqs = disk_requests(rng)
    folder = tempfile.mkdtemp(prefix="c09x.", dir=core.scratch())
    try:
        w = Proc(serve_all, reqs, folder=folder, seed=3).result()
        refs = references(m, reqs, i)
        judge_all(m, reqs, w, refs, "cold")
        F = files(folder)
        hit = 0
        for f in F:
            b = os.path.basename(f)
            if rng.rand() < .3:
                continue
            if how == "nometa" and b == "metadata.json":
                os.remove(f)
            elif how == "nocode" and b == "func_code.py":
                os.remove(f)
            elif how == "delete" and b.startswith("output"):
                os.remove(f)
            elif how == "truncate" and b.startswith("output"):
                with open(f, "r+b") as h:
                    h.truncate(int(os.path.getsize(f) * rng.rand()))
            elif how == "empty" and b in ("metadata.json",) or how == "empty" and b.startswith("output"):
                open(f, "wb").close()
            elif how == "garbage" and b.startswith("output"):
                open(f, "wb").write(rng.bytes(200))
            elif how == "pickle-garbage" and b.startswith("output"):
                open(f, "wb").write(b"\x80\x04garbage" + rng.bytes(50))
            else:
                continue
            hit += 1
        m.event("damaged-file", how, n=hit)
        for _ in range(2):
            judge_all(m, reqs, Proc(serve_all, reqs, folder=folder, seed=4).result(), refs, f"damaged-{how}")
    finally:
        shutil.rmtree(folder, ignore_errors=True)


# ----------------------------------------------------------------------------------------- a package that cannot be written
SCRIPT = r"""
import os, sys, pickle, warnings
warnings.simplefilter("ignore")
pkg, uid, out = sys.argv[1], int(sys.argv[2]), sys.argv[3]
if uid:
    os.setgid(uid); os.setgroups([]) if False else None; os.setuid(uid)
sys.dont_write_bytecode = True
sys.path.insert(0, pkg)
res = {}
so = os.dup(1); dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
import numpy as np
import escnn
assert escnn.__file__.startswith(pkg), escnn.__file__
from escnn import group as eg
G = eg.so3_group(2)
e = G.element(np.array([.1, .2, .3, np.sqrt(1 - .14)]), "Q")
res["tensor"] = G.irrep(1).tensor(G.irrep(1))(e)
res["restrict"] = G.irrep(2).restrict("octa").change_of_basis
O = eg.octa_group()
res["octa"] = np.stack([O.irrep(1)(g) for g in O.elements])
I = eg.ico_group()
res["ico"] = np.stack([I.irrep(3)(g) for g in I.elements])
D = eg.dihedral_group(4)
res["d4"] = D.irrep(1, 1).tensor(D.irrep(1, 1)).change_of_basis
with os.fdopen(so, "wb") as f:
    f.write(pickle.dumps({k: np.asarray(v) for k, v in res.items()}))
"""


def run_package(pkg, uid):
    p = subprocess.run([sys.executable, "-B", "-c", SCRIPT, pkg, str(uid), "-"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd="/", timeout=200, env=dict(os.environ, HOME="/nonexistent", TMPDIR="/tmp"))
    try:
        return pickle.loads(p.stdout), ""
    except Exception:
        return None, p.stderr.decode()[-1200:]


def unwritable(m, how):
    """A package installed where the user may not write, as an unprivileged user."""
    top = tempfile.mkdtemp(prefix="escnnpkg.")
    try:
        src = os.path.join(core.REPO, "escnn")
        pkg = os.path.join(top, "site")
        shutil.copytree(src, os.path.join(pkg, "escnn"), ignore=shutil.ignore_patterns("_cache", "__pycache__", "*.pyc"))
        ref, err = run_package(pkg, 0)
        if ref is None:
            m.check(False, "package-fails", error=err)
            return
        cache = os.path.join(pkg, "escnn", "group", "_cache")
        if how != "populated":
            shutil.rmtree(cache, ignore_errors=True)
        if how == "empty":
            os.makedirs(cache, exist_ok=True)
        if how == "populated":                                                          # part of the cache is there
            D = [d for d in glob.glob(os.path.join(cache, "**", "*"), recursive=True) if os.path.isdir(d) and os.path.exists(os.path.join(d, "func_code.py"))]
            for d in sorted(D)[::2]:
                shutil.rmtree(d, ignore_errors=True)
        for b, ds, fs in os.walk(top):
            os.chmod(b, 0o555)
        if os.geteuid() != 0:
            raise Skip("not root")
        got, err = run_package(pkg, 65534)
        m.event("unwritable", how)
        if m.check(got is not None, "unwritable-package-fails", how=how, error=err):
            for k in ref:
                ok, why = agree([got[k]], [ref[k]])
                m.check(ok, "unwritable-package-result", how=how, what=k, why=why)
    finally:
        for b, ds, fs in os.walk(top):
            os.chmod(b, 0o755)
        shutil.rmtree(top, ignore_errors=True)


# --------------------------------------------------------------------------------------------------------- random stream
def _stream(reqs):
    np.random.seed(11)
    torch.manual_seed(11)
    random.seed(11)
    for r in reqs:
        try:
            serve(r)
        except Skip:
            pass
    return [np.random.rand(4), torch.rand(4).numpy(), np.array([random.random()])]


def random_stream(m, i):
    """The caller's random stream after some requests does not depend on whether the cache was cold or warm."""
    rng = m.rng()
    folder = tempfile.mkdtemp(prefix="c09r.", dir=core.scratch())
    try:
        for _ in range(2 if m.tier == "quick" else 8):
            reqs = disk_requests(rng)
            a = Proc(_stream, reqs, folder=folder).result()
            b = Proc(_stream, reqs, folder=folder).result()
            c = Proc(_stream, reqs, folder=folder).result()
            if "died" in (a[0], b[0], c[0]):
                continue
            m.event("random-stream", n=1)
            m.check(a[0] == b[0] == "ok" and agree(a[1], b[1], 1e-9)[0] and agree(b[1], c[1], 1e-9)[0], "random-stream-depends-on-the-cache", requests=reqs)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
