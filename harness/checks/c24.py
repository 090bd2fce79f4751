"""C24: weight initialisation preserves the scale of features, draws every weight, and the delta initialisation is an isometry."""
from core import Case, Skip
from nnlib import *
import zoo

RULE = ("a case = one random layer with weights: repeated draws of its initialisers are compared with the variances that make the layer preserve the power of white noise, "
        "computed from the filters the weights really expand to; a state = distinct (layer, number of weights, initialiser)")
ASSUMPTIONS = ["the power of the output is judged for orthogonal representations (a change of basis that is not orthogonal changes the norm of features)"]
CASE_TIMEOUT = 200
LAYERS = [("linear", 0), ("conv", 2), ("conv", 3), ("convT", 2), ("tensorproduct", 0), ("pointconv", 2), ("linear", 0), ("conv", 2), ("convT", 3), ("pointconv", 3)]


def cases(tier, rng):
    k = 1 if tier == "quick" else 6
    out = []
    for i in range(6 * k):
        for n, d in LAYERS:
            out.append(Case("he", name=n, dim=d, i=i))
    for i in range(40 * k):
        out.append(Case("isometry", i=i))
    for i in range(6 * k):
        for n, d in [("conv", 2), ("conv", 3), ("pointconv", 2)]:
            out.append(Case("delta", name=n, dim=d, i=i))
    return out


def layer(name, dim, rng, tries=20, cap=400):
    for _ in range(tries):
        spec = zoo.make(name, rng, dim)
        mod = spec.build()
        if 0 < mod.weights.numel() <= cap:
            return spec, mod
    raise Skip("no layer with weights")


def manager(mod):
    return mod.basisexpansion if hasattr(mod, "basisexpansion") else mod.basissampler


def he(m, name, dim, i):
    rng = m.rng()
    spec, mod = layer(name, dim, rng)
    B = manager(mod)
    n = B.dimension()
    tag = f"{type(mod).__name__}:{n}"
    m.check(mod.weights.shape == (n,), "one-weight-per-basis-element", tag=tag)
    info = list(B.get_basis_info())
    if not m.check(len(info) == n and [a["id"] for a in info] == list(range(n)), "one-attribute-per-weight", tag=tag, got=len(info)):
        return
    cnt, inp = {}, {}
    for a in info:
        o = a["out_irreps_position"]
        inp.setdefault(o, set()).add(a["in_irrep"])
        cnt[(a["in_irrep"], o)] = cnt.get((a["in_irrep"], o), 0) + 1
    want = np.array([1. / np.sqrt(len(inp[a["out_irreps_position"]]) * cnt[(a["in_irrep"], a["out_irreps_position"])]) for a in info])
    _, other = layer(name, dim, rng)
    Bo = manager(other)
    D = []
    R = 40
    for r in range(R):
        if r % 20 == 0:
            enn.init.generalized_he_init(torch.zeros(Bo.dimension()), Bo, cache=True)
        w = torch.full((n,), np.nan)
        torch.manual_seed(1000 + r)
        enn.init.generalized_he_init(w, B, cache=bool(r % 3 == 1))
        if r < 4:
            w2 = torch.full((n,), np.nan)
            torch.manual_seed(1000 + r)
            enn.init.generalized_he_init(w2, B, cache=not bool(r % 3 == 1))
            m.check(torch.equal(w, w2), "same-seed-same-weights", r=r, tag=tag)
        m.check(bool(torch.isfinite(w).all()), "every-weight-initialised", tag=tag)
        D.append(w.numpy() / want)
    D = np.stack(D).astype(float)
    N = D.size
    m.event("he-draws", f"{tag}:{dim}:{i}")
    # standardised draws are independent standard normals: all of them together, each weight, and each pair of neighbours
    m.check(abs(D.mean()) < 6 / np.sqrt(N) and abs((D ** 2).mean() - 1) < 6 * np.sqrt(2. / N), "he-variances", mean=float(D.mean()), var=float((D ** 2).mean()), N=N, tag=tag)
    v = (D ** 2).mean(0)
    m.check(v.max() < 1 + 7 * np.sqrt(2. / R) + .8 and v.min() > .1, "he-variances-per-weight", mx=float(v.max()), mn=float(v.min()), tag=tag)
    if n > 1:
        c = (D[:, 1:] * D[:, :-1]).mean()
        m.check(abs(c) < 6 / np.sqrt(R * (n - 1)), "he-weights-independent", corr=float(c), tag=tag)
        Z = D - D.mean(0)
        C = (Z.T @ Z) / R / np.sqrt(np.outer((Z ** 2).mean(0), (Z ** 2).mean(0)))
        np.fill_diagonal(C, 0)
        m.check(np.abs(C).max() < .9, "he-weights-not-shared", tag=tag, corr=float(np.abs(C).max()))
    # a weight initialised in place is the module's own, and the constructor draws it by the same rule
    for rebuild in range(2):
        torch.manual_seed(77 + rebuild)
        a = spec.build()
        if float(a.weights.detach().abs().max()) == 0.:
            m.event("not-initialised")
            break
        wa = a.weights.detach().numpy().astype(float) / want
        m.check(np.isfinite(wa).all() and (np.abs(wa) > 0).all(), "constructor-draws-every-weight", tag=tag)
        m.check(abs((wa ** 2).mean() - 1) < 8 * np.sqrt(2. / n) + 16. / n, "constructor-variances", var=float((wa ** 2).mean()), n=n, tag=tag)
        torch.manual_seed(77 + rebuild)
        b = spec.build()
        m.check(torch.equal(a.weights, b.weights), "constructor-reproducible", tag=tag)
    if name in ("pointconv", "tensorproduct"):
        return
    # power: with these variances, unit white noise gives each output irrep an expected squared norm equal to its size
    tin, tout = mod.in_type, mod.out_type
    if not all(np.allclose(r.change_of_basis @ r.change_of_basis.T, np.eye(r.size), atol=1e-6) for t in (tin, tout) for r in t.representations):
        m.event("skew-type")
        return
    pick = range(n) if n <= 80 else sorted(rng.choice(n, 80, replace=False).tolist())
    G_ = spec.sp.fibergroup
    power = {}
    with torch.no_grad():
        for w in pick:
            e = torch.zeros(n)
            e[w] = 1.
            F = B(e).numpy().astype(float)
            s = G_.irrep(*info[w]["out_irrep"]).size
            q = (F ** 2).sum()
            m.close(q, float(s), "filter-normalised", 1e-3, tag=tag, w=w)
            power.setdefault(info[w]["out_irreps_position"], []).append(want[w] ** 2 * q / s)
    if len(pick) == n:
        for o, p in power.items():
            m.close(sum(p), 1., "white-noise-power", 1e-3, tag=tag, out_irrep_position=o)
            m.event("power", f"{tag}:{o}")


def isometry(m, i):
    """The delta-orthonormal linear map is an isometry (or the adjoint of one), for every type made of the same irreps."""
    rng = m.rng()
    sp = zoo.pick_space(rng, 0)
    g = sp.fibergroup
    nf = int(rng.randint(1, 5))
    reps = [rand_rep(g, rng, 2, 6, ["irrep", "sum", "basis", "regular"])[0] for _ in range(nf)]
    t = enn.FieldType(sp, reps)
    perm = rng.permutation(nf)
    tout = enn.FieldType(sp, [reps[j] for j in perm])
    try:
        mod = enn.Linear(t, tout, bias=False, initialize=bool(rng.rand() < .5))
    except (ValueError, eg.InsufficientIrrepsException):
        raise Skip("empty")
    w = torch.full_like(mod.weights.data, np.nan)
    np.random.seed(int(rng.randint(2 ** 31)))
    torch.manual_seed(int(rng.randint(2 ** 31)))
    try:
        enn.init.deltaorthonormal_init(w, mod.basisexpansion)
    except AssertionError:
        m.event("delta-refused")
        m.check(False, "delta-accepts-square-layers", t=desc(t))
        return
    m.check(bool(torch.isfinite(w).all()), "delta-initialised", t=desc(t))
    mod.weights.data.copy_(w)
    with torch.no_grad():
        W = mod.expand_parameters()[0].numpy().astype(float)
    m.event("isometry", desc(t))
    m.close(W @ W.T, np.eye(len(W)), "delta-isometry", 1e-4, t=desc(t), tout=desc(tout))
    info = list(mod.basisexpansion.get_basis_info())
    for a, v in zip(info, w.tolist()):
        if a["in_irrep"] != a["out_irrep"]:
            m.check(v == 0., "delta-between-different-irreps")


def delta(m, name, dim, i):
    rng = m.rng()
    spec, mod = layer(name, dim, rng)
    B = manager(mod)
    n = B.dimension()
    info = list(B.get_basis_info())
    w = torch.full((n,), np.nan)
    np.random.seed(int(rng.randint(2 ** 31)))
    try:
        enn.init.deltaorthonormal_init(w, B)
    except AssertionError:
        m.event("delta-refused", str(dim))
        return
    m.check(bool(torch.isfinite(w).all()), "delta-initialised")
    for a, val in zip(info, w.tolist()):
        rad = a.get("radius", 0.)
        if a["in_irrep"] != a["out_irrep"] or abs(rad) > 1e-9:
            m.check(val == 0., "delta-off-centre-zero", radius=rad)
    by = {}
    for j, a in enumerate(info):
        if a["in_irrep"] == a["out_irrep"] and abs(a.get("radius", 0.)) < 1e-9:
            by.setdefault(a["in_irrep"], {}).setdefault((a["out_irreps_position"], a["in_irreps_position"]), []).append(float(w[j]))
    for irr, d in by.items():
        os_, is_ = sorted({q[0] for q in d}), sorted({q[1] for q in d})
        W = np.array([[np.linalg.norm(d[(o, j)]) for j in is_] for o in os_])
        # every row (or column) of the matrix of block norms has unit length
        m.event("delta-orthonormal", f"{W.shape}:{type(mod).__name__}")
        m.close((W ** 2).sum(1 if len(os_) <= len(is_) else 0), np.ones(min(W.shape)), "delta-unit-rows", 1e-4, shape=W.shape, irrep=irr)
        if max(len(q) for q in d.values()) == 1:
            W = np.array([[d[(o, j)][0] for j in is_] for o in os_])
            Gm = W @ W.T if len(os_) <= len(is_) else W.T @ W
            m.close(Gm, np.eye(len(Gm)), "delta-orthonormal", 1e-5, shape=W.shape)
