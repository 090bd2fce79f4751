"""C11: kernel bases are complete, independent and correctly described."""
import copy
import numpy as np, torch
from core import Case
from lib import *
from spaces import *
import checks.c10 as c10
RULE = ("a case = one G-space, kernel factory or point and random pairs of representations with well separated radial profiles; the dimension is "
        "compared with a character integral over the group, the rank with the dimension, every element's support block, radial profile and angular "
        "frequency with its attributes, iteration with indexing, filtered with unfiltered bases, and equality/hash with samples")
ASSUMPTIONS = ["rings are at least 0.8 apart with sigma <= 0.45 so that independence is numerically decidable",
               "the G-space passes its maximum frequency to the basis (as every module does)"]
prewarm = c10.prewarm


def cases(tier, rng):
    out = []
    for d in TWO_D + THREE_D:
        for i in range(1 if tier == "quick" else 5):
            out.append(Case("spaces", core=(i == 0), d=d, i=i))
    for f in c10.FACT:
        for i in range(1 if tier == "quick" else 4):
            out.append(Case("factory", f=f, i=i))
    for s in ["C4", "D3", "SO2:3", "O2:3", "SO3:2", "O3:2", "Octa", "FOcta", "Ico", "C3*D3", "Dbl(C4)", "CylD4", "C5*C5"]:
        out.append(Case("point", spec=s))
    for k in ("circular", "spherical"):
        for i in range(3 if tier == "quick" else 10):
            out.append(Case("filters", kind_=k, i=i))
    out.append(Case("orbit", i=0))
    for d in rng.sample(TWO_D, 4) + rng.sample([x for x in THREE_D if "co" not in x[0][:7]], 4):
        out.append(Case("equality", core=False, d=d))
    for i in range(2):
        out.append(Case("equality2", i=i))
    return out


def chi_l(A, l):
    A = np.asarray(A, float)
    det = np.sign(np.linalg.det(A))
    if len(A) == 2:
        if l == 0:
            return 1.
        return 2 * np.cos(l * np.arctan2(A[1, 0], A[0, 0])) if det > 0 else 0.
    t = np.arccos(np.clip((np.trace(A * det) - 1) / 2, -1, 1))
    c = (2 * l + 1) if t < 1e-7 else np.sin((2 * l + 1) * t / 2) / np.sin(t / 2)
    return c * (det ** l)


def tr(r, x):
    return float(np.trace(np.asarray(r(x), float)))


def deg_of(g, r):
    return max(degree(g, g.irrep(*i)) for i in r.irreps)


def expected(g, act, a, b, L):
    """dimension of the equivariant kernels of each frequency 0..L on one shell"""
    q, w = haar(g, L + deg_of(g, a) + deg_of(g, b)) if g.order() < 0 else (list(g.elements), None)
    if w is None:
        w = np.full(len(q), 1. / len(q))
    ab = np.array([tr(a, x) * tr(b, x) for x in q]) * w
    M = [act(x) for x in q]
    return [float((ab * np.array([chi_l(A, l) for A in M])).sum()) for l in range(L + 1)]


def rings_sigma(rng):
    n = rng.randint(1, 4)
    r = list(np.round(np.cumsum(.8 + .4 * rng.rand(n)), 3))
    if rng.rand() < .5:
        r[0] = 0.
    s = [float(np.round(.25 + .2 * rng.rand(), 3)) for _ in r]
    return [float(x) for x in r], s


def shell_points(rng, dim, rings, n):
    u = rng.randn(n, dim)
    u /= np.linalg.norm(u, axis=1, keepdims=True)
    return u * (rng.rand(n, 1) * (max(rings) + .8) + .02)


def samp(basis, P, dtype=torch.float32):
    return basis.sample(torch.tensor(np.asarray(P), dtype=dtype)).detach().double().numpy()


def rank_is_full(m, K, dim, tag):
    """K: S,dim,out,in"""
    X = K.transpose(1, 0, 2, 3).reshape(dim, -1)
    X = X / np.maximum(np.linalg.norm(X, axis=1, keepdims=True), 1e-12)
    s = np.linalg.svd(X, compute_uv=False)
    m.check(len(s) >= dim and s[-1] > 2e-3, "linearly-independent", smallest=float(s[-1]) if len(s) >= dim else 0., dim=dim, **tag)


def same_attr(x, y):
    if isinstance(x, (float, np.floating)) or isinstance(y, (float, np.floating)):
        return abs(float(x) - float(y)) < 1e-6
    return x == y


def judge_attrs(m, basis, tag):
    L1 = [dict(a) for a in basis]
    m.check(len(L1) == basis.dim == len(basis), "iteration-length", count=len(L1), dim=basis.dim, **tag)
    for i, a in enumerate(L1):
        b = dict(basis[i])
        m.check(a["idx"] == i and b["idx"] == i, "attribute-index", i=i, it=a["idx"], get=b["idx"], **tag)
        bad = [k for k in set(a) | set(b) if k not in a or k not in b or not same_attr(a[k], b[k])]
        if not m.check(not bad, "iteration-equals-indexing", i=i, keys=bad, it={k: a.get(k) for k in bad}, get={k: b.get(k) for k in bad}, **tag):
            break
    return L1


def judge_element(m, basis, a, b, attrs, dim, rng, tag, sparse=False):
    """attributes describe the samples: block, radial profile, frequency"""
    idx = range(basis.dim) if basis.dim <= 12 else sorted(rng.choice(basis.dim, 12, replace=False))
    P = rng.randn(5, dim)
    if not sparse:
        rr = sorted(set(round(x["radius"], 4) for x in attrs))
        u = rng.randn(4, dim)
        P = np.concatenate([P] + [u / np.linalg.norm(u, axis=1, keepdims=True) * (r + .1) for r in rr])
    K = samp(basis, P)
    Kb = np.einsum("op,sbpi,ij->sboj", np.asarray(b.change_of_basis_inv), K, np.asarray(a.change_of_basis))
    g = a.group
    osz, isz = [g.irrep(*i).size for i in b.irreps], [g.irrep(*i).size for i in a.irreps]
    oo, ii = np.concatenate([[0], np.cumsum(osz)]), np.concatenate([[0], np.cumsum(isz)])
    u = rng.randn(dim)
    u /= np.linalg.norm(u)
    radii = np.array([.2, .7, 1.1, 1.9, 2.6])
    Kr = samp(basis, radii[:, None] * u)
    for i in idx:
        at = attrs[i]
        o, n = at["out_irrep_idx"], at["in_irrep_idx"]
        m.check(tuple(b.irreps[o]) == tuple(at["out_irrep"]) and tuple(a.irreps[n]) == tuple(at["in_irrep"]), "attribute-irreps", i=i, **tag)
        m.check(tuple(at["shape"]) == (osz[o], isz[n]), "attribute-shape", i=i, got=at["shape"], **tag)
        R = Kb[:, i].copy()
        R[:, oo[o]:oo[o + 1], ii[n]:ii[n + 1]] = 0
        m.close(R, 0 * R, "element-lives-in-its-block", 2e-4, i=int(i), attr=at, **tag)
        m.check(np.abs(Kb[:, i]).max() > 1e-6 or sparse, "element-nonzero", i=int(i), **tag)
        if sparse:
            continue
        prof = np.exp(-.5 * (radii - at["radius"]) ** 2 / at["sigma"] ** 2)
        j = int(prof.argmax())
        m.close(Kr[:, i] * prof[j], Kr[j, i][None] * prof[:, None, None], "radial-profile", 1e-3, i=int(i), attr=at, **tag)
    if not sparse:
        frequencies(m, basis, attrs, idx, dim, rng, tag)


def frequencies(m, basis, attrs, idx, dim, rng, tag):
    L = max(a["irrep:frequency"] for a in attrs)
    R = 1.0
    if dim == 2:
        M = 2 * L + 6
        t = PI2 * np.arange(M) / M
        K = samp(basis, R * np.stack([np.cos(t), np.sin(t)], 1))
        F = np.abs(np.fft.fft(K, axis=0)) / M
        for i in idx:
            f = attrs[i]["irrep:frequency"]
            E = F[:, i].reshape(M, -1).max(1)
            keep = {f % M, (-f) % M}
            off = max(E[k] for k in range(M) if k not in keep)
            m.check(off <= 2e-4 * (1 + E.max()), "angular-frequency", i=int(i), attr=attrs[i], off=float(off), **tag)
    else:
        from numpy.polynomial.legendre import leggauss, Legendre
        x, w = leggauss(L + 2)
        M = 2 * L + 4
        ph = PI2 * np.arange(M) / M
        Y = np.array([[np.sqrt(1 - z * z) * np.cos(p), np.sqrt(1 - z * z) * np.sin(p), z] for z in x for p in ph])
        W = np.repeat(w / 2., M) / M
        K = samp(basis, R * Y)
        Q = rng.randn(4, 3)
        Q /= np.linalg.norm(Q, axis=1, keepdims=True)
        KQ = samp(basis, R * Q)
        for i in idx:
            f = attrs[i]["irrep:frequency"]
            Pl = Legendre.basis(f)(np.clip(Q @ Y.T, -1, 1)) * W[None] * (2 * f + 1)
            m.close(np.einsum("qy,yoi->qoi", Pl, K[:, i]), KQ[:, i], "angular-frequency", 5e-4, i=int(i), attr=attrs[i], **tag)


def judge(m, basis, g, act, a, b, rings, sigma, L, dim, rng, tag):
    attrs = judge_attrs(m, basis, tag)
    n = max(8, int(np.ceil(4. * basis.dim / (a.size * b.size))))
    rank_is_full(m, samp(basis, shell_points(rng, dim, rings, min(n * 3, 600))), basis.dim, tag)
    judge_element(m, basis, a, b, attrs, dim, rng, tag)
    cnt = {}
    for at in attrs:
        k = (round(at["radius"], 5), at["irrep:frequency"])
        cnt[k] = cnt.get(k, 0) + 1
    return attrs, cnt


def verdict_dim(m, build, g, act, a, b, rings, sigma, L, dim, rng, tag):
    if sum(1 for _ in a.irreps) * sum(1 for _ in b.irreps) > 200:
        return None
    try:
        basis = build()
        got = basis.dim
    except ek.EmptyBasisException:
        basis, got = None, 0
    except eg.InsufficientIrrepsException:
        m.event("documented-refusal")
        return None
    want = expected(g, act, a, b, L)
    m.event("basis", f"{tag}:{got}"[:120])
    m.close(float(got), len(rings) * sum(want), "dimension-from-characters", 1e-4, per_frequency=[round(x, 3) for x in want], **tag)
    if basis is None:
        return None
    attrs, cnt = judge(m, basis, g, act, a, b, rings, sigma, L, dim, rng, tag)
    for r in rings:
        for l in range(L + 1):
            m.close(float(cnt.get((round(r, 5), l), 0)), want[l], "count-per-ring-and-frequency", 1e-3, ring=r, l=l, **tag)
    return basis


def spaces(m, d, i):
    sp = space(d)
    g = sp.fibergroup
    rng = m.rng()
    n = 3 if m.tier == "quick" else 8
    for t in range(n):
        (a, da), (b, db) = reps_for(sp, rng, 5 if sp.dimensionality == 3 else 8, skew=True)
        rings, sigma = rings_sigma(rng)
        L = int(rng.randint(0, 4)) if sp.dimensionality == 3 else int(rng.randint(0, 6))
        verdict_dim(m, lambda: sp.build_kernel_basis(a, b, sigma, rings, maximum_frequency=L), g, sp.basespace_action, a, b, rings, sigma, L,
                    sp.dimensionality, rng, dict(space=sname(d), rin=da, rout=db, rings=rings, L=L))
    if d[1].get("N") == -1:      # continuous planar groups choose the band limit themselves: complete without a cut-off
        (a, da), (b, db) = reps_for(sp, rng, 5, skew=True)
        L = deg_of(g, a) + deg_of(g, b)
        verdict_dim(m, lambda: sp.build_kernel_basis(a, b, .4, [0., 1.]), g, sp.basespace_action, a, b, [0., 1.], .4, L, 2, rng,
                    dict(space=sname(d), rin=da, rout=db, default=True))
        w = expected(g, sp.basespace_action, a, b, L + 2)
        m.close(w[L + 1:], [0., 0.], "default-band-limit-complete", 1e-5, space=sname(d), rin=da, rout=db)


def factory(m, f, i):
    rng = m.rng()
    for t in range(2 if m.tier == "quick" else 8):
        pred = FILTERS[rng.randint(len(FILTERS))]
        st = rng.get_state()
        g, act, build, dim = c10.make(f, rng)
        rng.set_state(st)
        g2, act2, fbuild, _ = c10.make(f, rng, filt=pred)
        (a, da), (b, db) = [rand_rep(g, rng, 2, 5, ["irrep", "irrep", "sum", "basis", "skew"]) for _ in range(2)]
        rings, sigma = rings_sigma(rng)
        L = int(rng.randint(0, 4))
        tag = dict(factory=f, group=g.name, rin=da, rout=db, rings=rings, L=L)
        if f in ("dodecahedron", "icosahedron", "icosidodecahedron"):
            sparse(m, f, g, act, build, a, b, rings, sigma, rng, tag)
            continue
        basis = verdict_dim(m, lambda: build(a, b, rings, sigma, L), g, act, a, b, rings, sigma, L, dim, rng, tag)
        if basis is None:
            continue
        keep = [k for k, at in enumerate(basis) if pred(at)]
        try:
            fb = fbuild(a, b, rings, sigma, L)
        except ek.EmptyBasisException:
            m.check(not keep, "filter-removes-exactly", kept=len(keep), got=0, **tag)
            continue
        m.event("filtered", f"{f}:{len(keep)}/{basis.dim}")
        if not m.check(fb.dim == len(keep), "filter-removes-exactly", kept=len(keep), got=fb.dim, **tag):
            continue
        P = rng.randn(6, dim)
        m.close(samp(fb, P), samp(basis, P)[:, keep], "filtered-elements-are-the-kept-ones", 1e-4, **tag)
        at2 = judge_attrs(m, fb, tag)
        at1 = list(basis)
        for x, k in zip(at2, keep):
            m.check(all(same_attr(x[q], at1[k][q]) for q in ("radius", "sigma", "irrep:frequency", "j", "in_irrep_idx", "out_irrep_idx", "in_irrep", "out_irrep")),
                    "filtered-attributes", got={q: x[q] for q in ("radius", "j", "in_irrep_idx", "out_irrep_idx")}, want={q: at1[k][q] for q in ("radius", "j", "in_irrep_idx", "out_irrep_idx")}, **tag)


FILTERS = [lambda a: a["irrep:frequency"] <= a["radius"] * 2., lambda a: a["irrep:frequency"] % 2 == 0, lambda a: a["radius"] > .5,
           lambda a: not (a["irrep:frequency"] == 1 and a["radius"] < 1.), lambda a: a["irrep:frequency"] > 0, lambda a: a["radius"] < 1.]


def sparse(m, f, g, act, build, a, b, rings, sigma, rng, tag):
    order = {"dodecahedron": 5, "icosahedron": 3, "icosidodecahedron": 2}[f]
    perm = g.quotient_representation((False, order))
    E = list(g.elements)
    ab = np.array([tr(a, x) * tr(b, x) for x in E]) / len(E)
    w0, w1 = float(ab.sum()), float((ab * np.array([tr(perm, x) for x in E])).sum())
    sigma = [.3] * len(rings)
    want = sum(w0 if r == 0 else w1 for r in rings)
    try:
        basis = build(a, b, rings, sigma, 0)
        got = basis.dim
    except ek.EmptyBasisException:
        basis, got = None, 0
    m.event("sparse-basis", f"{f}:{got}")
    m.close(float(got), want, "dimension-from-characters", 1e-4, **tag)
    if basis is not None:
        attrs = judge_attrs(m, basis, tag)
        n = max(40, int(np.ceil(12. * basis.dim / (a.size * b.size))))
        rank_is_full(m, samp(basis, shell_points(rng, 3, rings, min(n, 800))), basis.dim, tag)
        for at in attrs:
            m.check(any(abs(at["radius"] - r) < 1e-6 for r in rings), "attribute-radius", got=at["radius"], **tag)


def point(m, spec):
    g = G(spec)
    rng = m.rng()
    for t in range(3 if m.tier == "quick" else 10):
        (a, da), (b, db) = [rand_rep(g, rng, 2, 9, ["irrep", "sum", "basis", "regular", "skew"]) for _ in range(2)]
        tag = dict(group=spec, rin=da, rout=db)
        if g.order() < 0:
            q, w = haar(g, deg_of(g, a) + deg_of(g, b))
        else:
            q = list(g.elements)
            w = np.full(len(q), 1. / len(q))
        want = sum(x * tr(a, y) * tr(b, y) for x, y in zip(w, q))
        try:
            basis = ek.kernels_on_point(a, b)
            got = basis.dim
        except ek.EmptyBasisException:
            basis, got = None, 0
        m.event("point-basis", f"{spec}:{got}")
        m.close(float(got), want, "dimension-from-characters", 1e-4, **tag)
        if basis is not None:
            attrs = judge_attrs(m, basis, tag)
            K = samp(basis, np.zeros((1, 1)))
            rank_is_full(m, K, basis.dim, tag)


def judge_filter_basis(m, B, dim, rng, tag, pred=None):
    """a steerable filter basis: attributes, order and equivariance of each block"""
    A = judge_attrs(m, B, tag)
    S1 = [dict(x) for x in B.steerable_attrs_iter()]
    m.check(len(S1) == sum(k for _, k in B.js), "steerable-count", got=len(S1), **tag)
    for i, x in enumerate(S1):
        y = dict(B.steerable_attrs(i))
        bad = [k for k in set(x) | set(y) if k not in x or k not in y or not same_attr(x[k], y[k])]
        m.check(not bad, "steerable-attrs", i=i, keys=bad, it={k: x.get(k) for k in bad}, get={k: y.get(k) for k in bad}, **tag)
        if pred is not None:
            m.check(pred(x), "filter-removes-exactly", attr=x, **tag)
    p = 0
    for j, mult in B.js:
        J = [dict(x) for x in B.steerable_attrs_j_iter(j)]
        m.check(len(J) == mult, "steerable-attrs-of-frequency", j=j, got=len(J), want=mult, **tag)
        for i in range(min(mult, len(J))):
            y = dict(B.steerable_attrs_j(j, i))
            for z, w in ((J[i], "iter"), (y, "get")):
                bad = [k for k in S1[p + i] if k not in z or not same_attr(z[k], S1[p + i][k])]
                m.check(not bad, "steerable-attrs-of-frequency", j=j, i=i, how=w, keys=bad, **tag)
        p += mult
    # samples: which element is what
    P = shell_points(rng, dim, [0., 2.], 5)
    D = B.sample_as_dict(torch.tensor(P, dtype=torch.float32))
    full = samp(B, P)[:, :, 0, 0]
    m.close(np.concatenate([D[j].reshape(5, -1).double().numpy() for j, k in B.js if k > 0], 1), full, "dict-equals-flat", 1e-6, **tag)
    p = 0
    for j, mult in B.js:
        for i in range(mult):
            at = S1[p + i]
            Y = D[j][:, i].double().numpy()
            r = np.linalg.norm(P, axis=1)
            prof = np.exp(-.5 * (r - at["radius"]) ** 2 / at["sigma"] ** 2)
            n2 = (Y ** 2).sum(1)
            # on a shell, the squared norm of a steerable block is constant: only the radial profile remains
            k = int(prof.argmax())
            m.close(n2 * prof[k] ** 2, n2[k] * prof ** 2, "steerable-radial-profile", 1e-3, j=j, i=i, attr=at, **tag)
        p += mult
    for g in action_elements(B.group, rng, 4):
        Mt = np.asarray(B.action(g), float)
        Dg = B.sample_as_dict(torch.tensor(P @ Mt.T, dtype=torch.float32))
        for j, mult in B.js:
            if mult:
                m.close(Dg[j].double().numpy(), np.einsum("ab,smb->sma", np.asarray(B.group.irrep(*j)(g), float), D[j].double().numpy()), "filters-steerable", 2e-4, j=j, g=g, **tag)


def filters(m, kind_, i):
    rng = m.rng()
    rings, sigma = rings_sigma(rng)
    while len(rings) < 2:
        rings, sigma = rings_sigma(rng)
    rad = ek.GaussianRadialProfile(rings, sigma)
    judge_attrs(m, rad, dict(what="radial"))
    L = int(rng.randint(1, 5))
    dim = 2 if kind_ == "circular" else 3
    mk = (lambda f, **k: ek.CircularShellsBasis(L, rad, filter=f, **k)) if dim == 2 else (lambda f: ek.SphericalShellsBasis(L, rad, filter=f))
    B = mk(None)
    tag = dict(kind=kind_, L=L, rings=rings)
    m.event("filters", f"{kind_}:{L}:{len(rings)}")
    judge_filter_basis(m, B, dim, rng, tag)
    n = 2 * L + 1 if dim == 2 else (L + 1) ** 2
    m.check(B.dim == n * len(rings), "filters-dimension", got=B.dim, **tag)
    P = shell_points(rng, dim, rings, 5)
    for p, pred in enumerate(FILTERS):
        keep = [k for k, at in enumerate(B) if pred(at)]
        try:
            F = mk(pred)
        except ek.EmptyBasisException:
            m.check(not keep, "filter-removes-exactly", kept=len(keep), got=0, **tag)
            continue
        if not m.check(F.dim == len(keep), "filter-removes-exactly", kept=len(keep), got=F.dim, **tag):
            continue
        m.close(samp(F, P), samp(B, P)[:, keep], "filtered-elements-are-the-kept-ones", 1e-5, **tag)
        judge_filter_basis(m, F, dim, rng, dict(tag, filter=p), pred)
        F2 = mk(pred)
        for q, pred2 in enumerate(FILTERS):
            try:
                H = mk(pred2)
            except ek.EmptyBasisException:
                continue
            judge_eq(m, F, H, P, dict(tag, filters=(p, q)))
        judge_eq(m, F, B, P, dict(tag, filters=(p, None)))
        judge_eq(m, F, F2, P, dict(tag, filters=(p, p)), True)
    if dim == 2:
        for ax in (0., .4, np.pi / 2):
            C = mk(None, axis=ax)
            judge_filter_basis(m, C, 2, rng, dict(tag, axis=ax))
            judge_eq(m, B, C, P, dict(tag, axis=ax), ax == np.pi / 2)


def judge_eq(m, A, B, P, tag, must=False, dtype=torch.float32):
    e = bool(A == B)
    m.event("equal" if e else "different")
    if must:
        m.check(e, "same-arguments-compare-equal", **tag)
    m.check(e == bool(B == A), "equality-symmetric", **tag)
    m.check((A != B) == (not e), "equality-negation", **tag)
    hash(A), hash(B)
    if e:
        m.check(hash(A) == hash(B), "equal-bases-hash-equal", **tag)
        if m.check(A.dim == B.dim and tuple(A.shape) == tuple(B.shape), "equal-bases-same-shape", **tag):
            m.close(samp(A, P), samp(B, P, dtype), "equal-bases-sample-equal", 1e-4, **tag)


def equality(m, d):
    sp = space(d)
    rng = m.rng()
    g = sp.fibergroup
    (a, da), (b, db) = reps_for(sp, rng, 6)
    c = eg.change_basis(a, rand_orth(rng, a.size), f"cob_{rng.randint(10**9)}")
    P = rng.randn(5, sp.dimensionality)
    L = []
    for (x, y) in ((a, b), (c, b), (b, a), (a, a)):
        for rings, sigma in (([0., 1.], .4), ([0., 1.5], .4), ([0., 1.], .6), ([0., 1., 1.7], .4), ([1.], .4)):
            for mf in (1, 2):
                if len(rings) != 2 and mf == 2:
                    continue
                try:
                    sp2 = space(d)      # a new space: no memory of earlier bases
                    L.append(sp2.build_kernel_basis(x, y, sigma, rings, maximum_frequency=mf))
                except ek.EmptyBasisException:
                    pass
    m.event("equality", f"{sname(d)}:{len(L)}")
    for i, A in enumerate(L):
        for B in L[:i + 1]:
            judge_eq(m, A, B, P, dict(space=sname(d), rin=da, rout=db))
    double_copies(m, L[:6], P, dict(space=sname(d), rin=da, rout=db))


def double_copies(m, L, P, tag):
    """a copy in double precision is the same basis or not, but the comparison has an answer"""
    D = [copy.deepcopy(A).double() for A in L]
    for A in L:
        for B in D:
            judge_eq(m, A, B, P, dict(tag, double=True), dtype=torch.float64)


def equality2(m, i):
    """bases that differ only in axis, adjoint, filter or class"""
    rng = m.rng()
    L2, L3 = [], []
    o2, d4, o3 = eg.o2_group(3), eg.dihedral_group(4), eg.o3_group(2)
    a, b = o2.irrep(1, 1), o2.irrep(1, 2)
    for ax in (0., .3, np.pi / 2, np.pi / 2 + np.pi):
        for adj in (None, rot2(.7), rot2(.7 + 2e-3), np.diag([1., -1.]), -np.eye(2)):
            for f in (None, FILTERS[3], FILTERS[1]):
                for x, y in ((a, b), (b, a)):
                    try:
                        L2.append((ek.kernels_O2_act_R2(x, y, [.3, 1.], .4, maximum_frequency=3, axis=ax, adjoint=adj, filter=f), (ax, adj is not None, f is None)))
                    except ek.EmptyBasisException:
                        pass
    x, y = d4.irrep(1, 1), d4.regular_representation
    for ax in (0., .3):
        L2.append((ek.kernels_DN_act_R2(x, y, [.3, 1.], .4, maximum_frequency=3, axis=ax), ("DN", ax)))
    idx = rng.choice(len(L2), min(len(L2), 24), replace=False)
    L2 = [L2[k] for k in idx]
    R = rand_rot(rng)
    for adj in (None, R, R.T, R.copy(), np.diag([1., -1., 1.]), np.diag([-1., 1., -1.])):
        for f in (None, FILTERS[3]):
            L3.append((ek.kernels_O3_act_R3(o3.irrep(1, 1), o3.irrep(0, 2), [.3, 1.], .4, maximum_frequency=3, adjoint=adj, filter=f), (adj is None, f is None)))
    for L, dim in ((L2, 2), (L3, 3)):
        P = rng.randn(5, dim)
        for k, (A, ta) in enumerate(L):
            for B, tb in L[:k + 1]:
                judge_eq(m, A, B, P, dict(a=ta, b=tb))
        double_copies(m, [A for A, _ in L[:5]], P, {})
    for mk in (lambda p: p, lambda p: ek.CircularShellsBasis(2, p), lambda p: ek.SphericalShellsBasis(2, p)):
        Q = [mk(ek.GaussianRadialProfile(r, s)) for r, s in (([0., 1.], [.4, .5]), ([0., 1.], [.4, .6]), ([0., 1., 2.], [.4, .5, .5]), ([1.], [.4]), ([0., 1.], [.4, .5]))]
        P = rng.randn(5, 1 if isinstance(Q[0], ek.GaussianRadialProfile) else 2 if isinstance(Q[0], ek.CircularShellsBasis) else 3)
        for k, A in enumerate(Q):
            for B in Q[:k + 1]:
                judge_eq(m, A, B, np.abs(P) if P.shape[1] == 1 else P, dict(profile=True), must=A is B)
        double_copies(m, Q, np.abs(P) if P.shape[1] == 1 else P, dict(profile=True))


def orbit(m, i):
    """sparse filter bases on icosahedral orbits"""
    rng = m.rng()
    g = eg.ico_group()
    for n in (2, 3, 5):
        X = g.homspace((False, n))
        B = ek.SparseOrbitBasisWithIcosahedralSymmetry(X, .3)
        m.event("orbit", n)
        m.check(B.dim == g.order() // n, "orbit-dimension", n=n, got=B.dim)
        judge_attrs(m, B, dict(n=n))
        rank_is_full(m, samp(B, shell_points(rng, 3, [1.], 400)), B.dim, dict(n=n))
        B2 = ek.SparseOrbitBasisWithIcosahedralSymmetry(X, .3)
        P = rng.randn(5, 3)
        judge_eq(m, B, B2, P, dict(n=n))
        judge_eq(m, B, ek.SparseOrbitBasisWithIcosahedralSymmetry(X, .5), P, dict(n=n))
        judge_eq(m, B, ek.SparseOrbitBasisWithIcosahedralSymmetry(X, .3, change_of_basis=np.eye(3) * 2.), P, dict(n=n))
        W = [rand_orth(rng, 3), np.eye(3) * 2., slight_rotation(rng, 3), np.diag([1., -1., 1.])]
        C = [ek.SparseOrbitBasisWithIcosahedralSymmetry(X, .3, change_of_basis=w) for w in W]
        C.append(ek.SparseOrbitBasisWithIcosahedralSymmetry(X, .3, change_of_basis=W[0].copy()))
        for x in range(len(C)):
            for y in range(x + 1):
                judge_eq(m, C[x], C[y], P, dict(n=n, x=x, y=y))
