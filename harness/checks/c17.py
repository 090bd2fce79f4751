"""C17: Fourier nonlinearities sample, apply and project correctly."""
from core import Case
RULE = ("a forward call of a (quotient) Fourier nonlinearity for a distinct (group, band limit, grid, function) combination compared with the harness's transform "
        "or with the call on the transformed input")
from nnlib import *

REG = [("SO2", dict(N=12)), ("SO2", dict(N=7)), ("SO2", dict(N=16)), ("SO2", dict(N=20, type="rand", seed=3)), ("O2", dict(N=8)), ("O2", dict(N=9)), ("O2", dict(N=24, type="rand", seed=5)),
       ("C4", dict(type="regular", N=4)), ("C6", dict(type="regular", N=6)), ("C8", dict(type="regular", N=8)), ("C8", dict(type="regular", N=4)), ("C5", dict(type="regular", N=5)),
       ("D3", dict(type="regular", N=3)), ("D4", dict(type="regular", N=4)), ("D6", dict(type="regular", N=6)), ("D6", dict(type="regular", N=3)),
       ("SO3", dict(type="cube")), ("SO3", dict(type="ico")), ("SO3", dict(type="thomson_cube", N=2)), ("SO3", dict(type="thomson", N=40)), ("SO3", dict(type="fibonacci", N=80)),
       ("SO3", dict(type="hopf", N=100)), ("SO3", dict(type="tetra")),
       ("O3", dict(type="cube")), ("O3", dict(type="thomson_cube", N=1)), ("O3", dict(type="ico")),
       ("C2*C4", dict(G1_type="regular", G1_N=2, G2_type="regular", G2_N=4)), ("D3*C2", dict(G1_type="regular", G1_N=3, G2_type="regular", G2_N=2)),
       ("Cyl:2", dict(G1_type="regular", G1_N=2, G2_N=10)), ("CylD4", dict(G1_type="regular", G1_N=2, G2_type="regular", G2_N=4))]
QUO = [("SO3", (False, -1)), ("O3", ("cone", -1)), ("SO3", (False, 2)), ("O3", (False, False, -1)), ("O2", (None, 2)), ("O2", (0., 1)), ("SO2", 2), ("SO2", 3), ("D4", (0, 1)), ("D4", (None, 2)), ("D6", (1, 2)), ("C8", 2), ("C6", 3),
       ("Octa", (False, 4)), ("Octa", (False, 2)), ("Ico", (False, 5)), ("D3*C2", ((0, 1), 1)), ("CylD4", (1, 2)), ("O2", (None, 1)), ("D4", (1, 1)), ("D5", (2, 1))]
FUN = {"p_relu": lambda v: np.maximum(v, 0), "p_elu": lambda v: np.where(v > 0, v, np.expm1(np.minimum(v, 0))),
       "p_sigmoid": lambda v: 1 / (1 + np.exp(-v)), "p_tanh": np.tanh}


def cases(tier, seed):
    out = []
    k = 2 if tier == "quick" else 10
    for g, kw in REG:
        for i in range(k):
            out.append(Case("regular", g=g, kw=kw, i=i))
    for g, sid in QUO:
        for i in range(k):
            out.append(Case("quotient", g=g, sid=list(sid) if isinstance(sid, tuple) else sid, i=i))
    for g in ("SO2", "O2", "SO3", "C8", "D4"):
        out += [Case("approximate", g=g, i=i) for i in range(k)]
    return out


def band(G_, g, rng, small=False):
    """Band-limited list of irreps, in natural order or shuffled, with or without gaps."""
    k = kind(G_)
    mf = {"SO2": 3, "O2": 3, "SO3": 2, "O3": 2 if not small else 1}.get(k, 2)
    irr = irreps_of(G_, mf)
    ids = [r.id for r in irr]
    c = rng.randint(3)
    if c == 1:
        ids = [ids[j] for j in rng.permutation(len(ids))]
    elif c == 2:
        ids = [q for q in ids if rng.rand() < .7] or ids
    sz = 0
    out = []
    for q in ids:
        s = G_.irrep(*q).size ** 2
        if sz + s > 40 and out:
            continue
        sz += s
        out.append(q)
    return out


def delta(G_, irreps):
    """Coefficients of the Dirac delta at the identity in the band-limited regular representation."""
    o = []
    for q in irreps:
        r = G_.irrep(*q)
        c = r.size // r.sum_of_squares_constituents
        o.append((np.eye(r.size)[:, :c] * math.sqrt(r.size)).T.reshape(-1))
    return np.concatenate(o)


def plancherel(m, G_, rho, k, label, quotient):
    """Sampling by translated deltas is an isometry up to scale over the whole group: every coefficient is seen equally."""
    L = 2 * max([0] + [degree(G_, G_.irrep(*q)) for q in rho.irreps])
    E, w = haar(G_, L)
    if len(E) > 2500:
        return
    M = sum(wi * np.outer(v, v) for wi, v in ((wi, np.asarray(rho(e), float) @ k) for e, wi in zip(E, w)))
    M = M / (k @ k) * rho.size
    p, seen = 0, {}
    for q in rho.irreps:                             # one positive weight per irrep, the same for all its copies
        d = G_.irrep(*q).size
        if quotient:
            seen.setdefault(q, M[p, p])
            m.check(seen[q] > 1e-3, "delta-sees-every-irrep", rep=rho, irrep=q)
            M[p:p + d] /= max(seen[q], 1e-9)
        p += d
    m.close(M, np.eye(rho.size), "delta-sees-all-coefficients", 1e-5, rep=rho, label=label)


def closed(G_, grid, g):
    """g permutes the sampling grid."""
    M = np.stack([mat(e) for e in grid])
    P = np.stack([mat(g @ e) for e in grid])
    return np.abs(P[:, None] - M[None]).max((2, 3)).min(1).max() < 1e-6


def drive(m, mk, G_, sp, rho_of, kern_of, irreps, grid, rng, channels, tag, quotient=None):
    rho = rho_of(irreps)
    kern = kern_of(irreps)
    if not m.check(len(kern) == rho.size, "coefficients", tag=tag):
        return
    plancherel(m, G_, rho, kern, tag, quotient)
    R = np.stack([np.asarray(rho(e), float) for e in grid])
    D = np.stack([mat(e) for e in grid]) if len(grid) <= 400 else None
    for normalize in (True, False):
        k = kern / np.linalg.norm(kern) if normalize else kern
        A = R @ k
        sv = np.linalg.svd(A, compute_uv=False)
        full = len(sv) == rho.size and sv[-1] ** 2 > 1e-3 * sv[0] ** 2
        out_irreps = None
        if rng.rand() < .4:
            pool = [q for q in irreps if rng.rand() < .7] or list(irreps[:1])
            extra = [q for q in band(G_, None, rng, True) if q not in pool]
            out_irreps = pool + [q for q in extra if rng.rand() < .3 and rho_of([q]) is not None]
            rng.shuffle(out_irreps)
        if out_irreps is None:
            ext, rout, Aout = list(irreps), rho, A
        else:
            ext = list(out_irreps) + [q for q in irreps if q not in out_irreps]
            rext, rout = rho_of(ext), rho_of(out_irreps)
            ko = kern_of(ext)
            ko = ko / np.linalg.norm(ko) if normalize else ko
            Aout = np.stack([np.asarray(rext(e), float) for e in grid]) @ ko
        sv2 = np.linalg.svd(Aout, compute_uv=False)
        well = len(sv2) == Aout.shape[1] and sv2[-1] ** 2 > 1e-3 * sv2[0] ** 2
        # the library regularises by 1e-8 and keeps the matrices in single precision
        tol = min(2e-3, 1e-4 + 1e-7 / sv2[-1] ** 2 + 2e-6 * sv2[0] / sv2[-1]) if well else None
        Ainv = (np.linalg.pinv(Aout) if well else np.linalg.inv(Aout.T @ Aout + 1e-8 * np.eye(Aout.shape[1])) @ Aout.T)[:rout.size]
        for fn in [["p_relu", "p_elu", "p_sigmoid", "p_tanh"][j] for j in rng.permutation(4)[:2]]:
            inplace = bool(rng.randint(2))
            mod = mk(fn, inplace, out_irreps, normalize)
            t = mod.in_type
            opt = f"{tag}:{fn}:norm{normalize}:out{out_irreps is not None}"
            m.check(len(t) == channels and t.representations[0].irreps == rho.irreps and mod.out_type.size == channels * rout.size, "types", opt=opt)
            for kd in ("normal", "huge", "zero", "negative"):
                shp = (2,) + tuple(int(v) for v in rng.randint(1, 4, sp.dimensionality))
                x = rand_input(rng, t, shp, kd)
                xt = T(x)
                y = mod(t(xt))
                m.event("forward", f"{opt}:{kd}:{len(irreps)}")
                m.check(torch.equal(xt, T(x)), "input-untouched", opt=opt)
                m.check(y.type == mod.out_type and tuple(y.shape[2:]) == tuple(shp[1:]), "out-type", opt=opt)
                xh = x.astype(float).reshape((shp[0], channels, rho.size) + shp[1:])
                f = FUN[fn](np.einsum("bcf...,gf->bcg...", xh, A))
                ref = np.einsum("bcg...,fg->bcf...", f, Ainv).reshape((shp[0], -1) + shp[1:])
                s = max(1e-9, np.abs(ref).max(), np.abs(f).max() * np.abs(Ainv).sum(1).max() * 1e-2)
                if well:
                    m.close(y.tensor.numpy() / s, ref / s, "reference-transform", tol, opt=opt, irreps=irreps, out=out_irreps)
                else:
                    m.event("ill-conditioned-grid")
            if not well:
                continue
            # near zero tanh and elu are the identity: band-limited functions on a sufficient grid come back unchanged
            if fn in ("p_tanh", "p_elu") and full and out_irreps is None:
                x = rand_input(rng, t, (3,) + (2,) * sp.dimensionality) * 1e-3
                y = mod(t(T(x))).tensor.numpy()
                m.close(y * 1e3, x * 1e3, "identity-function", 2e-2 if fn == "p_elu" else 2e-3, opt=opt)
            # exact equivariance under the elements which permute the grid
            E = action_elements(G_, rng, 4) + [grid[j] for j in rng.randint(0, len(grid), 4)]
            for g in E:
                if g == G_.identity or len(grid) > 400 or not closed(G_, grid, g):
                    continue
                x = rand_input(rng, t, (2,) + (1,) * sp.dimensionality)
                y = mod(t(T(x))).tensor.numpy()
                yg = mod(t(T(fiber_act(x, t.representations, g)))).tensor.numpy()
                ref = fiber_act(y, mod.out_type.representations, g)
                if out_irreps is None or True:
                    m.event("grid-symmetry", f"{opt}:{g}")
                    m.close(yg, ref, "grid-equivariance", 2e-3, opt=opt, g=g, irreps=irreps, out=out_irreps)
            md = mod.double()
            x = rand_input(rng, t, (2,) + (1,) * sp.dimensionality, "normal", np.float64)
            yd = md(enn.GeometricTensor(torch.tensor(x), t)).tensor
            m.check(yd.dtype == torch.float64, "double-kept", opt=opt)


def sp_for(g, rng):
    o = [gs.no_base_space(G(g))]
    if g == "SO2":
        o.append(gs.rot2dOnR2(-1))
    elif g == "O2":
        o.append(gs.flipRot2dOnR2(-1))
    elif g == "SO3":
        o.append(gs.rot3dOnR3())
    elif g == "O3":
        o.append(gs.flipRot3dOnR3())
    elif g[0] == "C" and g[1:].isdigit():
        o.append(gs.rot2dOnR2(int(g[1:])))
    elif g[0] == "D" and g[1:].isdigit():
        o.append(gs.flipRot2dOnR2(int(g[1:])))
    return o[rng.randint(len(o))]


def regular(m, g, kw, i):
    rng = m.rng()
    sp = sp_for(g, rng)
    G_ = sp.fibergroup
    irreps = band(G_, g, rng)
    grid = G_.grid(**kw)
    c = int(rng.randint(1, 4))
    seen = {}

    def mk(fn, inplace, out_irreps, normalize):
        if fn == "p_elu" and rng.rand() < .5:
            return enn.FourierELU(sp, c, irreps, inplace=inplace, out_irreps=out_irreps, normalize=normalize, **kw)
        if rng.rand() < .3 and "type" in kw and len(kw) == 1:
            return enn.FourierPointwise(sp, c, irreps, kw["type"], function=fn, inplace=inplace, out_irreps=out_irreps, normalize=normalize)
        return enn.FourierPointwise(sp, c, irreps, function=fn, inplace=inplace, out_irreps=out_irreps, normalize=normalize, **kw)
    drive(m, mk, G_, sp, lambda q: G_.spectral_regular_representation(*q, name=None), lambda q: delta(G_, q), irreps, grid, rng, c, f"{g}:{sorted(kw.items())}")
    m.raises((ValueError,), lambda: enn.FourierPointwise(sp, 1, irreps, function="p_unknown", **kw), "refuses-unknown-function")


def quotient(m, g, sid, i):
    sid = tup(sid)
    rng = m.rng()
    sp = sp_for(g, rng)
    G_ = sp.fibergroup
    X = G_.homspace(sid)
    H, inc, _ = G_.subgroup(sid)

    def kern(ids):
        return np.concatenate([np.asarray(X._dirac_kernel_ft(q, H.trivial_representation.id)).T.reshape(-1) for q in ids])

    def mult(q):
        return len(kern([q])) // G_.irrep(*q).size
    allowed = [q for q in band(G_, g, rng) if mult(q) > 0]
    if not allowed:
        allowed = [G_.trivial_representation.id]
    k = kern(allowed)
    rho = G_.spectral_quotient_representation(sid, *allowed, name=None)
    for h in elements(H, rng, 4):
        m.close(np.asarray(rho(inc(h)), float) @ k, k, "delta-is-invariant-under-the-subgroup", 1e-5, g=g, sid=sid, h=h)
    if kind(G_) in ("SO3",) and sid == (False, -1):
        grid = G_.sphere_grid("thomson_cube", N=2) if rng.rand() < .5 else G_.grid("cube")
    elif kind(G_) == "O3":
        grid = G_.grid("cube") if rng.rand() < .5 or sid != ("cone", -1) else G_.sphere_grid("thomson_cube", N=2)
    elif kind(G_) == "SO3":
        grid = G_.grid("ico")
    elif kind(G_) == "SO2" or kind(G_) == "O2":
        grid = G_.grid(int(rng.randint(12, 18)))
    else:
        grid = list(G_.elements)
        if rng.rand() < .3:
            grid = [grid[j] for j in rng.permutation(len(grid))]
    c = int(rng.randint(1, 4))

    def mk(fn, inplace, out_irreps, normalize):
        if fn == "p_elu" and rng.rand() < .5:
            return enn.QuotientFourierELU(sp, sid, c, allowed, grid=grid, inplace=inplace, out_irreps=out_irreps, normalize=normalize)
        return enn.QuotientFourierPointwise(sp, sid, c, allowed, grid=grid, function=fn, inplace=inplace, out_irreps=out_irreps, normalize=normalize)

    def rho_of(ids):
        if any(mult(q) == 0 for q in ids):
            return None
        return G_.spectral_quotient_representation(sid, *ids, name=None)
    drive(m, mk, G_, sp, rho_of, kern, allowed, grid, rng, c, f"{g}/{sid}:{len(grid)}", True)


def approximate(m, g, i):
    """A fine grid and a smooth function: equivariant under every element up to a small aliasing error."""
    rng = m.rng()
    sp = gs.no_base_space(G(g))
    G_ = sp.fibergroup
    irreps = [r.id for r in irreps_of(G_, 1 if kind(G_) == "SO3" else 2)]
    kw = {"SO2": dict(N=48), "O2": dict(N=48), "SO3": dict(type="thomson_cube", N=8), "C8": dict(type="regular", N=8), "D4": dict(type="regular", N=4)}[g]
    for fn in ("p_elu", "p_tanh", "p_sigmoid"):
        mod = enn.FourierPointwise(sp, 2, irreps, function=fn, **kw)
        t = mod.in_type
        x = rand_input(rng, t, (4,))
        y = mod(t(T(x))).tensor.numpy()
        for e in action_elements(G_, rng, 5):
            yg = mod(t(T(fiber_act(x, t.representations, e)))).tensor.numpy()
            m.event("any-element", f"{g}:{fn}:{e}")
            m.close(yg, fiber_act(y, t.representations, e), "aliasing-error", 2e-2, g=e, fn=fn)
