"""C16: linear maps, tensor products and nonlinearities commute with the fibre group."""
from core import Case
RULE = ("a forward call of a module on a distinct (module, group, field type, options) combination compared with the reference function or with the "
        "transformed call; identity elements alone do not count")
from nnlib import *

GRP = ["C2", "C3", "C4", "C6", "C8", "D1", "D2", "D3", "D4", "D6", "SO2", "O2", "SO3", "O3", "Octa", "Ico", "FOcta", "CylD3", "C2*C4", "D3*C2", "Cyl:2", "T"]
FIN = [g for g in GRP if g not in ("SO2", "O2", "SO3", "O3", "Cyl:2")]
KINDS = ["normal", "zero", "tiny", "huge", "sparse", "negative"]
REFUSE = (AssertionError, ValueError, NotImplementedError)


def cases(tier, seed):
    out = []
    k = 1 if tier == "quick" else 8
    for g in GRP:
        for i in range(k):
            for fn in ("pointwise", "norm", "gated", "tensor", "linear", "support"):
                out.append(Case(fn, g=g, i=i))
            if g in FIN:
                out += [Case("concatenated", g=g, i=i), Case("induced", g=g, i=i)]
            if g[0] == "C" and g[1:].isdigit():
                out.append(Case("vectorfield", g=g, i=i))
    out += [Case("vectorfield", g=g, i=i) for g in ("C5", "C7", "C12") for i in range(k)]
    out += [Case("induced", g=g, i=i + k) for g in ("D4", "D6", "C6", "Octa", "D3") for i in range(2 * k)]
    out += [Case("gated", g=g, i=i + k) for g in ("D4", "SO3", "O2") for i in range(3 * k)]
    out += [Case("norm", g=g, i=i + k) for g in ("D4", "SO3", "O2") for i in range(2 * k)]
    out += [Case("linear", g=g, i=i + k) for g in ("D4", "SO3", "O2", "C4", "C2*C4", "Octa") for i in range(2 * k)]
    out.append(Case("tensorlayout", g="D4"))
    return out


# ---------------------------------------------------------------------------------------------- plumbing
def sp0(g):
    return gs.no_base_space(G(g))


def any_space(g, rng):
    """A space with this fibre group: the point, or a plane / a volume with the group as symmetries."""
    opts = [sp0(g)]
    try:
        if g[0] == "C" and g[1:].isdigit():
            opts.append(gs.rot2dOnR2(int(g[1:])))
        elif g[0] == "D" and g[1:].isdigit():
            opts.append(gs.flipRot2dOnR2(int(g[1:])))
        elif g == "SO2":
            opts.append(gs.rot2dOnR2(-1))
        elif g == "O2":
            opts.append(gs.flipRot2dOnR2(-1))
        elif g == "SO3":
            opts.append(gs.rot3dOnR3())
        elif g == "O3":
            opts.append(gs.flipRot3dOnR3())
        elif g == "Octa":
            opts.append(gs.octaOnR3())
    except AssertionError:
        pass
    return opts[rng.randint(len(opts))]


def shape_for(sp, rng):
    """(batch, *spatial); on a space of dimension > 0 also a point cloud (no spatial axes, with coordinates)."""
    b = int(rng.randint(1, 4))
    if sp.dimensionality == 0:
        return (b,), None
    if rng.rand() < .25:
        return (b,), True
    return (b,) + tuple(int(v) for v in rng.randint(1, 5, sp.dimensionality)), None


def strided(rng, x):
    """The same values in memory in another layout."""
    c = rng.randint(4)
    t = T(x)
    if c == 0 or t.dim() < 3:
        if c == 1:
            return torch.stack([t, t + 1], -1)[..., 0]
        return t
    if c == 1:
        return t.transpose(1, -1).contiguous().transpose(1, -1)
    if c == 2:
        return torch.cat([t, t], 1)[:, :t.shape[1]]
    return torch.stack([t, t + 1], -1)[..., 0]


def call(m, mod, t, x, rng, coords=None, inplace=False, **d):
    """Forward call with snapshots of the input; returns the numpy output."""
    xt = strided(rng, x)
    before = xt.clone()
    gt = enn.GeometricTensor(xt, t, coords)
    y = mod(gt)
    m.check(y.type == mod.out_type, "out-type", mod=type(mod).__name__, **d)
    m.check(tuple(y.shape[2:]) == x.shape[2:] and y.shape[0] == x.shape[0], "out-shape", mod=type(mod).__name__, got=tuple(y.shape), **d)
    m.check(y.coords is coords or (coords is not None and torch.equal(y.coords, coords)), "coords-kept", mod=type(mod).__name__, **d)
    if not inplace:
        m.check(torch.equal(xt, before), "input-untouched", mod=type(mod).__name__, **d)
        m.check(y.tensor.data_ptr() != xt.data_ptr() or not xt.numel(), "output-separate", mod=type(mod).__name__, **d)
    m.check(gt.tensor is xt and gt.type is t, "input-object-untouched", mod=type(mod).__name__, **d)
    return y.tensor.detach().numpy()


def equivariant(m, mod, sp, tin, x, rng, tol=2e-4, n=3, y0=None, coords=None, floor=1e-12, **d):
    E = [e for e in action_elements(sp.fibergroup, rng, n + 2) if e != sp.fibergroup.identity][:n] or [sp.fibergroup.identity]
    for g in E:
        xg = fiber_act(x, tin.representations, g)
        yg = call(m, mod, tin, xg, rng, coords, **d)
        ref = fiber_act(y0, mod.out_type.representations, g)
        s = max(floor, np.abs(ref).max())
        if g != sp.fibergroup.identity:
            m.event("transformed", f"{type(mod).__name__}:{sp.fibergroup.name}:{d.get('opt', '')}")
        m.close(yg / s, ref / s, "equivariance", tol, mod=type(mod).__name__, g=g, t=desc(tin), **d)


def run(m, mod, sp, tin, rng, ref, kinds=None, tol=1e-5, eqtol=2e-4, eq=True, floor=None, **d):
    """Compare with the reference function on hostile inputs and check equivariance."""
    kinds = kinds or KINDS
    for kd in [kinds[i] for i in rng.choice(len(kinds), min(3, len(kinds)), replace=False)]:
        shp, cloud = shape_for(sp, rng)
        x = rand_input(rng, tin, shp, kd)
        coords = T(rng.randn(shp[0], sp.dimensionality)) if cloud else None
        y = call(m, mod, tin, x, rng, coords, **d)
        m.event("forward", f"{type(mod).__name__}:{sp.fibergroup.name}:{desc(tin)[:60]}:{kd}:{d.get('opt', '')}")
        r = ref(x)
        fl = floor(x) if floor else 1e-12           # size of the terms that are summed: cancellation below it is rounding
        if r is not None:
            s = max(fl, np.abs(r).max()) if r.size else 1.
            m.close(y / s, r / s, "reference", tol, mod=type(mod).__name__, kind_=kd, t=desc(tin), shape=x.shape, **d)
        if eq:
            equivariant(m, mod, sp, tin, x, rng, eqtol, 2, y, coords, fl, kind_=kd, **d)
    # double precision is kept by modules moved to it
    if not mod.training:
        return
    md = mod.double()
    shp, cloud = shape_for(sp, rng)
    x = rand_input(rng, tin, shp, "normal", np.float64)
    co = torch.tensor(rng.randn(shp[0], sp.dimensionality)) if cloud else None
    y = md(enn.GeometricTensor(torch.tensor(x), tin, co)).tensor
    m.check(y.dtype == torch.float64, "double-kept", mod=type(mod).__name__, got=y.dtype, **d)
    mod.float()


def fields(t, x):
    s = np.cumsum([0] + [r.size for r in t.representations])
    return [x[:, a:b] for a, b in zip(s[:-1], s[1:])]


# ---------------------------------------------------------------------------------------------- workloads
FUN = {"relu": lambda v: np.maximum(v, 0), "elu": lambda v: np.where(v > 0, v, np.expm1(np.minimum(v, 0))),
       "sigmoid": lambda v: 1 / (1 + np.exp(-v)), "tanh": np.tanh, "softplus": lambda v: np.logaddexp(0, v)}


def pw_pool(g, rng):
    """Representations of the group which act by permutations (documented support for pointwise functions)."""
    pool = [g.trivial_representation]
    if 0 < g.order() <= 24:
        pool.append(g.regular_representation)
        ids = subgroup_ids(g)
        for _ in range(3):
            if ids:
                q = g.quotient_representation(ids[rng.randint(len(ids))])
                if q.size <= 12:
                    pool.append(q)
    return pool


def pointwise(m, g, i):
    rng = m.rng()
    sp = any_space(g, rng)
    pool = pw_pool(sp.fibergroup, rng)
    if len(pool) > 1:
        a, b = pool[rng.randint(len(pool))], pool[rng.randint(len(pool))]
        if a.size + b.size <= 30:
            pool.append(eg.directsum([a, b], name=f"pw_{rng.randint(10**9)}"))
        if a.size * b.size <= 30:
            try:
                pool.append(a.tensor(b))
            except (NotImplementedError, eg.InsufficientIrrepsException):
                pass
    pool = [r for r in pool if "pointwise" in r.supported_nonlinearities]
    if not pool:
        m.event("pointwise-unsupported")
        return
    t = rand_type(sp, rng, pool=pool, max_size=40)
    sl, al = float(rng.rand()), float(.3 + rng.rand())
    mods = [(enn.PointwiseNonLinearity(t, "p_" + f), FUN[f], f) for f in ("relu", "elu", "sigmoid", "tanh")]
    mods += [(enn.ReLU(t), FUN["relu"], "ReLU"), (enn.ELU(t), FUN["elu"], "ELU"), (enn.ELU(t, alpha=al), lambda v: np.where(v > 0, v, al * np.expm1(np.minimum(v, 0))), "ELUa"),
             (enn.LeakyReLU(t), lambda v: np.where(v > 0, v, .01 * v), "LeakyReLU"), (enn.LeakyReLU(t, negative_slope=sl), lambda v: np.where(v > 0, v, sl * v), "LeakyReLUs")]
    for j in rng.choice(len(mods), 5, replace=False):
        mod, f, nm = mods[j]
        m.check(mod.in_type == t and mod.out_type == t, "types", mod=nm)
        run(m, mod, sp, t, rng, f, opt=nm)
    for nm, mod, f in [("ReLU", enn.ReLU(t, inplace=True), FUN["relu"]), ("ELU", enn.ELU(t, inplace=True), FUN["elu"]),
                       ("LeakyReLU", enn.LeakyReLU(t, inplace=True), lambda v: np.where(v > 0, v, .01 * v))]:
        x = rand_input(rng, t, shape_for(sp, rng)[0])
        xt = T(x)
        y = mod(t(xt) if sp.dimensionality == 0 or xt.dim() > 2 else enn.GeometricTensor(xt, t, T(rng.randn(x.shape[0], sp.dimensionality))))
        m.event("in-place", nm)
        m.close(y.tensor, f(x), "in-place-value", 1e-5, mod=nm)
        m.close(xt, f(x), "in-place-input", 1e-5, mod=nm)
    # a representation in another basis is refused
    r = pool[-1]
    if r.size > 1 and len(pool) > 1:
        bad = eg.change_basis(r, rand_orth(rng, r.size), f"rot_{rng.randint(10**9)}")
        for C in (enn.ReLU, enn.ELU, enn.LeakyReLU, enn.PointwiseNonLinearity):
            m.raises(REFUSE, lambda: C(enn.FieldType(sp, [pool[0], bad])), "refuses-other-basis", mod=C.__name__, rep=r)


def matching(m, cands, outs, kind_, **d):
    """outs[i] must equal cands[i][pi(i)] for a permutation pi; returns pi."""
    pi = []
    for i, o in enumerate(outs):
        best, bj = None, None
        for j, c in enumerate(cands[i]):
            e = float(np.abs(c - o).max() / (1 + np.abs(o).max()))
            if best is None or e < best:
                best, bj = e, j
        if not m.check(best < 1e-4, kind_ + "-function", field=i, err=best, **d):
            return None
        pi.append(bj)
    if not m.check(sorted(pi) == list(range(len(outs))), kind_ + "-one-per-field", assigned=pi, **d):
        return None
    return pi


def norm(m, g, i):
    rng = m.rng()
    sp = any_space(g, rng)
    t = rand_type(sp, rng, max_field=9, max_size=40, need="norm")
    n = len(t)
    for fn in ("n_relu", "n_sigmoid", "n_softplus", "squash"):
        for bias in ((True, False) if fn != "squash" else (False,)):
            mod = randomize(enn.NormNonLinearity(t, function=fn, bias=bias), rng, .6)
            f = FUN[fn[2:]] if fn != "squash" else (lambda v: v / (1 + v))
            b = np.exp(mod.log_bias.detach().numpy().reshape(-1)) if bias else np.zeros(n)
            m.check(len(b) == n, "one-bias-per-field")

            def one(v, bj):
                nn_ = np.sqrt((v.astype(float) ** 2).sum(1, keepdims=True))
                return np.where(nn_ > 1e-10, v * f(nn_ - bj) / np.maximum(nn_, 1e-10), 0)
            x = rand_input(rng, t, (12,) + (2,) * sp.dimensionality) * 3
            x[:4] *= 8
            y = mod(enn.GeometricTensor(T(x), t)).tensor.detach().numpy() if sp.dimensionality == 0 or True else None
            pi = list(range(n))
            if bias:
                pi = matching(m, [[one(v, bj) for bj in b] for v in fields(t, x)], fields(t, y), "norm-bias", t=desc(t), fn=fn)
                if pi is None:
                    continue
            ref = lambda x: np.concatenate([one(v, b[pi[k]]) for k, v in enumerate(fields(t, x))], 1)
            run(m, mod, sp, t, rng, ref, kinds=["normal", "zero", "tiny", "huge", "sparse"], tol=2e-4, eqtol=1e-3, opt=f"{fn}{bias}")
    m.raises(REFUSE, lambda: enn.NormNonLinearity(t, function="n_unknown"), "refuses-unknown-function")
    m.raises(REFUSE, lambda: enn.NormNonLinearity(t, function="squash", bias=True), "refuses-squash-bias")


def gated(m, g, i):
    rng = m.rng()
    sp = any_space(g, rng)
    tr = sp.trivial_repr
    t = rand_type(sp, rng, max_field=8, max_size=30, need="gated")
    n = len(t)
    lab = ["gate"] * n + ["gated"] * n
    order = rng.permutation(2 * n) if rng.rand() < .8 else np.arange(2 * n)
    src = [tr] * n + list(t.representations)
    tin = enn.FieldType(sp, [src[j] for j in order])
    gates = [lab[j] for j in order]
    gi = [k for k, l in enumerate(gates) if l == "gate"]
    fi = [k for k, l in enumerate(gates) if l == "gated"]
    sig = FUN["sigmoid"]

    def check(mod, tin, gi, fi, drop, opt):
        randomize(mod, rng)
        b = mod.bias.detach().numpy().reshape(-1)
        m.check(len(b) == len(gi), "one-bias-per-gate", opt=opt)
        x = rand_input(rng, tin, (4,) + (2,) * sp.dimensionality)
        y = mod(enn.GeometricTensor(T(x), tin)).tensor.detach().numpy()
        F = fields(tin, x)
        out = fields(mod.out_type, y)
        want = [tin.representations[k] for k in range(len(tin)) if not drop or k in fi]
        m.check(list(mod.out_type.representations) == want, "out-fields", opt=opt, t=desc(tin))
        oidx = {k: p for p, k in enumerate([k for k in range(len(tin)) if not drop or k in fi])}
        # gate j carries bias b[beta(j)]; the i-th gated field is multiplied by one gate
        C = [[F[k] * sig(F[gj] - bj) for gj in gi for bj in b] for k in fi]
        pi = []
        for q, k in enumerate(fi):
            e = [float(np.abs(c - out[oidx[k]]).max()) for c in C[q]]
            bj = int(np.argmin(e))
            if not m.check(e[bj] < 1e-4, "gate-function", opt=opt, t=desc(tin), field=k, err=min(e)):
                return
            pi.append(divmod(bj, len(b)))
        if not (m.check(sorted(p for p, _ in pi) == list(range(len(gi))), "one-gate-per-field", opt=opt, t=desc(tin), pi=pi) and
                m.check(sorted(p for _, p in pi) == list(range(len(gi))), "one-bias-per-field", opt=opt, t=desc(tin), pi=pi)):
            return

        def ref(x):
            F = fields(tin, x)
            o = [None] * len(oidx)
            for (p, q), k in zip(pi, fi):
                o[oidx[k]] = F[k] * sig(F[gi[p]] - b[q])
                if not drop:
                    o[oidx[gi[p]]] = sig(F[gi[p]] - b[q])
            return np.concatenate(o, 1)
        run(m, mod, sp, tin, rng, ref, opt=opt, tol=1e-4)
        return pi
    found = []
    for drop in (True, False):
        found.append(check(enn.GatedNonLinearity1(tin, gates=gates, drop_gates=drop), tin, gi, fi, drop, f"gated1:{drop}"))
    if None not in found:
        m.check(found[0] == found[1], "dropping-the-gates-keeps-the-gated-fields", t=desc(tin), drop=found[0], keep=found[1])
    d = enn.FieldType(sp, [tr] * n + list(t.representations))
    check(enn.GatedNonLinearity1(d), d, list(range(n)), list(range(n, 2 * n)), True, "gated1:default")

    # gates as a separate tensor
    tg = enn.FieldType(sp, [tr] * n)
    mod = randomize(enn.GatedNonLinearity2((tg, t)), rng)
    b = mod.bias.detach().numpy().reshape(-1)
    shp, cloud = shape_for(sp, rng)
    shp = (4,) + shp[1:]
    x, z = rand_input(rng, t, shp), rand_input(rng, tg, shp)
    co = T(rng.randn(shp[0], sp.dimensionality)) if cloud else None
    xt, zt = T(x), T(z)
    y = mod(enn.GeometricTensor(zt, tg, co), enn.GeometricTensor(xt, t, co))
    m.check(y.type == t and mod.out_type == t and y.coords is co and torch.equal(xt, T(x)) and torch.equal(zt, T(z)), "gated2-plumbing")
    F, Z = fields(t, x), fields(tg, z)
    O = fields(t, y.tensor.detach().numpy())
    pi = matching(m, [[f * sig(Z[j] - b[j]) for j in range(n)] for f in F], O, "gated2", t=desc(t))
    if pi is not None:
        m.event("forward", f"gated2:{sp.fibergroup.name}:{desc(t)[:60]}")
        for e in action_elements(sp.fibergroup, rng, 3):
            yg = mod(enn.GeometricTensor(zt, tg, co), enn.GeometricTensor(T(fiber_act(x, t.representations, e)), t, co)).tensor
            m.close(yg, fiber_act(y.tensor.detach().numpy(), t.representations, e), "gated2-equivariance", 2e-4, g=e, t=desc(t))
    md = mod.double()
    yd = md(enn.GeometricTensor(zt.double(), tg, co), enn.GeometricTensor(xt.double(), t, co)).tensor
    m.check(yd.dtype == torch.float64, "double-kept", mod="GatedNonLinearity2", got=yd.dtype)
    # uniform
    irr = [r for r in irreps_of(sp.fibergroup, 2) if r.size <= 7]
    sel = [irr[rng.randint(len(irr))] for _ in range(int(rng.randint(1, 4)))]
    rho = eg.directsum([tr] * len(sel) + sel, name=f"unif_{rng.randint(10**9)}")
    c = int(rng.randint(1, 4))
    tu = enn.FieldType(sp, [rho] * c)
    for fn, f in ((None, sig), (torch.tanh, np.tanh), (torch.nn.functional.elu, FUN["elu"])):
        mod = randomize(enn.GatedNonLinearityUniform(tu) if fn is None else enn.GatedNonLinearityUniform(tu, gate=fn), rng)
        b = mod.bias.detach().numpy().reshape(c, len(sel))

        def ref(x):
            o = []
            for k, v in enumerate(fields(tu, x)):
                p = len(sel)
                for j, r in enumerate(sel):
                    bb = b[k, j]
                    o.append(v[:, p:p + r.size] * f(v[:, j:j + 1] - bb))
                    p += r.size
            return np.concatenate(o, 1)
        m.check(len(mod.out_type) == c and mod.out_type.size == c * sum(r.size for r in sel), "uniform-type")
        run(m, mod, sp, tu, rng, ref, opt=f"uniform{fn is None}", tol=1e-4, kinds=["normal", "zero", "tiny", "sparse", "negative"])
    # refusals
    nt = [r for r in irr if not r.is_trivial()]
    if nt:
        bad = enn.FieldType(sp, [nt[0], nt[0]])
        m.raises(REFUSE, lambda: enn.GatedNonLinearity1(bad), "refuses-nontrivial-gate")
        m.raises(REFUSE, lambda: enn.GatedNonLinearity2((bad, bad)), "refuses-nontrivial-gate")
        m.raises(REFUSE, lambda: enn.GatedNonLinearityUniform(enn.FieldType(sp, [eg.directsum([nt[0], nt[0]], name=f"u{rng.randint(10**9)}")])), "refuses-nontrivial-gate")
    m.raises(REFUSE, lambda: enn.GatedNonLinearity1(tin, gates=["gate"] * len(tin)), "refuses-gate-count")
    m.raises(REFUSE, lambda: enn.GatedNonLinearity1(tin, gates=["x"] * len(tin)), "refuses-unknown-label")


def induced(m, g, i):
    rng = m.rng()
    sp = any_space(g, rng)
    G_ = sp.fibergroup
    ids = [s for s in subgroup_ids(G_) if s not in ("octa", "ico")]
    if not ids or G_.order() > 130:
        return
    for _ in range(12):
        sid = ids[rng.randint(len(ids))]
        H, _, _ = G_.subgroup(sid)
        if H.order() > 0 and G_.order() // H.order() <= 12:
            break
    else:
        return
    q = G_.order() // H.order()
    hi = [r for r in irreps_of(H, 1) if r.size * q <= 24]
    reps, sub = [], []
    for _ in range(int(rng.randint(1, 5))):
        r = hi[rng.randint(len(hi))]
        try:
            ind = G_.induced_representation(sid, r)
        except NotImplementedError:
            continue
        if r.size > 1 or True:
            reps.append(ind)
            sub.append(r.size)
    if not reps:
        return
    # induced norm: one norm per coset
    t = enn.FieldType(sp, reps)
    n = len(t)

    def known(r, s):
        return f"induced_norm_{s}" in r.supported_nonlinearities
    if not all(known(r, s) for r, s in zip(reps, sub)):
        m.event("induced-representation-without-support")
        return
    for fn in ("n_relu", "n_sigmoid", "squash"):
        for bias in (True, False):
            try:
                mod = randomize(enn.InducedNormNonLinearity(t, function=fn, bias=bias), rng, .6)
            except REFUSE:
                m.event("refused:induced-norm:" + fn)
                continue
            if bias and fn == "squash":
                with torch.no_grad():
                    mod.log_bias.fill_(-9.)
            f = FUN[fn[2:]] if fn != "squash" else (lambda v: v / (1 + v))
            b = np.exp(mod.log_bias.detach().numpy().reshape(-1)) if bias else np.zeros(n)

            def one(v, bj, s):
                w = v.reshape((v.shape[0], -1, s) + v.shape[2:]).astype(float)
                nn_ = np.sqrt((w ** 2).sum(2, keepdims=True))
                return np.where(nn_ > 1e-10, w * f(nn_ - bj) / np.maximum(nn_, 1e-10), 0).reshape(v.shape)
            x = rand_input(rng, t, (12,) + (2,) * sp.dimensionality) * 3
            x[:4] *= 8
            y = mod(enn.GeometricTensor(T(x), t)).tensor.detach().numpy()
            pi = list(range(n))
            if bias and fn != "squash":
                pi = matching(m, [[one(v, bj, s) for bj in b] for v, s in zip(fields(t, x), sub)], fields(t, y), "induced-norm-bias", t=desc(t), fn=fn)
                if pi is None:
                    continue
            ref = lambda x: np.concatenate([one(v, b[pi[k]], s) for k, (v, s) in enumerate(zip(fields(t, x), sub))], 1)
            run(m, mod, sp, t, rng, ref, kinds=["normal", "zero", "sparse", "tiny"] if fn != "squash" or not bias else ["normal"], tol=5e-4, eqtol=1e-3, opt=f"{fn}{bias}")
    # induced gates
    gate = G_.quotient_representation(sid) if rng.rand() < .5 else G_.induced_representation(sid, H.trivial_representation)
    if "induced_gate" not in gate.supported_nonlinearities or not all(f"induced_gated_{s}" in r.supported_nonlinearities for r, s in zip(reps, sub)):
        m.event("induced-gate-without-support")
        return
    order = rng.permutation(2 * n)
    src = [gate] * n + reps
    tin = enn.FieldType(sp, [src[j] for j in order])
    lab = ["gate" if j < n else "gated" for j in order]
    gi = [k for k, l in enumerate(lab) if l == "gate"]
    fi = [k for k, l in enumerate(lab) if l == "gated"]
    subs = {k: sub[order[k] - n] for k in fi}
    for drop in (True, False):
        try:
            mod = randomize(enn.InducedGatedNonLinearity1(tin, gates=lab, drop_gates=drop), rng)
        except REFUSE as e:
            m.event("refused:induced-gated")
            continue
        b = mod.bias.detach().numpy().reshape(-1)
        sig = FUN["sigmoid"]

        def gt(v, z, bj, s):
            w = v.reshape((v.shape[0], q, s) + v.shape[2:])
            return (w * sig(z - bj)[:, :, None]).reshape(v.shape)
        x = rand_input(rng, tin, (4,) + (2,) * sp.dimensionality)
        y = mod(enn.GeometricTensor(T(x), tin)).tensor.detach().numpy()
        F = fields(tin, x)
        keep = [k for k in range(2 * n) if not drop or k in fi]
        m.check(list(mod.out_type.representations) == [tin.representations[k] for k in keep], "induced-out-fields")
        oidx = {k: p for p, k in enumerate(keep)}
        out = fields(mod.out_type, y)
        pi = matching(m, [[gt(F[k], F[gi[j]], b[j], subs[k]) for j in range(n)] for k in fi], [out[oidx[k]] for k in fi], "induced-gated", t=desc(tin), drop=drop)
        if pi is None:
            continue

        def ref(x):
            F = fields(tin, x)
            o = [None] * len(keep)
            for p, k in zip(pi, fi):
                o[oidx[k]] = gt(F[k], F[gi[p]], b[p], subs[k])
                if not drop:
                    o[oidx[gi[p]]] = sig(F[gi[p]] - b[p])
            return np.concatenate(o, 1)
        run(m, mod, sp, tin, rng, ref, opt=f"induced-gated{drop}", tol=1e-4)


def concatenated(m, g, i):
    rng = m.rng()
    sp = any_space(g, rng)
    G_ = sp.fibergroup
    if G_.order() > 60:
        return
    pool = [r for r in irreps_of(G_, 2) if r.size == 1] + [q for q in pw_pool(G_, rng) if q.size <= 12]
    ids = subgroup_ids(G_)
    if ids and G_.order() <= 24:                     # induced from a sign representation: a signed permutation
        sid = ids[rng.randint(len(ids))]
        H, _, _ = G_.subgroup(sid)
        for r in irreps_of(H, 1):
            if r.size == 1 and not r.is_trivial() and G_.order() // max(1, H.order()) <= 12:
                try:
                    ind = G_.induced_representation(sid, r)
                except NotImplementedError:
                    continue
                if "concatenated" in ind.supported_nonlinearities:
                    pool.append(ind)
    pool = [r for r in pool if "concatenated" in r.supported_nonlinearities]
    if not pool:
        m.event("concatenated-unsupported")
        return
    t = rand_type(sp, rng, pool=pool, max_size=30)
    for fn in ("c_relu", "c_sigmoid", "c_tanh"):
        mod = enn.ConcatenatedNonLinearity(t, function=fn)
        f = FUN[fn[2:]]
        m.check(len(mod.out_type) == len(t) and [r.size for r in mod.out_type.representations] == [2 * r.size for r in t.representations], "concatenated-type")

        def ref(x):
            o = np.empty((x.shape[0], 2 * x.shape[1]) + x.shape[2:], x.dtype)
            o[:, ::2], o[:, 1::2] = f(x), f(-x)
            return o
        x = rand_input(rng, t, (3,) + (2,) * sp.dimensionality)
        y = mod(enn.GeometricTensor(T(x), t)).tensor.numpy()
        # each field holds the function of both signs of each of its channels
        for a, v in zip(fields(mod.out_type, y), fields(t, x)):
            w = np.concatenate([f(v), f(-v)], 1)
            m.close(np.sort(a, 1), np.sort(w, 1), "concatenated-values", 1e-5, t=desc(t), fn=fn)
        run(m, mod, sp, t, rng, lambda x: None, opt=fn)
        for r in mod.out_type.representations:
            m.check("pointwise" in r.supported_nonlinearities, "concatenated-supports-pointwise")
    # a chain: the output supports pointwise functions
    mod2 = enn.ReLU(mod.out_type)
    run(m, mod2, sp, mod.out_type, rng, FUN["relu"], opt="after-concatenated")


def vectorfield(m, g, i):
    rng = m.rng()
    sp = any_space(g, rng)
    G_ = sp.fibergroup
    N = G_.order()
    t = enn.FieldType(sp, [G_.regular_representation] * int(rng.randint(1, 4)))
    if N <= 2:
        m.raises(REFUSE, lambda: enn.VectorFieldNonLinearity(t), "refuses-without-planar-irrep", N=N)
        return
    mod = enn.VectorFieldNonLinearity(t)
    m.check(all(r == G_.irrep(1) for r in mod.out_type.representations) and len(mod.out_type) == len(t), "vectorfield-type")

    def ref(x):
        o = []
        for v in fields(t, x):
            k = v.argmax(1)
            a = np.maximum(v.max(1), 0)
            o += [np.cos(2 * np.pi * k / N) * a, np.sin(2 * np.pi * k / N) * a]
        return np.stack(o, 1)
    run(m, mod, sp, t, rng, ref, kinds=["normal", "tiny", "huge", "negative", "normal"], opt="vectorfield", tol=1e-4)
    m.raises(REFUSE, lambda: enn.VectorFieldNonLinearity(enn.FieldType(sp, [G_.irrep(1)])), "refuses-irrep")


def tensorlayout(m, g):
    """The tensor-product module as it is, on batches without spatial axes (known finding F33)."""
    rng = m.rng()
    sp = gs.no_base_space(G(g))
    a = max(sp.fibergroup.irreps(), key=lambda r: r.size)
    b = eg.directsum([sp.trivial_repr, sp.trivial_repr], name="two_invariants")
    for n, c in ((1, 3), (4, 1), (4, 3)):
        mod = randomize(enn.TensorProductModule.construct(sp, c, a, b), rng)
        x = torch.tensor(rng.randn(n, mod.in_type.size), dtype=torch.float32)
        try:
            y = TP_FORWARD(mod, enn.GeometricTensor(x, mod.in_type)).tensor
        except RuntimeError as e:
            if "view size is not compatible" not in str(e) or n == 1 or c == 1:
                raise
            m.check(False, "batch-without-spatial-axes:TensorProductModule", error=str(e)[:120])
            continue
        rows = [TP_FORWARD(mod, enn.GeometricTensor(x[k:k + 1], mod.in_type)).tensor for k in range(n)]
        m.close(y.detach().numpy(), torch.cat(rows).detach().numpy(), "tensor-batch", 1e-5)
        m.event("tensorlayout", f"{g}:{n}:{c}")


def tensor(m, g, i):
    rng = m.rng()
    sp = any_space(g, rng)
    a = rand_rep(sp.fibergroup, rng, 1, 4, ["irrep", "sum", "basis", "skew"], order_cap=6)[0]
    b = rand_rep(sp.fibergroup, rng, 2, 6, ["irrep", "sum", "basis", "skew", "regular"], order_cap=6)[0]
    c = int(rng.randint(1, 4))
    try:
        if rng.rand() < .5:
            mod = enn.TensorProductModule(enn.FieldType(sp, [a] * c), enn.FieldType(sp, [b] * c))
        else:
            mod = enn.TensorProductModule.construct(sp, c, a, b)
    except ValueError as e:
        m.check("empty" in str(e), "tensor-refusal", e=str(e)[:80])
        # refused only when there is no bilinear map
        E, w = haar(sp.fibergroup, 8) if sp.fibergroup.order() > 0 or kind(sp.fibergroup) in ("SO2", "O2", "SO3", "O3") else (None, None)
        if E is not None and len(E) < 4000:
            dim = float(np.sum([wi * a.character(e) ** 2 * b.character(e) for e, wi in zip(E, w)]))
            m.check(abs(dim) < .5, "tensor-refused-though-maps-exist", dim=dim, a=a, b=b)
        return
    except (eg.InsufficientIrrepsException, NotImplementedError):
        m.event("tensor-refused")
        return
    t = mod.in_type
    m.check(list(t.representations) == [a] * c and list(mod.out_type.representations) == [b] * c, "tensor-types")
    randomize(mod, rng)
    for mode in (True, False):
        mod.train(mode)
        W = mod.expand_parameters().detach().numpy().reshape(c, b.size, a.size ** 2)
        for e in action_elements(sp.fibergroup, rng, 3):
            A, B = np.asarray(a(e), float), np.asarray(b(e), float)
            for k in range(c):
                m.close(W[k] @ np.kron(A, A), B @ W[k], "tensor-intertwiner", 1e-4, a=a, b=b, g=e)

        def ref(x):
            o = []
            for k, v in enumerate(fields(t, x)):
                vv = np.einsum("bi...,bj...->bij...", v, v).reshape((v.shape[0], -1) + v.shape[2:])
                o.append(np.einsum("oi,bi...->bo...", W[k], vv))
            return np.concatenate(o, 1)
        run(m, mod, sp, t, rng, ref, kinds=["normal", "zero", "huge", "sparse"], tol=1e-4, eqtol=5e-4, opt=f"tensor{mode}", floor=lambda x: 1e-12 + float(np.abs(W).max()) * float(np.abs(x).max()) ** 2)
    mod.train()
    J = torch.autograd.functional.jacobian(lambda w: mod.basisexpansion(w).reshape(-1), mod.weights.detach())
    m.check(np.linalg.matrix_rank(J.numpy(), tol=1e-4) == mod.weights.numel(), "tensor-weights-matter", a=a, b=b, n=mod.weights.numel())


def linear(m, g, i):
    rng = m.rng()
    sp = sp0(g)
    G_ = sp.fibergroup
    t1 = rand_type(sp, rng, max_field=9, max_size=24, kinds=ORTH + ["skew"])
    t2 = rand_type(sp, rng, max_field=9, max_size=24, kinds=ORTH + ["skew"])
    L = max([1] + [degree(G_, G_.irrep(*q)) for r in list(t1.representations) + list(t2.representations) for q in r.irreps])
    # dimension of the space of equivariant maps, from characters over the group
    hom = 0
    cnt = lambda t: {}
    for r1 in t1.representations:
        for r2 in t2.representations:
            for q1 in r1.irreps:
                for q2 in r2.irreps:
                    if q1 == q2:
                        hom += {"R": 1, "C": 2, "H": 4}[G_.irrep(*q1).type]
    bias = bool(rng.rand() < .6)
    if hom == 0:
        m.raises(REFUSE, lambda: enn.Linear(t1, t2, bias=bias), "refuses-empty-basis")
        return
    try:
        mod = enn.Linear(t1, t2, bias=bias, initialize=bool(rng.rand() < .5), recompute=bool(rng.rand() < .5))
    except eg.InsufficientIrrepsException:
        m.event("refused:insufficient-irreps")
        return
    m.check(mod.weights.numel() == hom, "linear-dimension", got=mod.weights.numel(), want=hom, t1=desc(t1), t2=desc(t2))
    triv = sum(G_.irrep(*q).is_trivial() for r in t2.representations for q in r.irreps)
    if bias and triv:
        m.check(mod.bias is not None and mod.bias.numel() == triv, "bias-dimension")
    else:
        m.check(mod.bias is None, "no-bias")
    randomize(mod, rng)
    J = torch.autograd.functional.jacobian(lambda w: mod.basisexpansion(w).reshape(-1), mod.weights.detach()).numpy()
    m.check(np.linalg.matrix_rank(J, tol=1e-4) == hom, "linear-weights-matter", t1=desc(t1), t2=desc(t2))
    for mode in (True, False):
        mod.train(mode)
        W, b = mod.expand_parameters()
        W = W.detach().numpy()
        b = np.zeros(t2.size) if b is None else b.detach().numpy()
        m.close(W.reshape(-1), J @ mod.weights.detach().numpy(), "linear-in-weights", 1e-4)
        for e in action_elements(G_, rng, 4):
            M1, M2 = fiber_mat(t1.representations, e), fiber_mat(t2.representations, e)
            m.close(M2 @ W, W @ M1, "linear-intertwiner", 1e-4, g=e, t1=desc(t1), t2=desc(t2))
            m.close(M2 @ b, b, "bias-invariant", 1e-4, g=e, t2=desc(t2))
        run(m, mod, sp, t1, rng, lambda x: x @ W.T + b, tol=1e-4, opt=f"linear{mode}{bias}", floor=lambda x: 1e-12 + float(np.abs(W).max()) * float(np.abs(x).max()))


def support(m, g, i):
    """Whatever a representation declares to support must be equivariant; whatever is accepted must be equivariant."""
    rng = m.rng()
    sp = sp0(g)
    G_ = sp.fibergroup
    for _ in range(6):
        r, ds = rand_rep(G_, rng, 2, 12, ["irrep", "sum", "basis", "regular", "quotient", "tensor", "skew"], order_cap=12)
        t = enn.FieldType(sp, [r])
        tg = enn.FieldType(sp, [sp.trivial_repr, r])
        for nm, mk, tt in [("relu", lambda: enn.ReLU(t), t), ("elu", lambda: enn.ELU(t), t), ("leaky", lambda: enn.LeakyReLU(t), t), ("pw", lambda: enn.PointwiseNonLinearity(t, "p_tanh"), t),
                           ("norm", lambda: enn.NormNonLinearity(t), t), ("gated", lambda: enn.GatedNonLinearity1(tg), tg),
                           ("concat", lambda: enn.ConcatenatedNonLinearity(t), t), ("vf", lambda: enn.VectorFieldNonLinearity(t), t),
                           ("inorm", lambda: enn.InducedNormNonLinearity(t), t)]:
            if nm == "concat" and (G_.order() < 0 or G_.order() > 60):
                continue
            try:
                mod = mk()
            except REFUSE:
                m.event("refused:" + nm)
                continue
            m.event("accepted", f"{nm}:{G_.name}:{ds[:40]}")
            randomize(mod, rng)
            with torch.no_grad():
                if hasattr(mod, "eps"):
                    mod.eps.fill_(1e-10)
            x = rand_input(rng, tt, (3,))
            y = mod(tt(T(x))).tensor.detach().numpy()
            equivariant(m, mod, sp, tt, x, rng, 1e-3, 3, y, None, opt="support:" + nm, rep=ds)
