"""C19: normalisation and dropout: documented statistics, running statistics over histories, equivariance in both modes."""
from core import Case, Skip
RULE = ("a forward call inside a random history of training / evaluation batches (or of dropout draws) of a normalisation module whose output is compared with the harness's "
        "own model of the statistics, or with the same history on transformed data")
ASSUMPTIONS = ["each training batch holds more than one value per channel", "field types of orthogonal representations with distinct names for distinct representations"]
from nnlib import *
from checks.c16 import strided, GRP, FIN, fields

GR = ["C2", "C3", "C4", "C8", "D1", "D3", "D4", "D6", "SO2", "O2", "SO3", "O3", "Octa", "CylD3", "C2*C4", "T"]


def cases(tier, seed):
    out = []
    k = 2 if tier == "quick" else 14
    for g in GR:
        for i in range(k):
            for fn in ("inner", "normbn", "gnorm", "iid", "fieldnorm", "dropout"):
                out.append(Case(fn, g=g, i=i))
            if g in FIN:
                out.append(Case("inducedbn", g=g, i=i))
    return out


def spaces_for(g, rng):
    """point, plane or volume with this fibre group"""
    opts = [gs.no_base_space(G(g))]
    if g[0] == "C" and g[1:].isdigit():
        opts += [gs.rot2dOnR2(int(g[1:])), gs.rot2dOnR3(n=int(g[1:]))]
    elif g[0] == "D" and g[1:].isdigit():
        n = int(g[1:])
        opts += [gs.flipRot2dOnR2(n)] if n > 1 else [gs.flip2dOnR2()]
    elif g == "SO2":
        opts += [gs.rot2dOnR2(-1, 3), gs.rot2dOnR3(n=-1, maximum_frequency=3)]
    elif g == "O2":
        opts += [gs.flipRot2dOnR2(-1, 3)]
    elif g == "SO3":
        opts.append(gs.rot3dOnR3())
    elif g == "O3":
        opts.append(gs.flipRot3dOnR3())
    elif g == "Octa":
        opts.append(gs.octaOnR3())
    return opts[rng.randint(len(opts))]


class Ref:
    """Running statistics of one module: list of per-field dictionaries."""

    def __init__(self, stat, momentum, eps, n, track=True):
        self.stat, self.mom, self.eps, self.track = stat, momentum, eps, track
        self.run = None
        self.k = 0
        self.n = n

    def reset(self):
        self.run, self.k = None, 0

    def update(self, cur, init):
        """cur: list of statistics of this batch (tuples of arrays); init: initial values."""
        self.k += 1
        f = 1. / self.k if self.mom is None else self.mom
        if self.run is None:
            self.run = [tuple(np.array(v, float) for v in t) for t in init]
        self.run = [tuple((1 - f) * a + f * b for a, b in zip(r, c)) for r, c in zip(self.run, cur)]


def batch(rng, t, sp, cloud, scale, spatial=None):
    shp = [int(rng.randint(2, 5))] + ([] if cloud or sp.dimensionality == 0 else list(spatial or rng.randint(1, 4, sp.dimensionality)))
    if len(shp) > 1 and spatial is None and rng.rand() < .2:
        shp = [1] + [max(2, v) for v in shp[1:]]         # one sample: the statistics come from its positions
    x = rng.randn(*([shp[0], t.size] + [int(v) for v in shp[1:]]))
    return (x * scale.reshape([1, -1] + [1] * (x.ndim - 2)) + .5 * scale.reshape([1, -1] + [1] * (x.ndim - 2))).astype(np.float32)


def forward(m, mod, t, x, sp, rng, **d):
    co = T(rng.randn(x.shape[0], sp.dimensionality)) if x.ndim == 2 and sp.dimensionality else None
    xt = strided(rng, x) if rng.rand() < .5 else T(x)
    b = xt.clone()
    y = mod(enn.GeometricTensor(xt, t, co))
    m.check(torch.equal(xt, b), "input-untouched", mod=type(mod).__name__)
    m.check(y.type == mod.out_type == t and y.coords is co and tuple(y.shape) == x.shape == tuple(mod.evaluate_output_shape(x.shape)), "type-and-shape", mod=type(mod).__name__)
    return y.tensor.detach().numpy()


def per_sample(x, f):
    return f


def condition(x, stats, apply_, rng):
    """how far rounding of the input alone can move the output (statistics of nearly constant batches amplify it)"""
    e, want = 0., apply_(x.astype(float), stats(x.astype(float))[0])
    for _ in range(2):
        xp = x.astype(float) + 2e-7 * np.abs(x).max() * rng.randn(*x.shape)
        e = max(e, float(np.abs(apply_(xp, stats(xp)[0]) - want).max()))
    return e / (1. + float(np.abs(want).max()))


def history(m, mk, sp, t, rng, stats, apply_, init, momentum, track=True, steps=None, tol=2e-4, uniform=True, label="", update_first=False, samplewise=False):
    """Random history of batches and modes, on the original and on transformed data, against the reference.

    stats(x) -> (statistics used for this batch, statistics stored); apply_(x, statistics) -> output."""
    mod = mk()
    twin = copy.deepcopy(mod)                        # lives the same history on transformed data
    name = type(mod).__name__
    ref = Ref(None, momentum, None, len(t))
    scale = np.repeat(np.exp(rng.uniform(-1, 1, len(t))), [r.size for r in t.representations])
    cloud = bool(rng.rand() < .25)
    E = [e for e in action_elements(sp.fibergroup, rng, 5) if e != sp.fibergroup.identity] or [sp.fibergroup.identity]
    g = E[rng.randint(len(E))]
    training = True
    for step in range(steps or 7):
        c = rng.rand()
        if c < .35:
            training = not training
            (mod.train if training else mod.eval)() if training else mod.eval()
            mod.train(training)
            twin.train(training)
            m.event("mode", str(training))
        elif c < .42 and hasattr(mod, "reset_running_stats"):
            mod.reset_running_stats()
            twin.reset_running_stats()
            ref.reset()
            m.event("reset")
        elif c < .5:
            mod2 = mk()
            mod2.load_state_dict({k: v.clone() for k, v in mod.state_dict().items()})
            mod2.train(mod.training)
            mod = mod2
            m.event("reload")
        x = batch(rng, t, sp, cloud, scale * (1 if rng.rand() < .8 else 3))
        y = forward(m, mod, t, x, sp, rng)
        use, store = stats(x.astype(float))
        if training and track:
            ref.update(store, init)
            if update_first:
                use = ref.run
        elif not training and track:
            use = ref.run or [tuple(np.array(v, float) for v in q) for q in init]
        want = apply_(x.astype(float), use)
        slack = 20 * condition(x, stats, apply_, rng) if training or not track else 0.
        m.event("forward", f"{name}:{sp.name[:30]}:{desc(t)[:40]}:{training}:{momentum}:{track}:{x.ndim}")
        m.close(y, want, "statistics", tol + slack, mod=name, training=training, momentum=momentum, track=track, t=desc(t), step=step, shape=x.shape, label=label)
        # the transformed history
        if samplewise and step % 2:
            gg = [E[rng.randint(len(E))] for _ in range(x.shape[0])]
        else:
            gg = [g] * x.shape[0]
        xg = np.concatenate([fiber_act(x[j:j + 1], t.representations, e) for j, e in enumerate(gg)])
        yg = forward(m, twin, t, xg.astype(np.float32), sp, rng)
        yr = np.concatenate([fiber_act(y[j:j + 1], t.representations, e) for j, e in enumerate(gg)])
        m.event("transformed", f"{name}:{sp.fibergroup.name}:{training}")
        m.close(yg, yr, "equivariance", 5e-4 + 2 * slack, mod=name, training=training, g=g, t=desc(t), step=step)
        if not training:                              # evaluation is a pure function
            m.close(forward(m, mod, t, x, sp, rng), y, "evaluation-is-stable", 1e-6, mod=name)
    # trained parameters: still equivariant; every parameter belongs to one field
    mod = mk()
    randomize(mod, rng, 1.)
    randomize_stats(mod, rng) if False else None
    for tr in (True, False):
        mod.train(tr)
        x = batch(rng, t, sp, cloud, scale)
        slack = 100 * condition(x, stats, apply_, rng) if tr or not track else 0.
        sd = {k: v.clone() for k, v in mod.state_dict().items()}
        y = forward(m, mod, t, x, sp, rng)
        mod.load_state_dict(sd)
        yg = forward(m, mod, t, fiber_act(x, t.representations, g).astype(np.float32), sp, rng)
        m.close(yg, fiber_act(y, t.representations, g), "equivariance-affine", 5e-4 + slack, mod=name, training=tr, g=g, t=desc(t))
    mod.eval()
    x = batch(rng, t, sp, cloud, scale)
    y = forward(m, mod, t, x, sp, rng)
    seen = {}
    for pn, p in mod.named_parameters():
        for j in range(min(p.numel(), 24)):
            with torch.no_grad():
                old = p.view(-1)[j].item()
                p.view(-1)[j] = old + 1.
                y2 = forward(m, mod, t, x, sp, rng)
                p.view(-1)[j] = old
            ch = [k for k, (a, b) in enumerate(zip(fields(t, y), fields(t, y2))) if np.abs(a - b).max() > 1e-5]
            m.check(len(ch) <= 1, "parameter-of-one-field", mod=name, param=pn, fields=ch, t=desc(t))
            if ch:
                seen.setdefault(ch[0], 0)
                seen[ch[0]] += 1
    if any(True for _ in mod.parameters()):
        m.check(len(seen) == len(t) or sum(p.numel() for p in mod.parameters()) > 24, "every-field-has-parameters", mod=name, got=sorted(seen), n=len(t), t=desc(t))
    mod.reset_parameters()
    md = mk().double()
    xd = batch(rng, t, sp, cloud, scale).astype(np.float64)
    co = torch.tensor(rng.randn(xd.shape[0], sp.dimensionality)) if xd.ndim == 2 and sp.dimensionality else None
    yd = md(enn.GeometricTensor(torch.tensor(xd), t, co)).tensor
    m.check(yd.dtype == torch.float64, "double-kept", mod=name)
    use, store = stats(xd)
    if update_first:
        rf = Ref(None, momentum, None, len(t))
        rf.update(store, init)
        use = rf.run
    m.close(yd.detach().numpy(), apply_(xd, use), "double", 1e-4, mod=name)


MOM = [.1, .3, 1., None]


def corr(n):
    return n / (n - 1.) if n > 1 else 1.


def irr_blocks(r):
    """(start, stop, trivial) in the irreps basis"""
    out, p = [], 0
    for q in r.irreps:
        irr = r.group.irrep(*q)
        out.append((p, p + irr.size, irr.is_trivial()))
        p += irr.size
    return out


def inner(m, g, i):
    rng = m.rng()
    sp = spaces_for(g, rng)
    from checks.c18 import pw_type
    t = pw_type(sp, rng)
    mom, track, eps = MOM[rng.randint(4)], bool(rng.rand() < .75), float(rng.choice([1e-5, 1e-2]))

    def stats(x):
        use, store = [], []
        for f in fields(t, x):
            n = f.size
            use.append((f.mean(), f.var()))
            store.append((f.mean(), f.var() * corr(n)))
        return use, store

    def app(x, st):
        return np.concatenate([(f - mu) / np.sqrt(v + eps) for f, (mu, v) in zip(fields(t, x), st)], 1)
    history(m, lambda: enn.InnerBatchNorm(t, eps=eps, momentum=mom, affine=bool(rng.rand() < .8), track_running_stats=track) if False else
            enn.InnerBatchNorm(t, eps=eps, momentum=mom, track_running_stats=track), sp, t, rng, stats, app, [(0., 1.)] * len(t), mom, track, samplewise=True)
    noaff(m, enn.InnerBatchNorm, sp, t, rng)


def noaff(m, cls, sp, t, rng, **kw):
    mod = cls(t, affine=False, **kw)
    m.check(not list(mod.parameters()), "no-parameters-without-affine", mod=cls.__name__)
    ref = cls(t, affine=True, **kw)
    x = batch(rng, t, sp, False, np.ones(t.size))
    a, b = forward(m, mod, t, x, sp, rng), forward(m, ref, t, x, sp, rng)
    if cls is not enn.NormBatchNorm or True:
        m.close(a, b, "affine-starts-as-identity", 1e-5, mod=cls.__name__)
    mod.reset_parameters()
    mod.train(True)
    m.close(forward(m, mod, t, x, sp, rng), a, "reset", 1e-5, mod=cls.__name__)


def nontrivial_type(sp, rng, kinds=None):
    G_ = sp.fibergroup
    pool = []
    for _ in range(12):
        r = rand_rep(G_, rng, 2, 8, ["irrep", "irrep", "sum"], order_cap=12)[0]
        if "norm" in r.supported_nonlinearities and not r.contains_trivial():
            pool.append(r)
    if not pool:
        raise Skip("no suitable representation")
    return rand_type(sp, rng, pool=pool[:3])


def normbn(m, g, i):
    rng = m.rng()
    sp = spaces_for(g, rng)
    t = nontrivial_type(sp, rng)
    mom, eps = MOM[rng.randint(4)], float(rng.choice([1e-5, 1e-2]))

    def stats(x):
        st = []
        for f in fields(t, x):
            n = f.size // f.shape[1]
            st.append(((f ** 2).sum(1).mean() / f.shape[1] * corr(n),))
        return st, st

    def app(x, st):
        return np.concatenate([f / np.sqrt(v[0] + eps) for f, v in zip(fields(t, x), st)], 1)
    history(m, lambda: enn.NormBatchNorm(t, eps=eps, momentum=mom), sp, t, rng, stats, app, [(1.,)] * len(t), mom, True, update_first=True, samplewise=True)
    noaff(m, enn.NormBatchNorm, sp, t, rng)
    m.raises(AssertionError, lambda: enn.NormBatchNorm(enn.FieldType(sp, [sp.trivial_repr])), "refuses-trivial")


def inducedbn(m, g, i):
    rng = m.rng()
    sp = spaces_for(g, rng)
    G_ = sp.fibergroup
    ids = [s for s in subgroup_ids(G_) if s not in ("octa", "ico")]
    reps, sub = [], []
    for _ in range(14):
        if not ids or len(reps) >= 4:
            break
        sid = ids[rng.randint(len(ids))]
        H, _, _ = G_.subgroup(sid)
        if not (H.order() > 0 and G_.order() // H.order() <= 12):
            continue
        hi = [r for r in irreps_of(H, 1) if r.size * (G_.order() // H.order()) <= 24 and not r.is_trivial()]
        if not hi:
            continue
        r = hi[rng.randint(len(hi))]
        try:
            ind = G_.induced_representation(sid, r)
        except NotImplementedError:
            continue
        if [q for q in ind.supported_nonlinearities if q.startswith("induced_norm")] == [f"induced_norm_{r.size}"] and not ind.contains_trivial():
            for _ in range(int(rng.randint(1, 3))):
                reps.append(ind)
                sub.append(r.size)
    if not reps:
        return
    o = rng.permutation(len(reps))[:5]
    reps, sub = [reps[j] for j in o], [sub[j] for j in o]
    t = enn.FieldType(sp, reps)
    mom, eps = MOM[rng.randint(4)], float(rng.choice([1e-5, 1e-2]))

    def stats(x):
        st = []
        for f, s in zip(fields(t, x), sub):
            n = f.size // s
            st.append(((f ** 2).sum() / n / s * corr(n),))
        return st, st

    def app(x, st):
        return np.concatenate([f / np.sqrt(v[0] + eps) for f, v in zip(fields(t, x), st)], 1)
    history(m, lambda: enn.InducedNormBatchNorm(t, eps=eps, momentum=mom), sp, t, rng, stats, app, [(1.,)] * len(t), mom, True, update_first=True, samplewise=True)
    noaff(m, enn.InducedNormBatchNorm, sp, t, rng)


def in_irreps(r, f, inv=True):
    A = np.asarray(r.change_of_basis_inv if inv else r.change_of_basis, float)
    return np.einsum("ds,bs...->bd...", A, f)


def gnorm(m, g, i):
    rng = m.rng()
    sp = spaces_for(g, rng)
    t = rand_type(sp, rng)
    mom, track, eps = MOM[rng.randint(4)], bool(rng.rand() < .75), float(rng.choice([1e-5, 1e-2]))
    R = t.representations

    def stats(x):
        st = []
        for r, f in zip(R, fields(t, x)):
            h = in_irreps(r, f)
            N = h.size // h.shape[1]
            q = []
            for a, b, tr in irr_blocks(r):
                blk = h[:, a:b]
                if tr:
                    q.append((blk.mean(), blk.var() * corr(N)))
                else:
                    q.append((0., (blk ** 2).mean() * corr(N)))
            st.append(tuple(np.array(v) for v in q))
        return st, st

    def app(x, st):
        out = []
        for r, f, q in zip(R, fields(t, x), st):
            h = in_irreps(r, f)
            for (a, b, tr), (mu, v) in zip(irr_blocks(r), q):
                h[:, a:b] = (h[:, a:b] - mu) / np.sqrt(max(v, 0) + eps)
            out.append(in_irreps(r, h, False))
        return np.concatenate(out, 1)
    init = [tuple(np.array([0., 1.]) for _ in r.irreps) for r in R]
    history(m, lambda: enn.GNormBatchNorm(t, eps=eps, momentum=mom, track_running_stats=track), sp, t, rng, stats, app, init, mom, track, samplewise=True, tol=1e-3 if eps < 1e-3 else 2e-4)
    noaff(m, enn.GNormBatchNorm, sp, t, rng)


def triv_proj(r):
    """orthogonal projection on the invariant vectors, from the group average over irreps"""
    S = np.zeros((r.size, r.size))
    for a, b, tr in irr_blocks(r):
        if tr:
            S[a:b, a:b] = np.eye(b - a)
    return np.asarray(r.change_of_basis, float) @ S @ np.asarray(r.change_of_basis_inv, float)


def iid(m, g, i):
    rng = m.rng()
    sp = spaces_for(g, rng)
    t = rand_type(sp, rng)
    mom, track, eps = MOM[rng.randint(4)], bool(rng.rand() < .75), float(rng.choice([1e-5, 1e-2]))
    cls = {0: enn.IIDBatchNorm1d, 2: enn.IIDBatchNorm2d, 3: enn.IIDBatchNorm3d}[sp.dimensionality]
    P = [triv_proj(r) for r in t.representations]

    def stats(x):
        st = []
        for p, f in zip(P, fields(t, x)):
            ax = (0,) + tuple(range(2, f.ndim))
            N = f.size // f.shape[1]
            st.append((p @ f.mean(ax), f.var(ax).mean() * corr(N)))
        return st, st

    def app(x, st):
        return np.concatenate([(f - mu.reshape((1, -1) + (1,) * (f.ndim - 2))) / np.sqrt(v + eps) for f, (mu, v) in zip(fields(t, x), st)], 1)
    init = [(np.zeros(r.size), 1.) for r in t.representations]
    history(m, lambda: cls(t, eps=eps, momentum=mom, track_running_stats=track), sp, t, rng, stats, app, init, mom, track)
    noaff(m, cls, sp, t, rng)


def fieldnorm(m, g, i):
    rng = m.rng()
    sp = spaces_for(g, rng)
    t = rand_type(sp, rng)
    eps = float(rng.choice([1e-5, 1e-2]))
    P = [triv_proj(r) for r in t.representations]

    def app(x, st):
        out = []
        for p, f in zip(P, fields(t, x)):
            c = f - np.einsum("ij,bj...->bi...", p, f)
            out.append(c / np.sqrt((c ** 2).mean(1, keepdims=True) + eps))
        return np.concatenate(out, 1)

    # a field that equals its mean up to rounding is noise / sqrt(eps)
    history(m, lambda: enn.FieldNorm(t, eps=eps), sp, t, rng, lambda x: ([()] * len(t), [()] * len(t)), app, [()] * len(t), .1, False, samplewise=True, tol=2e-3 if eps < 1e-3 else 2e-4)
    noaff(m, enn.FieldNorm, sp, t, rng)


def dropout(m, g, i):
    rng = m.rng()
    sp = spaces_for(g, rng)
    torch.manual_seed(int(rng.randint(1 << 30)))
    t = rand_type(sp, rng, nf=int(rng.randint(2, 6)))
    for p in (0., 1., float(rng.uniform(.15, .85)), float(rng.choice([.02, .96, .99]))):
        for inplace in (False, True):
            mod = enn.FieldDropout(t, p, inplace)
            one_dropout(m, mod, sp, t, rng, p, inplace, [r.size for r in t.representations])
    from checks.c18 import pw_type
    t = pw_type(sp, rng)
    for p in (0., 1., float(rng.uniform(.15, .85)), float(rng.choice([.02, .96, .99]))):
        for inplace in (False, True):
            mod = enn.PointwiseDropout(t, p, inplace)
            one_dropout(m, mod, sp, t, rng, p, inplace, [1] * t.size)
    for cls in (enn.FieldDropout, enn.PointwiseDropout):
        m.raises(ValueError, lambda: cls(t, 1.5), "probability-range")
        m.raises(ValueError, lambda: cls(t, -.1), "probability-range")


def one_dropout(m, mod, sp, t, rng, p, inplace, units):
    d = dict(mod=type(mod).__name__, p=p, inplace=inplace, t=desc(t))
    B = 64
    shp = (B,) + ((3,) * sp.dimensionality if sp.dimensionality else ())
    x = rand_input(rng, t, shp) + 3.
    for tr in (True, False):
        mod.train(tr)
        xt = strided(rng, x)
        before = xt.clone()
        co = T(rng.randn(B, sp.dimensionality)) if len(shp) == 1 and sp.dimensionality else None
        y = mod(enn.GeometricTensor(xt, t, co))
        m.check(y.type == t and y.coords is co and tuple(y.shape) == x.shape, "type-and-shape", **d)
        y = y.tensor
        m.event("draw", f"{type(mod).__name__}:{p:.1f}:{inplace}:{tr}:{len(units)}:{sp.dimensionality}")
        if not tr:
            m.check(torch.equal(y, before) and torch.equal(xt, before), "identity-in-evaluation", **d)
            continue
        if inplace:
            m.check(torch.equal(y, xt), "in-place", **d)
        else:
            m.check(torch.equal(xt, before), "input-untouched", **d)
        yn, xn = y.numpy(), before.numpy()
        if not m.check(np.isfinite(yn).all(), "finite", **d):
            continue
        a = 0
        keep = []
        for u in units:
            f, fx = yn[:, a:a + u], xn[:, a:a + u]
            a += u
            z = (f == 0).all(1)
            if p < 1:
                k = np.abs(f - fx / (1 - p)).max(1) <= 1e-4 * (1 + np.abs(fx).max(1))
            else:
                k = np.zeros_like(z)
            m.check((z | k).all(), "whole-units-dropped-or-rescaled", **d)
            keep.append(~z)
        K = np.stack(keep, 1)
        n = K.shape[0] * K.shape[1]                    # at worst one decision per sample and unit
        rate = 1 - K.mean()
        if p in (0., 1.):
            m.check(rate == p, "rate", got=rate, **d)
        else:
            m.check(abs(rate - p) < 6 * math.sqrt(p * (1 - p) / n) + 10. / n, "rate", got=rate, **d)
        if .15 <= p <= .85:
            pos = K.reshape(B, K.shape[1], -1)[:, :, 0]
            if K.shape[1] > 1:
                m.check(any((pos[:, 0] != pos[:, j]).any() for j in range(1, K.shape[1])), "units-independent", **d)
            m.check((pos != pos[:1]).any(), "samples-independent", **d)
            y2 = mod(enn.GeometricTensor(before.clone(), t, co)).tensor.numpy()
            m.check((y2 != yn).any(), "fresh-draws", **d)
