"""A random instance of every equivariant module of the library, with an input generator.

make(name, rng, sp, t) returns a Spec whose build() constructs the same architecture again and again; `t` forces the input
type (used to chain modules into networks), None lets the module choose a type it supports.
"""
from core import Skip
from nnlib import *
from checks.c16 import strided
from checks.c18 import pw_type

D0 = ["C1", "C2", "C3", "C4", "C6", "C8", "D1", "D3", "D4", "D6", "SO2", "O2", "SO3", "O3", "Octa", "Ico", "CylD3", "C2*C4", "T"]
S2 = [["rot2dOnR2", {"N": 4}], ["rot2dOnR2", {"N": 8}], ["rot2dOnR2", {"N": 2}], ["rot2dOnR2", {"N": 6}], ["flipRot2dOnR2", {"N": 4}], ["flipRot2dOnR2", {"N": 2}], ["flip2dOnR2", {}],
      ["rot2dOnR2", {"N": -1, "maximum_frequency": 3}], ["flipRot2dOnR2", {"N": -1, "maximum_frequency": 3}], ["trivialOnR2", {}]]
S3 = [["octaOnR3", {}], ["rot2dOnR3", {"n": 4}], ["dihedralOnR3", {"n": 4}], ["invOnR3", {}], ["mirOnR3", {}], ["rot3dOnR3", {}], ["flipRot3dOnR3", {}], ["conicalOnR3", {"n": 4}], ["trivialOnR3", {}]]


class Spec:
    """build(): module; t: input type; spatial(rng): spatial shape or () ; call(mod, x numpy) -> GeometricTensor."""

    def __init__(self, name, sp, t, build, spatial, cloud=False, stateful=False, random=False, cached=False, min_spatial=None):
        self.name, self.sp, self.t, self._build, self.spatial_fn, self.cloud = name, sp, t, build, spatial, cloud
        self.stateful, self.random, self.cached = stateful, random, cached
        self.edges = None
        self.coords = None

    def build(self):
        return self._build()

    def sample(self, rng, batch=None, kind_="normal", dtype=np.float32):
        b = batch or int(rng.randint(2, 5))
        return rand_input(rng, self.t, (b,) + tuple(self.spatial_fn(rng)), kind_, dtype)

    def args(self, x, rng=None, dtype=None):
        xt = torch.as_tensor(x) if dtype is None else torch.as_tensor(x).to(dtype)
        dim = self.sp.dimensionality
        if xt.dim() == 2 and dim > 0:
            n = xt.shape[0]
            r = np.random.RandomState(n * 7 + 1)
            co = torch.tensor(r.randn(n, dim)).to(xt.dtype)
            gt = enn.GeometricTensor(xt, self.t, co)
            if self.name == "pointconv":
                e = torch.tensor(r.randint(0, n, (2, 3 * n)))
                return (gt, e)
            return (gt,)
        return (enn.GeometricTensor(xt, self.t),)

    def __call__(self, mod, x, dtype=None):
        return mod(*self.args(x, dtype=dtype))


def pick_space(rng, dim):
    if dim == 0:
        return gs.no_base_space(G(D0[rng.randint(len(D0))]))
    S = S2 if dim == 2 else S3
    return space(S[rng.randint(len(S))])


def _types(sp, rng, nf=None, size=None):
    cap = dict(max_field=8, maxf=2, max_size=size or 14) if sp.dimensionality != 3 else dict(max_field=6, maxf=2, max_size=size or 9)
    return rand_type(sp, rng, nf=nf or int(rng.randint(1, 4)), **cap)


def _try(mk, n=10):
    """First configuration that the library accepts; the documented refusals are skipped."""
    for _ in range(n):
        b, *rest = mk()
        try:
            b()
        except ValueError as e:
            if "is empty" in str(e):
                continue
            raise
        except (eg.InsufficientIrrepsException, NotImplementedError):
            continue
        return (b, *rest)
    raise Skip("no configuration accepted")


def _any_spatial(sp, rng, cloud=True):
    """Fixed rank, varying sizes."""
    if sp.dimensionality == 0:
        return lambda r: ()
    if cloud and rng.rand() < .2:
        return lambda r: ()
    d = sp.dimensionality
    return lambda r: tuple(int(v) for v in r.randint(1, 6 if d == 2 else 4, d))


def _min_spatial(mins):
    return lambda r: tuple(int(v + r.randint(0, 4 if len(mins) == 2 else 3)) for v in mins)


# --------------------------------------------------------------------------------------------------------------- linear
def conv(rng, sp, t=None, uniform=False, transposed=False):
    from checks.c14 import config, build
    d = sp.dimensionality

    def mk():
        c = config(rng, d, transposed, 2)
        if t is not None:
            c["groups"] = 1
        if uniform:
            c["stride"] = 1
            c.pop("output_padding", None)
        g = c["groups"]
        a = t or _types(sp, rng)
        b = _types(sp, rng)
        tin = t or enn.FieldType(sp, list(a.representations) * g)
        tout = enn.FieldType(sp, list(b.representations) * g)
        init = bool(rng.rand() < .5)
        return (lambda: build(sp, d, transposed, tin, tout, dict(c, initialize=init))), tin, c
    b, tin, c = _try(mk)
    eff = c["dilation"] * (c["kernel_size"] - 1) + 1
    lo = max(1, eff - 2 * c["padding"], c["padding"] + 1) if not transposed else max(1, 2 * c["padding"] - eff + 3)
    return Spec("conv" + ("T" if transposed else ""), sp, tin, b, _min_spatial([lo] * d), cached=True)


def convT(rng, sp, t=None, uniform=False):
    return conv(rng, sp, t, uniform, True)


def pointconv(rng, sp, t=None, uniform=False):
    d = sp.dimensionality
    cls = enn.R2PointConv if d == 2 else enn.R3PointConv

    def mk():
        c = dict(bias=bool(rng.rand() < .7), sigma=float(.4 + rng.rand()), initialize=bool(rng.rand() < .5))
        if rng.rand() < .5:
            c.update(width=float(1 + 2 * rng.rand()), n_rings=int(rng.randint(1, 4)))
        else:
            c["rings"] = sorted(float(v) for v in rng.rand(2) * 2)
        c["frequencies_cutoff"] = float(rng.choice([1., 2.])) if d == 2 else 1.5
        g = int(rng.choice([1, 1, 2])) if t is None else 1
        a = t or _types(sp, rng)
        tin = t or enn.FieldType(sp, list(a.representations) * g)
        tout = enn.FieldType(sp, list(_types(sp, rng).representations) * g)
        return (lambda: cls(tin, tout, groups=g, **c)), tin
    b, tin = _try(mk)
    return Spec("pointconv", sp, tin, b, lambda r: (), cloud=True, cached=True)


def linear(rng, sp, t=None, uniform=False):
    def mk():
        tin, tout = t or _types(sp, rng), _types(sp, rng)
        c = dict(bias=bool(rng.rand() < .7), initialize=bool(rng.rand() < .5))
        return (lambda: enn.Linear(tin, tout, **c)), tin
    b, tin = _try(mk)
    return Spec("linear", sp, tin, b, lambda r: (), cached=True)


def tensorproduct(rng, sp, t=None, uniform=False):
    def mk():
        if t is None:
            c = int(rng.randint(1, 4))
            a = rand_rep(sp.fibergroup, rng, 1, 6, ["irrep", "sum", "basis"])[0]
            b = rand_rep(sp.fibergroup, rng, 1, 6, ["irrep", "sum", "regular"])[0]
            tin, tout = enn.FieldType(sp, [a] * c), enn.FieldType(sp, [b] * c)
        else:
            if not t.uniform:
                raise Skip("needs a uniform type")
            tin = t
            tout = enn.FieldType(sp, [rand_rep(sp.fibergroup, rng, 1, 6, ["irrep", "sum"])[0]] * len(t))
        return (lambda: enn.TensorProductModule(tin, tout)), tin
    b, tin = _try(mk)
    return Spec("tensorproduct", sp, tin, b, _any_spatial(sp, rng), cached=True)


# -------------------------------------------------------------------------------------------------------- nonlinearities
def _need(rng, sp, t, what):
    if t is not None:
        if not all(what in r.supported_nonlinearities for r in t.representations):
            raise Skip(f"type does not support {what}")
        return t
    t = pw_type(sp, rng) if what == "pointwise" else rand_type(sp, rng, need=what, max_size=24)
    if not all(what in r.supported_nonlinearities for r in t.representations):
        raise Skip(f"type does not support {what}")
    return t


def pointwise(rng, sp, t=None, uniform=False):
    t = _need(rng, sp, t, "pointwise")
    c = rng.randint(6)
    al = float(.3 + rng.rand())
    b = [lambda: enn.ReLU(t), lambda: enn.ELU(t), lambda: enn.ELU(t, alpha=al), lambda: enn.LeakyReLU(t, negative_slope=al), lambda: enn.PointwiseNonLinearity(t, "p_sigmoid"), lambda: enn.PointwiseNonLinearity(t, "p_tanh")][c]
    return Spec("pointwise", sp, t, b, _any_spatial(sp, rng))


def norm(rng, sp, t=None, uniform=False):
    t = _need(rng, sp, t, "norm")
    f, bias = str(rng.choice(["n_relu", "n_sigmoid", "n_softplus"])), bool(rng.rand() < .7)
    return Spec("norm", sp, t, lambda: enn.NormNonLinearity(t, function=f, bias=bias), _any_spatial(sp, rng))


def gated1(rng, sp, t=None, uniform=False):
    if t is not None:
        tr = [j for j, r in enumerate(t.representations) if len(r.irreps) == 1 and "gate" in r.supported_nonlinearities]
        other = [j for j, r in enumerate(t.representations) if j not in tr and "gated" in r.supported_nonlinearities]
        k = len(t) // 2
        if len(t) % 2 or len(tr) < k or any(j not in tr and j not in other for j in range(len(t))):
            raise Skip("type cannot be gated")
        gates = tr[:k]
        tin = t
        lab = ["gate" if j in gates else "gated" for j in range(len(t))]
        if not all("gated" in t.representations[j].supported_nonlinearities for j in range(len(t)) if j not in gates):
            raise Skip("type cannot be gated")
    else:
        a = rand_type(sp, rng, need="gated", max_size=16)
        n = len(a)
        src = [sp.trivial_repr] * n + list(a.representations)
        o = rng.permutation(2 * n)
        tin = enn.FieldType(sp, [src[j] for j in o])
        lab = ["gate" if j < n else "gated" for j in o]
    drop = bool(rng.rand() < .6)
    return Spec("gated1", sp, tin, lambda: enn.GatedNonLinearity1(tin, gates=lab, drop_gates=drop), _any_spatial(sp, rng))


def gateduniform(rng, sp, t=None, uniform=False):
    if t is not None:
        raise Skip("chooses its type")
    n = int(rng.randint(1, 3))
    irr = [r for r in irreps_of(sp.fibergroup, 2) if r.size < 8]
    sel = [irr[rng.randint(len(irr))] for _ in range(n)]
    rho = eg.directsum([sp.trivial_repr] * n + sel, name=f"gu{[r.name for r in sel]}")
    tin = enn.FieldType(sp, [rho] * int(rng.randint(1, 4)))
    return Spec("gateduniform", sp, tin, lambda: enn.GatedNonLinearityUniform(tin), _any_spatial(sp, rng))


def concatenated(rng, sp, t=None, uniform=False):
    t = _need(rng, sp, t, "concatenated")
    return Spec("concatenated", sp, t, lambda: enn.ConcatenatedNonLinearity(t, function="c_relu"), _any_spatial(sp, rng))


def vectorfield(rng, sp, t=None, uniform=False):
    t = _need(rng, sp, t, "vectorfield") if t is not None else None
    if t is None:
        r = sp.fibergroup.regular_representation if sp.fibergroup.order() > 0 else None
        if r is None or "vectorfield" not in r.supported_nonlinearities:
            raise Skip("no vector field")
        t = enn.FieldType(sp, [r] * int(rng.randint(1, 4)))
    try:
        enn.VectorFieldNonLinearity(t)
    except AssertionError:
        raise Skip("no planar irrep")
    return Spec("vectorfield", sp, t, lambda: enn.VectorFieldNonLinearity(t), _any_spatial(sp, rng))


def _induced(rng, sp, trivial_free=False):
    G_ = sp.fibergroup
    if G_.order() <= 0 or G_.order() > 60:
        raise Skip("needs a small finite group")
    ids = [s for s in subgroup_ids(G_) if s not in ("octa", "ico")]
    if not ids:
        raise Skip("no subgroups")
    for _ in range(15):
        sid = ids[rng.randint(len(ids))]
        H, _, _ = G_.subgroup(sid)
        if H.order() <= 0 or G_.order() // H.order() > 8:
            continue
        hi = [r for r in irreps_of(H, 1) if r.size * G_.order() // H.order() <= 16]
        reps = []
        for _ in range(int(rng.randint(1, 4))):
            r = hi[rng.randint(len(hi))]
            try:
                ind = G_.induced_representation(sid, r)
            except NotImplementedError:
                continue
            if f"induced_norm_{r.size}" in ind.supported_nonlinearities and f"induced_gated_{r.size}" in ind.supported_nonlinearities \
                    and len([q for q in ind.supported_nonlinearities if q.startswith("induced_norm")]) == 1 and not (trivial_free and ind.contains_trivial()):
                reps.append(ind)
        if reps:
            return sid, H, reps
    raise Skip("no induced representation")


def inducednorm(rng, sp, t=None, uniform=False):
    if t is not None:
        raise Skip("chooses its type")
    sid, H, reps = _induced(rng, sp)
    t = enn.FieldType(sp, reps)
    f, bias = str(rng.choice(["n_relu", "n_sigmoid"])), bool(rng.rand() < .7)
    return Spec("inducednorm", sp, t, lambda: enn.InducedNormNonLinearity(t, function=f, bias=bias), _any_spatial(sp, rng))


def inducedgated(rng, sp, t=None, uniform=False):
    if t is not None:
        raise Skip("chooses its type")
    sid, H, reps = _induced(rng, sp)
    gate = sp.fibergroup.quotient_representation(sid)
    if "induced_gate" not in gate.supported_nonlinearities:
        raise Skip("no gate")
    n = len(reps)
    src = [gate] * n + reps
    o = rng.permutation(2 * n)
    t = enn.FieldType(sp, [src[j] for j in o])
    lab = ["gate" if j < n else "gated" for j in o]
    drop = bool(rng.rand() < .6)
    mk = lambda: enn.InducedGatedNonLinearity1(t, gates=lab, drop_gates=drop)
    try:
        mk()
    except (AssertionError, ValueError):
        raise Skip("refused")
    return Spec("inducedgated", sp, t, mk, _any_spatial(sp, rng))


def fourier(rng, sp, t=None, uniform=False):
    if t is not None:
        raise Skip("chooses its type")
    from checks.c17 import band
    G_ = sp.fibergroup
    k = kind(G_)
    kw = {"SO2": dict(N=12), "O2": dict(N=10), "SO3": dict(type="thomson_cube", N=1), "O3": dict(type="cube")}.get(k)
    if kw is None:
        if G_.order() <= 0 or k not in ("C", "D", "Cyclic", "Dihedral") and not hasattr(G_, "grid"):
            raise Skip("no grid")
        if isinstance(G_, (eg.CyclicGroup,)):
            kw = dict(type="regular", N=G_.order())
        elif isinstance(G_, eg.DihedralGroup):
            kw = dict(type="regular", N=G_.order() // 2)
        else:
            raise Skip("no grid")
    irreps = band(G_, k, rng, small=True)
    c = int(rng.randint(1, 3))
    fn = str(rng.choice(["p_relu", "p_elu", "p_tanh"]))
    nz = bool(rng.rand() < .5)
    b = lambda: enn.FourierPointwise(sp, c, irreps, function=fn, normalize=nz, **kw)
    if fn == "p_elu":
        b = lambda: enn.FourierELU(sp, c, irreps, normalize=nz, **kw)
    return Spec("fourier", sp, b().in_type, b, _any_spatial(sp, rng))


def quotientfourier(rng, sp, t=None, uniform=False):
    if t is not None:
        raise Skip("chooses its type")
    G_ = sp.fibergroup
    k = kind(G_)
    if k == "SO3":
        sid, irr, grid = (False, -1), [(l,) for l in range(3)], G_.grid("cube")
    elif k == "O2":
        sid, irr, grid = (0., 1), [(0, 0), (1, 1), (1, 2)], G_.grid(8)
    elif k == "SO2":
        sid, irr, grid = 2, [(0,), (2,)], G_.grid(8)
    else:
        raise Skip("no quotient")
    c = int(rng.randint(1, 3))
    if rng.rand() < .5:
        b = lambda: enn.QuotientFourierELU(sp, sid, c, irr, grid=grid)
    else:
        b = lambda: enn.QuotientFourierPointwise(sp, sid, c, irr, grid=grid, function="p_relu")
    return Spec("quotientfourier", sp, b().in_type, b, _any_spatial(sp, rng))


# --------------------------------------------------------------------------------------------------------- normalisation
def innerbn(rng, sp, t=None, uniform=False):
    t = t or (pw_type(sp, rng) if rng.rand() < .5 else rand_type(sp, rng, need="pointwise", max_size=24))
    if not all("pointwise" in r.supported_nonlinearities for r in t.representations):
        raise Skip("type does not support it")
    kw = dict(eps=float(rng.choice([1e-5, 1e-2])), momentum=float(rng.choice([.1, .5])), affine=bool(rng.rand() < .7), track_running_stats=True)
    return Spec("innerbn", sp, t, lambda: enn.InnerBatchNorm(t, **kw), _any_spatial(sp, rng), stateful=True)


def normbn(rng, sp, t=None, uniform=False):
    from checks.c19 import nontrivial_type
    if t is None:
        try:
            t = nontrivial_type(sp, rng)
        except TypeError:
            raise Skip("no type")
        if t is None:
            raise Skip("no type")
    elif any(not r.is_irreducible() or r.is_trivial() for r in t.representations):
        raise Skip("type does not support it")
    if any("norm" not in r.supported_nonlinearities for r in t.representations) or any(sp.fibergroup.irrep(*q).is_trivial() for r in t.representations for q in r.irreps):
        raise Skip("type does not support it")
    kw = dict(eps=float(rng.choice([1e-5, 1e-2])), momentum=float(rng.choice([.1, .5])), affine=bool(rng.rand() < .7))
    return Spec("normbn", sp, t, lambda: enn.NormBatchNorm(t, **kw), _any_spatial(sp, rng), stateful=True)


def inducedbn(rng, sp, t=None, uniform=False):
    if t is not None:
        raise Skip("chooses its type")
    sid, H, reps = _induced(rng, sp, True)
    t = enn.FieldType(sp, reps)
    kw = dict(eps=float(rng.choice([1e-5, 1e-2])), momentum=float(rng.choice([.1, .5])), affine=bool(rng.rand() < .7))
    return Spec("inducedbn", sp, t, lambda: enn.InducedNormBatchNorm(t, **kw), _any_spatial(sp, rng), stateful=True)


def gnorm(rng, sp, t=None, uniform=False):
    t = t or _types(sp, rng)
    kw = dict(eps=float(rng.choice([1e-3, 1e-2])), momentum=float(rng.choice([.1, .5])), affine=bool(rng.rand() < .7), track_running_stats=True)
    return Spec("gnorm", sp, t, lambda: enn.GNormBatchNorm(t, **kw), _any_spatial(sp, rng), stateful=True)


def iid(rng, sp, t=None, uniform=False):
    t = t or _types(sp, rng)
    cls = {0: enn.IIDBatchNorm1d, 2: enn.IIDBatchNorm2d, 3: enn.IIDBatchNorm3d}[sp.dimensionality]
    kw = dict(eps=float(rng.choice([1e-3, 1e-2])), momentum=float(rng.choice([.1, .5])), affine=bool(rng.rand() < .7), track_running_stats=True)
    return Spec("iid", sp, t, lambda: cls(t, **kw), _any_spatial(sp, rng, cloud=False), stateful=True)


def fieldnorm(rng, sp, t=None, uniform=False):
    t = t or _types(sp, rng)
    kw = dict(eps=float(rng.choice([1e-3, 1e-2])), affine=bool(rng.rand() < .7))
    return Spec("fieldnorm", sp, t, lambda: enn.FieldNorm(t, **kw), _any_spatial(sp, rng))


def dropout(rng, sp, t=None, uniform=False):
    p = float(rng.choice([0., .3, .7]))
    if rng.rand() < .5:
        t = t or _types(sp, rng)
        return Spec("dropout", sp, t, lambda: enn.FieldDropout(t, p), _any_spatial(sp, rng), random=True)
    t = _need(rng, sp, t, "pointwise")
    return Spec("dropout", sp, t, lambda: enn.PointwiseDropout(t, p), _any_spatial(sp, rng), random=True)


# --------------------------------------------------------------------------------------------- pooling, invariant maps, ...
def _geo(rng, sp, t, uniform, dilate=True):
    from checks.c18 import geometry
    arg, K, S, P, D, sh = geometry(rng, sp.dimensionality, dilate=dilate, uniform=uniform)
    if not dilate:
        arg.pop("dilation", None)
    lo = [max(1, k, d * (k - 1) + 1 - 2 * p) for k, p, d in zip(K, P, D)]
    if sp.dimensionality == 3:
        lo = [max(v, k) for v, k in zip(lo, K)]
    return arg, _min_spatial([max(v, d * (k - 1) + 1) for v, k, d in zip(lo, K, D)])


def maxpool(rng, sp, t=None, uniform=False):
    t = _need(rng, sp, t, "pointwise")
    d = sp.dimensionality
    arg, shp = _geo(rng, sp, t, uniform)
    c = bool(rng.rand() < .3)
    cls = enn.PointwiseMaxPool2D if d == 2 else enn.PointwiseMaxPool3D
    return Spec("maxpool", sp, t, lambda: cls(t, ceil_mode=c, **arg), shp)


def avgpool(rng, sp, t=None, uniform=False):
    t = t or _types(sp, rng)
    d = sp.dimensionality
    arg, shp = _geo(rng, sp, t, uniform, False)
    c = bool(rng.rand() < .3)
    cls = enn.PointwiseAvgPool2D if d == 2 else enn.PointwiseAvgPool3D
    return Spec("avgpool", sp, t, lambda: cls(t, ceil_mode=c, **arg), shp)


def adaptive(rng, sp, t=None, uniform=False):
    d = sp.dimensionality
    nm = str(rng.choice(["Avg", "Max"]))
    t = (_need(rng, sp, t, "pointwise") if nm == "Max" else (t or _types(sp, rng)))
    o = int(rng.randint(1, 4)) if uniform or rng.rand() < .5 else tuple(int(v) for v in rng.randint(1, 4, d))
    cls = getattr(enn, f"PointwiseAdaptive{nm}Pool{d}D")
    mk = lambda: cls(t, o)
    try:
        mk()
    except AssertionError:
        raise Skip("refused")
    return Spec("adaptive", sp, t, mk, _any_spatial(sp, rng, False))


def antialiased(rng, sp, t=None, uniform=False):
    d = sp.dimensionality
    st = int(rng.randint(1, 4))
    sg = float(rng.choice([.3, .5, .66]))
    if rng.rand() < .5:
        t = t or _types(sp, rng)
        cls = getattr(enn, f"PointwiseAvgPoolAntialiased{d}D")
        return Spec("avgblur", sp, t, lambda: cls(t, sg, st), _min_spatial([5] * d))
    t = _need(rng, sp, t, "pointwise")
    cls = getattr(enn, f"PointwiseMaxPoolAntialiased{d}D")
    k = int(rng.randint(1, 4))
    return Spec("maxblur", sp, t, lambda: cls(t, k, st, sigma=sg), _min_spatial([k + 1] * d))


def normmax(rng, sp, t=None, uniform=False):
    if sp.dimensionality != 2:
        raise Skip("planar only")
    t = t or _types(sp, rng)
    arg, shp = _geo(rng, sp, t, uniform)
    c = bool(rng.rand() < .3)
    return Spec("normmax", sp, t, lambda: enn.NormMaxPool(t, ceil_mode=c, **arg), shp)


def grouppool(rng, sp, t=None, uniform=False):
    t = _need(rng, sp, t, "pointwise")
    return Spec("grouppool", sp, t, lambda: enn.GroupPooling(t), _any_spatial(sp, rng))


def normpool(rng, sp, t=None, uniform=False):
    t = t or _types(sp, rng)
    return Spec("normpool", sp, t, lambda: enn.NormPool(t), _any_spatial(sp, rng))


def inducednormpool(rng, sp, t=None, uniform=False):
    if t is not None:
        raise Skip("chooses its type")
    sid, H, reps = _induced(rng, sp)
    t = enn.FieldType(sp, reps)
    return Spec("inducednormpool", sp, t, lambda: enn.InducedNormPool(t), _any_spatial(sp, rng))


def mask(rng, sp, t=None, uniform=False):
    t = t or _types(sp, rng)
    S = int(rng.randint(1, 7))
    mg = float(rng.choice([0., 10., 30.]))
    return Spec("mask", sp, t, lambda: enn.MaskModule(t, S, mg), lambda r: (S,) * sp.dimensionality)


def upsampling(rng, sp, t=None, uniform=False):
    t = t or _types(sp, rng)
    d = sp.dimensionality
    cls = enn.R2Upsampling if d == 2 else enn.R3Upsampling
    kw = dict(mode="nearest" if rng.rand() < .4 else ("bilinear" if d == 2 else "trilinear"), align_corners=bool(rng.rand() < .5))
    if rng.rand() < .6:
        kw["scale_factor"] = int(rng.randint(1, 4)) if uniform or rng.rand() < .5 else float(rng.choice([1.5, 2.5, 1.25, 1.3, 2.7, 1.9]))
    else:
        kw["size"] = int(rng.randint(2, 8)) if uniform or rng.rand() < .5 else tuple(int(v) for v in rng.randint(2, 8, d))
    return Spec("upsampling", sp, t, lambda: cls(t, **kw), _any_spatial(sp, rng, False))


# ------------------------------------------------------------------------------------------------------------ structural
def identity(rng, sp, t=None, uniform=False):
    t = t or _types(sp, rng)
    return Spec("identity", sp, t, lambda: enn.IdentityModule(t), _any_spatial(sp, rng))


def reshuffle(rng, sp, t=None, uniform=False):
    t = t or _types(sp, rng)
    p = [int(v) for v in rng.permutation(len(t))]
    return Spec("reshuffle", sp, t, lambda: enn.ReshuffleModule(t, p), _any_spatial(sp, rng))


def restriction(rng, sp, t=None, uniform=False):
    t = t or _types(sp, rng)
    ids = subgroup_ids(sp.fibergroup)
    if not ids:
        raise Skip("no subgroups")
    for _ in range(6):
        sid = ids[rng.randint(len(ids))]
        mk = lambda: enn.RestrictionModule(t, sid)
        try:
            mk()
        except (NotImplementedError, ValueError, eg.InsufficientIrrepsException):
            continue
        return Spec("restriction", sp, t, mk, _any_spatial(sp, rng))
    raise Skip("no restriction accepted")


def disentangle(rng, sp, t=None, uniform=False):
    t = t or _types(sp, rng)
    return Spec("disentangle", sp, t, lambda: enn.DisentangleModule(t), _any_spatial(sp, rng))


def harmonic(rng, sp, t=None, uniform=False):
    if t is not None or sp.dimensionality or kind(sp.fibergroup) not in ("SO3", "O3"):
        raise Skip("three-dimensional rotations only")
    L = int(rng.randint(0, 4))
    g = {"SO3": "so3", "O3": "o3"}[kind(sp.fibergroup)]
    mk = lambda: enn.HarmonicPolynomialR3(L, g)
    return Spec("harmonic", mk().in_type.gspace, mk().in_type, mk, lambda r: ())


ANY = [tensorproduct, pointwise, norm, gated1, gateduniform, concatenated, vectorfield, inducednorm, inducedgated, fourier, quotientfourier, innerbn, normbn, inducedbn, gnorm, iid, fieldnorm,
       dropout, grouppool, normpool, inducednormpool, identity, reshuffle, restriction, disentangle]
GRID = [conv, convT, maxpool, avgpool, adaptive, antialiased, mask, upsampling]
ONLY = {0: [linear, harmonic], 2: [normmax, pointconv], 3: [pointconv]}


def names(dim):
    return [f.__name__ for f in ANY + (GRID if dim else []) + ONLY[dim]]


def make(name, rng, dim, t=None, sp=None, tries=8, uniform=False):
    """A random instance of the module on a space of this dimension."""
    f = globals()[name]
    err = None
    for _ in range(tries):
        try:
            return f(rng, sp or (t.gspace if t is not None else pick_space(rng, dim)), t, uniform)
        except Skip as e:
            err = e
            if t is not None and sp is not None:
                break
    raise err
