"""C18: pooling, upsampling, masking and invariant maps compute what they document and commute with the group."""
import itertools
from core import Case, Skip
RULE = ("a forward call of a pooling / upsampling / masking / invariant-map module for a distinct (module, space, geometry, field type) combination compared with the "
        "harness's window computation or with the call on the transformed input")
ASSUMPTIONS = ["window arguments that shift the sampling lattice (size + 2 padding - dilation (kernel-1) - 1 not divisible by the stride) are only compared with the "
               "reference computation, not under reflections / rotations", "ties of maxima of norms are not compared under the group"]
from nnlib import *
from checks.c16 import strided, any_space, GRP, FIN, shape_for, fields

S2 = [["rot2dOnR2", {"N": 4}], ["rot2dOnR2", {"N": 8}], ["rot2dOnR2", {"N": 2}], ["flipRot2dOnR2", {"N": 4}], ["flipRot2dOnR2", {"N": 2}], ["flip2dOnR2", {}],
      ["rot2dOnR2", {"N": -1, "maximum_frequency": 3}], ["flipRot2dOnR2", {"N": -1, "maximum_frequency": 3}], ["flipRot2dOnR2", {"N": 6}], ["trivialOnR2", {}], ["rot2dOnR2", {"N": 3}]]
S3 = [["octaOnR3", {}], ["fullOctaOnR3", {}], ["rot2dOnR3", {"n": 4}], ["dihedralOnR3", {"n": 4}], ["invOnR3", {}], ["mirOnR3", {}], ["rot3dOnR3", {}],
      ["flipRot3dOnR3", {}], ["conicalOnR3", {"n": 4}], ["fullCylindricalOnR3", {"n": 2}], ["trivialOnR3", {}], ["cylindricalOnR3", {"n": 4}]]


def cases(tier, seed):
    out = []
    k = 2 if tier == "quick" else 12
    for d, S in ((2, S2), (3, S3)):
        for s in S:
            for i in range(k):
                for fn in ("maxpool", "avgpool", "adaptive", "antialiased", "upsampling"):
                    out.append(Case(fn, s=s, d=d, i=i))
                if d == 2:
                    out.append(Case("normmax", s=s, i=i))
            out.append(Case("mask", s=s, d=d, i=0))
    for g in GRP:
        for i in range(k):
            out += [Case("invariant", g=g, i=i)]
            if g in FIN:
                out.append(Case("inducednorm", g=g, i=i))
    out += [Case("inducednorm", g=g, i=i + 20) for g in ("D4", "D6", "C6", "D3") for i in range(2 * k)]
    return out


# ------------------------------------------------------------------------------------------------ reference
def out_size(n, k, s, p, d=1, ceil=False):
    """Number of windows; with ceil_mode a last, partial window counts when it starts inside the input or the left padding."""
    r = n + 2 * p - d * (k - 1) - 1
    o = r // s + 1
    if ceil and r % s:
        if o * s < n + p:
            o += 1
    return o


def windows(n, k, s, p, d, ceil):
    """per output position: (positions inside the input, size of the window clipped to the padded input)."""
    out = []
    for o in range(out_size(n, k, s, p, d, ceil)):
        a = o * s - p
        pos = [a + j * d for j in range(k)]
        out.append(([q for q in pos if 0 <= q < n], min(a + k, n + p) - a))
    return out


def pool(x, ks, ss, ps, ds, ceil, f):
    """f(block [..., n1, n2(, n3)], sizes) -> [...]"""
    d = len(ks)
    W = [windows(x.shape[2 + a], ks[a], ss[a], ps[a], ds[a], ceil) for a in range(d)]
    out = np.zeros(x.shape[:2] + tuple(len(w) for w in W))
    for idx in itertools.product(*[range(len(w)) for w in W]):
        sel = [W[a][idx[a]] for a in range(d)]
        blk = x[(slice(None), slice(None)) + np.ix_(*[s_[0] for s_ in sel])]
        out[(slice(None), slice(None)) + idx] = f(blk, [s_[1] for s_ in sel])
    return out


def call(m, mod, t, x, rng, dtype=torch.float32, layout=True, **d):
    xt = strided(rng, x) if layout and dtype == torch.float32 else T(x, dtype)
    if layout and dtype == torch.float32 and xt.dim() == 4 and rng.rand() < .25:
        xt = xt.contiguous(memory_format=torch.channels_last)
    before = xt.clone()
    gt = enn.GeometricTensor(xt, t)
    y = mod(gt)
    m.check(y.type == mod.out_type, "out-type", mod=type(mod).__name__, **d)
    m.check(torch.equal(xt, before), "input-untouched", mod=type(mod).__name__, **d)
    m.check(y.tensor.dtype == dtype, "dtype", mod=type(mod).__name__, got=y.tensor.dtype, **d)
    return y.tensor.detach().numpy()


def geometry(rng, d, dilate=True, compatible=False, uniform=False):
    """Random window arguments and input shape."""
    while True:
        u = uniform or rng.rand() < .5
        n = 1 if u else d
        ks = [int(v) for v in rng.randint(1, 5, n)]
        ss = [int(v) for v in rng.randint(1, 4, n)]
        ps = [int(rng.randint(0, k // 2 + 1)) for k in ks]
        ds = [int(rng.randint(1, 3)) if dilate and rng.rand() < .4 else 1 for _ in range(n)]
        full = [v * (d if n == 1 else 1) for v in ([ks[0]], [ss[0]], [ps[0]], [ds[0]])] if n == 1 else [ks, ss, ps, ds]
        K, S, P, D = full
        hi = 8 if d == 2 else 6
        if compatible:
            sh = []
            for a in range(d):
                c = [v for v in range(1, hi + 3) if v + 2 * P[a] - D[a] * (K[a] - 1) - 1 >= 0 and (v + 2 * P[a] - D[a] * (K[a] - 1) - 1) % S[a] == 0]
                sh.append(int(c[rng.randint(len(c))]) if c else 0)
            if uniform:
                sh = [sh[0]] * d
        else:
            sh = [int(v) for v in rng.randint(1, hi + 1, d)]
        if all(n_ > 0 and n_ + 2 * p - dd * (k - 1) - 1 >= 0 and (dilate or n_ >= k) and all(w[0] for w in windows(n_, k, s_, p, dd, True))
               for n_, p, dd, k, s_ in zip(sh, P, D, K, S)):
            asint = n == 1 and rng.rand() < .7
            arg = {"kernel_size": K[0] if asint else tuple(K), "stride": (None if K == S and rng.rand() < .5 else S[0]) if asint else tuple(S),
                   "padding": P[0] if asint else tuple(P), "dilation": D[0] if asint else tuple(D)}
            return arg, K, S, P, D, sh


def equiv(m, mod, sp, t, rng, shape, tol=1e-5, n=2, **d):
    """Commutation with elements that map the lattice to itself; shape is such that windows are symmetric."""
    x = rand_input(rng, t, (2,) + tuple(shape))
    y = call(m, mod, t, x, rng, **d)
    for g in grid_elements(sp, rng, n):
        yg = call(m, mod, t, act(x, t.representations, sp, g).astype(np.float32), rng, **d)
        ref = act(y, mod.out_type.representations, sp, g)
        if not m.check(yg.shape == ref.shape, "equivariant-shape", mod=type(mod).__name__, g=g, got=yg.shape, want=ref.shape, **d):
            return
        if g != sp.fibergroup.identity:
            m.event("transformed", f"{type(mod).__name__}:{sp.name}:{d.get('opt', '')}")
        m.close(yg, ref, "equivariance", tol, mod=type(mod).__name__, space=sp.name, g=g, t=desc(t), **d)


def pw_type(sp, rng):
    G_ = sp.fibergroup
    pool_ = [sp.trivial_repr]
    if 0 < G_.order() <= 24:
        pool_.append(sp.regular_repr)
        pool_ += [r for r in (rand_rep(G_, rng, 1, 12, ["quotient"], order_cap=24)[0] for _ in range(2)) if "pointwise" in r.supported_nonlinearities]
    pool_ = [r for r in pool_ if "pointwise" in r.supported_nonlinearities]
    if not pool_:
        raise Skip("no representation of this group supports pointwise functions")
    return rand_type(sp, rng, pool=pool_, max_size=60)


def signed_grid(sp, d, S):
    """all grid symmetries permute axes: windows have to be the same along all of them for equivariance."""
    return S


def compare(m, mod, t, x, ref, rng, kd, **d):
    y = call(m, mod, t, x, rng, **d)
    m.event("forward", f"{type(mod).__name__}:{kd}:{d.get('opt', '')}")
    m.check(tuple(mod.evaluate_output_shape(x.shape)) == y.shape, "predicted-shape", mod=type(mod).__name__, got=y.shape, want=tuple(mod.evaluate_output_shape(x.shape)), **d)
    if m.check(y.shape == ref.shape, "shape", mod=type(mod).__name__, got=y.shape, want=ref.shape, **d):
        s = max(1e-12, np.abs(x).max())
        m.close(y / s, ref / s, "reference", 1e-5, mod=type(mod).__name__, kind_=kd, **d)


KINDS = ["normal", "zero", "tiny", "huge", "ties", "negative"]


def _kd(rng):
    return KINDS[rng.randint(len(KINDS))]


# ------------------------------------------------------------------------------------------------ pooling
def maxpool(m, s, d, i):
    rng = m.rng()
    sp = space(s)
    cls = enn.PointwiseMaxPool2D if d == 2 else enn.PointwiseMaxPool3D
    for _ in range(3):
        t = pw_type(sp, rng)
        arg, K, S, P, D, sh = geometry(rng, d)
        ceil = bool(rng.rand() < .4)
        mod = cls(t, ceil_mode=ceil, **arg)
        kd = _kd(rng)
        x = rand_input(rng, t, [2] + sh, kd)
        ref = pool(x, K, S, P, D, ceil, lambda b, _: b.max(tuple(range(2, 2 + d))))
        compare(m, mod, t, x, ref, rng, kd, opt=f"{K}{S}{P}{D}{int(ceil)}", shape=tuple(sh))
    arg, K, S, P, D, sh = geometry(rng, d, compatible=True, uniform=True)
    mod = cls(t, ceil_mode=bool(rng.randint(2)), **arg)
    equiv(m, mod, sp, t, rng, sh, opt=f"{K}{S}{P}{D}")
    xd = rand_input(rng, t, [1] + sh, "normal", np.float64)
    m.close(call(m, mod, t, xd, rng, torch.float64), pool(xd, K, S, P, D, False, lambda b, _: b.max(tuple(range(2, 2 + d)))), "double", 1e-12)
    if any("pointwise" not in r.supported_nonlinearities for r in irreps_of(sp.fibergroup, 1)):
        bad = [r for r in irreps_of(sp.fibergroup, 1) if "pointwise" not in r.supported_nonlinearities]
        if any(not np.allclose(np.asarray(r(g), float), np.abs(np.round(np.asarray(r(g), float)))) for r in bad for g in action_elements(sp.fibergroup, rng, 4)):
            m.raises(AssertionError, lambda: cls(enn.FieldType(sp, bad), 2), "maxpool-refuses-unsupported", space=sp.name)


def avgpool(m, s, d, i):
    rng = m.rng()
    sp = space(s)
    cls = enn.PointwiseAvgPool2D if d == 2 else enn.PointwiseAvgPool3D
    ax = tuple(range(2, 2 + d))
    for _ in range(3):
        t = rand_type(sp, rng)
        arg, K, S, P, D, sh = geometry(rng, d, dilate=False)
        arg.pop("dilation")
        ceil = bool(rng.rand() < .4)
        mod = cls(t, ceil_mode=ceil, **arg)
        kd = _kd(rng)
        x = rand_input(rng, t, [2] + sh, kd)
        ref = pool(x.astype(float), K, S, P, D, ceil, lambda b, sz: b.sum(ax) / np.prod(sz))
        compare(m, mod, t, x, ref, rng, kd, opt=f"{K}{S}{P}{int(ceil)}", shape=tuple(sh))
    arg, K, S, P, D, sh = geometry(rng, d, dilate=False, compatible=True, uniform=True)
    arg.pop("dilation")
    mod = cls(t, ceil_mode=bool(rng.randint(2)), **arg)
    equiv(m, mod, sp, t, rng, sh, opt=f"{K}{S}{P}")
    xd = rand_input(rng, t, [1] + sh, "normal", np.float64)
    m.close(call(m, mod, t, xd, rng, torch.float64), pool(xd, K, S, P, D, False, lambda b, sz: b.sum(ax) / np.prod(sz)), "double", 1e-12)


def adaptive(m, s, d, i):
    rng = m.rng()
    sp = space(s)
    ax = tuple(range(2, 2 + d))
    for nm, f in (("Avg", lambda b: b.mean(ax)), ("Max", lambda b: b.max(ax))):
        cls = getattr(enn, f"PointwiseAdaptive{nm}Pool{d}D")
        t = pw_type(sp, rng)
        for _ in range(2):
            osz = [int(v) for v in rng.randint(1, 5, d)]
            sh = [int(v) for v in rng.randint(1, 8, d)]
            mod = cls(t, tuple(osz))
            kd = _kd(rng)
            x = rand_input(rng, t, [2] + sh, kd)
            ref = np.zeros(x.shape[:2] + tuple(osz))
            for idx in itertools.product(*[range(o) for o in osz]):
                sl = tuple(slice((q * n) // o, -((-(q + 1) * n) // o)) for q, n, o in zip(idx, sh, osz))
                ref[(slice(None), slice(None)) + idx] = f(x[(slice(None), slice(None)) + sl].astype(float))
            compare(m, mod, t, x, ref, rng, kd, opt=f"{osz}", shape=tuple(sh))
        o = int(rng.randint(1, 4))
        mod = cls(t, o)
        n = int(rng.randint(2, 9 if d == 2 else 7))
        equiv(m, mod, sp, t, rng, [n] * d, opt=f"{n}->{o}")


def gauss(sig, k):
    r = np.arange(k) - (k - 1) / 2.
    return np.exp(-r ** 2 / (2 * sig ** 2))


def blur(x, sig, width, S, pad):
    """Separable normalised Gaussian with zero padding, strided."""
    d = x.ndim - 2
    k = 2 * int(round(width * sig)) + 1
    w = gauss(sig, k)
    w = w / w.sum()
    y = x.astype(float)
    for a in range(d):
        ax = 2 + a
        pw = [(0, 0)] * y.ndim
        pw[ax] = (pad[a], pad[a])
        y = np.pad(y, pw)
        n = y.shape[ax]
        o = (n - k) // S[a] + 1
        y = np.stack([np.tensordot(np.take(y, range(j * S[a], j * S[a] + k), ax), w, ([ax], [0])) for j in range(o)], ax)
    return y, k


def antialiased(m, s, d, i):
    rng = m.rng()
    sp = space(s)
    t = rand_type(sp, rng, max_size=16)
    cls = getattr(enn, f"PointwiseAvgPoolAntialiased{d}D")
    for _ in range(2):
        sig = float(rng.choice([.3, .5, .66, .8, 1.]))
        st = int(rng.randint(1, 4))
        k = 2 * int(round(3 * sig)) + 1
        sh = [int(v) for v in rng.randint(k, k + 4, d)]
        pad = None if rng.rand() < .6 else int(rng.randint(0, k // 2 + 1))
        tup_ = rng.rand() < .3
        mod = cls(t, sig, (st,) * d if tup_ else st, padding=pad)
        p = (k - 1) // 2 if pad is None else pad
        kd = _kd(rng)
        x = rand_input(rng, t, [2] + sh, kd)
        ref, _k = blur(x, sig, 3, [st] * d, [p] * d)
        compare(m, mod, t, x, ref, rng, kd, opt=f"s{sig}st{st}p{pad}", shape=tuple(sh))
    n = k - 2 * p + st * int(rng.randint(0, 3))
    while n < 1:
        n += st
    equiv(m, mod, sp, t, rng, [n] * d, opt=f"s{sig}st{st}p{pad}")
    # blurred max pooling: dense maxima, then a strided Gaussian blur which keeps the grid of the plain pooling
    t = pw_type(sp, rng)
    cls = getattr(enn, f"PointwiseMaxPoolAntialiased{d}D")
    for _ in range(2):
        k = int(rng.randint(1, 4))
        st = int(rng.randint(1, 3))
        p = int(rng.randint(0, k // 2 + 1))
        sig = float(rng.choice([.3, .6, .8]))
        sh = [int(v) for v in rng.randint(max(1, k), k + 5, d)]
        ceil = bool(rng.rand() < .3)
        mod = cls(t, k, st, padding=p, sigma=sig, ceil_mode=ceil)
        kd = _kd(rng)
        x = rand_input(rng, t, [2] + sh, kd)
        mx = pool(x, [k] * d, [1] * d, [p] * d, [1] * d, False, lambda b, _: b.max(tuple(range(2, 2 + d))))
        ext = [max(0, (out_size(n, k, st, p, 1, ceil) - 1) * st + 1 - q) for n, q in zip(sh, mx.shape[2:])]
        ref, _k = blur(np.pad(mx, [(0, 0), (0, 0)] + [(0, e) for e in ext]), sig, 4, [st] * d, [int(round(4 * sig))] * d)
        compare(m, mod, t, x, ref, rng, kd, opt=f"k{k}st{st}p{p}s{sig}", shape=tuple(sh))
    n = k - 2 * p + st * int(rng.randint(0, 3))
    while n < 1:
        n += st
    equiv(m, mod, sp, t, rng, [n] * d, opt=f"max:k{k}st{st}p{p}s{sig}")


def normmax(m, s, i):
    rng = m.rng()
    sp = space(s)
    for _ in range(3):
        t = rand_type(sp, rng)
        arg, K, S, P, D, sh = geometry(rng, 2)
        ceil = bool(rng.rand() < .3)
        mod = enn.NormMaxPool(t, ceil_mode=ceil, **arg)
        kd = ["normal", "zero", "tiny", "huge", "ties"][rng.randint(5)]
        x = rand_input(rng, t, [2] + sh, kd)
        y = call(m, mod, t, x, rng)
        m.event("forward", f"NormMaxPool:{kd}:{K}{S}{P}{D}{int(ceil)}")
        osh = tuple(out_size(n, k, st, p, dd, ceil) for n, k, st, p, dd in zip(sh, K, S, P, D))
        m.check(tuple(mod.evaluate_output_shape(x.shape)) == y.shape, "predicted-shape", mod="NormMaxPool", got=y.shape)
        if not m.check(y.shape == (2, t.size) + osh, "shape", mod="NormMaxPool", got=y.shape, want=osh, arg=arg):
            continue
        for f, fy in zip(fields(t, x), fields(t, y)):
            n2 = (f.astype(float) ** 2).sum(1, keepdims=True)
            mx = pool(n2, K, S, P, D, ceil, lambda b, _: b.max((2, 3)))
            sc = max(1e-30, mx.max())
            m.close((fy.astype(float) ** 2).sum(1, keepdims=True) / sc, mx / sc, "max-norm", 1e-5, t=desc(t), arg=str(arg))
            W = [windows(f.shape[2 + a], K[a], S[a], P[a], D[a], ceil) for a in range(2)]
            for a, b_ in itertools.product(range(osh[0]), range(osh[1])):     # the output is one of the vectors of the window
                blk = f[:, :, W[0][a][0]][..., W[1][b_][0]].reshape(f.shape[0], f.shape[1], -1)
                hit = np.abs(blk - fy[:, :, a, b_][..., None]).max(1).min(-1)
                m.check((hit <= 0).all(), "one-of-the-window", t=desc(t), arg=str(arg), err=float(hit.max()))
    arg, K, S, P, D, sh = geometry(rng, 2, compatible=True, uniform=True)
    mod = enn.NormMaxPool(t, **arg)
    equiv(m, mod, sp, t, rng, sh, opt=f"{K}{S}{P}{D}")
    xd = rand_input(rng, t, [1] + sh, "normal", np.float64)
    yd = call(m, mod, t, xd, rng, torch.float64)
    for f, fy in zip(fields(t, xd), fields(t, yd)):
        mx = pool((f ** 2).sum(1, keepdims=True), K, S, P, D, False, lambda b, _: b.max((2, 3)))
        m.close((fy ** 2).sum(1, keepdims=True), mx, "double", 1e-12)
    # gradients go to the selected vectors only
    xt = T(rand_input(rng, t, [1] + sh)).requires_grad_(True)
    mod(enn.GeometricTensor(xt, t)).tensor.sum().backward()
    g = xt.grad.numpy()
    m.check(np.isfinite(g).all() and abs(g.sum() - t.size * np.prod([out_size(n, k, st, p, dd) for n, k, st, p, dd in zip(sh, K, S, P, D)])) < 1e-2, "gradient-mass", arg=str(arg))


# ------------------------------------------------------------------------------------------------ upsampling, masks
def upsampling(m, s, d, i):
    rng = m.rng()
    sp = space(s)
    t = rand_type(sp, rng)
    cls = enn.R2Upsampling if d == 2 else enn.R3Upsampling
    lin = "bilinear" if d == 2 else "trilinear"

    def interp(x, osz, scale, mode, corners):
        y = x.astype(float)
        for a in range(d):
            ax = 2 + a
            n, o = x.shape[ax], osz[a]
            j = np.arange(o)
            r = (1. / scale) if scale is not None else n / o
            if mode == "nearest":
                q = np.minimum(np.floor(j * np.float32(r) + 1e-7).astype(int), n - 1)
                y = np.take(y, q, ax)
            else:
                u = j * (n - 1) / (o - 1) if corners and o > 1 else (np.zeros(o) if corners else np.maximum((j + .5) * r - .5, 0))
                q0 = np.minimum(np.floor(u).astype(int), n - 1)
                q1 = np.minimum(q0 + 1, n - 1)
                w = (u - q0).reshape([-1 if b == ax else 1 for b in range(x.ndim)])
                y = np.take(y, q0, ax) * (1 - w) + np.take(y, q1, ax) * w
        return y

    for mode in ("nearest", lin):
        for corners in (False, True):
            sh = [int(v) for v in rng.randint(1, 6 if d == 2 else 5, d)]
            if rng.rand() < .6:
                sc = int(rng.randint(1, 4))
                mod = cls(t, scale_factor=sc, mode=mode, align_corners=corners)
                osz = [n * sc for n in sh]
                eq = True
            else:
                sc = None
                osz = [n * int(rng.randint(1, 4)) for n in sh] if mode == "nearest" else [int(v) for v in rng.randint(2, 9, d)]
                mod = cls(t, size=tuple(osz), mode=mode, align_corners=corners)
                eq = False
            kd = _kd(rng)
            x = rand_input(rng, t, [2] + sh, kd)
            opt = f"{mode}{int(corners)}{'s%d' % sc if sc else 'size'}"
            compare(m, mod, t, x, interp(x, osz, sc, mode, corners), rng, kd, opt=opt, shape=tuple(sh), out=tuple(osz))
            n = int(rng.randint(1, 6))
            if eq:
                equiv(m, mod, sp, t, rng, [n] * d, opt=opt)
            else:
                o = n * int(rng.randint(1, 4)) if mode == "nearest" else int(rng.randint(2, 9))
                equiv(m, cls(t, size=o, mode=mode, align_corners=corners), sp, t, rng, [n] * d, opt=opt)
    m.raises(ValueError, lambda: cls(t, scale_factor=2, mode="bicubic"), "unknown-mode-refused")


def mask(m, s, d, i):
    rng = m.rng()
    sp = space(s)
    t = rand_type(sp, rng)
    for S in (1, 2, 3, 5, 6, 9 if d == 2 else 7):
        margin = float(rng.choice([0., 0., 5., 20., 50.]))
        sig = float(rng.choice([2., 2., .7, 1.]))
        mod = enn.MaskModule(t, S, margin, sig)
        r = (grid_coords((S,) * d) ** 2).sum(-1)
        c = (S - 1) / 2.
        tt = (c - margin / 100. * c) ** 2
        near = np.abs(r - tt) < 1e-6
        M = np.where(r > tt, np.exp(np.minimum(0, tt - r) / sig ** 2), 1.)
        x = rand_input(rng, t, [2] + [S] * d, _kd(rng))
        y = call(m, mod, t, x, rng)
        sc = max(1e-12, np.abs(x).max())
        m.event("forward", f"mask:{sp.name}:{S}:{margin}:{sig}")
        m.close(y / sc, x * np.where(near, 1., M) / sc, "mask", 1e-5, S=S, margin=margin, sigma=sig)
        equiv(m, mod, sp, t, rng, [S] * d, opt=f"S{S}m{margin}")
        xd = rand_input(rng, t, [1] + [S] * d, "normal", np.float64)
        call(m, mod, t, xd, rng, torch.float64)
    m.check(not any(p.requires_grad for p in mod.parameters()), "mask-is-not-trained")


# ------------------------------------------------------------------------------------------------ invariant maps
def invcheck(m, mod, sp, t, ref, rng, tol=1e-5, **d):
    for kd in [KINDS[j] for j in rng.choice(len(KINDS), 2, replace=False)]:
        shp, cloud = shape_for(sp, rng)
        x = rand_input(rng, t, shp, kd)
        co = T(rng.randn(shp[0], sp.dimensionality)) if cloud else None
        xt = strided(rng, x)
        y = mod(enn.GeometricTensor(xt, t, co))
        m.check(y.type == mod.out_type and len(mod.out_type) == len(t) and all(r.is_trivial() for r in mod.out_type.representations), "one-trivial-field-each", mod=type(mod).__name__, t=desc(t))
        m.check(y.coords is co, "coords", mod=type(mod).__name__)
        m.check(tuple(mod.evaluate_output_shape(x.shape)) == tuple(y.shape), "predicted-shape", mod=type(mod).__name__)
        y = y.tensor.detach().numpy()
        r = np.stack([ref(j, f.astype(float)) for j, f in enumerate(fields(t, x))], 1)
        s = max(1e-12, np.abs(x).max())
        m.event("forward", f"{type(mod).__name__}:{sp.fibergroup.name}:{desc(t)[:50]}:{kd}")
        m.close(y / s, r / s, "reference", tol, mod=type(mod).__name__, t=desc(t), kind_=kd)
        for g in [e for e in action_elements(sp.fibergroup, rng, 4) if e != sp.fibergroup.identity][:2]:
            yg = mod(enn.GeometricTensor(T(fiber_act(x, t.representations, g)), t, co)).tensor.detach().numpy()
            m.event("transformed", f"{type(mod).__name__}:{sp.fibergroup.name}")
            m.close(yg / s, y / s, "invariance", 5e-5, mod=type(mod).__name__, t=desc(t), g=g, kind_=kd)
    shp, cloud = shape_for(sp, rng)
    x = rand_input(rng, t, shp, "normal", np.float64)
    y = mod(enn.GeometricTensor(torch.tensor(x), t, torch.tensor(rng.randn(shp[0], sp.dimensionality)) if cloud else None)).tensor
    m.check(y.dtype == torch.float64, "double-kept", mod=type(mod).__name__, got=y.dtype)
    m.close(y.numpy(), np.stack([ref(j, f) for j, f in enumerate(fields(t, x))], 1), "double", 1e-12, mod=type(mod).__name__)


def invariant(m, g, i):
    rng = m.rng()
    sp = any_space(g, rng)
    for _ in range(2):
        t = rand_type(sp, rng)
        invcheck(m, enn.NormPool(t), sp, t, lambda j, f: np.sqrt((f ** 2).sum(1)), rng)
        t = pw_type(sp, rng)
        if all("pointwise" in r.supported_nonlinearities for r in t.representations):
            invcheck(m, enn.GroupPooling(t), sp, t, lambda j, f: f.max(1), rng)
    bad = [r for r in irreps_of(sp.fibergroup, 1) if "pointwise" not in r.supported_nonlinearities and
           any(not np.allclose(np.asarray(r(e), float), np.abs(np.round(np.asarray(r(e), float)))) for e in action_elements(sp.fibergroup, rng, 4))]
    if bad:
        m.raises(AssertionError, lambda: enn.GroupPooling(enn.FieldType(sp, bad)), "group-pooling-refuses", g=g)


def inducednorm(m, g, i):
    rng = m.rng()
    sp = any_space(g, rng)
    G_ = sp.fibergroup
    ids = [s for s in subgroup_ids(G_) if s not in ("octa", "ico")]
    reps, sub = [], []
    if G_.order() > 130:
        return
    for _ in range(10):
        if not ids or len(reps) >= 5:
            break
        sid = ids[rng.randint(len(ids))]
        H, _, _ = G_.subgroup(sid)
        if not (H.order() > 0 and G_.order() // H.order() <= 12):
            continue
        hi = [r for r in irreps_of(H, 1) if r.size * (G_.order() // H.order()) <= 24]
        if not hi:
            continue
        r = hi[rng.randint(len(hi))]
        try:
            ind = G_.induced_representation(sid, r)
        except NotImplementedError:
            continue
        if [q for q in ind.supported_nonlinearities if q.startswith("induced_norm")] == [f"induced_norm_{r.size}"]:
            for _ in range(int(rng.randint(1, 3))):
                reps.append(ind)
                sub.append(r.size)
    if not reps:
        return
    o = rng.permutation(len(reps))[:6]
    reps, sub = [reps[j] for j in o], [sub[j] for j in o]
    t = enn.FieldType(sp, reps)
    mod = enn.InducedNormPool(t)
    invcheck(m, mod, sp, t, lambda j, f: np.sqrt((f.reshape((f.shape[0], -1, sub[j]) + f.shape[2:]) ** 2).sum(2)).max(1), rng)
