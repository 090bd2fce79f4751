"""C14: grid convolutions commute with the group for all weights, and are the convolution with the kernel they expand."""
from core import Case, Skip
from nnlib import *

RULE = ("a case = one randomly configured (transposed) convolution on a 2D/3D grid: its outputs under grid symmetries, its expanded filter, the support and the "
        "span of each weight, and a plain numpy convolution with that filter are compared; a state = distinct (space, module, hyper-parameters, element)")
CASE_TIMEOUT = 200

S2 = [["rot2dOnR2", {"N": 4}], ["rot2dOnR2", {"N": 2}], ["rot2dOnR2", {"N": 8}], ["rot2dOnR2", {"N": -1}], ["flipRot2dOnR2", {"N": 4}],
      ["flipRot2dOnR2", {"N": -1}], ["flipRot2dOnR2", {"N": 4, "axis": 0.0}], ["flipRot2dOnR2", {"N": -1, "axis": 0.0}], ["flipRot2dOnR2", {"N": 6}],
      ["flip2dOnR2", {}], ["flip2dOnR2", {"axis": 0.0}], ["trivialOnR2", {}], ["rot2dOnR2", {"N": 12}], ["flipRot2dOnR2", {"N": 2, "axis": math.pi / 4}]]
S3 = [["octaOnR3", {}], ["fullOctaOnR3", {}], ["rot3dOnR3", {}], ["flipRot3dOnR3", {}], ["icoOnR3", {}], ["conicalOnR3", {"n": 4}], ["dihedralOnR3", {"n": 2}],
      ["fullCylindricalOnR3", {"n": 2}], ["cylindricalOnR3", {"n": 4}], ["mirOnR3", {"axis": 0.0}], ["invOnR3", {}], ["rot2dOnR3", {"n": -1}], ["trivialOnR3", {}], ["conicalOnR3", {"n": -1}]]


def cases(tier, seed):
    out = []
    k2, k3 = (12, 4) if tier == "quick" else (60, 16)
    for i in range(max(k2, k3)):
        for d in S3:
            if i < k3:
                out.append(Case("conv", d=d, i=i, core=i < 1))
        for d in S2:
            if i < k2:
                out.append(Case("conv", d=d, i=i, core=i < 3))
    for s in ("ico", "dodeca", "icosidodeca"):
        for i in range(1 if tier == "quick" else 6):
            out.append(Case("ico", samples=s, i=i))
            out.append(Case("ico", samples=s, i=i, transposed=True))
    for d in (S2 + S3[:2] if tier == "quick" else S2 + S3):
        out.append(Case("initial", d=d))
    return out


def npconv(x, W, b, stride, pad_, dil, groups, mode):
    """Cross-correlation written from the definition (double precision)."""
    d = len(W.shape) - 2
    x = x.astype(float)
    W = W.astype(float)
    x = np.pad(x, [(0, 0), (0, 0)] + [(pad_, pad_)] * d, mode={"zeros": "constant", "reflect": "reflect", "replicate": "edge", "circular": "wrap"}[mode]) if pad_ else x
    k = W.shape[2:]
    o = [(x.shape[2 + a] - dil * (k[a] - 1) - 1) // stride + 1 for a in range(d)]
    ig, og = x.shape[1] // groups, W.shape[0] // groups
    y = np.zeros((x.shape[0], W.shape[0]) + tuple(o))
    for off in np.ndindex(*k):
        sl = tuple(slice(off[a] * dil, off[a] * dil + (o[a] - 1) * stride + 1, stride) for a in range(d))
        for g in range(groups):
            y[:, g * og:(g + 1) * og] += np.einsum("oi,bi...->bo...", W[(slice(g * og, (g + 1) * og), slice(None)) + off], x[(slice(None), slice(g * ig, (g + 1) * ig)) + sl])
    if b is not None:
        y += b.astype(float).reshape((1, -1) + (1,) * d)
    return y


def npconvT(x, W, b, stride, pad_, dil, groups, outpad):
    """Transposed convolution: scatter (W: [in, out/groups, *k])."""
    d = len(W.shape) - 2
    x = x.astype(float)
    k = W.shape[2:]
    ig, og = x.shape[1] // groups, W.shape[1]
    full = [(x.shape[2 + a] - 1) * stride + dil * (k[a] - 1) + 1 + outpad for a in range(d)]
    y = np.zeros((x.shape[0], og * groups) + tuple(full))
    for off in np.ndindex(*k):
        sl = tuple(slice(off[a] * dil, off[a] * dil + (x.shape[2 + a] - 1) * stride + 1, stride) for a in range(d))
        for g in range(groups):
            y[(slice(None), slice(g * og, (g + 1) * og)) + sl] += np.einsum("io,bi...->bo...", W[(slice(g * ig, (g + 1) * ig), slice(None)) + off].astype(float), x[:, g * ig:(g + 1) * ig])
    # final size: (i-1)*s - 2p + d(k-1) + outpad + 1
    if pad_:
        y = y[(slice(None), slice(None)) + tuple(slice(pad_, full[a] - pad_) for a in range(d))]
    if b is not None:
        y = y + b.astype(float).reshape((1, -1) + (1,) * d)
    return y


def config(rng, dim, transposed, maxdil=6):
    c = dict(kernel_size=int(rng.choice([1, 2, 3, 3, 5, 4] if dim == 2 else [1, 2, 3, 3])),
             stride=int(rng.choice([1, 1, 2, 3])), dilation=min(maxdil, int(rng.choice([1, 1, 1, 2, 2, 3, 4, 6] if dim == 2 else [1, 1, 1, 2, 2, 3]))), padding=int(rng.choice([0, 0, 1, 2])),
             groups=int(rng.choice([1, 1, 1, 2])), bias=bool(rng.rand() < .7))
    if not transposed:
        c["padding_mode"] = str(rng.choice(["zeros", "zeros", "reflect", "replicate", "circular"]))
    else:
        c["output_padding"] = int(rng.choice([0, 0, 0, 1]))
        if c["output_padding"] >= max(c["stride"], c["dilation"]):
            c["output_padding"] = 0
    if rng.rand() < .3:
        R = c["dilation"] * (c["kernel_size"] - 1) / 2
        c["rings"] = [0., R] if rng.rand() < .5 and R > 0 else sorted(float(v) for v in rng.rand(2) * max(R, 0) * math.sqrt(dim))
        if c["rings"][0] == c["rings"][-1]:
            c["rings"] = c["rings"][:1]
    u = rng.rand()
    if "rings" in c or u < .4 or rng.rand() < .3:
        c["sigma"] = float(c["dilation"] * (.2 + 1.3 * rng.rand()))
    if u < .25:
        c["frequencies_cutoff"] = float(rng.choice([1., 2., 3.]))
    elif u < .4:
        c["frequencies_cutoff"] = 2             # becomes a callable below
    if rng.rand() < .2:
        c["basis_filter"] = "even"
    return c


def even(a):
    return a["irrep:frequency"] % 2 == 0


def build(sp, dim, transposed, tin, tout, c, ico=None):
    kw = dict(c)
    if isinstance(kw.get("frequencies_cutoff"), int):
        kw["frequencies_cutoff"] = lambda r, v=kw["frequencies_cutoff"]: v
    if "basis_filter" in kw:
        kw["basis_filter"] = even
    if ico:
        kw.pop("frequencies_cutoff", None)
        kw["samples"] = ico
        cls = enn.R3IcoConvTransposed if transposed else enn.R3IcoConv
    else:
        cls = {(2, False): enn.R2Conv, (2, True): enn.R2ConvTransposed, (3, False): enn.R3Conv, (3, True): enn.R3ConvTransposed}[dim, transposed]
    return cls(tin, tout, **kw)


def conv(m, d, i=0, ico=None, transposed=None):
    sp = space(d)
    dim = sp.dimensionality
    rng = m.rng()
    transposed = bool(rng.rand() < .35) if transposed is None else transposed
    for attempt in range(12):
        c = config(rng, dim, transposed)
        gr = c["groups"]
        cap = dict(max_field=8, maxf=2, max_size=14, kinds=ORTH + ["skew"]) if dim == 2 else dict(max_field=5, maxf=2, max_size=8, kinds=ORTH + ["skew"])
        a = rand_type(sp, rng, nf=int(rng.randint(1, 4)), **cap)
        b = rand_type(sp, rng, nf=int(rng.randint(1, 4)), **cap)
        tin = enn.FieldType(sp, list(a.representations) * gr)
        tout = enn.FieldType(sp, list(b.representations) * gr)
        try:
            mod = build(sp, dim, transposed, tin, tout, c, ico)
            break
        except ValueError as e:
            if "is empty" in str(e):
                m.event("empty-basis-refused")
                continue
            raise
        except eg.InsufficientIrrepsException:
            m.event("insufficient-irreps")
            continue
    else:
        raise Skip("no non-empty configuration found")
    randomize(mod, rng)
    judge(m, mod, sp, dim, tin, tout, c, transposed, rng, d, None if ico else (a, b))


def judge(m, mod, sp, dim, tin, tout, c, transposed, rng, d, ab):
    k, s, p, dl, gr = c["kernel_size"], c["stride"], c["padding"], c["dilation"], c["groups"]
    tag = f"{type(mod).__name__}:{sname(d)}:{ {q: (round(v, 3) if isinstance(v, float) else v) for q, v in c.items()} }"
    m.event("configuration", tag)
    with torch.no_grad():
        W, bias = mod.expand_parameters()
    W = W.numpy()
    bias = None if bias is None else bias.numpy()
    # --- input whose size makes the strided output grid symmetric
    base = dl * (k - 1) + 1
    minside = 1 if c.get("padding_mode", "zeros") in ("zeros", "replicate") else p + 1
    if transposed:
        side = int(rng.randint(1, 4)) + 1
        while (side - 1) * s + base - 2 * p <= 0:
            side += 1
    else:
        side = None
        cand = [n for n in range(minside, base + (10 if dim == 2 else 5)) if n + 2 * p - base >= 0 and (n + 2 * p - base) % s == 0]
        if not cand:
            raise Skip("no symmetric size")
        side = cand[int(rng.randint(min(len(cand), 4)))]
    x = rand_input(rng, tin, (2,) + (side,) * dim)
    gx = tin(T(x))
    mod.train()
    with torch.no_grad():
        y = mod(gx)
    m.check(np.array_equal(gx.tensor.numpy(), x), "input-untouched", tag=tag)
    m.check(y.type == tout, "output-type", tag=tag)
    yn = y.tensor.numpy()
    ref = npconvT(x, W, bias, s, p, dl, gr, c["output_padding"]) if transposed else npconv(x, W, bias, s, p, dl, gr, c["padding_mode"])
    m.close(yn, ref, "is-the-plain-convolution", 2e-5, tag=tag)
    mod.eval()
    with torch.no_grad():
        m.close(mod(gx).tensor, yn, "eval-equals-train", 1e-5, tag=tag)
    symmetric = not (transposed and c["output_padding"])
    E = grid_elements(sp, rng, 5)
    if symmetric:
        for g in E:
            with torch.no_grad():
                yg = mod(tin(T(act(x, tin.representations, sp, g)))).tensor.numpy()
            m.event("equivariance", f"{tag}:{g}")
            m.close(yg, act(yn, tout.representations, sp, g), "equivariance", 2e-4, tag=tag, g=g, tin=desc(tin), tout=desc(tout))
    # rectangular inputs equal the plain convolution too
    shp = tuple(int(side + rng.randint(0, 3)) for _ in range(dim))
    xr = rand_input(rng, tin, (1,) + shp)
    with torch.no_grad():
        yr = mod(tin(T(xr))).tensor.numpy()
    m.close(yr, npconvT(xr, W, bias, s, p, dl, gr, c["output_padding"]) if transposed else npconv(xr, W, bias, s, p, dl, gr, c["padding_mode"]), "rectangular-plain-convolution", 2e-5, tag=tag)
    # --- the filter is steerable under grid symmetries, pointwise
    Wc = np.swapaxes(W, 0, 1) if transposed else W      # [out, in, *k]
    if transposed:
        ro, ri = list(tout.representations)[:len(tout) // gr], list(tin.representations)
    else:
        ro, ri = list(tout.representations), list(tin.representations)[:len(tin) // gr]
    m.check(Wc.shape == (sum(r.size for r in ro), sum(r.size for r in ri)) + (k,) * dim, "filter-shape", tag=tag, got=Wc.shape)
    for g in E:
        A = np.asarray(sp.basespace_action(g), float)
        left = grid_act(Wc, np.linalg.inv(A))                # k(g x)
        right = np.einsum("po,oi...,iq->pq...", fiber_mat(ro, g), Wc, fiber_mat(ri, ~g))
        m.close(left, right, "filter-steerable", 1e-4, tag=tag, g=g)
    # --- weights: linear, each one matters, each touches only its declared fields
    be = mod.basisexpansion
    n = be.dimension()
    m.check(mod.weights.shape == (n,), "weights-shape", tag=tag)
    info = list(be.get_basis_info())
    m.check(len(info) == n and [a["id"] for a in info] == list(range(n)), "basis-info", tag=tag)
    for a in info:
        if "basis_filter" in c:
            m.check(even(a), "basis-filter-respected", tag=tag)
        if ab is not None and "frequencies_cutoff" in c:
            fc = c["frequencies_cutoff"]
            m.check(abs(a["irrep:frequency"]) <= (fc if isinstance(fc, int) else fc * a["radius"]) + 1e-6, "cutoff-respected", tag=tag)
    so, si = np.cumsum([0] + [r.size for r in ro]), np.cumsum([0] + [r.size for r in ri])
    pick = list(range(n)) if n <= 60 else sorted(rng.choice(n, 60, replace=False).tolist())
    F = {}
    with torch.no_grad():
        f0 = be(torch.zeros(n)).numpy()
        m.close(f0, np.zeros_like(f0), "zero-weights-zero-filter", 1e-9, tag=tag)
        acc = np.zeros_like(f0)
        for w in pick:
            e = torch.zeros(n)
            e[w] = 1.
            F[w] = be(e).numpy()
            acc += F[w] * mod.weights[w].item()
            at = info[w]
            one = be.get_element_info(w)
            io, ii = at["out_field_position"], at["in_field_position"]
            m.check(one["out_field_position"] == io and one["in_field_position"] == ii and one["in_repr"] == ri[ii].name and one["out_repr"] == ro[io].name, "element-info", tag=tag, w=w)
            mask = np.zeros(f0.shape, bool)
            mask[so[io]:so[io + 1], si[ii]:si[ii + 1]] = True
            m.check(np.abs(F[w][~mask]).max(initial=0.) < 1e-7, "weight-touches-only-its-fields", tag=tag, w=w, fields=(ii, io))
            m.check(np.linalg.norm(F[w]) > 1e-2, "weight-matters", tag=tag, w=w, norm=float(np.linalg.norm(F[w])))
            m.event("weight")
        v1, v2 = T(rng.randn(n)), T(rng.randn(n))
        m.close(be(v1 * 2. - v2 * .5), 2 * be(v1).numpy() - .5 * be(v2).numpy(), "filter-linear", 1e-5, tag=tag)
        if len(pick) == n:
            m.close(acc.reshape(Wc.shape), Wc, "filter-is-the-sum", 1e-4, tag=tag)
    # --- every steerable kernel of the declared band limit is reachable
    if ab is not None and "basis_filter" not in c and len(pick) == n and "rings" in c and "sigma" in c and isinstance(c.get("frequencies_cutoff"), int):
        pts = grid_coords((k,) * dim).reshape(-1, dim) * dl
        for io in range(len(ro)):
            for ii in range(len(ri)):
                try:
                    kb = sp.build_kernel_basis(ri[ii], ro[io], [c["sigma"]] * len(c["rings"]), c["rings"], maximum_frequency=c["frequencies_cutoff"])
                except ek.EmptyBasisException:
                    m.check(not any((a["in_field_position"], a["out_field_position"]) == (ii, io) for a in info), "no-weights-without-basis", tag=tag)
                    continue
                S = copy.deepcopy(kb).double().sample(torch.tensor(pts, dtype=torch.float64)).numpy()       # [P, dim, o, i]
                cut = c["frequencies_cutoff"]
                ok = [abs(a["irrep:frequency"]) <= cut for a in kb]
                S = np.moveaxis(S, 0, -1)[np.array(ok)]
                S = S.reshape(S.shape[0], -1)
                nrm = np.linalg.norm(S, axis=1)
                S = S[nrm > 1e-2] / nrm[nrm > 1e-2][:, None]
                B = np.array([F[w][so[io]:so[io + 1], si[ii]:si[ii + 1]].reshape(-1) for w in range(n) if (info[w]["in_field_position"], info[w]["out_field_position"]) == (ii, io)])
                if len(S) == 0:
                    continue
                if not m.check(len(B) > 0, "reachable-kernels", tag=tag, fields=(ii, io)):
                    continue
                sol = np.linalg.lstsq(B.T.astype(float), S.T.astype(float), rcond=1e-6)[0]
                m.close(B.T @ sol, S.T, "reachable-kernels", 1e-3, tag=tag, fields=(ii, io))
                m.event("span", f"{sname(d)}:{len(S)}")
    # --- every weight and bias receives gradient
    mod.train()
    mod.zero_grad()
    yy = mod(gx).tensor
    (yy * T(rng.randn(*yy.shape))).sum().backward()
    side_ok = not transposed and side >= base
    m.check(mod.weights.grad is not None and bool(torch.isfinite(mod.weights.grad).all()), "gradient", tag=tag)
    if mod.bias is not None:
        m.check(bool((mod.bias.grad.abs() > 1e-9).all()), "bias-gradient", tag=tag)
        triv = sum(1 for r in tout.representations for q in r.irreps if sp.fibergroup.irrep(*q).is_trivial())
        m.check(mod.bias.numel() == triv, "bias-count", tag=tag, got=mod.bias.numel(), want=triv)
    elif c["bias"]:
        triv = sum(1 for r in tout.representations for q in r.irreps if sp.fibergroup.irrep(*q).is_trivial())
        m.check(triv == 0, "bias-missing", tag=tag, trivials=triv)


def ico(m, samples, i=0, transposed=False):
    conv(m, ["icoOnR3", {}], i, ico=samples, transposed=transposed)


def initial(m, d):
    """Initialisers only change the weights: the freshly initialised module commutes too, and nothing is left at zero."""
    sp = space(d)
    dim = sp.dimensionality
    rng = m.rng()
    for attempt in range(8):
        t = rand_type(sp, rng, nf=2, max_field=6 if dim == 2 else 4, maxf=1, max_size=10)
        try:
            cls = enn.R2Conv if dim == 2 else enn.R3Conv
            mod = cls(t, t, kernel_size=3, padding=1)
            break
        except ValueError as e:
            if "is empty" not in str(e):
                raise
    w = mod.weights.detach().numpy().copy()
    m.check(np.isfinite(w).all() and (np.abs(w) > 0).mean() > .9, "he-initialised", d=d)
    x = rand_input(rng, t, (1,) + (5,) * dim)

    def eq(kind_):
        with torch.no_grad():
            y = mod(t(T(x))).tensor.numpy()
            for g in grid_elements(sp, rng, 3):
                m.close(mod(t(T(act(x, t.representations, sp, g)))).tensor, act(y, t.representations, sp, g), "equivariance-" + kind_, 2e-4, d=d, g=g)
                m.event("initialised", f"{sname(d)}:{kind_}")
        return y
    eq("he")
    z = cls(t, t, kernel_size=3, padding=1, initialize=False)
    m.check(float(z.weights.detach().abs().max()) == 0., "uninitialised-is-zero")
    for cache in (True, True):
        enn.init.generalized_he_init(mod.weights.data, mod.basisexpansion, cache=cache)
        eq("he-cached")
    # sample spread follows the documented generalised He variances, whatever was initialised before
    s1 = torch.stack([_he(mod, False) for _ in range(200)]).std(0)
    s2 = torch.stack([_he(mod, True) for _ in range(200)]).std(0)
    m.check(bool(((s1 / s2 < 1.6) & (s2 / s1 < 1.6)).all()), "he-cache-consistent", d=d)
    enn.init.deltaorthonormal_init(mod.weights.data, mod.basisexpansion)
    eq("delta")
    with torch.no_grad():
        W = mod.expand_parameters()[0].numpy()
    ctr = W.copy()
    ctr[(slice(None), slice(None)) + (1,) * dim] = 0
    m.check(np.abs(ctr).max() < 1e-3 * max(np.abs(W).max(), 1e-9) + 1e-4, "delta-init-centred", d=d, off=float(np.abs(ctr).max()), W=float(np.abs(W).max()))


def _he(mod, cache):
    t = torch.zeros_like(mod.weights.data)
    enn.init.generalized_he_init(t, mod.basisexpansion, cache=cache)
    return t
