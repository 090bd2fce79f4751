"""C15: point-cloud convolutions are equivariant for every group element and graph."""
from core import Case, Skip
from nnlib import *

RULE = ("a case = one randomly configured point convolution and several graphs (random, repeated edges, self loops, isolated nodes, coincident points); every output is "
        "compared with an explicit mean over incoming edges and with the outputs for transformed / translated / relabelled inputs; a state = distinct (space, configuration, graph kind, element)")
CASE_TIMEOUT = 200

S2 = [["rot2dOnR2", {"N": n}] for n in (1, 3, 4, 5, -1)] + [["flipRot2dOnR2", {"N": 3}], ["flipRot2dOnR2", {"N": -1}], ["flipRot2dOnR2", {"N": 4, "axis": .3}], ["flip2dOnR2", {"axis": .9}], ["trivialOnR2", {}]]
S3 = [["rot3dOnR3", {}], ["flipRot3dOnR3", {}], ["octaOnR3", {}], ["fullOctaOnR3", {}], ["icoOnR3", {}], ["conicalOnR3", {"n": 3, "axis": .5}], ["rot2dOnR3", {"n": -1, "adj": 2}], ["fullCylindricalOnR3", {"n": -1}],
      ["dihedralOnR3", {"n": 3}], ["mirOnR3", {"axis": .4}], ["invOnR3", {}], ["trivialOnR3", {}], ["cylindricalOnR3", {"n": 4, "adj": 6}], ["dihedralOnR3", {"n": -1}]]


def cases(tier, seed):
    out = []
    k2, k3 = (12, 5) if tier == "quick" else (50, 16)
    for i in range(max(k2, k3)):
        for d in S3:
            if i < k3:
                out.append(Case("conv", d=d, i=i, core=i < 1))
        for d in S2:
            if i < k2:
                out.append(Case("conv", d=d, i=i, core=i < 3))
    return out


GRAPHS = ["random", "dense", "loops", "isolated", "repeated", "single", "coincident"]


def graph(rng, kind_, n):
    if kind_ == "dense":
        e = [(i, j) for i in range(n) for j in range(n) if i != j]
    elif kind_ == "loops":
        e = [(i, i) for i in range(n)] + [(int(a), int(b)) for a, b in rng.randint(0, n, (n, 2))]
    elif kind_ == "isolated":
        e = [(int(a), int(b)) for a, b in rng.randint(0, max(1, n // 2), (n, 2))]
    elif kind_ == "repeated":
        e = [(int(a), int(b)) for a, b in rng.randint(0, n, (n, 2))]
        e = e + e[: max(1, len(e) // 2)]
    elif kind_ == "single":
        e = [(int(rng.randint(n)), int(rng.randint(n)))]
    else:
        e = [(int(a), int(b)) for a, b in rng.randint(0, n, (2 * n, 2))]
    return np.array(e).T


def conv(m, d, i=0):
    sp = space(d)
    dim = sp.dimensionality
    rng = m.rng()
    for attempt in range(12):
        gr = int(rng.choice([1, 1, 1, 2, 3]))
        c = dict(groups=gr, bias=bool(rng.rand() < .7))
        if rng.rand() < .5:
            c["width"] = float(.5 + 2 * rng.rand())
            c["n_rings"] = int(rng.randint(1, 4))
        else:
            c["rings"] = sorted(float(v) for v in rng.rand(int(rng.randint(1, 3))) * 2)
        if rng.rand() < .6:
            c["sigma"] = float(.3 + rng.rand())
        u = rng.rand()
        if u < .3:
            c["frequencies_cutoff"] = float(rng.choice([1., 2.]))
        elif u < .6:
            c["frequencies_cutoff"] = int(rng.choice([1, 2, 3]))
        elif dim == 3:
            c["frequencies_cutoff"] = 1.5
        cap = dict(max_field=8, maxf=2, max_size=12, kinds=ORTH + ["skew"]) if dim == 2 else dict(max_field=5, maxf=2, max_size=8, kinds=ORTH + ["skew"])
        a = rand_type(sp, rng, nf=int(rng.randint(1, 4)), **cap)
        b = rand_type(sp, rng, nf=int(rng.randint(1, 4)), **cap)
        if rng.rand() < .2:      # a name with the characters that module names treat specially
            r0 = a.representations[0]
            a = enn.FieldType(sp, [eg.change_basis(r0, rand_orth(rng, r0.size), "v1.5:" + r0.name)] + list(a.representations[1:]))
        tin, tout = enn.FieldType(sp, list(a.representations) * gr), enn.FieldType(sp, list(b.representations) * gr)
        kw = dict(c)
        if isinstance(kw.get("frequencies_cutoff"), int):
            kw["frequencies_cutoff"] = lambda r, v=kw["frequencies_cutoff"]: v
        try:
            mod = (enn.R2PointConv if dim == 2 else enn.R3PointConv)(tin, tout, **kw)
            break
        except ValueError as e:
            if "is empty" in str(e):
                m.event("empty-basis-refused")
                continue
            raise
        except eg.InsufficientIrrepsException:
            m.event("insufficient-irreps")
    else:
        raise Skip("no non-empty configuration")
    randomize(mod, rng)
    tag = f"{sname(d)}:{ {q: (round(v, 3) if isinstance(v, float) else v) for q, v in c.items()} }"
    m.event("configuration", tag)
    ri, ro = list(a.representations), list(tout.representations)
    so, si = np.cumsum([0] + [r.size for r in ro]), np.cumsum([0] + [r.size for r in ri])
    og = tout.size // gr

    def kernel(pts):
        with torch.no_grad():
            return mod.expand_filter(torch.tensor(pts, dtype=torch.float32)).numpy().astype(float)     # [P, out, in/groups]

    with torch.no_grad():
        bias = mod.expand_parameters(torch.zeros(1, dim))[1]
    bias = np.zeros(tout.size) if bias is None else bias.numpy().astype(float)
    # ---- the kernel is steerable everywhere, for every element
    pts = npts(rng, dim, 6)
    K = kernel(pts)
    scale = 1 + np.abs(K).max()
    for g in action_elements(sp.fibergroup, rng, 4):
        A = np.asarray(sp.basespace_action(g), float)
        m.close(kernel(pts @ A.T) / scale, np.einsum("po,noi,iq->npq", fiber_mat(ro, g), K, fiber_mat(ri, ~g)) / scale, "kernel-steerable", 3e-4, tag=tag, g=g)
    # ---- weights: linear, confined to their fields, each matters
    bs = mod.basissampler
    n = bs.dimension()
    info = list(bs.get_basis_info())
    m.check(mod.weights.shape == (n,) and len(info) == n and [q["id"] for q in info] == list(range(n)), "basis-info", tag=tag)
    P = torch.tensor(np.concatenate([pts, rng.randn(10, dim) * 1.5, rng.randn(6, dim) * .5]), dtype=torch.float32)
    with torch.no_grad():
        v1, v2 = T(rng.randn(n)), T(rng.randn(n))
        m.close(bs(2. * v1 - .5 * v2, P), 2 * bs(v1, P).numpy() - .5 * bs(v2, P).numpy(), "kernel-linear", 1e-4, tag=tag)
        for w in (range(n) if n <= 40 else sorted(rng.choice(n, 40, replace=False).tolist())):
            e = torch.zeros(n)
            e[w] = 1
            F = bs(e, P).numpy()
            io, ii = info[w]["out_field_position"], info[w]["in_field_position"]
            one = bs.get_element_info(w)
            m.check(one["out_field_position"] == io and one["in_field_position"] == ii, "element-info", tag=tag, w=w)
            mask = np.zeros(F.shape, bool)
            mask[:, so[io]:so[io + 1], si[ii]:si[ii + 1]] = True
            m.check(np.abs(F[~mask]).max(initial=0.) < 1e-7, "weight-touches-only-its-fields", tag=tag, w=w)
            fc = c.get("frequencies_cutoff", 3.)
            m.check(abs(info[w]["irrep:frequency"]) <= (fc if isinstance(fc, int) else fc * info[w]["radius"]) + 1e-6, "cutoff-respected", tag=tag)
            m.event("weight")

    def reference(x, ei, delta):
        Kd = kernel(delta)
        y = np.zeros((x.shape[0], tout.size))
        cnt = np.zeros(x.shape[0])
        ig = tin.size // gr
        for e in range(ei.shape[1]):
            s, t = ei[0, e], ei[1, e]
            for q in range(gr):
                y[t, q * og:(q + 1) * og] += Kd[e, q * og:(q + 1) * og] @ x[s, q * ig:(q + 1) * ig]
            cnt[t] += 1
        y /= np.maximum(cnt, 1)[:, None]
        return y + bias

    for gk in [GRAPHS[j] for j in rng.choice(len(GRAPHS), 4, replace=False)]:
        N = int(rng.randint(2, 8))
        ei = graph(rng, gk, N)
        pos = (rng.randn(N, dim)).astype(np.float32)
        if gk == "coincident":
            pos[:] = pos[0]
        x = rand_input(rng, tin, (N,))
        gx = tin(T(x), T(pos))
        te = torch.tensor(ei, dtype=torch.long)
        mod.train()
        with torch.no_grad():
            y = mod(gx, te)
        m.check(np.array_equal(gx.tensor.numpy(), x) and np.array_equal(gx.coords.numpy(), pos), "input-untouched", tag=tag)
        m.check(y.type == tout and y.coords is not None and np.array_equal(y.coords.numpy(), pos), "output-type-and-coords", tag=tag)
        y = y.tensor.numpy()
        delta = pos[ei[0]] - pos[ei[1]]
        ref = reference(x.astype(float), ei, delta)
        sc = 1 + np.abs(ref).max()
        m.event("graph", f"{sname(d)}:{gk}:{N}:{ei.shape[1]}")
        m.close(y / sc, ref / sc, "is-the-mean-of-messages", 1e-4, tag=tag, graph=gk)
        mod.eval()
        with torch.no_grad():
            m.close(mod(gx, te).tensor.numpy() / sc, y / sc, "eval-equals-train", 1e-5, tag=tag)
            m.close(mod(gx, te, torch.tensor(delta)).tensor.numpy() / sc, y / sc, "displacements-equal-coordinates", 1e-5, tag=tag)
            # displacements win over coordinates
            d2 = (delta + rng.randn(*delta.shape) * .3).astype(np.float32)
            m.close(mod(gx, te, torch.tensor(d2)).tensor.numpy() / sc, reference(x.astype(float), ei, d2) / sc, "displacements-are-used", 1e-4, tag=tag)
            sh = (pos + rng.randint(-2, 3, (1, dim))).astype(np.float32)
            m.close(mod(tin(T(x), T(sh)), te).tensor.numpy() / sc, y / sc, "translation", 1e-3, tag=tag)
            pe = rng.permutation(ei.shape[1])
            m.close(mod(gx, te[:, torch.tensor(pe)]).tensor.numpy() / sc, y / sc, "edge-order", 1e-4, tag=tag)
            pn = rng.permutation(N)
            inv = np.argsort(pn)
            m.close(mod(tin(T(x[pn]), T(pos[pn])), torch.tensor(inv[ei])).tensor.numpy()[inv] / sc, y / sc, "node-order", 1e-4, tag=tag)
            for g in action_elements(sp.fibergroup, rng, 3):
                A = np.asarray(sp.basespace_action(g), float)
                yg = mod(tin(T(fiber_act(x, tin.representations, g)), T(pos @ A.T)), te)
                m.close(yg.tensor.numpy() / sc, fiber_act(y, tout.representations, g) / sc, "equivariance", 5e-4, tag=tag, g=g, graph=gk)
                m.event("equivariance", f"{tag}:{g}")
            # the linear part is linear in the features
            x2 = rand_input(rng, tin, (N,))
            l = lambda z: mod(tin(T(z), T(pos)), te).tensor.numpy() - bias
            m.close(l(2 * x - x2) / sc, (2 * l(x) - l(x2)) / sc, "linear-in-features", 1e-4, tag=tag)
        mod.train()
        mod.zero_grad()
        yy = mod(gx, te).tensor
        (yy * T(rng.randn(*yy.shape))).sum().backward()
        m.check(mod.weights.grad is not None and bool(torch.isfinite(mod.weights.grad).all()), "gradient", tag=tag)
        if mod.bias is not None:
            triv = sum(1 for r in ro for q in r.irreps if sp.fibergroup.irrep(*q).is_trivial())
            m.check(mod.bias.numel() == triv and bool((mod.bias.grad.abs() > 1e-9).all()), "bias-gradient", tag=tag)
