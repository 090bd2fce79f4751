"""C23: composite modules apply what they are made of, whole networks stay equivariant and their gradients transform."""
from collections import OrderedDict
from core import Case, Skip
RULE = ("a forward (and backward) call of a generated network or composite module on an input and on its transformed copy, with hooks recording what every submodule received and returned; "
        "the trace is compared with the declared composition and the outputs and gradients with the transformed ones")
ASSUMPTIONS = ["orthogonal representations", "elements that map the sampling grid to itself (any element on points and clouds)",
               "gradients are compared in double precision, where no activation sits on the kink of its nonlinearity"]
import zoo
from nnlib import *
from checks.c20 import network
from checks.c22 import multiple


def cases(tier, seed):
    out = []
    k = 1 if tier == "quick" else 8
    for i in range(20 * k):
        out.append(Case("sequence", i=i))
    for i in range(24 * k):
        out.append(Case("branches", i=i))
    for i in range(14 * k):
        out.append(Case("gates", i=i))
        out.append(Case("rearranged", i=i))
    for i in range(12 * k):
        out.append(Case("restricted", i=i))
        out.append(Case("disentangled", i=i))
    for g in ("so3", "o3"):
        for L in range(0, 4 if tier == "quick" else 6):
            out.append(Case("harmonics", g=g, L=L))
    for i in range(30 * k):
        out.append(Case("nets", dim=[2, 0, 3][i % 3], i=i))
    for i in range(8 * k):
        out.append(Case("clouds", i=i))
    for n, dim in (("conv", 2), ("convT", 2), ("linear", 0), ("tensorproduct", 0), ("pointconv", 2)):
        out.append(Case("evalbackward", name=n, dim=dim))
    return out


def snapped(x):
    return x.tensor.detach().clone()


class Trace:
    """What each watched module received and returned, in order."""

    def __init__(self, mods):
        self.log = []
        self.h = [q.register_forward_hook(lambda q, a, o, j=j: self.log.append((j, tuple(v for v in a), o))) for j, q in enumerate(mods)]

    def stop(self):
        for h in self.h:
            h.remove()


# ------------------------------------------------------------------------------------------------------------- sequences
def chain(rng, dim, n, t=None):
    """n modules with one type throughout, so that any sub-list is a sequence."""
    sp = zoo.pick_space(rng, dim)
    t = zoo._types(sp, rng)
    S = []
    for _ in range(n):
        for _ in range(10):
            nm = str(rng.choice(["norm", "pointwise", "gnorm", "identity", "fieldnorm", "iid"]))
            try:
                S.append(zoo.make(nm, rng, dim, t=t, sp=sp, tries=1))
                break
            except Skip:
                continue
        else:
            S.append(zoo.identity(rng, sp, t))
    return sp, t, [randomize_stats(randomize(s.build(), rng, .7), rng).eval() for s in S]


def sequence(m, i):
    rng = m.rng()
    dim = int(rng.choice([0, 2, 3]))
    n = int(rng.randint(2, 6))
    sp, t, mods = chain(rng, dim, n)
    shp = tuple(int(v) for v in rng.randint(1, 5, dim))
    x = t(T(rng.randn(3, t.size, *shp)))

    def compose(ms):
        y = x
        for q in ms:
            y = q(y)
        return y

    def judge(seq, ms, how):
        m.check(len(seq) == len(ms) and all(a is b for a, b in zip(seq, ms)), "sequence-holds-its-modules", how=how, n=len(ms))
        m.check(seq.in_type == ms[0].in_type and seq.out_type == ms[-1].out_type, "sequence-types", how=how)
        for j in range(-len(ms), len(ms)):
            m.check(seq[j] is ms[j], "sequence-index", how=how, j=j)
        for j in (len(ms), -len(ms) - 1):
            m.raises((AssertionError, IndexError), lambda: seq[j], "sequence-index-refused", how=how)
        tr = Trace(ms)
        seq.eval()
        y = seq(x)
        tr.stop()
        ran = [j for j, _, _ in tr.log]
        first = {id(q): j for j, q in enumerate(ms)}
        m.check(len(ran) >= len(ms), "every-module-runs", how=how, ran=len(ran))
        z = compose(ms)
        m.check(y.type == z.type and torch.equal(y.tensor, z.tensor), "sequence-is-the-composition", how=how, n=len(ms))
        m.event("sequence", f"{how}:{len(ms)}:{dim}")

    judge(enn.SequentialModule(*mods), mods, "args")
    judge(enn.SequentialModule(OrderedDict((f"m{j}" if rng.rand() < .5 else str(2 * j + 1), q) for j, q in enumerate(mods))), mods, "named")
    s = enn.SequentialModule(*mods)
    a, b = sorted(int(v) for v in rng.choice(n + 1, 2, replace=False))
    judge(s[a:b], mods[a:b], "slice")
    judge(s[-n:], mods, "negative-slice")
    st = int(rng.choice([2, 3, -1]))
    judge(s[::st], mods[::st], "stepped-slice")
    # appending to a slice and to named sequences
    extra = chain_more(rng, sp, t)
    q = s[a:b]
    for e in extra:
        m.check(q.append(e) is q, "append-returns-self")
    judge(q, mods[a:b] + extra, "append-to-slice")
    judge(s, mods, "original-after-append")
    q = enn.SequentialModule(OrderedDict([(str(j), v) for j, v in zip([int(p) for p in rng.permutation(n + 2)[:n]], mods)]))
    for e in extra:
        q.append(e)
    judge(q, mods + extra, "append-to-named")
    # nesting
    c = int(rng.randint(1, n))
    q = enn.SequentialModule(enn.SequentialModule(*mods[:c]), enn.SequentialModule(*mods[c:])).eval()
    m.check(torch.equal(q(x).tensor, compose(mods).tensor), "nested-sequence")
    # what does not fit is refused
    other = enn.FieldType(sp, list(t.representations) + [sp.trivial_repr])
    m.raises(AssertionError, lambda: enn.SequentialModule(mods[0], enn.IdentityModule(other)), "mismatch-refused")
    m.raises(AssertionError, lambda: enn.SequentialModule(*mods).append(enn.IdentityModule(other)), "mismatch-refused")
    m.raises(AssertionError, lambda: s(other(T(rng.randn(2, other.size, *shp)))), "wrong-input-refused")


def chain_more(rng, sp, t):
    return [enn.IdentityModule(t)] + ([enn.NormNonLinearity(t).eval()] if all("norm" in r.supported_nonlinearities for r in t.representations) else [enn.IdentityModule(t)])


# -------------------------------------------------------------------------------------------------------------- branches
def reference_split(t, labels, level, x):
    """Fields grouped by label (stably sorted as documented) -> {label: (representations, channels)}."""
    pos = np.cumsum([0] + [r.size for r in t.representations])
    order = list(range(len(t)))
    if level > 0:
        order.sort(key=lambda c: (labels[c], t.representations[c].size, t.representations[c].name)[:level])
    out = {}
    for c in order:
        reps, ch = out.setdefault(labels[c], ([], []))
        reps.append(t.representations[c])
        ch.append(x[:, pos[c]:pos[c + 1]])
    return {l: (r, torch.cat(ch, 1)) for l, (r, ch) in out.items()}


def branches(m, i):
    rng = m.rng()
    dim = int(rng.choice([0, 2, 2, 3]))
    spec, mod = multiple(rng, dim)
    labels, level, B = spec.parts
    t, sp = spec.t, spec.sp
    if rng.rand() < .25:
        level = 3
        pairs = [(s.build, l) for s, l in B]
        br = enn.BranchingModule(t, list(labels), 3)
        if any(s.t != br.out_type[l] for s, l in B):
            B = [(zoo.identity(rng, sp, br.out_type[l]), l) for _, l in B]
    if rng.rand() < .5:                  # a branch can be fed to several modules
        l = B[int(rng.randint(len(B)))][1]
        B.insert(int(rng.randint(len(B) + 1)), (zoo.identity(rng, sp, enn.BranchingModule(t, list(labels), level).out_type[l]), l))
    pairs = [(s._build(), [l] if rng.rand() < .4 else l) for s, l in B]
    keep = [(q, copy.copy(l)) for q, l in pairs]
    mod = enn.MultipleModule(t, list(labels), pairs, level)
    m.check(len(pairs) == len(keep) and all(a[0] is b[0] and a[1] == b[1] and type(a[1]) is type(b[1]) for a, b in zip(pairs, keep)), "callers-list-kept", labels=str([p[1] for p in pairs])[:100])
    mod2 = enn.MultipleModule(t, list(labels), pairs, level)            # the list can be used again
    randomize_stats(randomize(mod, rng, .7), rng)
    double = rng.rand() < .5
    dt = torch.float64 if double else torch.float32
    if double:
        mod = mod.double()
    parts = [q for q, _ in pairs]
    for mode in (False, True):
        mod.train(mode)
        shp = tuple(spec.spatial_fn(rng))
        x = torch.tensor(rng.randn(4, t.size, *shp), dtype=dt)
        co = torch.tensor(rng.randn(4, dim), dtype=dt) if dim and not shp else None
        gx = enn.GeometricTensor(x.clone(), t, co)
        ref = reference_split(t, labels, level, x)
        # branching alone
        br = mod.branching(gx)
        m.check(set(br) == set(labels), "branch-labels", got=str(sorted(br)))
        for l in br:
            m.check(tuple(br[l].type.representations) == tuple(ref[l][0]), "branch-type", label=l, level=level)
            m.check(torch.equal(br[l].tensor, ref[l][1]), "branch-fields", label=l, level=level, labels=str(labels))
            m.check(co is None or torch.equal(br[l].coords, co), "branch-coords", label=l)
        if not mode:
            d = dict(br)
            y1, y2 = mod.merging(d), mod.merging(d)
            m.check(set(d) == set(br) and all(d[l] is br[l] for l in br), "branches-kept", got=str(sorted(d)))
            m.check(torch.equal(y1.tensor, y2.tensor) or torch.allclose(y1.tensor, y2.tensor, atol=1e-5, equal_nan=True), "merge-repeatable")
        tr = Trace(parts)
        y = mod(gx)
        tr.stop()
        m.check(y.tensor.dtype == dt, "precision-kept", dt=str(dt), got=str(y.tensor.dtype))
        m.check(sorted(j for j, _, _ in tr.log) == list(range(len(parts))), "each-branch-once")
        seen = {j: (a, o) for j, a, o in tr.log}
        for j, (q, l) in enumerate(pairs):
            l = l if isinstance(l, str) else l[0]
            a, o = seen[j]
            m.check(len(a) == 1 and torch.equal(a[0].tensor, ref[l][1]), "module-gets-its-fields", label=l)
        z = torch.cat([seen[j][1].tensor for j in range(len(parts))], 1)
        m.check(torch.equal(y.tensor, z), "merge-stacks-outputs")
        want = [r for j in range(len(parts)) for r in parts[j].out_type.representations]
        m.check(list(y.type.representations) == want and y.type == mod.out_type, "merge-type")
        m.check(torch.equal(gx.tensor, x), "input-untouched")
        m.event("branches", f"{len(set(labels))}:{level}:{'dbl' if double else 'flt'}:{'cloud' if co is not None else dim}")
        # equivariance of the whole
        for g in (grid_elements(sp, rng, 2) if shp else elements(sp.fibergroup, rng, 2, False)):
            if mode and any(s.random for s, _ in B):
                continue
            xg = act(x.numpy(), t.representations, sp, g) if shp else fiber_act(x.numpy(), t.representations, g)
            cg = torch.tensor(co.numpy() @ np.asarray(sp.basespace_action(g), float).T, dtype=dt) if co is not None else None
            yg = mod(enn.GeometricTensor(torch.tensor(np.ascontiguousarray(xg), dtype=dt), t, cg)).tensor.detach().numpy()
            yn = y.tensor.detach().numpy()
            r = act(yn, y.type.representations, sp, g) if shp else fiber_act(yn, y.type.representations, g)
            s = max(1e-2, np.abs(r).max())
            if not mode:
                m.close(yg / s, r / s, "equivariance", 1e-3, g=g, level=level)
    # labels that no field or module has
    if len(labels) > 1:
        m.raises(Exception, lambda: enn.BranchingModule(t, list(labels)[:-1], 0), "labels-counted")
    m.raises(Exception, lambda: enn.MultipleModule(t, list(labels), [(q, "nobody") for q, _ in pairs], level), "unknown-label-refused")
    other = enn.FieldType(sp, list(t.representations) + [sp.trivial_repr])
    m.raises(AssertionError, lambda: mod(enn.GeometricTensor(torch.zeros(2, other.size, *shp, dtype=dt), other, torch.zeros(2, dim, dtype=dt) if co is not None else None)), "wrong-input-refused")


def gates(m, i):
    """A gated nonlinearity fed with the fields of two labels, alone, first or last."""
    rng = m.rng()
    dim = int(rng.choice([0, 2, 3]))
    sp = zoo.pick_space(rng, dim)
    f = rand_type(sp, rng, nf=int(rng.randint(1, 4)), need="gated", max_size=14, max_field=6)
    if not all("gated" in r.supported_nonlinearities for r in f.representations):
        raise Skip("no gated type")
    n = len(f)
    items = [("g", sp.trivial_repr)] * n + [("f", r) for r in f.representations]
    k = int(rng.randint(0, 3))
    extra = [rand_rep(sp.fibergroup, rng, 2, 6, order_cap=8)[0] for _ in range(k)]
    items += [("o", r) for r in extra]
    items = [items[j] for j in rng.permutation(len(items))]
    labels, reps = [l for l, _ in items], [r for _, r in items]
    t = enn.FieldType(sp, reps)
    level = int(rng.randint(4))
    split = enn.BranchingModule(t, list(labels), level).out_type
    gated = enn.GatedNonLinearity2((split["g"], split["f"]), bias=bool(rng.rand() < .5))
    mods = [(gated, ["g", "f"])] + ([(enn.IdentityModule(split["o"]), "o")] if k else [])
    if rng.rand() < .5:
        mods.reverse()
    mod = randomize(enn.MultipleModule(t, list(labels), mods, level), rng, .7)
    shp = tuple(int(v) for v in rng.randint(1, 5, dim))
    x = rng.randn(3, t.size, *shp)
    mod = mod.double()
    y = mod(enn.GeometricTensor(torch.tensor(x), t))
    ref = reference_split(t, labels, level, torch.tensor(x))
    gt, ff = ref["g"][1], ref["f"][1]
    b = getattr(gated, "bias", None)
    gv = torch.sigmoid(gt - b.view(1, -1, *[1] * dim)) if b is not None else torch.sigmoid(gt)
    # which gate goes with which field is left to the module: each gate is used once
    size = [r.size for r in ref["f"][0]]
    off, got = 0, {}
    for q, _ in mods:
        w = q.out_type.size
        got[id(q)] = y.tensor[:, off:off + w]
        off += w
    z = y.tensor
    s = max(1e-3, float(z.abs().max()))
    m.event("gates", f"{dim}:{level}:{len(mods)}:{mods[0][0] is gated}:{n}")
    for q, _ in mods:
        if q is not gated:
            m.check(torch.equal(got[id(q)], ref["o"][1]), "other-fields-untouched", level=level)
    yo = got[id(gated)]
    free = list(range(n))
    for j in range(n):
        sl = slice(sum(size[:j]), sum(size[:j + 1]))
        err = [float((gv[:, k_:k_ + 1] * ff[:, sl] - yo[:, sl]).abs().max()) for k_ in free]
        best = int(np.argmin(err))
        m.check(err[best] < 1e-5 * s, "gates-applied-to-their-fields", err=err[best], labels=str(labels), level=level)
        free.pop(best)
    for g in grid_elements(sp, rng, 2):
        yg = mod(enn.GeometricTensor(torch.tensor(np.ascontiguousarray(act(x, t.representations, sp, g))), t)).tensor.detach().numpy()
        r = act(y.tensor.detach().numpy(), y.type.representations, sp, g)
        m.close(yg / s, r / s, "equivariance", 1e-4, g=g)


def rearranged(m, i):
    rng = m.rng()
    dim = int(rng.choice([0, 2, 3]))
    sp = zoo.pick_space(rng, dim)
    t = zoo._types(sp, rng, nf=int(rng.randint(1, 8)), size=30)
    p = [int(v) for v in rng.permutation(len(t))]
    keep = list(p)
    mod = enn.ReshuffleModule(t, p)
    p.reverse()                                    # the caller goes on using his list
    cloud = dim and rng.rand() < .3
    shp = () if cloud else tuple(int(v) for v in rng.randint(1, 5, dim))
    x = torch.tensor(rng.randn(3, t.size, *shp)).to(torch.float64 if rng.rand() < .5 else torch.float32)
    co = torch.tensor(rng.randn(3, dim)).to(x.dtype) if cloud else None
    y = mod(enn.GeometricTensor(x.clone(), t, co))
    pos = np.cumsum([0] + [r.size for r in t.representations])
    m.check(list(y.type.representations) == [t.representations[j] for j in keep], "reshuffled-type")
    m.check(torch.equal(y.tensor, torch.cat([x[:, pos[j]:pos[j + 1]] for j in keep], 1)) and y.tensor.dtype == x.dtype, "reshuffled-fields", perm=str(keep))
    m.check(co is None or torch.equal(y.coords, co), "reshuffled-coords")
    m.event("reshuffle", f"{len(t)}:{keep}")
    inv = [int(v) for v in np.argsort(keep)]
    m.check(torch.equal(enn.ReshuffleModule(mod.out_type, inv)(y).tensor, x), "reshuffle-inverse")
    idm = enn.IdentityModule(t)
    z = idm(enn.GeometricTensor(x.clone(), t, co))
    m.check(torch.equal(z.tensor, x) and z.type == t, "identity")


def restricted(m, i):
    rng = m.rng()
    dim = int(rng.choice([0, 2, 3]))
    spec = zoo.make("restriction", rng, dim)
    mod = spec.build()
    t, sp = spec.t, spec.sp
    so, to = mod.out_type.gspace, mod.out_type
    shp = tuple(spec.spatial_fn(rng))
    x = torch.tensor(rng.randn(3, t.size, *shp))
    co = torch.tensor(rng.randn(3, dim)) if dim and not shp else None
    y = mod(enn.GeometricTensor(x.clone(), t, co))
    m.check(torch.equal(y.tensor, x) and y.type == to, "restriction-keeps-the-tensor")
    m.check(co is None or torch.equal(y.coords, co), "restriction-keeps-the-coordinates")
    m.check(len(to) == len(t) and [r.size for r in to.representations] == [r.size for r in t.representations], "restriction-keeps-the-fields")
    _, par, child = sp.restrict(mod._id)
    for h in elements(so.fibergroup, rng, 4):
        g = par(h)
        m.event("restricted", f"{sp.fibergroup.name}:{mod._id}:{dim}")
        m.close(fiber_mat(to.representations, h), fiber_mat(t.representations, g), "restricted-fields-transform-alike", 1e-5, id=str(mod._id), t=desc(t))
        if dim:
            m.close(np.asarray(so.basespace_action(h), float), np.asarray(sp.basespace_action(g), float), "restricted-space-transforms-alike", 1e-5, id=str(mod._id))
    # a sequence across the restriction still works and only accepts what it should
    nx = enn.SequentialModule(mod, enn.IdentityModule(to))
    m.check(torch.equal(nx(enn.GeometricTensor(x.clone(), t, co)).tensor, x), "restriction-in-a-sequence")
    if so != sp:
        m.raises(AssertionError, lambda: enn.SequentialModule(mod, enn.IdentityModule(t)), "restriction-mismatch-refused")


def disentangled(m, i):
    rng = m.rng()
    dim = int(rng.choice([0, 2, 3]))
    sp = zoo.pick_space(rng, dim)
    reps = []
    t = zoo._types(sp, rng, nf=int(rng.randint(2, 7)), size=26)
    g0 = sp.fibergroup
    # also restricted representations, whose blocks are interleaved, and awkward names
    reps = list(t.representations)
    if g0.order() > 0 and g0.order() <= 12:
        p = np.eye(g0.order())[rng.permutation(g0.order())]
        reps.append(eg.change_basis(g0.regular_representation, p, f"shuffled.v1.{i}"))
        d = eg.directsum([g0.regular_representation, g0.trivial_representation], name=f"sum.of.two {i}")
        q = np.eye(d.size)[rng.permutation(d.size)]
        reps.append(eg.change_basis(d, q, f"mixed-{i}"))
    a = eg.directsum([sp.trivial_repr, reps[0], reps[-1]], name=f"block {i}") if reps[0].size + reps[-1].size < 20 else sp.trivial_repr
    q = np.eye(a.size)[rng.permutation(a.size)]
    reps += [eg.change_basis(a, q, f"tangled {i}"), reps[0]]
    reps = [reps[j] for j in rng.permutation(len(reps))]
    t = enn.FieldType(sp, reps)
    mod = enn.DisentangleModule(t)
    double = rng.rand() < .5
    dt = torch.float64 if double else torch.float32
    mod = mod.to(dt)
    shp = tuple(int(v) for v in rng.randint(1, 4, dim))
    x = torch.tensor(rng.randn(2, t.size, *shp)).to(dt)
    y = mod(enn.GeometricTensor(x.clone(), t))
    m.check(y.type == mod.out_type and y.tensor.dtype == dt, "disentangled-type")
    ins, outs = np.cumsum([0] + [r.size for r in reps]), np.cumsum([0] + [r.size for r in mod.out_type.representations])
    E = torch.eye(t.size, dtype=dt).reshape(t.size, t.size, *[1] * len(shp))
    M = mod(enn.GeometricTensor(E.expand(t.size, t.size, *[1] * len(shp)).contiguous() if dim == 0 else torch.eye(t.size, dtype=dt).reshape(t.size, t.size, *[1] * dim), t)).tensor.reshape(t.size, t.size).T.numpy()
    R = np.round(M)
    m.close(M, R, "disentangling-permutes", 1e-6)
    m.check((np.abs(R).sum(0) == 1).all() and (np.abs(R).sum(1) == 1).all() and (R >= 0).all(), "disentangling-permutes", t=desc(t))
    # fields stay where they are: each field's channels map to the same range
    for a_, b_ in zip(ins[:-1], ins[1:]):
        m.check(abs(M[a_:b_, a_:b_]).sum() == b_ - a_, "disentangling-per-field", t=desc(t))
        m.check(b_ in set(outs), "disentangled-fields-align", t=desc(t))
    for g in elements(g0, rng, 3):
        m.event("disentangled", f"{g0.name}:{len(mod.out_type)}:{dim}")
        m.close(fiber_mat(mod.out_type.representations, g) @ M, M @ fiber_mat(reps, g), "disentangled-fields-transform", 1e-5, g=g, t=desc(t))
    m.close(y.tensor.numpy(), np.einsum("oi,bi...->bo...", M, x.numpy()), "disentangling-linear", 1e-6)


def harmonics(m, g, L):
    rng = m.rng()
    mod = enn.HarmonicPolynomialR3(L, g)
    for dt, tol in ((torch.float32, 1e-4), (torch.float64, 2e-6)):
        q = copy.deepcopy(mod).to(dt)
        x = rng.randn(12, 3) * 10 ** rng.uniform(-1, .5, (12, 1))
        x[0] = 0.
        x[1:4] = np.eye(3)
        f = lambda v: q(q.in_type(torch.tensor(v).to(dt))).tensor.detach().double().numpy()
        y = f(x)
        m.check(y.shape == (12, (L + 1) ** 2), "harmonics-size", got=y.shape)
        sl = [slice(l * l, (l + 1) ** 2) for l in range(L + 1)]
        r = np.linalg.norm(x, axis=1)
        scale = max(1., np.abs(y).max())
        for e in elements(q.G, rng, 5):
            A = np.asarray(q.in_type.representations[0](e), float)
            m.event("harmonics", f"{g}:{L}:{dt}")
            m.close(f(x @ A.T) / scale, y @ np.asarray(q.out_type.representations[0](e), float).T / scale, "harmonics-equivariant", tol, e=e)
        for l in range(L + 1):
            s = 1.7
            m.close(f(s * x)[:, sl[l]] / (s ** l * scale), y[:, sl[l]] / scale, "harmonics-homogeneous", tol, l=l)
            nn_ = (y[:, sl[l]] ** 2).sum(1)
            c = nn_[1]
            m.check(c > 1e-6, "harmonics-nonzero", l=l)
            m.close(nn_ / scale ** 2, c * r ** (2 * l) / scale ** 2, "harmonics-norm", 10 * tol, l=l)
        # harmonic and orthogonal over the sphere
        if dt == torch.float64:
            P = rng.randn(6, 3)
            h = 1e-3
            lap = sum(f(P + h * d) + f(P - h * d) - 2 * f(P) for d in np.eye(3)) / h ** 2
            sc = max(1., np.abs(f(P)).max())
            m.close(lap / sc, np.zeros_like(lap), "harmonics-laplacian", 2e-3 * (L + 1) ** 2)
            ct, w = np.polynomial.legendre.leggauss(L + 2)
            ph = np.arange(2 * L + 3) * 2 * np.pi / (2 * L + 3)
            pts = np.array([[np.sqrt(1 - c * c) * np.cos(a), np.sqrt(1 - c * c) * np.sin(a), c] for c in ct for a in ph])
            W = np.repeat(w, len(ph)) / (2 * len(ph))
            Y = f(pts)
            Gm = (Y * W[:, None]).T @ Y
            dg = np.diag(Gm)
            m.close(Gm / dg.max(), np.diag(dg) / dg.max(), "harmonics-orthogonal", 1e-5)


# -------------------------------------------------------------------------------------------------------------- networks
def dual_mat(reps, g):
    return np.linalg.inv(fiber_mat(reps, g)).T


class Dual:
    """A representation list acting by the inverse transpose: how gradients transform."""

    def __init__(self, reps):
        self.reps = reps


def dual_act(x, reps, sp, g, grid):
    y = np.einsum("oi,bi...->bo...", dual_mat(reps, g), x)
    if sp.dimensionality == 0 or not grid:
        return y
    return grid_act(y, np.asarray(sp.basespace_action(g), float))


def margin(mod, x):
    """Smallest distance of an activation from the kink at zero, relative to its tensor."""
    worst = [np.inf]

    def look(q, a, o):
        v = a[0].tensor
        # structural zeros as well: a tensor that is zero in exact arithmetic is only rounding noise in one of the two copies
        if v.numel():
            worst[0] = min(worst[0], float(v.abs().min()) / max(1e-30, float(v.abs().max())))
    hs = [q.register_forward_hook(look) for q in mod.modules()
          if type(q).__name__ in ("ReLU", "LeakyReLU", "NormNonLinearity", "GNormBatchNorm", "NormPool", "FieldNorm", "GatedNonLinearity1", "InnerBatchNorm", "IIDBatchNorm2d", "IIDBatchNorm3d", "IIDBatchNorm1d", "PointwiseNonLinearity", "ELU")]
    with torch.no_grad():
        mod(x)
    for h in hs:
        h.remove()
    return worst[0]


def with_branches(rng, dim, spec):
    """Append branches to the network and hand out the new architecture."""
    base = spec._build
    t = base().out_type
    s2, _ = multiple(rng, dim, sp=t.gspace, t=t)
    return zoo.Spec("net", spec.sp, spec.t, lambda: enn.SequentialModule(base(), s2._build()), spec.spatial_fn, stateful=True)


def judge_net(m, mod, sp, t, x, g, tag, tol=1e-3, coords=None, gradients=True, edges=None):
    grid = x.ndim > 2
    to = mod.out_type

    def run(v, c, cot):
        vt = torch.tensor(np.ascontiguousarray(v)).requires_grad_(True)
        ct = None if c is None else torch.tensor(c)
        mod.zero_grad()
        gt = enn.GeometricTensor(vt, t, ct)
        y = mod(gt) if edges is None else mod(gt, edges)
        if cot is not None:
            (y.tensor * torch.tensor(np.ascontiguousarray(cot))).sum().backward(retain_graph=not mod.training)
            return y.tensor.detach().numpy(), vt.grad.numpy().copy() if vt.grad is not None else np.zeros(v.shape), {n: p.grad.numpy().copy() for n, p in mod.named_parameters() if p.grad is not None}
        return y.tensor.detach().numpy(), None, None

    tr = (lambda v, reps: act(v, reps, sp, g)) if grid else (lambda v, reps: fiber_act(v, reps, g))
    A = np.asarray(sp.basespace_action(g), float) if sp.dimensionality else None
    cg = coords @ A.T if coords is not None else None
    state = copy.deepcopy(mod.state_dict()) if mod.training else None
    y, _, _ = run(x, coords, None)
    rs = m.rng("cotangent", tag)
    c = rs.randn(*y.shape)
    y, gx, gp = run(x, coords, c)
    if state is not None:
        mod.load_state_dict(state)
    xg = tr(x, t.representations)
    yg, gxg, gpg = run(xg, cg, dual_act(c, to.representations, sp, g, grid))
    if state is not None:
        mod.load_state_dict(state)
    m.event("network", f"{tag}:{sp.fibergroup.name}:{[type(q).__name__ for q in mod.modules()][:8]}")
    r = tr(y, to.representations)
    s = max(1e-2, np.abs(r).max()) if r.size else 1.
    m.check(np.isfinite(y).all(), "finite", tag=tag)
    m.close(yg / s, r / s, "network-equivariance", tol, g=g, tag=tag, t=desc(t), net=str([type(q).__name__ for q in mod.modules()][1:8]))
    if not gradients:
        m.event("gradient-near-kink", tag)
        return
    m.event("gradients", f"{tag}:{sp.fibergroup.name}")
    s = max(1e-2, np.abs(gx).max())
    m.close(gxg / s, dual_act(gx, t.representations, sp, g, grid) / s, "input-gradients-transform", 5 * tol, g=g, tag=tag, net=str([type(q).__name__ for q in mod.modules()][1:8]))
    m.check(gp.keys() == gpg.keys(), "same-parameters-reached")
    s = max([1e-2] + [np.abs(v).max() for v in gp.values() if v.size])
    for n in gp:
        m.close(gpg[n] / s, gp[n] / s, "parameter-gradients-equal", 5 * tol, g=g, tag=tag, param=n)
    if gp:
        m.event("parameter-gradients", tag, len(gp))


def train(mod, run, rng, steps=3):
    opt = torch.optim.SGD(mod.parameters(), lr=.02, momentum=.5) if any(True for _ in mod.parameters()) else None
    mod.train()
    for _ in range(steps):
        if opt is None:
            run()
            continue
        opt.zero_grad()
        l = (run().tensor ** 2).mean()
        if l.requires_grad:
            l.backward()
            torch.nn.utils.clip_grad_norm_(list(mod.parameters()), 1.)
            opt.step()


def nets(m, dim, i):
    rng = m.rng()
    torch.manual_seed(int(rng.randint(2 ** 31)))
    spec = network(rng, dim)
    if rng.rand() < .5:
        try:
            spec = with_branches(rng, dim, spec)
        except Skip:
            pass
    mod = spec.build().double()
    sp, t = spec.sp, spec.t
    randomize(mod, rng, .5)
    # one extent for every axis so that the elements map the grid to itself; strided layers get extents they can cover evenly
    S = max(spec.spatial_fn(rng)) if dim else 0
    x = rng.randn(4, t.size, *(S,) * dim)
    if not fits(mod, t, (S,) * dim, dim):
        for S in range(S, S + 8):
            if fits(mod, t, (S,) * dim, dim):
                x = rng.randn(4, t.size, *(S,) * dim)
                break
        else:
            raise Skip("no compatible extent")
    gx = lambda v: enn.GeometricTensor(torch.tensor(v), t)
    E = grid_elements(sp, rng, 2)
    for tag in ("fresh-train", "fresh-eval", "trained-train", "trained-eval"):
        if tag == "trained-train":
            train(mod, lambda: mod(gx(rng.randn(*x.shape))), rng)
        mod.train(tag.endswith("train"))
        sm = margin(mod, gx(x)) > 1e-9
        if mod.training:
            mod.train()
        for g in E:
            judge_net(m, mod, sp, t, x, g, tag, gradients=sm)


def fits(mod, t, shp, dim):
    """Strided layers sample a grid that is symmetric about the centre."""
    ok = [True]

    def look(q, a, o):
        k = getattr(q, "kernel_size", None)
        st = getattr(q, "stride", 1)
        if dim and isinstance(st, int) and st > 1:
            n = a[0].tensor.shape[-1]
            kk = getattr(q, "dilation", 1) * (k - 1) + 1
            if "Transposed" in type(q).__name__:
                if getattr(q, "output_padding", 0):
                    ok[0] = False
                return
            if (n + 2 * q.padding - kk) % st:
                ok[0] = False
    hs = [q.register_forward_hook(look) for q in mod.modules()]
    st = copy.deepcopy(mod.state_dict())
    with torch.no_grad():
        try:
            mod(enn.GeometricTensor(torch.randn(4, t.size, *shp, dtype=torch.float64), t))
        except RuntimeError:
            ok[0] = False
    mod.load_state_dict(st)
    for h in hs:
        h.remove()
    return ok[0]


def clouds(m, i):
    """Point convolutions with nonlinearities on points and edges moved by arbitrary group elements."""
    rng = m.rng()
    torch.manual_seed(int(rng.randint(2 ** 31)))
    dim = int(rng.choice([2, 3]))
    first = zoo.make("pointconv", rng, dim)
    sp = first.sp
    layers = [first.build()]
    for _ in range(int(rng.randint(1, 4))):
        t = layers[-1].out_type
        for _ in range(12):
            nm = str(rng.choice(["norm", "pointwise", "pointconv", "reshuffle", "disentangle", "fieldnorm"]))
            try:
                layers.append(zoo.make(nm, rng, dim, t=t, sp=sp, tries=1).build())
                break
            except Skip:
                continue

    class Net(enn.EquivariantModule):
        def __init__(self):
            super().__init__()
            self.layers = torch.nn.ModuleList(layers)
            self.in_type, self.out_type = layers[0].in_type, layers[-1].out_type

        def forward(self, x, e):
            for q in self.layers:
                x = q(x, e) if "PointConv" in type(q).__name__ else q(x)
            return x

        def evaluate_output_shape(self, s):
            return s

    net = randomize(Net().double(), rng, .5)
    n = int(rng.randint(4, 9))
    x = rng.randn(n, first.t.size)
    co = rng.randn(n, dim)
    e = torch.tensor(rng.randint(0, n, (2, 3 * n)))
    for tag in ("cloud-train", "cloud-trained", "cloud-eval"):
        if tag == "cloud-trained":
            train(net, lambda: net(enn.GeometricTensor(torch.tensor(rng.randn(*x.shape)), first.t, torch.tensor(co)), e), rng)
        net.train(tag != "cloud-eval")
        for g in action_elements(sp.fibergroup, rng, 2):
            judge_net(m, net, sp, first.t, x, g, tag, coords=co, edges=e, gradients=False)
        # moving all points and relabelling them
        p = rng.permutation(n)
        inv = np.argsort(p)
        a = net(enn.GeometricTensor(torch.tensor(x), first.t, torch.tensor(co)), e).tensor.detach().numpy()
        b = net(enn.GeometricTensor(torch.tensor(x[p]), first.t, torch.tensor(co[p] + 3.)), torch.tensor(inv[e.numpy()])).tensor.detach().numpy()
        s = max(1e-2, np.abs(a).max())
        m.close(b / s, a[p] / s, "translation-and-relabelling", 1e-4, tag=tag)
        m.event("relabelled", tag)


def evalbackward(m, name, dim):
    """Gradients are computed again and again in evaluation mode (saliency maps, adversarial inputs)."""
    rng = np.random.RandomState(0)
    for _ in range(20):
        spec = zoo.make(name, rng, dim)
        mod = spec.build()
        if getattr(mod, "weights", torch.zeros(0)).numel() > 1:
            break
    mod.eval()
    x = spec.sample(rng, 3)
    gs_ = []
    for _ in range(2):
        mod.zero_grad()
        y = spec(mod, x).tensor
        m.event("evaluation-backward", type(mod).__name__)
        try:
            (y ** 2).sum().backward()
        except RuntimeError as e:
            m.violate(f"gradient-in-evaluation-mode:{type(mod).__name__}", error=str(e)[:120])
            return
