"""C13: field types and geometric tensors keep data, layout and symmetry in step."""
from core import Case
RULE = "a monitored observation on a distinct (space, operation / element / shape / type) combination; the identity element alone does not count"
from nnlib import *

SP = [["rot2dOnR2", {"N": 4}], ["rot2dOnR2", {"N": 3}], ["rot2dOnR2", {"N": -1}], ["flipRot2dOnR2", {"N": 4}], ["flipRot2dOnR2", {"N": -1, "axis": 0.0}],
      ["flipRot2dOnR2", {"N": 3, "axis": 0.3}], ["flip2dOnR2", {"axis": 0.0}], ["trivialOnR2", {}],
      ["octaOnR3", {}], ["fullOctaOnR3", {}], ["rot3dOnR3", {}], ["flipRot3dOnR3", {}], ["conicalOnR3", {"n": 4}], ["icoOnR3", {}],
      ["fullCylindricalOnR3", {"n": 2}], ["dihedralOnR3", {"n": 4}], ["invOnR3", {}],
      ["point", {"group": "D4"}], ["point", {"group": "SO3"}], ["point", {"group": "C5"}], ["point", {"group": "O2"}]]


def cases(tier, seed):
    out = []
    k = 4 if tier == "quick" else 30
    for d in SP:
        out.append(Case("layout", d=d))
        out.append(Case("action", d=d))
        for i in range(k):
            out.append(Case("program", d=d, i=i))
            if d[0] != "point":
                out.append(Case("program", d=d, i=i, cloud=True))
        out.append(Case("refusals", d=d))
        if tier != "quick":
            for i in range(6):
                out += [Case("layout", d=d, i=i + 1), Case("action", d=d, i=i + 1)]
    return out


class Model:
    """numpy mirror of a GeometricTensor."""

    def __init__(self, x, reps, coords):
        self.x, self.reps, self.coords = x, list(reps), coords

    def starts(self):
        s = np.cumsum([0] + [r.size for r in self.reps])
        return s


def agree(m, gt, mod, op, sp, **d):
    ok = m.check(list(gt.type.representations) == mod.reps, "type-fields", op=op, **d)
    ok &= m.check(all(a is b or a == b for a, b in zip(gt.type.representations, mod.reps)) and gt.type.gspace == sp, "type-space", op=op, **d)
    ok &= m.check(gt.type.size == sum(r.size for r in mod.reps) == gt.tensor.shape[1], "type-size", op=op, **d)
    ok &= m.check(tuple(gt.shape) == mod.x.shape and tuple(gt.size()) == mod.x.shape, "shape", op=op, got=tuple(gt.shape), want=mod.x.shape, **d)
    ok &= m.close(gt.tensor, mod.x, "values", 2e-5, op=op, **d)
    if mod.coords is None:
        ok &= m.check(gt.coords is None, "coords-absent", op=op, **d)
    else:
        ok &= m.check(gt.coords is not None, "coords-kept", op=op, **d) and m.close(gt.coords, mod.coords, "coords", 2e-5, op=op, **d)
    return ok


def snap(gt):
    return (gt.tensor, gt.tensor.detach().clone(), gt.coords, None if gt.coords is None else gt.coords.clone(), gt.type, tuple(gt.type.representations), gt.tensor.dtype)


def unchanged(m, gt, s, op, **d):
    m.check(gt.tensor is s[0] and gt.coords is s[2] and gt.type is s[4] and tuple(gt.type.representations) == s[5], "operand-identity", op=op, **d)
    m.check(torch.equal(gt.tensor, s[1]), "operand-unchanged", op=op, **d)
    if s[3] is not None:
        m.check(torch.equal(gt.coords, s[3]), "operand-coords-unchanged", op=op, **d)


def layout(m, d, i=0):
    sp = space(d)
    rng = m.rng()
    for _ in range(3):
        pool = [rand_rep(sp.fibergroup, rng, 2, 9, order_cap=24)[0] for _ in range(3)]
        t = rand_type(sp, rng, nf=int(rng.randint(1, 7)), pool=pool, max_size=60)
        reps = list(t.representations)
        n = len(reps)
        s = np.cumsum([0] + [r.size for r in reps])
        m.event("type", f"{d[0]}:{desc(t)}")
        m.check(len(t) == n and list(iter(t)) == reps and t.size == s[-1], "size", t=desc(t))
        m.check([int(v) for v in t.fields_start] == list(map(int, s[:-1])) and [int(v) for v in t.fields_end] == list(map(int, s[1:])), "offsets", t=desc(t))
        m.check(t.irreps == [q for r in reps for q in r.irreps], "irreps", t=desc(t))
        m.check(t.fields_names() == [r.name for r in reps], "names", t=desc(t))
        m.check(t.uniform == all(r == reps[0] for r in reps), "uniform", t=desc(t))
        m.check(t.fibergroup == sp.fibergroup and t.gspace == sp, "space", t=desc(t))
        m.close(t.change_of_basis.todense(), blockdiag([r.change_of_basis for r in reps]), "change-of-basis", 1e-9, t=desc(t))
        m.close(np.asarray(t.change_of_basis_inv.todense()) @ np.asarray(t.change_of_basis.todense()), np.eye(t.size), "change-of-basis-inv", 1e-6, t=desc(t))
        m.close(t.get_dense_change_of_basis(), blockdiag([r.change_of_basis for r in reps]), "dense-change-of-basis", 1e-6, t=desc(t))
        m.close(t.get_dense_change_of_basis_inv(), np.asarray(t.change_of_basis_inv.todense()), "dense-change-of-basis-inv", 1e-6, t=desc(t))
        for g in action_elements(sp.fibergroup, rng, 3):
            M = fiber_mat(reps, g)
            m.close(np.asarray(t.fiber_representation(g), float), M, "fiber-law", 1e-6, t=desc(t), g=g)
            m.close(t.representation(g), M, "fiber-representation", 1e-6, t=desc(t), g=g)
            x = rand_input(rng, t, (2,) + (3,) * sp.dimensionality)
            xt = T(x)
            m.close(t.transform_fibers(xt, g), fiber_act(x, reps, g), "fiber-transform", 1e-5, t=desc(t), g=g)
            m.check(np.array_equal(xt.numpy(), x), "fiber-transform-pure")
        # derived types
        st = t.sorted()
        m.check(list(st.representations) == [r for _, _, r in sorted([(r.size, k, r) for k, r in enumerate(reps)], key=lambda a: a[:2])], "sorted", t=desc(t))
        idx = [int(v) for v in rng.randint(0, n, rng.randint(1, 6))]
        m.check(list(t.index_select(idx).representations) == [reps[v] for v in idx], "index-select", idx=idx)
        m.check(list((t + st).representations) == reps + list(st.representations), "concatenate")
        lab = [str(rng.choice(["a", "b", "c"])) for _ in range(n)]
        gl = t.group_by_labels(lab)
        m.check(set(gl) == set(lab) and all(list(gl[l].representations) == [r for r, q in zip(reps, lab) if q == l] for l in gl), "group-by-labels", lab=lab)
        t2 = enn.FieldType(sp, reps)
        m.check(t2 == t and hash(t2) == hash(t) and not (t2 != t), "equal-types")
        if n > 1:
            perm = reps[1:] + reps[:1]
            m.check((enn.FieldType(sp, perm) == t) == (perm == reps), "order-matters", t=desc(t))
        m.check((enn.FieldType(sp, reps + [reps[-1]]) != t), "length-matters")
        # two representations that share a name stay apart
        a = reps[0]
        if a.size > 1:
            Q = rand_orth(rng, a.size)
            b1, b2 = eg.change_basis(a, Q, "homonym"), eg.change_basis(a, rand_orth(rng, a.size), "homonym")
            th = enn.FieldType(sp, [b1, b2, b1])
            m.check(not th.uniform, "homonyms-differ")
            g = action_elements(sp.fibergroup, rng, 1)[0]
            m.close(np.asarray(th.fiber_representation(g), float), fiber_mat([b1, b2, b1], g), "homonyms-law", 1e-6)
            ids = subgroup_ids(sp.fibergroup)
            if ids and sp.dimensionality != 0:
                sid = ids[rng.randint(len(ids))]
                try:
                    r = th.restrict(sid)
                    sg, inc, _ = sp.fibergroup.subgroup(sid)
                    h = action_elements(sg, rng, 1)[0]
                    m.close(np.asarray(r.fiber_representation(h), float), fiber_mat([b1, b2, b1], inc(h)), "homonyms-restricted", 1e-5, sid=sid)
                except (NotImplementedError, eg.InsufficientIrrepsException):
                    m.event("restriction-refused")


def smooth(rng, C, pts, d):
    """A smooth, compact random signal evaluated at points: sum of Gaussian bumps well inside the grid."""
    c = rng.randn(C, 3, d) * .9
    a = rng.randn(C, 3)
    def f(p):
        dd = ((p[..., None, None, :] - c) ** 2).sum(-1)
        return (a * np.exp(-dd / (2 * 2.0 ** 2))).sum(-1)
    return f


def action(m, d, i=0):
    """Grid and coordinate transformation laws."""
    sp = space(d)
    rng = m.rng()
    dim = sp.dimensionality
    t = rand_type(sp, rng, max_size=12, max_field=6)
    reps = list(t.representations)
    if dim:
        E = grid_elements(sp, rng, 6)
        for shp in ([(5, 5), (4, 4), (1, 1), (6, 6)] if dim == 2 else [(3, 3, 3), (4, 4, 4)]):
            x = rand_input(rng, t, (2,) + shp)
            gt = t(T(x))
            for g in E:
                s = snap(gt)
                y = gt.transform(g)
                unchanged(m, gt, s, "transform")
                m.event("grid-transform", f"{sname(d)}:{shp}:{g}")
                m.close(y.tensor, act(x, reps, sp, g), "grid-action", 1e-5, d=d, g=g, shape=shp)
                h = E[rng.randint(len(E))]
                m.close(y.transform(h).tensor, gt.transform(h @ g).tensor, "grid-action-composes", 2e-5, d=d, g=g, h=h)
                m.check(y.type == t and y.tensor.dtype == gt.tensor.dtype, "transform-type")
            m.close(gt.transform(sp.fibergroup.identity).tensor, x, "identity-acts-trivially", 1e-6)
        # every element: interpolated, against the analytic signal
        n = 15 if dim == 2 else 11
        P = grid_coords((n,) * dim)
        f = smooth(rng, t.size, None, dim)
        x = np.moveaxis(f(P), -1, 0)[None].astype(np.float32)
        gt = t(T(x))
        for g in action_elements(sp.fibergroup, rng, 4):
            A = np.asarray(sp.basespace_action(g), float)
            want = np.einsum("oi,...i->o...", fiber_mat(reps, g), f(P @ A))[None]
            inner = (np.sqrt((P ** 2).sum(-1)) < n / 2. - 2)
            got = gt.transform(g).tensor.numpy()
            err = np.abs(got - want)[0][:, inner].max() / (np.abs(want).max() + 1e-9)
            m.event("interpolated-transform", f"{sname(d)}:{g}")
            m.check(err < .06, "interpolated-action", err=float(err), d=d, g=g)
            m.close(gt.transform_fibers(g).tensor, fiber_act(x, reps, g), "fibers-only", 1e-5, d=d, g=g)
        # coordinates
        N = int(rng.randint(1, 9))
        c = rng.randn(N, dim).astype(np.float32)
        x = rand_input(rng, t, (N,))
        gt = t(T(x), T(c))
        for g in action_elements(sp.fibergroup, rng, 4):
            s = snap(gt)
            y = gt.transform(g)
            unchanged(m, gt, s, "transform-cloud")
            m.close(y.tensor, fiber_act(x, reps, g), "cloud-fibers", 1e-5, d=d, g=g)
            m.close(y.coords, c @ np.asarray(sp.basespace_action(g), float).T, "cloud-coords", 1e-5, d=d, g=g)
            h = action_elements(sp.fibergroup, rng, 1)[0]
            a, b = y.transform(h), gt.transform(h @ g)
            m.close(a.tensor, b.tensor, "cloud-composes", 1e-4, d=d)
            m.close(a.coords, b.coords, "cloud-coords-compose", 1e-4, d=d)
            z = gt.transform_fibers(g)
            m.close(z.coords, c, "fibers-only-coords", 1e-6)
            m.close((g @ gt).tensor, fiber_act(x, reps, g), "matmul-acts", 1e-5)
    else:
        x = rand_input(rng, t, (5,))
        gt = t(T(x))
        for g in action_elements(sp.fibergroup, rng, 6):
            m.close(gt.transform_fibers(g).tensor, fiber_act(x, reps, g), "fibers-only", 1e-5, d=d, g=g)
            h = action_elements(sp.fibergroup, rng, 1)[0]
            m.close((h @ (g @ gt)).tensor, fiber_act(x, reps, h @ g), "matmul-composes", 1e-4, d=d)
            m.event("fiber-transform", f"{sname(d)}:{g}")


def rslice(rng, n, allow_step=True):
    """A random slice of range(n) that selects at least one entry."""
    while True:
        a = None if rng.rand() < .3 else int(rng.randint(-n, n))
        b = None if rng.rand() < .3 else int(rng.randint(-n, n + 1))
        st = None if (not allow_step or rng.rand() < .5) else int(rng.choice([1, 2, 3]))
        s = slice(a, b, st)
        if len(range(n)[s]):
            return s


def program(m, d, i=0, cloud=False):
    sp = space(d)
    rng = m.rng()
    dim = sp.dimensionality
    pool = [rand_rep(sp.fibergroup, rng, 2, 6, ORTH + ["skew"], order_cap=12)[0] for _ in range(3)]
    B = int(rng.randint(1, 5))
    side = int(rng.randint(2, 5))
    shp = () if (cloud or dim == 0) else (side,) * dim
    coords = rng.randn(B, dim).astype(np.float32) if cloud else None

    def fresh(nf=None, B_=None, coords_=None, shp_=None):
        t = rand_type(sp, rng, nf=nf, pool=pool, max_size=30)
        x = rand_input(rng, t, (B_ or B,) + (shp if shp_ is None else shp_), rng.choice(["normal", "sparse", "zero"]))
        c = coords if coords_ is None else coords_
        return t(T(x), None if c is None else T(c)), Model(x, t.representations, c)

    gt, mod = fresh()
    tag = sname(d) + ("/cloud" if cloud else "")
    steps = []
    for step in range(14):
        op = str(rng.choice(["add", "sub", "iadd", "isub", "mul", "rmul", "imul", "index", "index", "index", "index", "split", "sum", "fibers", "matmul", "transform", "to", "restrict", "bool", "long", "ellipsis", "mulT"]))
        s = snap(gt)
        m.event("op", f"{tag}:{op}")
        steps.append(op)
        inplace = False
        n = len(mod.reps)
        st = mod.starts()

        def other():
            x = rng.randn(*mod.x.shape).astype(np.float32)
            t2 = enn.FieldType(sp, mod.reps)
            return t2(T(x), None if mod.coords is None else T(mod.coords)), x

        def chan(fields):
            return np.concatenate([np.arange(st[f], st[f + 1]) for f in fields]).astype(int)

        try:
            if op in ("add", "sub"):
                o, x = other()
                so = snap(o)
                new = gt + o if op == "add" else gt - o
                unchanged(m, o, so, op + "-right")
                nm = Model(mod.x + x if op == "add" else mod.x - x, mod.reps, mod.coords)
            elif op in ("iadd", "isub"):
                gt = enn.GeometricTensor(gt.tensor.clone(), gt.type, gt.coords)
                o, x = other()
                so = snap(o)
                new = gt
                if op == "iadd":
                    new += o
                    nm = Model(mod.x + x, mod.reps, mod.coords)
                else:
                    new -= o
                    nm = Model(mod.x - x, mod.reps, mod.coords)
                unchanged(m, o, so, op + "-right")
                inplace = True
            elif op in ("mul", "rmul", "mulT"):
                k = float(rng.randn())
                f = torch.tensor(k) if op == "mulT" else k
                new = gt * f if op != "rmul" else f * gt
                nm = Model(mod.x * np.float32(k), mod.reps, mod.coords)
            elif op == "imul":
                gt = enn.GeometricTensor(gt.tensor.clone(), gt.type, gt.coords)
                k = float(rng.randn())
                new = gt
                new *= k
                nm = Model(mod.x * np.float32(k), mod.reps, mod.coords)
                inplace = True
            elif op == "index":
                nd = len(mod.x.shape)
                k = int(rng.randint(1, nd + 1))
                idx, x, fields, c = [], mod.x, list(range(n)), mod.coords
                for a in range(k):
                    size = n if a == 1 else mod.x.shape[a]
                    v = int(rng.randint(-size, size)) if rng.rand() < .3 else rslice(rng, size)
                    idx.append(v)
                    sel = list(range(size))[v] if isinstance(v, slice) else [range(size)[v]]
                    if a == 1:
                        fields = sel
                        x = np.take(x, chan(sel), 1)
                    else:
                        x = np.take(x, sel, a)
                    if a == 0 and c is not None:
                        c = c[sel]
                steps[-1] = f"index{idx}"
                new = gt[idx[0]] if k == 1 and rng.rand() < .5 else gt[tuple(idx)]
                nm = Model(x, [mod.reps[f] for f in fields], c)
            elif op == "ellipsis":
                v = rslice(rng, mod.x.shape[-1]) if len(mod.x.shape) > 2 else rslice(rng, n)
                if len(mod.x.shape) > 2:
                    sel = list(range(mod.x.shape[-1]))[v]
                    nm = Model(np.take(mod.x, sel, len(mod.x.shape) - 1), mod.reps, mod.coords)
                    if rng.rand() < .5:
                        new = gt[..., v]
                    else:
                        new = gt[:, ..., v]
                else:
                    sel = list(range(n))[v]
                    nm = Model(np.take(mod.x, chan(sel), 1), [mod.reps[f] for f in sel], mod.coords)
                    new = gt[..., v]
            elif op == "bool":
                a = int(rng.randint(2))
                size = n if a else mod.x.shape[0]
                mask = rng.rand(size) < .6
                if not mask.any():
                    mask[rng.randint(size)] = True
                sel = np.nonzero(mask)[0]
                tm = torch.tensor(mask)
                new = gt[:, tm] if a else gt[tm]
                nm = Model(np.take(mod.x, chan(sel), 1), [mod.reps[f] for f in sel], mod.coords) if a else \
                    Model(mod.x[sel], mod.reps, None if mod.coords is None else mod.coords[sel])
            elif op == "long":
                a = int(rng.randint(2))
                size = n if a else mod.x.shape[0]
                sel = rng.randint(0, size, rng.randint(1, 5))
                tl = torch.tensor(sel, dtype=torch.long)
                new = gt[:, tl] if a else gt[tl]
                nm = Model(np.take(mod.x, chan(sel), 1), [mod.reps[f] for f in sel], mod.coords) if a else \
                    Model(mod.x[sel], mod.reps, None if mod.coords is None else mod.coords[sel])
            elif op == "split":
                br = sorted(set(int(v) for v in rng.randint(1, n, 2))) if n > 1 else []
                form = rng.randint(3)
                arg = None if form == 0 else ([0] + br if form == 1 else list(br))
                if form == 0:
                    br = list(range(1, n))
                keep = None if arg is None else list(arg)
                parts = gt.split(arg)
                m.check(arg == keep, "split-argument-unchanged", arg=keep, after=arg)
                edges = [0] + br + [n]
                m.check(len(parts) == len(edges) - 1, "split-count", got=len(parts), breaks=keep, n=n)
                for a, b, p in zip(edges, edges[1:], parts):
                    agree(m, p, Model(mod.x[:, st[a]:st[b]], mod.reps[a:b], mod.coords), "split", sp, steps=steps[-3:], tag=tag)
                back = enn.tensor_directsum(parts)
                agree(m, back, mod, "split-directsum", sp, tag=tag)
                if rng.rand() < .5:
                    j = rng.randint(len(parts))
                    new, nm = parts[j], Model(mod.x[:, st[edges[j]]:st[edges[j + 1]]], mod.reps[edges[j]:edges[j + 1]], mod.coords)
                else:
                    new, nm = gt, mod
            elif op == "sum":
                ts, xs, rs = [gt], [mod.x], list(mod.reps)
                for _ in range(int(rng.randint(1, 3))):
                    o, om = fresh(nf=int(rng.randint(1, 3)), B_=mod.x.shape[0], coords_=mod.coords, shp_=mod.x.shape[2:])
                    ts.append(o)
                    xs.append(om.x)
                    rs += om.reps
                sn = [snap(q) for q in ts]
                new = enn.tensor_directsum(ts)
                for q, w in zip(ts, sn):
                    unchanged(m, q, w, "directsum")
                nm = Model(np.concatenate(xs, 1), rs, mod.coords)
                if nm.x.shape[1] > 60:
                    new, nm = gt, mod
            elif op in ("fibers", "matmul"):
                g = action_elements(sp.fibergroup, rng, 1)[0]
                new = gt.transform_fibers(g) if op == "fibers" else g @ gt
                nm = Model(fiber_act(mod.x, mod.reps, g), mod.reps, mod.coords)
            elif op == "transform":
                if dim == 0:
                    continue
                if cloud:
                    g = action_elements(sp.fibergroup, rng, 1)[0]
                    new = gt.transform(g)
                    nm = Model(fiber_act(mod.x, mod.reps, g), mod.reps, (mod.coords @ np.asarray(sp.basespace_action(g), float).T).astype(np.float32))
                else:
                    g = grid_elements(sp, rng, 1)[0]
                    new = gt.transform(g)
                    nm = Model(act(mod.x, mod.reps, sp, g), mod.reps, None)
            elif op == "to":
                new = gt.to(torch.float64)
                m.check(new.tensor.dtype == torch.float64, "to-dtype")
                agree(m, new, mod, op, sp)
                new = new.to(dtype=torch.float32)
                nm = mod
            elif op == "restrict":
                ids = subgroup_ids(sp.fibergroup)
                if not ids or dim == 0:
                    continue
                sid = ids[rng.randint(len(ids))]
                try:
                    r = gt.restrict(sid)
                except (NotImplementedError, eg.InsufficientIrrepsException):
                    m.event("restriction-refused")
                    continue
                unchanged(m, gt, s, op)
                sg, inc, _ = sp.fibergroup.subgroup(sid)
                m.close(r.tensor, mod.x, "restricted-values", 1e-6, sid=sid)
                m.check(r.type.fibergroup == sg and len(r.type) == n, "restricted-type", sid=sid)
                h = action_elements(sg, rng, 1)[0]
                m.close(np.asarray(r.type.fiber_representation(h), float), fiber_mat(mod.reps, inc(h)), "restricted-law", 1e-5, sid=sid, h=h, tag=tag)
                continue
        finally:
            pass
        if not inplace:
            unchanged(m, gt, s, op, tag=tag)
        if not agree(m, new, nm, op, sp, steps=steps[-4:], tag=tag):
            return
        gt, mod = new, Model(new.tensor.detach().numpy().copy(), nm.reps, None if nm.coords is None else new.coords.numpy().copy())


def refusals(m, d):
    sp = space(d)
    rng = m.rng()
    dim = sp.dimensionality
    pool = [rand_rep(sp.fibergroup, rng, 2, 6, ORTH + ["skew"], order_cap=12)[0] for _ in range(3)]
    t = rand_type(sp, rng, nf=3, pool=pool)
    shp = (3,) * dim
    x = T(rand_input(rng, t, (2,) + shp))
    gt = t(x)
    bad = (AssertionError, TypeError, ValueError, RuntimeError, IndexError)
    m.raises(bad, lambda: t(torch.randn(2, t.size + 1, *shp)), "wrong-channels")
    m.raises(bad, lambda: t(torch.randn(2, t.size, *shp, 3)), "wrong-dimensions")
    t2 = enn.FieldType(sp, list(t.representations) + [sp.trivial_repr])
    o = t2(torch.randn(2, t2.size, *shp))
    # same size, different law
    same = enn.FieldType(sp, [sp.trivial_repr] * t.size)
    for f, nm in ((lambda a, b: a + b, "add"), (lambda a, b: a - b, "sub"), (lambda a, b: a.__iadd__(b), "iadd"), (lambda a, b: a.__isub__(b), "isub")):
        y = enn.GeometricTensor(x.clone(), t)
        m.raises(bad, lambda: f(y, o), nm + "-other-type")
        m.check(torch.equal(y.tensor, x), "refusal-leaves-operand", op=nm)
        if same != t:
            m.raises(bad, lambda: f(y, same(torch.randn(2, t.size, *shp))), nm + "-same-size-other-law", t=desc(t))
            m.check(torch.equal(y.tensor, x), "refusal-leaves-operand", op=nm)
        m.event("refusal", nm)
    g = sp.fibergroup.sample()
    other = eg.cyclic_group(7)
    m.raises(bad, lambda: t.transform_fibers(x, other.element(1)), "element-of-another-group")
    m.raises(bad, lambda: gt.transform(other.element(1)), "element-of-another-group")
    m.raises(bad, lambda: other.element(1) @ gt, "element-of-another-group")
    m.raises(bad, lambda: enn.FieldType(sp, [other.irrep(1)]), "representation-of-another-group")
    m.raises(bad, lambda: t + enn.FieldType(gs.no_base_space(other), [other.irrep(1)]), "types-of-different-spaces")
    m.raises(bad, lambda: enn.tensor_directsum([gt, gs.no_base_space(other).type(other.irrep(1))(torch.randn(2, 2))]), "directsum-of-different-spaces")
    if dim:
        m.raises(bad, lambda: enn.tensor_directsum([gt, t(torch.randn(2, t.size, *([4] * dim)))]), "directsum-of-different-grids")
        m.raises(bad, lambda: enn.tensor_directsum([gt, t(torch.randn(3, t.size, *shp))]), "directsum-of-different-batches")
        c = torch.randn(4, dim)
        z = t(torch.randn(4, t.size), c)
        w = t(torch.randn(4, t.size), c + 1)
        m.raises(bad, lambda: z + w, "add-other-coords")
        m.raises(bad, lambda: z - w, "sub-other-coords")
        for f, nm in ((lambda a, b: a.__iadd__(b), "iadd"), (lambda a, b: a.__isub__(b), "isub")):
            keep = z.tensor.clone()
            m.raises(bad, lambda: f(z, w), nm + "-other-coords")
            m.check(torch.equal(z.tensor, keep) and torch.equal(z.coords, c), "refusal-leaves-operand", op=nm)
            # the coordinates may differ in a single point, or be the same ones in another order
            e = c.clone()
            e[int(rng.randint(4)), int(rng.randint(dim))] += .5
            near = c.clone()             # close, but further away than rounding could explain
            near[int(rng.randint(4)), int(rng.randint(dim))] += 4e-3
            for cc, how in ((e, "one"), (c.flip(0), "order"), (near, "near"), (-c, "sign")):
                m.raises(bad, lambda: f(z, t(torch.randn(4, t.size), cc)), nm + "-coords-" + how)
                m.check(torch.equal(z.tensor, keep), "refusal-leaves-operand", op=nm)
        for cc in (e, c.flip(0), near, -c):
            for f, nm in ((lambda a, b: a + b, "add"), (lambda a, b: a - b, "sub"), (lambda a, b: enn.tensor_directsum([a, b]), "directsum")):
                m.raises(bad, lambda: f(z, t(torch.randn(4, t.size), cc)), nm + "-coords-differ")
        m.raises(bad, lambda: enn.tensor_directsum([z, w]), "directsum-other-coords")
        m.raises(bad, lambda: t(torch.randn(4, t.size), torch.randn(3, dim)), "coords-count")
        m.raises(bad, lambda: t(torch.randn(4, t.size), torch.randn(4, dim + 1)), "coords-dimension")
        m.raises(bad, lambda: z + t(torch.randn(4, t.size), c[:3]), "coords-count-add")
        v = t(torch.randn(4, t.size), c.clone())
        m.close((z + v).tensor, z.tensor + v.tensor, "equal-coords-accepted", 1e-6)
    m.raises(bad, lambda: gt[:, :, :, :, :, :, :], "too-many-indices")
    m.raises(bad, lambda: gt * gt, "product-of-tensors")
