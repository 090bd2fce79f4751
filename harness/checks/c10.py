"""C10: every sampled kernel basis element satisfies the steerability constraint, including at the origin, and has correct gradients."""
import copy, numpy as np, torch
from core import Case
from lib import *
from spaces import *
RULE = ("a case = one G-space (or one kernel factory with axis/adjoint/filter) and random pairs of representations, radial profiles and band "
        "limits; for each basis every element is judged at random, axis-aligned, near-origin and origin points under random and edge group "
        "elements: k(g.x) = rho_out(g) k(x) rho_in(g)^-1; derivatives by autograd are compared with finite differences")
ASSUMPTIONS = ["the action on points is the space's basespace_action, itself judged against the documented isometries by C12",
               "kernel coefficients are single precision: tolerance 1e-4 relative"]


def prewarm(tier):
    for d in (["icoOnR3", {}], ["fullIcoOnR3", {}], ["fullOctaOnR3", {}]):
        s = space(d)
        s.build_kernel_basis(s.trivial_repr, s.trivial_repr, .5, [1.], maximum_frequency=2)


FACT = (["SO2_act_R2", "O2_act_R2", "CN_act_R2", "DN_act_R2", "Flip_act_R2", "Trivial_act_R2", "O2_subgroup_act_R2", "SO2_subgroup_act_R2"] +
        ["SO3_act_R3", "O3_act_R3", "Ico_act_R3", "Octa_act_R3", "SO2_act_R3", "CN_act_R3", "O2_conical_act_R3", "DN_conical_act_R3",
         "O2_dihedral_act_R3", "DN_dihedral_act_R3", "full_cylinder_act_R3", "full_cylinder_discrete_act_R3", "cylinder_act_R3",
         "cylinder_discrete_act_R3", "Inv_act_R3", "Trivial_act_R3"] + ["dodecahedron", "icosahedron", "icosidodecahedron"])


def cases(tier, rng):
    out = []
    for d in TWO_D + THREE_D:
        k = 1 if tier == "quick" else 6
        for i in range(k):
            out.append(Case("spaces", core=(i == 0), d=d, i=i))
    for f in FACT:
        for i in range(1 if tier == "quick" else 4):
            out.append(Case("factory", f=f, i=i))
    for s in ["C4", "D3", "SO2:3", "O2:3", "SO3:2", "O3:2", "Octa", "FOcta", "Ico", "C3*D3", "Dbl(C4)", "CylD4", "Cyl:2", "C5*C5"]:
        out.append(Case("point", spec=s, i=0))
    for d in [["rot2dOnR2", {"N": 4}], ["flipRot2dOnR2", {"N": -1}], ["rot3dOnR3", {}], ["octaOnR3", {}], ["conicalOnR3", {"n": 3, "axis": 0.5}], ["dodecahedron", {}]]:
        out.append(Case("gradient", d=d))
    for d in rng.sample(TWO_D, 4) + rng.sample(THREE_D, 5):
        out.append(Case("filtered", core=False, d=d))
    return out


def judge(m, basis, rin, rout, act, pts, E, tag):
    """act(g) -> matrix of the action on points."""
    P = torch.tensor(pts, dtype=torch.float32)
    K = basis.sample(P).double().numpy()
    m.check(K.shape == (len(pts), basis.dim, rout.size, rin.size), "sample-shape", got=K.shape, **tag)
    m.check(np.isfinite(K).all(), "finite", **tag)
    out = torch.full((len(pts), basis.dim, rout.size, rin.size), 7.)
    r = basis.sample(P, out=out)
    m.close(out.numpy(), K, "sample-into-out", 1e-6, **tag)
    m.close(r.detach().numpy(), K, "sample-returns-out", 1e-6, **tag)
    scale = 1 + np.abs(K).max()
    for g in E:
        A = np.asarray(act(g), float)
        Kg = basis.sample(torch.tensor(pts @ A.T, dtype=torch.float32)).double().numpy()
        rhs = np.einsum("oi,sbij,jk->sbok", np.asarray(rout(g), float), K, np.asarray(rin(~g), float))
        m.event("constraint", n=K.shape[0] * K.shape[1])
        err = np.abs(Kg - rhs).max((0, 2, 3))
        if not m.check(err.max() <= 2e-4 * scale, "steerability", err=float(err.max()), element=int(err.argmax()), g=g, **tag):
            return False
        m.maxerr["steerability"] = max(m.maxerr.get("steerability", 0), float(err.max() / scale))
    return True


def radial(rng):
    n = rng.randint(1, 4)
    rings = sorted(float(x) for x in np.round(rng.rand(n) * 2.5, 2))
    if rng.rand() < .5:
        rings[0] = 0.
    if rng.rand() < .5:
        return rings, float(rng.rand() * .6 + .3)
    return rings, [float(x) for x in rng.rand(n) * .6 + .3]


def spaces(m, d, i):
    sp = space(d)
    g = sp.fibergroup
    rng = m.rng()
    n = 4 if m.tier == "quick" else 10
    if d[0] in ("fullIcoOnR3", "icoOnR3", "fullOctaOnR3"):
        n = 2 if m.tier == "quick" else 5
    for t in range(n):
        (a, da), (b, db) = reps_for(sp, rng, 7 if sp.dimensionality == 3 else 9, skew=True)
        rings, sigma = radial(rng)
        mf = int(rng.randint(0, 4)) if sp.dimensionality == 3 else int(rng.randint(0, 6))
        kw = {"maximum_frequency": mf}
        if t == 0 and d[1].get("N") == -1:
            kw = {}
        tag = dict(space=sname(d), rin=da, rout=db, rings=rings, L=mf)
        try:
            basis = sp.build_kernel_basis(a, b, sigma, rings, **kw)
        except (ek.EmptyBasisException, eg.InsufficientIrrepsException) as e:
            m.event(type(e).__name__)
            continue
        m.event("basis", f"{sname(d)}:{da[:20]}->{db[:20]}:{mf}")
        judge(m, basis, a, b, sp.basespace_action, npts(rng, sp.dimensionality), action_elements(g, rng), tag)


def make(f, rng, filt=None, special=False):
    """(group, action, builder(rin, rout, rings, sigma, L))"""
    o2, so2, o3, so3 = eg.o2_group(6), eg.so2_group(6), eg.o3_group(4), eg.so3_group(4)
    adj = None
    fn = getattr(ek, "kernels_" + f, None)
    if fn is None:
        import escnn.kernels.r3 as r3
        fn = getattr(r3, "kernels_" + f, None)
    dim = 2 if f.endswith("R2") else 3
    if (special or rng.rand() < .6) and f not in ("SO2_act_R2", "CN_act_R2", "Trivial_act_R2", "Inv_act_R3", "Trivial_act_R3"):
        adj = rand_rot(rng) if dim == 3 else rot2(rng.rand() * 6)
        if rng.rand() < .4:
            adj = np.diag([-1.] + [1.] * (dim - 1)) @ adj
        c = rng.rand() if special else 1.
        if c < .5:                                   # signs and permutations of the axes
            adj = np.diag(np.roll([-1.] + [1.] * (dim - 1), rng.randint(dim))) * rng.choice([-1., 1.])
        elif c < .75:
            adj = np.eye(dim)[rng.permutation(dim)]
        elif c < 1.:                                 # almost, but not quite, the identity
            adj = slight_rotation(rng, dim)
    kw = {} if adj is None else {"adjoint": adj}
    conj = (lambda A: A) if adj is None else (lambda A: adj.T @ A @ adj)
    if filt is not None:
        kw["filter"] = filt
    N = int(rng.randint(1, 7))
    axis = float(rng.rand() * 3)
    if dim == 2:
        std = lambda grp: grp.irrep(1, 1)
        if f == "SO2_act_R2":
            g, act = so2, lambda x: model(so2, x.value)
        elif f == "O2_act_R2":
            g, act, kw["axis"] = o2, (lambda x: rot2(axis) @ model(o2, x.value) @ rot2(-axis)), axis
        elif f == "CN_act_R2":
            g = eg.cyclic_group(N)
            act = lambda x: model(g, x.value)
        elif f == "Trivial_act_R2":
            g = eg.cyclic_group(1)
            act = lambda x: np.eye(2)
        elif f == "DN_act_R2":
            g = eg.dihedral_group(max(2, N))
            act, kw["axis"] = (lambda x: rot2(axis) @ model(g, x.value) @ rot2(-axis)), axis
        elif f == "Flip_act_R2":
            g = eg.cyclic_group(2)
            act, kw["axis"] = (lambda x: rot2(axis) @ np.diag([1., -1. if x.value else 1.]) @ rot2(-axis)), axis
        elif f == "SO2_subgroup_act_R2":
            g = eg.cyclic_group(N)
            kw["sg_id"] = N
            act = lambda x: model(g, x.value)
        elif f == "O2_subgroup_act_R2":
            sg = (0.4, N) if rng.rand() < .5 else (None, N)
            g, inc, _ = o2.subgroup(sg)
            kw["sg_id"], kw["axis"] = sg, axis
            act = lambda x: rot2(axis) @ model(o2, inc(x).value) @ rot2(-axis)
    else:
        ids = {"O3_act_R3": None, "SO3_act_R3": (so3, "so3"), "Ico_act_R3": (so3, "ico"), "Octa_act_R3": (so3, "octa"), "SO2_act_R3": (so3, (False, -1)),
               "CN_act_R3": (so3, (False, N)), "O2_conical_act_R3": (o3, ("cone", -1)), "DN_conical_act_R3": (o3, ("cone", max(2, N))),
               "O2_dihedral_act_R3": (so3, (True, -1)), "DN_dihedral_act_R3": (so3, (True, max(2, N))),
               "full_cylinder_act_R3": (o3, (True, True, -1)), "full_cylinder_discrete_act_R3": (o3, (True, True, max(2, min(N, 4)))),
               "cylinder_act_R3": (o3, (True, False, -1)), "cylinder_discrete_act_R3": (o3, (True, False, max(2, N))),
               "Inv_act_R3": (o3, (True, False, 1)), "Trivial_act_R3": (so3, (False, 1))}
        if f in ("dodecahedron", "icosahedron", "icosidodecahedron"):
            g = eg.ico_group()
            fn = getattr(ek, "kernels_aliased_Ico_act_R3_" + f)
            kw.pop("filter", None)
            act = lambda x: model(g, x.value)
        elif ids[f] is None:
            g, act = o3, lambda x: model(o3, x.value)
        else:
            big, sg = ids[f]
            g, inc, _ = big.subgroup(sg)
            act = lambda x: model(big, inc(x).value)

    def build(rin, rout, rings, sigma, L):
        k = dict(kw)
        if f not in ("dodecahedron", "icosahedron", "icosidodecahedron"):
            k["maximum_frequency"] = L
        sg = (k.pop("sg_id"),) if "sg_id" in k else ()
        return fn(rin, rout, *sg, radii=rings, sigma=sigma, **k)
    return g, (lambda x: conj(act(x))), build, dim


def factory(m, f, i):
    rng = m.rng()
    for t in range(4 if m.tier == "quick" else 10):
        g, act, build, dim = make(f, rng, special=t % 2 == 1)
        if g.name == "FullIcosahedral":
            continue
        (a, da), (b, db) = [rand_rep(g, rng, 2, 6, ["irrep", "irrep", "sum", "basis", "skew"]) for _ in range(2)]
        rings, sigma = radial(rng)
        try:
            basis = build(a, b, rings, sigma, int(rng.randint(0, 4)))
        except (ek.EmptyBasisException, eg.InsufficientIrrepsException) as e:
            m.event(type(e).__name__)
            continue
        m.event("factory-basis", f"{f}:{g.name}:{da[:20]}->{db[:20]}")
        judge(m, basis, a, b, act, npts(rng, dim), action_elements(g, rng), dict(factory=f, group=g.name, rin=da, rout=db, rings=rings))


def filtered(m, d):
    sp = space(d)
    rng = m.rng()
    dim = sp.dimensionality
    g = sp.fibergroup
    filt = [lambda a: a["irrep:frequency"] <= a["radius"] * 1.5, lambda a: a["irrep:frequency"] % 2 == 0, lambda a: a["radius"] > .3, lambda a: a["irrep:frequency"] != 1]
    for t in range(4):
        (a, da), (b, db) = reps_for(sp, rng, 6, skew=True)
        fl = filt[t]
        rings = [0., .8, 1.6]
        try:
            if dim == 2:
                if sp._sg_id[0] is None:
                    basis = (ek.kernels_SO2_act_R2(a, b, rings, .5, maximum_frequency=4, filter=fl) if sp._sg_id[1] == -1 else
                             ek.kernels_SO2_subgroup_act_R2(a, b, sp._sg_id[1], rings, .5, maximum_frequency=4, filter=fl))
                elif sp._sg_id[1] == -1:
                    basis = ek.kernels_O2_act_R2(a, b, rings, .5, maximum_frequency=4, axis=sp._sg_id[0] / 2, filter=fl)
                else:
                    basis = ek.kernels_O2_subgroup_act_R2(a, b, sp._sg_id, rings, .5, maximum_frequency=4, axis=0., filter=fl)
            else:
                if sp._sg_id == (True, "so3"):
                    basis = ek.kernels_O3_act_R3(a, b, rings, .5, maximum_frequency=3, filter=fl)
                else:
                    basis = ek.kernels_O3_subgroup_act_R3(a, b, sp._sg_id, rings, .5, maximum_frequency=3, filter=fl)
        except (ek.EmptyBasisException, eg.InsufficientIrrepsException) as e:
            m.event(type(e).__name__)
            continue
        m.event("filtered-basis", f"{sname(d)}:{t}")
        judge(m, basis, a, b, sp.basespace_action, npts(rng, dim), action_elements(g, rng), dict(space=sname(d), rin=da, rout=db, filter=t))


def point(m, spec, i):
    g = G(spec)
    rng = m.rng()
    for t in range(4 if m.tier == "quick" else 12):
        (a, da), (b, db) = [rand_rep(g, rng, 2, 9, ["irrep", "sum", "basis", "regular", "skew"]) for _ in range(2)]
        try:
            basis = ek.kernels_on_point(a, b)
        except (ek.EmptyBasisException, eg.InsufficientIrrepsException) as e:
            m.event(type(e).__name__)
            continue
        m.event("point-basis", f"{spec}:{da[:20]}->{db[:20]}")
        judge(m, basis, a, b, lambda x: np.eye(1), np.zeros((1, 1)), action_elements(g, rng, 6), dict(group=spec, rin=da, rout=db))


def gradient(m, d):
    rng = m.rng()
    for t in range(3):
        if d[0] == "dodecahedron":
            g, act, build, dim = make("dodecahedron", rng)
            a, b = g.irrep(1), g.irrep(0)
            basis = build(a, b, [.7, 1.4], .5, 3)
        else:
            sp = space(d)
            (a, _), (b, _) = reps_for(sp, rng, 5, kinds=["irrep", "sum", "basis", "skew"])
            dim = sp.dimensionality
            try:
                basis = sp.build_kernel_basis(a, b, .6, [0., 1.], maximum_frequency=3)
            except ek.EmptyBasisException:
                continue
        basis = copy.deepcopy(basis).double()      # irrep bases are shared through the library's cache
        P = rng.randn(5, dim)
        P += .3 * np.sign(P)
        W = torch.tensor(rng.randn(5, basis.dim, b.size, a.size))
        X = torch.tensor(P, requires_grad=True)
        (basis.sample(X) * W).sum().backward()
        V = rng.randn(5, dim)
        h = 1e-5
        num = ((basis.sample(torch.tensor(P + h * V)) - basis.sample(torch.tensor(P - h * V))) * W).sum().item() / (2 * h)
        m.event("gradient", f"{sname(d)}:{t}")
        m.close(float((X.grad.numpy() * V).sum()), num, "points-gradient", 1e-3, space=sname(d), t=t)
