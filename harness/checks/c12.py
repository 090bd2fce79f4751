"""C12: G-spaces act on points as documented and restrict consistently with their symmetry group."""
import math
import numpy as np, torch
from core import Case, Skip
from lib import *
from spaces import *
import checks.c10 as c10
RULE = ("a case = one G-space; its action on points is compared with an independent model of the documented isometries for random and edge elements, "
        "then random chains of up to three restrictions by valid subgroup ids are followed, comparing action, fibre group, inclusion and restriction "
        "maps, field types and a kernel basis of each restricted space with the composition of the inclusions")
ASSUMPTIONS = ["NotImplementedError (documented as not implemented for polyhedral subgroups of O(3)/SO(3)) counts as a refusal",
               "the in-plane axis of fullCylindricalOnR3 is not documented and not judged"]
prewarm = c10.prewarm


def cases(tier, rng):
    out = []
    for d in TWO_D + THREE_D:
        out.append(Case("action", d=d))
        for i in range(1 if tier == "quick" else 6):
            out.append(Case("chains", core=(i == 0), d=d, i=i))
    for i in range(14 if tier == "quick" else 60):
        d = random_space(rng, i)
        out.append(Case("action", d=d))
        if i % 3 == 0:
            out.append(Case("chains", d=d, i=0))
    for s in ["C6", "D4", "SO2:3", "O2:3", "O3:2", "SO3:2", "Octa", "Ico", "C3*D3", "FOcta", "CylD4"]:
        out.append(Case("point", spec=s))
    for s in ["C12", "D6", "D8", "D12", "SO2:2", "O2:2", "SO3:2", "O3:2", "C4*D6", "D4*C6", "C2*O2"]:
        for i in range(1 if tier == "quick" else 4):
            out.append(Case("combined", core=(i == 0), spec=s, i=i))
    out.append(Case("identity_of_spaces"))
    return out


def random_space(rng, i):
    """a parametrised factory with an arbitrary number of rotations, axis and orientation"""
    name = ["flipRot2dOnR2", "conicalOnR3", "dihedralOnR3", "rot2dOnR3", "cylindricalOnR3", "rot2dOnR2", "conicalOnR3"][i % 7]
    n = rng.randint(5, 13)
    kw = {"N" if name.endswith("R2") else "n": n}
    if name in ("flipRot2dOnR2", "conicalOnR3", "dihedralOnR3"):
        kw["axis"] = round(rng.uniform(0, math.pi), 3) if rng.random() < .7 else math.pi * rng.randint(1, n) / n
    if name.endswith("R3") and rng.random() < .4:
        kw["adj"] = rng.randint(1, 1 << 20)
    return [name, kw]


def combined(m, spec, i=0):
    """the id a group gives to a subgroup of a subgroup names exactly the elements reached in two steps"""
    g = G(spec)
    rng = m.rng()
    combine = getattr(g, "_combine_subgroups", None)
    if combine is None:
        raise Skip("no combination of subgroup ids")
    for id1 in subgroup_ids(g, rng, 14):
        H, inc, _ = g.subgroup(id1)
        if kind(g) == "prod" and kind(H) != "prod":
            continue                                # collapsed to one factor: its ids are not pairs
        for id2 in subgroup_ids(H, rng, 10):
            try:
                id = combine(id1, id2)
            except NotImplementedError:
                m.event("not-implemented", f"{spec}:{id1}")
                continue
            K, inc2, _ = H.subgroup(id2)
            L, incL, resL = g.subgroup(id)
            m.event("combined", f"{spec}:{id1}:{id2}")
            m.check(L == K, "combined-group", group=spec, id1=id1, id2=id2, id=id, got=L, expected=K)
            for e in (list(K.elements) if K.order() > 0 else elements(K, rng, 3)):
                x = inc(inc2(e))
                r = resL(x)
                m.check(r is not None, "combined-subgroup", group=spec, id1=id1, id2=id2, id=id, element=x)
                m.close(mat(incL(r)), mat(x), "combined-subgroup", 1e-6, group=spec, id1=id1, id2=id2, id=id)


def mirror_line(t):
    return rot2(2 * t) @ np.diag([1., -1.])


def conj(A, M):
    return A.T @ M @ A


def documented(d, g, x):
    """matrix of element x from the documentation of the factory, or None if it is not documented"""
    name, kw = d
    v = x.value
    k = kind(g)
    n = kw.get("N", kw.get("n", -1))
    axis = kw.get("axis", math.pi / 2)
    A = adj_matrix(kw["adj"]) if "adj" in kw else np.eye(3)     # -1 in O(3) is central: only the rotation part conjugates
    rot = (lambda r: PI2 * int(r) / n) if n > 0 else float
    if name == "trivialOnR2":
        return np.eye(2)
    if name == "rot2dOnR2":
        return rot2(rot(v))
    if name in ("flip2dOnR2",) or (name == "flipRot2dOnR2" and n == 1):
        return mirror_line(axis) if v else np.eye(2)
    if name == "flipRot2dOnR2":
        return rot2(rot(v[1])) @ (mirror_line(axis) if v[0] else np.eye(2))
    if name in ("rot3dOnR3", "flipRot3dOnR3", "octaOnR3", "icoOnR3"):
        return model(g, v)
    if name in ("fullOctaOnR3", "fullIcoOnR3"):
        return (-1. if v[0] else 1.) * quat2mat(v[1])
    if name == "invOnR3":
        return (-1. if v else 1.) * np.eye(3)
    if name == "trivialOnR3":
        return np.eye(3)
    Rz = lambda r: axis_rot((0, 0, 1), rot(r))
    line = np.array([math.cos(axis), math.sin(axis), 0.])
    if name == "rot2dOnR3":
        return conj(A, Rz(v))
    if name == "dihedralOnR3":
        F = axis_rot(line, math.pi)
        if n == 1:
            return conj(A, F if v else np.eye(3))
        return conj(A, Rz(v[1]) @ (F if v[0] else np.eye(3)))
    if name in ("conicalOnR3", "mirOnR3"):
        nrm = np.array([-math.sin(axis), math.cos(axis), 0.])
        F = np.eye(3) - 2 * np.outer(nrm, nrm)
        if n == 1 or name == "mirOnR3":
            return conj(A, F if v else np.eye(3))
        return conj(A, Rz(v[1]) @ (F if v[0] else np.eye(3)))
    if name == "cylindricalOnR3":
        if n == 1:
            return (-1. if v else 1.) * np.eye(3)
        return conj(A, (-1. if v[0] else 1.) * Rz(v[1]))
    return None


def action(m, d):
    sp = space(d)
    g = sp.fibergroup
    rng = m.rng()
    act = sp.basespace_action
    dim = 2 if d[0].endswith("R2") else 3
    m.check(sp.dimensionality == dim and act.size == dim and act.group == g, "action-type", space=sname(d))
    n = d[1].get("N", d[1].get("n"))
    order = {"trivialOnR2": 1, "trivialOnR3": 1, "flip2dOnR2": 2, "invOnR3": 2, "mirOnR3": 2, "octaOnR3": 24, "fullOctaOnR3": 48, "icoOnR3": 60, "fullIcoOnR3": 120}.get(d[0])
    if order is None:
        f = {"rot2dOnR2": 1, "flipRot2dOnR2": 2, "rot2dOnR3": 1, "dihedralOnR3": 2, "conicalOnR3": 2, "cylindricalOnR3": 2, "fullCylindricalOnR3": 4}.get(d[0], 1)
        order = f * n if n is not None and n > 0 else -1
    m.check(g.order() == order, "fibre-group-order", space=sname(d), got=g.order(), want=order)
    E = elements(g, rng, 10) + (list(g.elements) if 0 < g.order() <= 60 else [])
    check_rep(m, act, rng, 8, 1e-5, sname(d), elems=E)
    for x in E:
        W = documented(d, g, x)
        M = np.asarray(act(x), float)
        m.event("action", f"{sname(d)}")
        if W is not None:
            m.close(M, W, "documented-isometry", 1e-5, space=sname(d), x=x)
    if d[0] == "fullCylindricalOnR3":
        A = adj_matrix(d[1]["adj"]) if "adj" in d[1] else np.eye(3)
        z = A.T @ np.array([0, 0, 1.])
        for x in E:
            M = np.asarray(act(x), float)
            m.close(np.abs(M @ z @ z), 1., "cylinder-keeps-its-axis", 1e-5, space=sname(d), x=x)
    if g.order() > 0:
        Ms = [np.asarray(act(x), float) for x in g.elements]
        m.check(all(np.abs(Ms[i] - Ms[j]).max() > 1e-3 for i in range(len(Ms)) for j in range(i)), "action-faithful", space=sname(d))


def follow(m, sp, spname, rng, depth, d0):
    """a chain of restrictions from sp; oracle: composition of the inclusions"""
    cur, into = sp, (lambda x: x)
    chain = []
    for step in range(depth):
        ids = subgroup_ids(cur.fibergroup, rng)
        if not ids:
            return
        id = ids[rng.randint(len(ids))]
        k = kind(cur.fibergroup)
        if k in ("SO3", "O3") and rng.rand() < .3:
            A = cur.fibergroup.element(rand_rot(rng), "MAT") if k == "SO3" else cur.fibergroup.element((0, rand_rot(rng)), "MAT")
            id = adj_id(cur.fibergroup, id if not isinstance(id, str) else (id,), A)
        chain.append(str(id)[:60])
        tag = dict(space=spname, chain=" > ".join(chain))
        try:
            sub, inc, res = cur.restrict(id)
        except NotImplementedError:
            m.event("not-implemented", f"{spname}:{id}"[:60])
            return
        H = sub.fibergroup
        H2, inc2, _ = cur.fibergroup.subgroup(id)
        m.event("restriction", f"{spname}>{'>'.join(chain)}"[:100])
        m.check(H == H2, "restricted-fibre-group", got=H, want=H2, **tag)
        if not H == H2:
            return
        m.check(sub.dimensionality == sp.dimensionality, "restricted-dimension", **tag)
        into = (lambda f, h: (lambda x: f(h(x))))(into, inc)
        for x in action_elements(H, rng, 6):
            y = inc(x)
            m.check(y.group == cur.fibergroup, "inclusion-target", **tag)
            m.close(np.asarray(sub.basespace_action(x), float), np.asarray(cur.basespace_action(y), float), "restricted-action", 1e-5, x=x, **tag)
            m.close(np.asarray(sub.basespace_action(x), float), np.asarray(sp.basespace_action(into(x)), float), "chain-action", 1e-5, x=x, **tag)
            z = res(y)
            m.check(z is not None and np.abs(mat(z) - mat(x)).max() < 1e-5, "restriction-inverts-inclusion", x=x, **tag)
            if sub.dimensionality > 0 and hasattr(sub, "_inclusion"):
                w = sub._inclusion(x)
                m.close(mat(w), np.asarray(sub.basespace_action(x), float), "own-inclusion-matches-action", 1e-5, x=x, **tag)
                m.check(sub._restriction(w) is not None, "own-restriction", **tag)
        # field types restrict along
        g = cur.fibergroup
        try:
            reps = [rand_rep(g, rng, 2, 6, ["irrep", "sum", "basis", "regular"], order_cap=8)[0] for _ in range(3)]
            T = cur.type(reps[0], reps[1], reps[0], reps[2])
            R = T.restrict(id)
        except NotImplementedError:
            R = None
        if R is not None:
            m.check(R.gspace == sub and R.size == T.size and len(R) == len(T), "restricted-type", **tag)
            for x in action_elements(H, rng, 3):
                m.close(R.fiber_representation(x), T.fiber_representation(inc(x)), "restricted-type-representation", 1e-5, x=x, **tag)
        if rng.rand() < .35 and H.order() != 120:
            (a, da), (b, db) = [rand_rep(H, rng, 2, 4, ["irrep", "sum", "basis"]) for _ in range(2)]
            try:
                basis = sub.build_kernel_basis(a, b, .5, [0., 1.], maximum_frequency=2)
                c10.judge(m, basis, a, b, lambda x: sp.basespace_action(into(x)), npts(rng, sub.dimensionality), action_elements(H, rng, 4), dict(rin=da, rout=db, **tag))
            except (ek.EmptyBasisException, eg.InsufficientIrrepsException):
                pass
        m.check(hash(sub) == hash(cur.restrict(id)[0]) and sub == cur.restrict(id)[0], "restricted-space-identity", **tag)
        cur = sub


def chains(m, d, i):
    rng = m.rng()
    sp = space(d)
    n = 8 if m.tier == "quick" else 25
    if d[0] in ("fullIcoOnR3",):
        n = 4
    for t in range(n):
        follow(m, sp, sname(d), rng, rng.randint(1, 4), d)


def point(m, spec):
    g = G(spec)
    sp = gs.no_base_space(g)
    rng = m.rng()
    m.check(sp.dimensionality == 0 and sp.fibergroup is g, "point-space", spec=spec)
    for t in range(6):
        ids = subgroup_ids(g, rng)
        id = ids[rng.randint(len(ids))]
        sub, inc, res = sp.restrict(id)
        m.event("restriction", f"{spec}>{id}")
        a = rand_rep(g, rng, 2, 8, ["irrep", "sum", "basis", "regular"])[0]
        T = sp.type(a, a)
        R = T.restrict(id)
        m.check(R.gspace == sub and sub.fibergroup == g.subgroup(id)[0], "restricted-fibre-group", spec=spec, id=id)
        for x in action_elements(sub.fibergroup, rng, 4):
            m.close(R.fiber_representation(x), T.fiber_representation(inc(x)), "restricted-type-representation", 1e-5, spec=spec, id=id)
            m.check(np.abs(mat(res(inc(x))) - mat(x)).max() < 1e-5, "restriction-inverts-inclusion", spec=spec, id=id)


def identity_of_spaces(m):
    """spaces that compare equal act equally and hash equal; the same description gives an equal space"""
    rng = m.rng()
    S = []
    for d in TWO_D + THREE_D:
        S.append((space(d), sname(d)))
    o = space(["flipRot3dOnR3", {}])
    for id in ["so3", "o3", (True, "octa"), (False, "ico"), (False, False, 4), (True, False, 3), ("cone", 4), (False, True, 3)]:
        S.append((o.restrict(id)[0], f"o3>{id}"))
    p = space(["flipRot2dOnR2", {"N": -1}])
    for id in [(None, 4), (0., 4), (None, -1), (0., -1), (0., 1), (None, 1)]:
        S.append((p.restrict(id)[0], f"o2>{id}"))
    q = space(["flipRot2dOnR2", {"N": -1, "axis": 0.}])
    for id in [(None, 4), (math.pi, 4), (0., -1)]:
        S.append((q.restrict(id)[0], f"o2>{id}"))
    for i, (a, na) in enumerate(S):
        b = S[i][0]
        for b, nb in S[:i + 1]:
            e = bool(a == b)
            m.check(e == bool(b == a), "equality-symmetric", a=na, b=nb)
            m.event("equal" if e else "different")
            if e:
                m.check(hash(a) == hash(b), "equal-spaces-hash-equal", a=na, b=nb)
                m.check(a.fibergroup == b.fibergroup, "equal-spaces-same-group", a=na, b=nb)
                for x in elements(a.fibergroup, rng, 5):
                    m.close(np.asarray(a.basespace_action(x), float), np.asarray(b.basespace_action(x), float), "equal-spaces-act-equally", 1e-5, a=na, b=nb)
                r = a.irreps[-1] if a.fibergroup.order() > 0 else a.trivial_repr
                m.check(a.type(r) == b.type(r) and hash(a.type(r)) == hash(b.type(r)), "equal-types-hash-equal", a=na, b=nb)
    for d in TWO_D + THREE_D:
        a, b = space(d), space(d)
        m.check(a == b and hash(a) == hash(b), "same-description-equal", space=sname(d))
