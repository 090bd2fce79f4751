"""C04: subgroup inclusion and restriction maps."""
import math, itertools
import numpy as np
from core import Case
from lib import *

RULE = ("a case = one group and one documented subgroup id (optionally conjugated by a random element); the inclusion is checked to be "
        "an injective homomorphism onto the documented subgroup (own matrix model), the restriction to be its exact inverse, answering "
        "'not a member' exactly for non-members; elements are random, edge and reached through products")
ASSUMPTIONS = ["members are given up to rounding of a few operations; near-members between 1e-9 and 1e-3 are not judged"]
FINITE = ["C1", "C4", "C6", "C12", "D1", "D2", "D3", "D4", "D6", "D12", "Octa", "Ico", "CylD4", "FCylD4", "C3*D2", "C4*C6", "D2*D3",
          "Dbl(C4)", "Dbl(D3)", "FOcta"]
CONT = ["SO2:3", "O2:3", "SO3:2", "O3:2", "Cyl:2", "FCyl:2", "SO3:1*C3", "Dbl(SO2:2)", "C4*SO2:2", "O2:2*C2"]


def prewarm(tier):
    G("Octa"), G("Ico")


def ser(i):
    return i


def cases(tier, rng):
    out = []
    for s in FINITE + CONT:
        g = G(s)
        ids = subgroup_ids(g)
        cap = 18 if tier == "quick" else 80
        if s in ("SO3:2", "O3:2", "SO2:3", "O2:3", "D6", "D12", "C12"):
            cap = 100
        if len(ids) > cap:
            ids = rng.sample(ids, cap)
        for i in ids:
            out.append(Case("maps", spec=s, id=i))
            if kind(g) in ("SO3", "O3", "Octa", "Ico"):
                out.append(Case("maps", core=False, spec=s, id=i, adj=True))
    for s in ("SO3:2", "O3:2", "SO2:3", "O2:3", "D12", "C12"):
        for j in range(3 if tier == "quick" else 12):
            out.append(Case("hostile", spec=s, i=j))
    return out


def doc_generators(k, g, id):
    """Generators (own matrices) and rotation order of the documented subgroup; order -1: all rotations around Z."""
    R = lambda t: axis_rot((0, 0, 1), t)
    if k == "C":
        return [rot2(PI2 / id)]
    if k == "D":
        a, n = id
        N = g.order() // 2
        gens = [rot2(PI2 / n)]
        if a is not None:
            gens.append(rot2(PI2 * a / N) @ np.diag([1., -1.]))
        return gens
    if k == "SO2":
        return [rot2(PI2 / id)] if id > 0 else [rot2(1.), rot2(.3)]
    if k == "O2":
        a, n = id
        gens = [rot2(PI2 / n)] if n > 0 else [rot2(1.)]
        if a is not None:
            gens.append(rot2(a) @ np.diag([1., -1.]))
        return gens
    if k == "SO3":
        if isinstance(id, tuple):
            f, n = id
            gens = [R(PI2 / n)] if n > 0 else [R(1.), R(.3)]
            if f is not False:
                ax = 0. if f is True else f / 2.
                gens.append(axis_rot((math.cos(ax), math.sin(ax), 0), math.pi))
            return gens
    if k == "O3":
        if isinstance(id, tuple) and id[0] == "cone":
            n = id[-1]
            ax = id[1] / 2. if len(id) == 3 else 0.
            gens = [R(PI2 / n)] if n > 0 else [R(1.), R(.3)]
            # mirroring w.r.t. the plane through Z and the axis at angle ax in the XY plane
            v = np.array([-math.sin(ax), math.cos(ax), 0.])
            gens.append(np.eye(3) - 2 * np.outer(v, v))
            return gens
        if isinstance(id, tuple) and len(id) == 3:
            inv, f, n = id
            gens = doc_generators("SO3", g, (f, n))
            if inv:
                gens.append(-np.eye(3))
            return gens
    return None


def near(M, S, tol=1e-6):
    return np.abs(S - M).reshape(len(S), -1).max(1).min() < tol


def maps(m, spec, id, adj=False):
    g = G(spec)
    k = kind(g)
    sid = tup(id)
    base = sid
    rng = m.rng()
    A = None
    if adj:
        A = elements(g, rng, 3, False)[-1]
        sid = adj_id(g, sid, A)
    H, inc, res = g.subgroup(sid)
    EH = elements(H, rng, 6)
    lab = f"{spec}/{base}/{adj}"
    m.event("subgroup", lab)
    if H.order() > 0:
        EH = list(H.elements) if H.order() <= 60 else EH
    IM = []
    m.check(inc(H.identity) == g.identity, "inclusion-identity", sub=lab)
    m.check(res(g.identity) == H.identity, "restriction-identity", sub=lab)
    for h in EH:
        x = inc(h)
        m.check(x.group == g, "inclusion-into-group", sub=lab)
        IM.append(mat(x))
        y = res(x)
        m.check(y is not None and y.group == H and y == h, "restriction-inverts-inclusion", sub=lab, h=h, got=y)
    IM = np.stack(IM)
    for _ in range(25):
        a, b = EH[rng.randint(len(EH))], EH[rng.randint(len(EH))]
        m.check(inc(a @ b) == inc(a) @ inc(b), "inclusion-homomorphism", sub=lab, a=a, b=b)
        m.check(inc(~a) == ~inc(a), "inclusion-inverse", sub=lab, a=a)
        # members reached in the big group
        x = inc(a) @ inc(b) @ inc(~a)
        y = res(x)
        m.check(y is not None and y == a @ b @ ~a, "restriction-of-product", sub=lab, a=a, b=b, got=y)
        if not (a == b):
            m.check(not (inc(a) == inc(b)), "inclusion-injective", sub=lab, a=a, b=b)
    # non-members
    pool = elements(g, rng, 20) if g.order() < 0 or g.order() > 60 else list(g.elements)
    pool = pool + [p @ inc(EH[rng.randint(len(EH))]) for p in pool[:12]]
    nm = 0
    for x in pool:
        y = res(x)
        if y is not None:
            m.check(y.group == H and inc(y) == x, "restriction-sound", sub=lab, x=x, got=y)
            m.close(mat(inc(y)), mat(x), "restriction-sound-model", 1e-5, sub=lab, x=x, got=y)
        elif H.order() > 0 and len(EH) == H.order():
            m.check(not near(mat(x), IM, 1e-9), "restriction-complete", sub=lab, x=x)
        nm += y is None
        if H.order() > 0 and len(EH) == H.order() and not near(mat(x), IM, 1e-3):
            m.check(y is None, "non-member-rejected", sub=lab, x=x, got=y)
    m.event("non-members", n=nm)
    # documented geometry
    gens = doc_generators(k, g, base) if k != "prod" else None
    if gens is not None:
        if A is not None:
            a = mat(A)
            gens = [a.T @ q @ a for q in gens]
        for q in gens:
            v = lift(g, k, q)
            y = res(v)
            m.check(y is not None, "documented-subgroup-element-is-member", sub=lab, q=np.round(q, 4).tolist())
        if H.order() > 0:
            order = closure_order(gens)
            m.check(order == H.order(), "documented-subgroup-order", sub=lab, got=H.order(), expected=order)
    if k in ("SO3", "O3") and (base in ("ico", "octa", "so3", "o3") or base in ((True, "ico"), (False, "ico"), (True, "octa"), (False, "octa"))):
        nm_ = base if isinstance(base, str) else base[1]
        exp = {"ico": 60, "octa": 24, "so3": -1, "o3": -1}[nm_] * (2 if isinstance(base, tuple) and base[0] else 1)
        m.check(H.order() == exp or exp < 0 and H.order() < 0, "documented-subgroup-order", sub=lab)
        if H.order() > 0 and A is not None:
            H0, inc0, _ = g.subgroup(base)
            a = mat(A)
            for h in EH[:10]:
                m.close(mat(inc(h)), a.T @ mat(inc0(h)) @ a, "conjugate-subgroup", 1e-6, sub=lab, h=h)
    if k == "prod" and isinstance(base, tuple):
        H1, i1, r1 = g.G1.subgroup(base[0])
        H2, i2, r2 = g.G2.subgroup(base[1])
        e1, e2 = elements(H1, rng, 3), elements(H2, rng, 3)
        for a in e1[:6]:
            for b in e2[:6]:
                x = g.element((i1(a).value, i2(b).value))
                y = res(x)
                m.check(y is not None and inc(y) == x, "product-subgroup-contains-factors", sub=lab, a=a, b=b)


def lift(g, k, q):
    if k == "C":
        return g.element(int(round(math.atan2(q[1, 0], q[0, 0]) / PI2 * g.order())) % g.order())
    if k in ("D", "O2"):
        f = 0 if np.linalg.det(q) > 0 else 1
        r = q @ np.diag([1., -1. if f else 1.])
        t = math.atan2(r[1, 0], r[0, 0]) % PI2
        return g.element((f, float(t))) if k == "O2" else g.element((f, int(round(t / PI2 * (g.order() // 2))) % (g.order() // 2)))
    if k == "SO2":
        return g.element(float(math.atan2(q[1, 0], q[0, 0])))
    if k == "SO3":
        return g.element(q, "MAT")
    if k == "O3":
        f = 0 if np.linalg.det(q) > 0 else 1
        return g.element((f, q * (-1. if f else 1.)), "MAT")


def closure_order(gens, cap=200):
    S = [np.eye(gens[0].shape[0])]
    front = list(S)
    while front:
        new = []
        for x in front:
            for h in gens:
                y = x @ h
                if not near(y, np.stack(S), 1e-4):
                    S.append(y)
                    new.append(y)
        front = new
        if len(S) > cap:
            return -1
    return len(S)


def hostile(m, spec, i):
    """Members whose parameters sit on the boundary of the parameter range (2 pi - eps, long products, conjugations)."""
    g = G(spec)
    rng = m.rng()
    k = kind(g)
    for sid in subgroup_ids(g, rng, 8):
        H, inc, res = g.subgroup(sid)
        EH = elements(H, rng, 4)
        if H.order() > 0:
            EH = list(H.elements)[:40]
        for _ in range(6):
            # a member reached through a long path through the big group
            x, h = g.identity, H.identity
            for _ in range(12):
                u = EH[rng.randint(len(EH))]
                p = elements(g, rng, 1)[-1]
                x = (x @ p) @ (~p) @ inc(u)
                h = h @ u
            y = res(x)
            m.check(y is not None and y == h, "member-through-long-path", site=f"{k}", sub=f"{spec}/{sid}", got=y, expected=h)
        if k in ("SO2", "O2"):
            n = sid if k == "SO2" else sid[1]
            if n != 0:
                for eps in (1e-15, -1e-15, 1e-13, -1e-13, 1e-12, -1e-12):
                    for j in range(3):
                        t = (PI2 * rng.randint(0, n) / n if n > 0 else rng.rand() * PI2) + eps
                        x = g.element(float(t % PI2)) if k == "SO2" else g.element((0, float(t % PI2)))
                        y = res(x)
                        m.check(y is not None and inc(y) == x, "member-up-to-rounding", site=k, sub=f"{spec}/{sid}", angle=repr(t), got=y)
