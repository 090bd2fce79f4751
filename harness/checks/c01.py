"""C01: group law, inverses, identity, equality/hash, parametrisations, enumerations, grids."""
import math, itertools
import numpy as np
from core import Case
from lib import *

RULE = ("a case = one group (finite, continuous, product or double group) and one workload (laws on random+edge elements, "
        "all parametrisations round trip, full multiplication table, grids, cross-group misuse); non-trivial if at least "
        "one oracle was evaluated against the harness' own matrix model of the elements")
ASSUMPTIONS = ["equality of elements is judged away from the library's own closeness threshold (matrices closer than "
               "1e-9 must be equal, further than 1e-2 must differ)"]

FINITE = ["C1", "C2", "C3", "C4", "C5", "C6", "C7", "C8", "C12", "C16", "D1", "D2", "D3", "D4", "D5", "D6", "D8", "D12",
          "Octa", "FOcta", "T", "CylD1", "CylD4", "CylD5", "FCylD1", "FCylD3", "FCylD4", "C3*D2", "C2*C2", "C4*C3", "D2*D3",
          "Dbl(C3)", "Dbl(D3)", "C1*D2", "Ico"]
CONT = ["SO2", "O2", "SO3:3", "O3:2", "Cyl:2", "FCyl:2", "SO3:2*C3", "C4*SO2:2", "O2:2*C2", "Dbl(SO2:2)"]


def cases(tier, rng):
    out = []
    for s in FINITE + CONT + (["FIco", "C36", "D15", "Dbl(Octa)"] if tier == "thorough" else []):
        out.append(Case("laws", spec=s))
        out.append(Case("params", spec=s))
    for s in FINITE:
        if s not in ("Ico",):
            out.append(Case("table", spec=s))
    out.append(Case("table", spec="Ico"))
    for s in CONT + ["C12", "D6", "C8", "Octa", "Ico", "FOcta", "FCylD4"]:
        out.append(Case("grids", spec=s))
    out.append(Case("identity_of_groups"))
    n = 30 if tier == "quick" else 400
    for i in range(n):
        s = rng.choice(FINITE + CONT + ["C%d" % rng.randint(1, 40), "D%d" % rng.randint(1, 20),
                                        "C%d*C%d" % (rng.randint(1, 6), rng.randint(1, 6)),
                                        "D%d*C%d" % (rng.randint(1, 5), rng.randint(1, 4)),
                                        "CylD%d" % rng.randint(1, 9), "FCylD%d" % rng.randint(1, 9)])
        out.append(Case(rng.choice(["laws", "laws", "params"]), core=False, spec=s, i=i))
    return out


def prewarm(tier):
    G("Octa"), G("Ico")


EXPECT = {"Octa": 24, "Ico": 60}


def expected_order(g):
    k = kind(g)
    if k == "prod":
        a, b = expected_order(g.G1), expected_order(g.G2)
        return a * b if a > 0 and b > 0 else -1
    if k in EXPECT:
        return EXPECT[k]
    if k in ("SO2", "O2", "SO3", "O3"):
        return -1
    return (2 if k == "D" else 1) * int(g.name[1:])     # C<n>, D<n>


def laws(m, spec, i=0):
    g = G(spec)
    rng = m.rng()
    E = elements(g, rng, 6)
    I = g.identity
    m.event("group", spec)
    d = mat(I).shape[0]
    m.close(mat(I), np.eye(d), "identity-is-identity", 1e-9, group=spec)
    for a in E:
        A = mat(a)
        m.event("element", f"{spec}:{np.round(A, 3).tolist()}")
        m.check(a @ I == a and I @ a == a, "identity-law", group=spec, a=a)
        m.close(mat(~a), A.T, "inverse-model", 1e-8, group=spec, a=a)
        m.check(a @ ~a == I and ~a @ a == I, "inverse-law", group=spec, a=a)
        m.check(~~a == a, "double-inverse", group=spec, a=a)
        m.check(a == a and not (a != a), "equality-reflexive", group=spec, a=a)
        m.check((a @ ~a).group == g, "element-group", group=spec)
        for e in (a @ ~a, ~a @ a, ~I, I @ I):
            m.check(hash(e) == hash(I) and e in {I}, "identity-hash", group=spec, a=a, e=e)
    for _ in range(40 if m.tier == "quick" else 150):
        a, b, c = [E[j] for j in rng.randint(0, len(E), 3)]
        ab = a @ b
        m.close(mat(ab), mat(a) @ mat(b), "product-model", 1e-8, group=spec, a=a, b=b)
        m.check((ab @ c) == (a @ (b @ c)), "associative", group=spec, a=a, b=b, c=c)
        m.check(~ab == (~b) @ (~a), "inverse-of-product", group=spec, a=a, b=b)
        dist = np.abs(mat(a) - mat(b)).max()
        if dist < 1e-9:
            m.check(a == b and b == a, "equal-elements-compare-equal", group=spec, a=a, b=b)
        elif dist > 1e-2:
            m.check(not (a == b) and not (b == a), "different-elements-compare-different", group=spec, a=a, b=b)
        if g.abelian:
            m.check(ab == b @ a, "abelian", group=spec, a=a, b=b)
        if dist < 1e-9:
            m.check(hash(a) == hash(b), "equal-elements-hash-equal", group=spec, a=a, b=b)
        # the same element reached along two paths: equal and with one hash
        p, q = (a @ b) @ ~b, a
        m.check(p == q and q == p, "path-equality", group=spec, a=a, b=b)
        m.check(hash(p) == hash(q), "hash-consistent", group=spec, a=a, b=b)
        m.check(len({p, q}) == 1, "set-semantics", group=spec, a=a, b=b)
    # closed walks return to where they started, as elements and as members of sets: around the cut of every angle
    if kind(g) in ("SO2", "O2"):
        mk = (lambda t: g.element(float(t))) if kind(g) == "SO2" else (lambda t: g.element((0, float(t))))
        for n in list(range(2, 14)) + [int(v) for v in rng.randint(14, 400, 6)]:
            r = mk(2 * np.pi / n)
            x = I
            for j in range(n):
                x = x @ r
            for a in E[:3]:
                y = x @ a
                m.check(y == a, "closed-walk", group=spec, n=n, a=a)
                m.check(hash(y) == hash(a) and y in {a}, "closed-walk-hash", group=spec, n=n, a=a)
            y = mk(2 * np.pi - 1e-12 / n) @ (I if n % 2 else E[n % len(E)])
            z = I if n % 2 else E[n % len(E)]
            m.check(y == z and hash(y) == hash(z), "closed-walk-hash", group=spec, n=n, a=z)
    # long products: drift stays inside the group, values stay canonical
    x, X = I, np.eye(d)
    for _ in range(60):
        a = E[rng.randint(len(E))]
        x, X = x @ a, X @ mat(a)
    m.close(mat(x), X, "long-product", 1e-6, group=spec)
    m.check(g.element(x.value) == x, "value-roundtrip", group=spec, x=x)
    m.check(g.element(x.to(x.param), x.param) == x, "value-roundtrip", group=spec, x=x)
    for _ in range(10):
        s = g.sample()
        m.check(s.group == g, "sample-in-group", group=spec)
        m.close(mat(s) @ mat(s).T, np.eye(d), "sample-in-group", 1e-7, group=spec)
    if not g.abelian:
        if g.order() > 0:
            m.check(any(not (a @ b == b @ a) for a in list(g.elements)[:24] for b in list(g.elements)[:24]),
                    "non-abelian-flag", group=spec)


def params(m, spec, i=0):
    g = G(spec)
    rng = m.rng()
    E = elements(g, rng, 4)
    P = list(g.PARAMETRIZATIONS)
    if len(P) > 30:
        P = [P[j] for j in sorted(rng.choice(len(P), 30, replace=False))]
    k = kind(g)
    for a in E:
        A = mat(a)
        for p in P:
            v = a.to(p)
            b = g.element(v, p)
            m.event("param", f"{spec}:{p}")
            m.check(b == a, "param-roundtrip", group=spec, param=p, a=a, got=b, site=f"{k}/{p}")
            m.close(mat(b), A, "param-roundtrip-model", 1e-6, group=spec, param=p, a=a, site=f"{k}/{p}")
            m.check(hash(b) == hash(a), "param-hash", group=spec, param=p, a=a, site=f"{k}/{p}")
            if p == "MAT":
                mm = (v[1] * (-1. if v[0] else 1.) if k == "O3" else
                      v[1] @ np.diag([1., -1. if v[0] else 1.]) if k in ("D", "O2") else v)
                m.close(mm, A, "matrix-param-is-the-matrix", 1e-6, group=spec, a=a, site=k)
            if p == "radians" and k == "C":
                m.close(rot2(v), A, "radians-param", 1e-6, group=spec, a=a)
        # mixing parametrisations in one operation
        b = E[rng.randint(len(E))]
        p1, p2 = P[rng.randint(len(P))], P[rng.randint(len(P))]
        ab = g.element(a.to(p1), p1) @ g.element(b.to(p2), p2)
        m.check(ab == a @ b, "param-mixed-product", group=spec, p1=p1, p2=p2, a=a, b=b, site=k)


def table(m, spec):
    g = G(spec)
    E = list(g.elements)
    n = g.order()
    m.check(n == len(E), "order", group=spec)
    eo = expected_order(g)
    m.check(n == eo, "order-expected", group=spec, got=n, expected=eo)
    M = np.stack([mat(e) for e in E])
    d = np.abs(M[:, None] - M[None]).reshape(n, n, -1).max(-1)
    d[np.arange(n), np.arange(n)] = 1
    m.check(d.min() > 1e-3, "elements-distinct", group=spec)
    m.check(len(set(E)) == n, "elements-distinct-as-set", group=spec)
    m.check(g.identity in E, "identity-listed", group=spec)
    rng = m.rng()
    pairs = list(itertools.product(range(n), range(n)))
    if len(pairs) > 900:
        pairs = [pairs[j] for j in rng.choice(len(pairs), 900, replace=False)]
    for i, j in pairs:
        c = E[i] @ E[j]
        m.close(mat(c), M[i] @ M[j], "table-model", 1e-7, group=spec, a=E[i], b=E[j])
        m.check(c in E, "closed", group=spec, a=E[i], b=E[j])
    for e in E:
        m.check(~e in E, "closed-inverse", group=spec, a=e)
    # generators generate
    gens = list(g.generators)
    m.event("table", spec)
    seen = [np.eye(M.shape[1])]
    front = list(seen)
    while front and len(seen) <= n:
        new = []
        for x in front:
            for h in gens:
                y = x @ mat(h)
                if min(np.abs(y - z).max() for z in seen) > 1e-4:
                    seen.append(y)
                    new.append(y)
        front = new
    m.check(len(seen) == n, "generators-generate", group=spec, got=len(seen), order=n)
    for t in g.testing_elements():
        m.check(t.group == g and t in E, "testing-elements", group=spec)
    comm = np.abs(np.einsum("aij,bjk->abik", M, M) - np.einsum("bij,ajk->abik", M, M)).max() < 1e-6
    m.check(bool(g.abelian) == bool(comm), "abelian-flag", group=spec, site=kind(g))
    m.check(not g.continuous, "continuous-flag", group=spec)


def closed_under(M, tol=1e-5):
    for a in M:
        for b in M:
            if np.abs(M - a @ b).reshape(len(M), -1).max(1).min() > tol:
                return False
    return True


def distinct(M, tol=1e-4):
    return all(np.abs(M[i + 1:] - M[i]).reshape(len(M) - i - 1, -1).max(1).min() > tol for i in range(len(M) - 1))


def grids(m, spec):
    g = G(spec)
    k = kind(g)
    rng = m.rng()

    def ok(grid, n, tag, closed=False, dist=False):
        m.event("grid", f"{spec}:{tag}")
        m.check(len(grid) == n, "grid-size", group=spec, tag=tag, got=len(grid), expected=n)
        for e in grid:
            m.check(e.group == g, "grid-in-group", group=spec, tag=tag)
        M = np.stack([mat(e) for e in grid])
        d = M.shape[1]
        m.close(np.einsum("aij,akj->aik", M, M), np.broadcast_to(np.eye(d), M.shape), "grid-orthogonal", 1e-6,
                group=spec, tag=tag)
        if dist:
            m.check(distinct(M), "grid-distinct", group=spec, tag=tag)
        if closed:
            m.check(closed_under(M), "grid-is-a-subgroup", group=spec, tag=tag)
        return M

    if k in ("SO2", "O2"):
        for n in (1, 2, 3, 5, 8):
            mult = 2 if k == "O2" else 1
            ok(g.grid(n, type="regular"), n * mult, f"regular{n}", True, True)
            s = int(rng.randint(10 ** 6))
            a, b = g.grid(n, type="rand", seed=s), g.grid(n, type="rand", seed=s)
            A, B = ok(a, n, f"rand{n}"), ok(b, n, f"rand{n}")
            m.close(A, B, "seeded-grid-reproducible", 1e-12, group=spec)
    elif k in ("C", "D"):
        N = g.order() if k == "C" else g.order() // 2
        for n in divisors(N):
            gr = g.grid("regular", n)
            ok(gr, n if k == "C" else len(gr), f"regular{n}", True, True)
        gr = g.grid("rand", 7)
        ok(gr, 7, "rand")
    elif k in ("SO3", "O3"):
        f = 2 if k == "O3" else 1
        for t, n in (("cube", 24), ("tetra", 12), ("ico", 60)):
            ok(g.grid(t), n * f, t, t != "ico" or m.tier == "thorough", True)
        for t in ("hopf", "fibonacci"):
            for n in (20, 50):
                gr = g.grid(t, N=n)
                m.check(0.3 * n * f <= len(gr) <= 3 * n * f, "grid-size-approx", group=spec, tag=t, got=len(gr), n=n)
                ok(gr, len(gr), t, False, True)
        if m.tier == "thorough":
            gr = g.grid("thomson", N=5)
            ok(gr, 5 * f, "thomson", False, True)
        s = int(rng.randint(10 ** 6))
        a, b = g.grid("rand", N=6, seed=s), g.grid("rand", N=6, seed=s)
        m.close(ok(a, 6, "rand"), ok(b, 6, "rand"), "seeded-grid-reproducible", 1e-12, group=spec)
        for t in ("cube", "ico", "tetra"):
            pts = np.stack([mat(e)[:, 2] for e in g.sphere_grid(t)])
            m.close(np.linalg.norm(pts, axis=1), np.ones(len(pts)), "sphere-grid", 1e-6, group=spec, tag=t)
            n = {"cube": 6, "ico": 30, "tetra": len(pts)}[t]
            m.check(len(pts) == n and distinct(pts[:, :, None]), "sphere-grid-size", group=spec, tag=t, got=len(pts))
    else:
        if k == "prod" and g.order() < 0:
            gr = g.grid("rand", N=5)
            ok(gr, 5, "rand")


def identity_of_groups(m):
    specs = ["C1", "C2", "C4", "C5", "D1", "D2", "D4", "SO2", "O2", "SO3:2", "O3:2", "Octa", "C2*C2", "C4*C2", "CylD4"]
    gs_ = [G(s) for s in specs]
    for s, a in zip(specs, gs_):
        m.check(G(s) is a or G(s) == a, "group-equality-reflexive", group=s)
    for i, a in enumerate(gs_):
        for j, b in enumerate(gs_):
            if i == j:
                continue
            if {specs[i], specs[j]} in ({"C1", "T"}, {"C4*C2", "CylD4"}):
                continue
            m.check(not (a == b), "different-groups-differ", a=specs[i], b=specs[j])
            m.check(not (a.identity == b.identity), "elements-of-different-groups-differ", a=specs[i], b=specs[j])
            m.raises((NotImplementedError, TypeError, AssertionError, ValueError), lambda: a.identity @ b.identity,
                     "product-across-groups-refused", a=specs[i], b=specs[j])
    for s, bad in [("C4", 4), ("C4", -1), ("D4", (2, 0)), ("D4", (0, 4))]:
        m.raises(Exception, lambda: G(s).element(bad), "invalid-element-refused", group=s, value=bad)
    m.raises(Exception, lambda: G("C4").element(0.3, "radians"), "invalid-element-refused", group="C4")
    m.raises(Exception, lambda: G("SO3:2").element(np.diag([1., 1., -1.]), "MAT"), "invalid-element-refused", group="SO3")
    m.raises(Exception, lambda: G("C4").element(1, "nope"), "invalid-parametrization-refused")
