"""Shared vocabulary: group specs, an independent matrix model of group elements, element samplers, subgroup ids."""
import math, functools
import numpy as np
import core
escnn = core.load_library()
import escnn.group as eg
import escnn.gspaces as gs

PI2 = 2 * math.pi

# --------------------------------------------------------------------------------------------- groups
def G(spec):
    """'C8' 'D4' 'SO2' 'SO2:5' 'O2:3' 'SO3:2' 'O3:2' 'Octa' 'Ico' 'FOcta' 'FIco' 'T' 'Cyl:3' 'FCyl:3' 'CylD4' 'FCylD4'
    'A*B' (direct product) 'Dbl(A)' (double group)"""
    if spec.startswith("Dbl("):
        return eg.double_group(G(spec[4:-1]))
    if "*" in spec:
        a, b = spec.split("*")
        return eg.direct_product(G(a), G(b))
    name, _, mf = spec.partition(":")
    mf = int(mf) if mf else None
    c = {"SO2": eg.so2_group, "O2": eg.o2_group, "SO3": eg.so3_group, "O3": eg.o3_group, "Cyl": eg.cylinder_group,
         "FCyl": eg.full_cylinder_group}
    if name in c:
        return c[name](mf) if mf is not None else c[name]()
    c = {"Octa": eg.octa_group, "Ico": eg.ico_group, "FOcta": eg.full_octa_group, "FIco": eg.full_ico_group,
         "T": eg.trivial_group}
    if name in c:
        return c[name]()
    if name.startswith("FCylD"):
        return eg.full_cylinder_discrete_group(int(name[5:]))
    if name.startswith("CylD"):
        return eg.cylinder_discrete_group(int(name[4:]))
    if name[0] == "C":
        return eg.cyclic_group(int(name[1:]))
    if name[0] == "D":
        return eg.dihedral_group(int(name[1:]))
    raise ValueError(spec)


def kind(g):
    """Structural kind of a group object, from public class names."""
    n = type(g).__name__
    return {"CyclicGroup": "C", "DihedralGroup": "D", "SO2": "SO2", "O2": "O2", "SO3": "SO3", "O3": "O3",
            "Octahedral": "Octa", "Icosahedral": "Ico"}.get(n, "prod" if hasattr(g, "G1") else n)


# --------------------------------------------------------------------------------------------- matrix model
def rot2(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, -s], [s, c]])


def quat2mat(q):
    x, y, z, w = [float(v) for v in q]
    n = math.sqrt(x * x + y * y + z * z + w * w)
    x, y, z, w = x / n, y / n, z / n, w / n
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def axis_rot(axis, t):
    """Rotation of R^3 by t around the axis, by Rodrigues' formula."""
    a = np.asarray(axis, float)
    a = a / np.linalg.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * (K @ K)


def bd(*ms):
    n = sum(m.shape[0] for m in ms)
    o = np.zeros((n, n))
    p = 0
    for m in ms:
        o[p:p + m.shape[0], p:p + m.shape[0]] = m
        p += m.shape[0]
    return o


def value(g, group=None):
    return g.value


def model(group, v):
    """Faithful matrix of an element from its value in the default parametrisation; independent of the library."""
    k = kind(group)
    if k == "C":
        return rot2(PI2 * int(v) / group.order())
    if k == "D":
        f, r = v
        n = group.order() // 2
        return rot2(PI2 * int(r) / n) @ np.diag([1., -1. if f else 1.])
    if k == "SO2":
        return rot2(float(v))
    if k == "O2":
        f, r = v
        return rot2(float(r)) @ np.diag([1., -1. if f else 1.])
    if k in ("SO3", "Octa", "Ico"):
        return quat2mat(v)
    if k == "O3":
        f, q = v
        return (-1. if f else 1.) * quat2mat(q)
    if k == "prod":
        return bd(model(group.G1, v[0]), model(group.G2, v[1]))
    raise core.Skip("no model for " + k)


def mat(g):
    return model(g.group, g.value)


def same(a, b, tol=1e-6):
    return np.abs(mat(a) - mat(b)).max() < tol


# --------------------------------------------------------------------------------------------- elements
def elements(g, rng, n=8, hostile=True):
    """Random elements and, with hostile, edge ones: identity, boundary angles, gimbal-locked and 180-degree rotations,
    products of many factors, elements given in other parametrisations."""
    k = kind(g)
    out = [g.identity]
    if k == "C":
        N = g.order()
        out += [g.element(int(i)) for i in ([N - 1, N // 2, 1 % N] + list(rng.randint(0, N, n)))]
    elif k == "D":
        N = g.order() // 2
        out += [g.element((int(f), int(i))) for f, i in [(1, 0), (0, N - 1), (1, N - 1), (1, N // 2), (0, 1 % N)]]
        out += [g.element((int(rng.randint(2)), int(rng.randint(N)))) for _ in range(n)]
    elif k in ("SO2", "O2"):
        ang = list(rng.rand(n) * PI2)
        if hostile:
            ang += [0.0, math.pi, math.pi / 2, PI2 - 1e-13, 1e-13, 3 * math.pi / 2, PI2 * rng.randint(1, 6) / 6.]
            ang += [small_angle(rng), PI2 - small_angle(rng), math.pi - small_angle(rng)]
        out += [g.element(float(a)) if k == "SO2" else g.element((int(rng.randint(2)), float(a))) for a in ang]
    elif k in ("SO3", "O3"):
        def mk(M):
            return g.element(M, "MAT") if k == "SO3" else g.element((int(rng.randint(2)), M), "MAT")
        out += [mk(rand_rot(rng)) for _ in range(n)]
        if hostile:
            out += [mk(axis_rot(a, t)) for a, t in
                    [((0, 0, 1), math.pi), ((1, 0, 0), math.pi), ((0, 1, 0), math.pi), ((0, 0, 1), 1.234),
                     ((1, 1, 1), PI2 / 3), ((0, 1, 0), math.pi / 2), ((1, 1, 0), math.pi),
                     (rng.randn(3), small_angle(rng)), (rng.randn(3), math.pi), (rng.randn(3), math.pi - small_angle(rng)), ((0, 0, 1), small_angle(rng))]]
            if k == "O3":
                out.append(g.element((1, np.array([0., 0., 0., 1.])), "Q"))
    elif k == "prod":
        a, b = elements(g.G1, rng, n, hostile), elements(g.G2, rng, n, hostile)
        rng.shuffle(a), rng.shuffle(b)
        m = max(len(a), len(b))
        out += [g.element((a[i % len(a)].value, b[i % len(b)].value)) for i in range(m)]
    else:
        el = list(g.elements)
        out += [el[i] for i in rng.randint(0, len(el), n + 3)]
    return out


def small_angle(rng):
    """Small, but far above the tolerances with which the library identifies elements."""
    return float(10 ** rng.uniform(-2.7, -1.3))


def rand_rot(rng):
    q = rng.randn(4)
    return quat2mat(q / np.linalg.norm(q))


# --------------------------------------------------------------------------------------------- subgroups
def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def subgroup_ids(g, rng=None, limit=None):
    """Valid subgroup ids, from the documentation of each group."""
    k = kind(g)
    ids = []
    if k == "C":
        ids = divisors(g.order())
    elif k == "D":
        N = g.order() // 2
        ids = [(None, d) for d in divisors(N)] + [(a, d) for d in divisors(N) for a in range(N // d)]
    elif k == "SO2":
        ids = [1, 2, 3, 4, 5, 8, 12, -1]
    elif k == "O2":
        ids = [(None, n) for n in (1, 2, 3, 4, 6, -1)] + [(0., n) for n in (1, 2, 3, 4, 5, -1)] + \
              [(math.pi / 3, 1), (math.pi / 4, 2), (0.1, 3), (math.pi / 8, 8), (0.3, 4)]
    elif k == "SO3":
        ids = ["so3", "ico", "octa"] + [(False, n) for n in (1, 2, 3, 4, 6, -1)] + \
              [(True, n) for n in (1, 2, 3, 4, -1)] + [(0.4, 3), (math.pi / 3, 1), (0.7, 2), (0.2, -1)]
    elif k == "O3":
        ids = ["so3", "o3", (True, "ico"), (False, "ico"), (True, "octa"), (False, "octa")]
        for inv in (True, False):
            ids += [(inv, False, n) for n in (1, 2, 3, 4, -1)] + [(inv, True, n) for n in (1, 2, 3, -1)]
            ids += [(inv, 0.4, 2)]
        ids += [("cone", n) for n in (1, 2, 3, 4, -1)] + [("cone", 0.3, 2), ("cone", 0.5, 1)]
    elif k == "prod":
        a, b = subgroup_ids(g.G1, rng), subgroup_ids(g.G2, rng)
        ids = [(x, y) for x in a for y in b]
        if isinstance(g, getattr(eg, "DoubleGroup", ())) or type(g).__name__ == "DoubleGroup":
            ids.append("diagonal")
    elif k == "Octa":
        ids = ["octa", (False, 1), (False, 2), (False, 3), (False, 4)]
    elif k == "Ico":
        ids = ["ico", (False, 1), (False, 2), (False, 3), (False, 5)]
    if limit is not None and rng is not None and len(ids) > limit:
        idx = rng.choice(len(ids), limit, replace=False)
        ids = [ids[i] for i in sorted(idx)]
    return ids


def tup(x):
    """JSON lists back to tuples."""
    return tuple(tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def adj_id(g, id, A):
    """A conjugated subgroup id (only SO3 / O3 accept adjoints); A a GroupElement."""
    id = id if isinstance(id, tuple) else (id,)
    return id + (A,)


# --------------------------------------------------------------------------------------------- representations
def irreps_of(g, maxf=2):
    """Some irreps, built by id so that nothing depends on which were constructed before."""
    k = kind(g)
    if k == "C":
        return [g.irrep(i) for i in range(g.order() // 2 + 1)]
    if k == "D":
        N = g.order() // 2
        out = [g.irrep(0, 0), g.irrep(1, 0)]
        for i in range(1, N // 2 + 1):
            if N % 2 == 0 and i == N // 2:
                out += [g.irrep(0, i), g.irrep(1, i)]
            else:
                out.append(g.irrep(1, i))
        return out
    if k == "SO2":
        return [g.irrep(i) for i in range(maxf + 1)]
    if k == "O2":
        return [g.irrep(0, 0)] + [g.irrep(1, i) for i in range(maxf + 1)]
    if k == "SO3":
        return [g.irrep(i) for i in range(maxf + 1)]
    if k == "O3":
        return [g.irrep(j, i) for i in range(maxf + 1) for j in (0, 1)]
    if k == "Octa":
        return [g.irrep(*i) for i in [(0,), (-1,), (1,), (2, 0), (2, 1)]] if False else list(g.irreps())
    if k == "prod" and (g.order() < 0):
        a, b = irreps_of(g.G1, maxf), irreps_of(g.G2, maxf)
        out = []
        for x in a:
            for y in b:
                n = 2 if (x.type == "C" and y.type == "C") else 1
                for s in range(n):
                    try:
                        out.append(g.irrep(x.id, y.id, s) if n > 1 else g.irrep(x.id, y.id))
                    except Exception:
                        out.append(g.irrep(x.id, y.id))
        return out
    return list(g.irreps())


def rand_orth(rng, n):
    q, r = np.linalg.qr(rng.randn(n, n))
    return q * np.sign(np.diag(r))


def slight_rotation(rng, n, angle=None):
    """Close to the identity: mixes two coordinates, or all, only slightly."""
    if n < 2:
        return np.eye(n)
    Q = np.eye(n)
    for _ in range(1 if rng.rand() < .6 else n):
        i, j = rng.choice(n, 2, replace=False)
        a = small_angle(rng) if angle is None else angle
        R = np.eye(n)
        R[i, i] = R[j, j] = math.cos(a)
        R[i, j], R[j, i] = -math.sin(a), math.sin(a)
        Q = Q @ R
    return Q


def rand_invertible(rng, n):
    """A well-conditioned change of basis that is not orthogonal."""
    return rand_orth(rng, n) @ np.diag(np.exp(rng.uniform(-.6, .6, n))) @ rand_orth(rng, n)


def irrep_mat(irr, g):
    return np.asarray(irr(g), float)


# --------------------------------------------------------------------------------------------- Haar quadrature
@functools.lru_cache(None)
def _gauss(n):
    return np.polynomial.legendre.leggauss(n)


def haar(g, L):
    """(elements, weights) of a quadrature exact for products of matrix elements of total degree <= L (in the sense of
    frequency for 2D and Wigner degree for 3D rotations)."""
    k = kind(g)
    if g.order() > 0:
        E = list(g.elements)
        return E, np.full(len(E), 1. / len(E))
    if k == "SO2":
        n = L + 1
        return [g.element(PI2 * i / n) for i in range(n)], np.full(n, 1. / n)
    if k == "O2":
        n = L + 1
        return [g.element((f, PI2 * i / n)) for f in (0, 1) for i in range(n)], np.full(2 * n, .5 / n)
    if k in ("SO3", "O3"):
        n = L + 1
        x, w = _gauss(L // 2 + 1)
        E, W = [], []
        for i in range(n):
            for b, wb in zip(np.arccos(x), w / 2.):
                for j in range(n):
                    M = axis_rot((0, 0, 1), PI2 * i / n) @ axis_rot((0, 1, 0), b) @ axis_rot((0, 0, 1), PI2 * j / n)
                    if k == "SO3":
                        E.append(g.element(M, "MAT")); W.append(wb / n / n)
                    else:
                        for f in (0, 1):
                            E.append(g.element((f, M), "MAT")); W.append(.5 * wb / n / n)
        return E, np.array(W)
    if k == "prod":
        a, wa = haar(g.G1, L)
        b, wb = haar(g.G2, L)
        return ([g.element((x.value, y.value)) for x in a for y in b], np.outer(wa, wb).reshape(-1))
    raise core.Skip("no quadrature for " + k)


def degree(g, irr):
    """Frequency / Wigner degree of an irrep, from its id."""
    k = kind(g)
    if k == "SO2" or k == "SO3":
        return abs(irr.id[0])
    if k in ("O2", "O3"):
        return abs(irr.id[1])
    if k == "prod":
        return max(degree(g.G1, g.G1.irrep(*irr.id[0])), degree(g.G2, g.G2.irrep(*irr.id[1])))
    return 0


# --------------------------------------------------------------------------------------------- rep recipes
def rand_rep(g, rng, maxf=2, max_size=40, kinds=None, depth=0, order_cap=24):
    """A random representation built through the public constructors; returns (rep, description)."""
    choices = list(kinds or ["irrep", "irrep", "irrep", "sum", "sum", "tensor", "basis", "regular", "quotient", "spectral"])
    for _ in range(50):
        c = choices[rng.randint(len(choices))]
        if depth > 1 and c in ("sum", "tensor", "basis", "skew"):
            c = "irrep"
        irr = irreps_of(g, maxf)
        if c == "irrep":
            r = irr[rng.randint(len(irr))]
            d = f"irrep{r.id}"
        elif c == "sum":
            parts = [rand_rep(g, rng, maxf, max_size, kinds, depth + 1, order_cap) for _ in range(rng.randint(1, 4))]
            if any(p is None for p in parts):
                continue
            cob = None
            size = sum(p[0].size for p in parts)
            if size > max_size:
                continue
            if rng.rand() < .5:
                cob = rand_orth(rng, size)
            nm = f"sum_{rng.randint(10**9)}"
            r = eg.directsum([p[0] for p in parts], change_of_basis=cob, name=nm)
            d = ("sumQ(" if cob is not None else "sum(") + ",".join(p[1] for p in parts) + ")"
        elif c == "tensor":
            a, b = [rand_rep(g, rng, maxf, 8, ["irrep", "sum"], depth + 1, order_cap) for _ in range(2)]
            if a[0].size * b[0].size > max_size:
                continue
            try:
                r = a[0].tensor(b[0])
            except eg.InsufficientIrrepsException:      # documented refusal for infinite product groups
                continue
            d = f"tensor({a[1]},{b[1]})"
        elif c == "basis":
            a = rand_rep(g, rng, maxf, max_size, kinds, depth + 1, order_cap)
            if a is None:
                continue
            r = eg.change_basis(a[0], rand_orth(rng, a[0].size) if rng.rand() < .7 else slight_rotation(rng, a[0].size), f"cob_{rng.randint(10**9)}")
            d = f"cob({a[1]})"
        elif c == "skew":                # a change of basis that is not orthogonal
            a = rand_rep(g, rng, maxf, max_size, kinds, depth + 1, order_cap)
            if a is None:
                continue
            r = eg.change_basis(a[0], rand_invertible(rng, a[0].size), f"skew_{rng.randint(10**9)}")
            d = f"skew({a[1]})"
        elif c == "regular":
            if g.order() < 0 or g.order() > order_cap:
                continue
            r = g.regular_representation
            d = "regular"
        elif c == "quotient":
            if g.order() < 0 or g.order() > order_cap:
                continue
            ids = subgroup_ids(g)
            if not ids:
                continue
            i = ids[rng.randint(len(ids))]
            r = g.quotient_representation(i)
            d = f"quotient[{i}]"
        elif c == "spectral":
            if kind(g) == "Octa" or (kind(g) == "prod" and "Octa" in g.name):    # documented as not implemented
                continue
            sel = [x.id for x in irr if rng.rand() < .6] or [irr[0].id]
            r = g.spectral_regular_representation(*sel)
            d = f"spectral{sel}"
        if r is not None and r.size <= max_size:
            return r, d
    r = irreps_of(g, maxf)[0]
    return r, f"irrep{r.id}"


def blockdiag(ms):
    return bd(*[np.asarray(m, float) for m in ms])


def expected_matrix(rho, g, irrmat=None):
    """change of basis * block-diagonal of the irreps' matrices * inverse."""
    G_ = rho.group
    D = blockdiag([G_.irrep(*i)(g) for i in rho.irreps])
    return np.asarray(rho.change_of_basis) @ D @ np.asarray(rho.change_of_basis_inv)


def check_rep(m, rho, rng, n=4, tol=1e-6, label="", orth=True, elems=None):
    """The oracle for 'a representation': used on everything any workload constructs."""
    G_ = rho.group
    E = elems if elems is not None else elements(G_, rng, 4)
    d = rho.size
    m.event("representation", f"{G_.name}:{d}:{len(rho.irreps)}:{label[:40]}")
    m.close(rho(G_.identity), np.eye(d), "rep-identity", tol, rep=rho, label=label)
    for _ in range(n):
        a, b = E[rng.randint(len(E))], E[rng.randint(len(E))]
        A, B = np.asarray(rho(a), float), np.asarray(rho(b), float)
        m.check(A.shape == (d, d), "rep-size", rep=rho, label=label, shape=A.shape)
        m.close(np.asarray(rho(a @ b), float), A @ B, "rep-homomorphism", tol, rep=rho, label=label, a=a, b=b)
        m.close(np.asarray(rho(~a), float) @ A, np.eye(d), "rep-inverse", tol, rep=rho, label=label, a=a)
        if orth:
            m.close(A @ A.T, np.eye(d), "rep-orthogonal", tol, rep=rho, label=label, a=a)
        m.close(float(rho.character(a)), float(np.trace(A)), "rep-character", max(tol, 1e-6), rep=rho, label=label, a=a)
        m.close(expected_matrix(rho, a), A, "rep-decomposition", tol, rep=rho, label=label, a=a)
