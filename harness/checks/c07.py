"""C07: tensor products are Kronecker products; Clebsch-Gordan coefficients are orthogonal intertwiners of the right multiplicity."""
import numpy as np
from core import Case
from lib import *
RULE = ("a case = one group and a batch of pairs of irreps (all pairs for small groups) or of composite representations; for each pair the "
        "coefficients returned are judged for intertwining on random/edge elements, orthonormality, multiplicity against a character integral, "
        "completeness and repeatability; tensor representations are compared with the Kronecker product")
SPECS = ["C1", "C2", "C3", "C4", "C5", "C6", "C8", "C9", "D1", "D2", "D3", "D4", "D5", "D6", "SO2:4", "O2:4", "SO3:3", "O3:2", "Octa",
         "FOcta", "Ico", "CylD4", "FCylD3", "C3*C3", "C4*C3", "C3*D3", "Dbl(C4)", "Dbl(D3)", "Cyl:2", "FCyl:1", "C3*SO2:2", "SO2:1*SO2:1"]
CASE_TIMEOUT = 300


def prewarm(tier):
    G("Octa"), G("Ico")


def cases(tier, rng):
    out = []
    for s in SPECS:
        g = G(s)
        irr = irreps_of(g, 3 if kind(g) in ("SO2", "O2", "SO3") else 2)
        n = len(irr)
        pairs = [(i, j) for i in range(n) for j in range(n)]
        cap = (40 if g.order() < 0 or kind(g) != "prod" else 24) if tier == "quick" else 400
        if s in ("Ico", "FOcta", "FCyl:1"):
            cap = 8 if tier == "quick" else 100
        if len(pairs) > cap:
            pairs = rng.sample(pairs, cap)
        for c in range(0, len(pairs), 12):
            out.append(Case("cg", spec=s, pairs=[[str(irr[a].id), str(irr[b].id)] for a, b in pairs[c:c + 12]]))
        for i in range(2 if tier == "quick" else 8):
            out.append(Case("tensor", core=(i == 0), spec=s, i=i))
    for s, l in [("SO3:6", 6), ("O3:4", 4), ("SO2:9", 9), ("O2:9", 9), ("C16", 8), ("D16", 8)]:
        out.append(Case("high", spec=s, l=l))
    return out


def maxdeg(g, irr):
    return sum(degree(g, r) for r in irr)


def judge_pair(m, g, a, b, rng, spec):
    E = elements(g, rng, 3)
    E = [E[i] for i in rng.choice(len(E), min(5, len(E)), replace=False)]
    try:
        dec = g._tensor_product_irreps(a.id, b.id)
    except eg.InsufficientIrrepsException:
        m.event("documented-refusal")
        return
    dec = [(tuple(i), int(S)) for i, S in dec if S > 0]
    tag = dict(group=spec, a=a.id, b=b.id)
    m.check(len(set(i for i, _ in dec)) == len(dec), "decomposition-lists-each-once", dec=dec, **tag)
    m.check(sum(g.irrep(*i).size * S for i, S in dec) == a.size * b.size, "decomposition-complete", dec=dec, **tag)
    J = [g.irrep(*i) for i, _ in dec]
    if g.order() > 0:
        q, w = list(g.elements), np.full(g.order(), 1. / g.order())
    else:
        q, w = haar(g, 2 * maxdeg(g, [a, b]) + 1) if kind(g) in ("SO2", "O2") else (None, None)
    if q is not None and len(q) <= 300:
        chi = np.array([float(np.trace(np.asarray(a(x), float)) * np.trace(np.asarray(b(x), float))) for x in q])
        for j, (i, S) in zip(J, dec):
            cj = np.array([float(np.trace(np.asarray(j(x), float))) for x in q])
            m.close(float((w * chi * cj).sum()) / j.sum_of_squares_constituents, float(S), "multiplicity", 1e-5, j=i, **tag)
    else:
        # the characters agree on random elements: with inequivalent irreps this pins the multiplicities
        for x in elements(g, rng, 8):
            m.close(sum(S * float(np.trace(np.asarray(j(x), float))) for j, (i, S) in zip(J, dec)),
                    float(np.trace(np.asarray(a(x), float)) * np.trace(np.asarray(b(x), float))), "decomposition-character", 1e-5, **tag)
    cols = []
    for j, (i, S) in zip(J, dec):
        C = np.asarray(g._clebsh_gordan_coeff(a.id, b.id, i))
        if not m.check(C.shape == (a.size, b.size, S, j.size), "cg-shape", got=C.shape, want=(a.size, b.size, S, j.size), j=i, **tag):
            continue
        for x in E:
            A, B, Dj = [np.asarray(r(x), float) for r in (a, b, j)]
            lhs = np.einsum("am,bn,mnsj->absj", A, B, C)
            m.close(lhs, np.einsum("absi,ij->absj", C, Dj), "cg-intertwines", 1e-5, j=i, x=x, **tag)
        cols.append(C.reshape(a.size * b.size, -1))
        m.close(np.asarray(g._clebsh_gordan_coeff(a, b, j)), C, "cg-repeatable", 1e-12, j=i, **tag)
        m.event("cg", f"{spec}:{a.id}x{b.id}->{i}*{S}")
    # an irrep that the product does not contain has no coefficients
    absent = [r for r in irreps_of(g, 4 if kind(g) in ("SO2", "O2", "SO3", "O3") else 2) if r.id not in set(i for i, _ in dec)]
    for k in rng.permutation(len(absent))[:3]:
        j = absent[k]
        if a.size * b.size * j.size <= 300:
            C = np.asarray(g._clebsh_gordan_coeff(a.id, b.id, j.id))
            m.check(C.shape == (a.size, b.size, 0, j.size), "cg-of-absent-irrep", got=C.shape, j=j.id, **tag)
            m.event("cg-absent", f"{spec}:{a.id}x{b.id}->{j.id}")
    if cols:
        Q = np.concatenate(cols, 1)
        if m.check(Q.shape == (a.size * b.size,) * 2, "cg-square", **tag):
            m.close(Q.T @ Q, np.eye(len(Q)), "cg-orthonormal", 1e-5, **tag)


def byid(g, s):
    import ast
    return g.irrep(*ast.literal_eval(s))


def cg(m, spec, pairs):
    g = G(spec)
    rng = m.rng()
    for x, y in pairs:
        judge_pair(m, g, byid(g, x), byid(g, y), rng, spec)


def high(m, spec, l):
    g = G(spec)
    rng = m.rng()
    irr = irreps_of(g, l)
    for _ in range(4 if m.tier == "quick" else 12):
        a = irr[-1 - rng.randint(3)]
        b = irr[rng.randint(len(irr))]
        if a.size * b.size <= 100:
            judge_pair(m, g, a, b, rng, spec)
            judge_pair(m, g, b, a, rng, spec)


def tensor(m, spec, i):
    g = G(spec)
    rng = m.rng()
    for _ in range(3):
        a, da = rand_rep(g, rng, 2, 8, ["irrep", "sum", "basis", "regular", "quotient", "skew"])
        b, db = rand_rep(g, rng, 2, 8, ["irrep", "sum", "basis", "quotient", "skew"])
        if a.size * b.size > 64:
            continue
        try:
            r = a.tensor(b)
        except eg.InsufficientIrrepsException:
            m.event("documented-refusal")
            continue
        m.event("tensor", f"{spec}:{da[:25]}x{db[:25]}")
        m.check(r.size == a.size * b.size, "tensor-size", a=da, b=db, group=spec)
        for x in elements(g, rng, 3):
            K = np.kron(np.asarray(a(x), float), np.asarray(b(x), float))
            m.close(np.asarray(r(x), float), K, "tensor-is-kronecker", 1e-5, a=da, b=db, group=spec, x=x)
            m.close(float(r.character(x)), float(np.trace(K)), "tensor-character", 1e-5, a=da, b=db, group=spec, x=x)
            m.close(expected_matrix(r, x), K, "tensor-decomposition", 1e-5, a=da, b=db, group=spec, x=x)
        for nl in ("pointwise",):
            if nl in r.supported_nonlinearities:
                for x in elements(g, rng, 2):
                    P = np.asarray(r(x), float)
                    m.check(np.allclose(P, np.round(P), atol=1e-6) and np.allclose(np.abs(P).sum(0), 1), "tensor-pointwise-is-permutation", a=da, b=db, group=spec)
        if r.size <= 12:
            c = a if a.size <= 3 else g.trivial_representation
            try:
                t = r.tensor(c)
            except eg.InsufficientIrrepsException:
                continue
            for x in elements(g, rng, 2)[:5]:
                m.close(np.asarray(t(x), float), np.kron(np.asarray(r(x), float), np.asarray(c(x), float)), "tensor-chain", 1e-5, a=da, b=db, group=spec, x=x)
