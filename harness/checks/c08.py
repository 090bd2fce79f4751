"""C08: algebra of representations."""
import numpy as np
from core import Case
from lib import *
RULE = ("a case = one group and a random program of direct sums, basis changes, disentangling and (endo)homomorphism spaces; results are compared "
        "with the same operation on the argument matrices, spaces with a character / null-space count, and the arguments with snapshots taken before")
SPECS = ["C1", "C2", "C3", "C4", "C6", "C8", "D1", "D2", "D3", "D4", "D5", "D6", "SO2:3", "O2:3", "SO3:2", "O3:2", "Octa", "FCylD3", "C3*C3", "C4*D2", "Dbl(C3)",
         "Cyl:1", "SO2:1*C3"]
CASE_TIMEOUT = 200


def prewarm(tier):
    G("Octa")


def cases(tier, rng):
    out = []
    n = 2 if tier == "quick" else 12
    for s in SPECS:
        for fn in ("sums", "disentangled", "spaces", "equality"):
            for i in range(n):
                out.append(Case(fn, core=(i == 0), spec=s, i=i))
        if G(s).order() > 0:
            out.append(Case("from_matrices", spec=s))
    return out


def snap(r):
    return (np.array(r.change_of_basis), np.array(r.change_of_basis_inv), list(r.irreps), r.name, set(r.supported_nonlinearities), r.size)


def unchanged(m, r, s, op):
    t = snap(r)
    ok = np.array_equal(t[0], s[0]) and np.array_equal(t[1], s[1]) and t[2:] == s[2:]
    m.check(ok, "arguments-untouched", op=op, rep=r)


def nl_ok(m, r, E, tag):
    """Declared nonlinearities: pointwise needs signed-free permutations, norm needs orthogonality."""
    for x in E[:6]:
        P = np.asarray(r(x), float)
        if "pointwise" in r.supported_nonlinearities:
            m.check(np.allclose(np.abs(P - np.round(P)), 0, atol=1e-5) and np.allclose(P.sum(0), 1, atol=1e-5) and (P > -1e-5).all(),
                    "pointwise-support-needs-permutation", rep=r, x=x, **tag)
        if "norm" in r.supported_nonlinearities:
            m.close(P @ P.T, np.eye(r.size), "norm-support-needs-isometry", 1e-5, rep=r, x=x, **tag)


def M(r, x):
    return np.asarray(r(x), float)


def sums(m, spec, i):
    g = G(spec)
    rng = m.rng()
    E = elements(g, rng, 4)
    for _ in range(3):
        k = rng.randint(1, 5)
        parts = [rand_rep(g, rng, 2, 10) for _ in range(k)]
        parts = [p for p in parts if p[0].size <= 12]
        if not parts:
            continue
        reps = [p[0] for p in parts]
        S = [snap(r) for r in reps]
        size = sum(r.size for r in reps)
        desc = "+".join(p[1] for p in parts)[:100]
        mode = ["none", "orth", "gl", "perm", "slight", "sign"][rng.randint(6)]
        A = {"none": None, "orth": rand_orth(rng, size), "gl": rand_orth(rng, size) @ np.diag(np.exp(rng.randn(size) * .5)) @ rand_orth(rng, size),
             "perm": np.eye(size)[rng.permutation(size)], "slight": slight_rotation(rng, size, 10 ** rng.uniform(-3, -1.5)),
             "sign": np.diag(rng.choice([-1., 1.], size))}[mode]
        A0 = None if A is None else A.copy()
        nm = None if rng.rand() < .3 else f"s_{rng.randint(10**9)}"
        r = eg.directsum(list(reps), change_of_basis=A, name=nm)
        m.event("directsum", f"{spec}:{k}:{mode}:{size}")
        if A is not None:
            m.check(np.array_equal(A, A0), "arguments-untouched", op="directsum change of basis")
        m.check(r.size == size, "sum-size", group=spec, desc=desc)
        for x in E:
            D = blockdiag([M(q, x) for q in reps])
            W = D if A is None else A @ D @ np.linalg.inv(A)
            m.close(M(r, x), W, "sum-is-block-diagonal", 1e-5, group=spec, desc=desc, mode=mode, x=x)
            m.close(float(r.character(x)), float(np.trace(D)), "sum-character", 1e-5, group=spec, desc=desc, mode=mode)
        check_rep(m, r, rng, 2, 1e-5, f"{spec}:sum:{mode}", orth=(mode != "gl"), elems=E)
        nl_ok(m, r, E, dict(desc=desc, mode=mode))
        B = rand_orth(rng, size) if rng.rand() < .6 else rand_orth(rng, size) @ np.diag(np.exp(rng.randn(size) * .5))
        s0, B0 = snap(r), B.copy()
        c = eg.change_basis(r, B, f"c_{rng.randint(10**9)}")
        for x in E[:6]:
            m.close(M(c, x), B @ M(r, x) @ np.linalg.inv(B), "change-of-basis", 1e-5, group=spec, desc=desc, x=x)
        nl_ok(m, c, E, dict(desc=desc, mode="change_basis"))
        unchanged(m, r, s0, "change_basis")
        m.check(np.array_equal(B, B0), "arguments-untouched", op="change_basis matrix")
        if len(reps) >= 2:
            t = reps[0] + reps[1]
            for x in E[:4]:
                m.close(M(t, x), blockdiag([M(reps[0], x), M(reps[1], x)]), "plus-is-block-diagonal", 1e-6, group=spec, desc=desc, x=x)
        for q, s in zip(reps, S):
            unchanged(m, q, s, "directsum")


def disentangled(m, spec, i):
    g = G(spec)
    rng = m.rng()
    E = elements(g, rng, 4)
    for _ in range(3):
        parts = [rand_rep(g, rng, 2, 8, ["irrep", "basis", "regular", "sum", "quotient", "skew"])[0] for _ in range(rng.randint(1, 5))]
        parts = [p for p in parts if p.size <= 12]
        if not parts:
            continue
        size = sum(p.size for p in parts)
        P = np.eye(size)[rng.permutation(size)]
        r = eg.directsum(parts, change_of_basis=P if rng.rand() < .8 else None, name=f"d_{rng.randint(10**9)}")
        slight = rng.rand() < .4         # blocks that are mixed only slightly are not blocks
        if slight:
            r = eg.change_basis(r, slight_rotation(rng, size), f"s_{rng.randint(10**9)}")
        s0 = snap(r)
        C, blocks = eg.disentangle(r)
        unchanged(m, r, s0, "disentangle")
        m.event("disentangle", f"{spec}:{len(parts)}->{len(blocks)}")
        m.check(np.allclose(C @ C.T, np.eye(size)) and set(np.unique(C)) <= {0., 1.}, "disentangle-basis-is-a-permutation", rep=r)
        m.check(sum(b.size for b in blocks) == size, "disentangle-sizes", rep=r)
        # finest split by channels: at least as many blocks as the parts that were summed
        m.check(slight or len(blocks) >= len(parts), "disentangle-splits", rep=r, blocks=len(blocks), parts=len(parts))
        if sum(b.size for b in blocks) == size:
            for x in E:
                m.close(C @ M(r, x) @ C.T, blockdiag([M(b, x) for b in blocks]), "disentangle-block-diagonal", 1e-5, rep=r, x=x, group=spec)
        for b in blocks:
            check_rep(m, b, rng, 1, 1e-5, f"{spec}:block", elems=E, orth=False)


def spaces(m, spec, i):
    g = G(spec)
    rng = m.rng()
    E = elements(g, rng, 5)
    for _ in range(3):
        a, da = rand_rep(g, rng, 2, 9, ["irrep", "irrep", "sum", "sum", "tensor", "basis", "skew", "regular", "quotient"])
        b, db = rand_rep(g, rng, 2, 9, ["irrep", "irrep", "sum", "sum", "tensor", "basis", "skew", "regular", "quotient"])
        if a.size > 12 or b.size > 12:
            continue
        if rng.rand() < .4:
            b, db = a, da
        elif rng.rand() < .5:
            b, db = eg.change_basis(a, rand_orth(rng, a.size), f"h_{rng.randint(10**9)}"), "cob(a)"
        sa, sb = snap(a), snap(b)
        H = np.asarray(eg.homomorphism_space(a, b))
        unchanged(m, a, sa, "homomorphism_space"), unchanged(m, b, sb, "homomorphism_space")
        tag = dict(group=spec, a=da[:80], b=db[:80])
        m.event("homspace", f"{spec}:{len(H)}")
        want = 0
        for irr in set(a.irreps):
            want += a.multiplicity(irr) * b.multiplicity(irr) * g.irrep(*irr).sum_of_squares_constituents
        m.check(H.shape == (want, b.size, a.size), "hom-dimension", got=H.shape, want=want, **tag)
        for x in E:
            m.close(np.einsum("ij,kjl->kil", M(b, x), H), np.einsum("kij,jl->kil", H, M(a, x)), "hom-intertwines", 1e-5, x=x, **tag)
        if len(H):
            m.check(np.linalg.matrix_rank(H.reshape(len(H), -1), 1e-6) == len(H), "hom-independent", **tag)
        # independent count: null space of the constraint on many random elements
        if a.size * b.size <= 64:
            X = elements(g, rng, 10)
            if g.order() > 0 and g.order() <= 24:
                X = list(g.elements)
            T = np.concatenate([np.kron(M(b, x), np.eye(a.size)) - np.kron(np.eye(b.size), M(a, x).T) for x in X])
            sv = np.linalg.svd(T, compute_uv=False)
            null = int((sv < 1e-7).sum()) + max(0, a.size * b.size - len(sv))
            m.check(null == len(H), "hom-complete", got=len(H), want=null, **tag)
        K = np.asarray(a.endomorphism_basis())
        for x in E[:5]:
            m.close(np.einsum("ij,kjl->kil", M(a, x), K), np.einsum("kij,jl->kil", K, M(a, x)), "endomorphisms-commute", 1e-5, x=x, **tag)
        want = sum(a.multiplicity(q) ** 2 * g.irrep(*q).sum_of_squares_constituents for q in set(a.irreps))
        m.check(len(K) == want and np.linalg.matrix_rank(K.reshape(len(K), -1), 1e-6) == want, "endomorphism-dimension", got=len(K), want=want, **tag)


def equality(m, spec, i):
    g = G(spec)
    rng = m.rng()
    E = elements(g, rng, 4)
    nm = f"e_{rng.randint(10**9)}"
    pool = []
    for _ in range(4):
        parts = [rand_rep(g, rng, 2, 4, ["irrep"])[0] for _ in range(rng.randint(1, 4))]
        size = sum(p.size for p in parts)
        Q = rand_orth(rng, size)
        pool.append(eg.directsum(parts, name=nm))
        pool.append(eg.directsum(parts, change_of_basis=Q, name=nm))
        pool.append(eg.directsum(parts, change_of_basis=Q.copy(), name=nm))
        # close to one another, or alike in some respect only
        for V in (Q.T, -Q, Q * rng.choice([-1., 1.], size), Q[:, ::-1], Q[rng.permutation(size)], Q @ slight_rotation(rng, size), np.diag(rng.choice([-1., 1.], size)),
                  slight_rotation(rng, size)):
            if rng.rand() < .5:
                pool.append(eg.directsum(parts, change_of_basis=np.ascontiguousarray(V), name=nm))
        pool.append(eg.directsum(parts[::-1], name=nm))
        pool.append(eg.directsum(parts, name=nm + "x"))
    pool += irreps_of(g, 2)[:5]
    other = G("C3") if spec != "C3" else G("C4")
    pool.append(other.irrep(0))
    for x in range(len(pool)):
        for y in range(len(pool)):
            a, b = pool[x], pool[y]
            eq = (a == b)
            m.check(isinstance(eq, (bool, np.bool_)), "equality-answers", a=a, b=b)
            m.check(eq == (b == a) and eq == (not (a != b)), "equality-symmetric", a=a, b=b)
            if a is b:
                m.check(eq, "equality-reflexive", a=a)
            if eq:
                m.check(hash(a) == hash(b), "equal-hash", a=a, b=b)
                m.check(a.group == b.group and a.size == b.size, "equal-means-equal-maps", a=a, b=b)
                if a.group == g and b.group == g and a.size == b.size:
                    for e in E:
                        m.close(M(a, e), M(b, e), "equal-means-equal-maps", 1e-4, a=a, b=b)
            m.event("compared", f"{spec}:{eq}")
    m.check(pool[1] == pool[2], "equal-constructions-equal", a=pool[1])
    m.check(not (pool[0] == 3) and not (pool[0] == None), "equality-answers", a=pool[0])   # noqa


def from_matrices(m, spec):
    """A finite group's representation given by its matrices is reproduced by the decomposition found numerically."""
    g = G(spec)
    rng = m.rng()
    if g.order() > 24:
        return
    f = eg.representation.build_from_discrete_group_representation
    for _ in range(2):
        parts = [rand_rep(g, rng, 2, 6, ["irrep"])[0] for _ in range(rng.randint(1, 4))]
        size = sum(p.size for p in parts)
        if size > 10:
            continue
        Q = rand_orth(rng, size)
        D = {e: Q @ blockdiag([M(p, e) for p in parts]) @ Q.T for e in g.elements}
        r = f({k: v.copy() for k, v in D.items()}, f"fm_{rng.randint(10**9)}", g, [])
        m.check(sorted(map(str, r.irreps)) == sorted(str(p.id) for p in parts), "decomposition-multiset", group=spec, got=r.irreps, want=[p.id for p in parts])
        for e in g.elements:
            m.close(M(r, e), D[e], "decomposition-reproduces-matrices", 1e-5, group=spec, e=e)
        m.event("decomposed", f"{spec}:{size}")
