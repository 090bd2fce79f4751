"""C03: irreps are irreducible, of the declared type, pairwise inequivalent, complete; endomorphism bases."""
import numpy as np
from core import Case
from lib import *

RULE = ("a case = one group; its irreps are judged with an exact Haar quadrature (all elements of finite groups) built from the "
        "harness' own matrix model: norm of characters, Schur orthogonality of matrix elements, Frobenius-Schur indicator, "
        "completeness (sum of squared sizes = order), endomorphism bases commute, are orthogonal and of the declared size")

GROUPS = ["C1", "C2", "C3", "C4", "C5", "C6", "C7", "C8", "C12", "C16", "D1", "D2", "D3", "D4", "D5", "D6", "D7", "D8", "D12",
          "Octa", "Ico", "FOcta", "CylD3", "CylD4", "FCylD3", "FCylD4", "C3*D2", "C4*C3", "C3*C3", "C5*C3", "D3*D2", "D3*C4",
          "Dbl(C3)", "Dbl(D3)", "C2*C2", "C4*C4", "SO2:6", "O2:6", "SO3:4", "O3:3", "Cyl:3", "FCyl:3", "C4*SO2:2", "SO2:2*SO2:2",
          "SO3:2*C3", "C3*O2:2", "C5*C5", "C6*C6", "C7*C7", "C6*C4", "C5*C4", "C8*C3", "Dbl(C5)", "Dbl(C6)"]


def prewarm(tier):
    G("Octa"), G("Ico")


def cases(tier, rng):
    out = [Case("family", spec=s) for s in GROUPS + (["FIco", "SO3:7", "O3:5", "SO2:20", "C30", "D20"] if tier == "thorough" else [])]
    out += [Case("composite_endomorphisms", spec=s) for s in GROUPS]
    for i in range(16 if tier == "quick" else 150):
        s = rng.choice(["C%d" % rng.randint(1, 30), "D%d" % rng.randint(1, 16), "C%d*C%d" % (rng.randint(1, 7), rng.randint(1, 7)),
                        "D%d*C%d" % (rng.randint(1, 6), rng.randint(1, 6)), "SO2:%d" % rng.randint(1, 12), "O2:%d" % rng.randint(1, 12)])
        out.append(Case("family", core=False, spec=s))
    for s in ["SO2", "O2", "SO3", "O3"]:
        out.append(Case("band_limits", spec=s))
    return out


FS = {"R": 1, "C": 0, "H": -2}
MULT = {"R": 1, "C": 2, "H": 4}


def family(m, spec):
    g = G(spec)
    maxf = int(spec.split(":")[1].split("*")[0].rstrip(")")) if ":" in spec else 2
    irr = irreps_of(g, maxf)
    L = 2 * max(degree(g, r) for r in irr)
    # endomorphism/trace tests need degree 2L for the Frobenius-Schur indicator
    E, W = haar(g, L)
    # quadrature sanity (own model)
    chars, mats = [], []
    for r in irr:
        M = np.stack([np.asarray(r(e), float) for e in E])
        mats.append(M)
        chars.append(np.einsum("aii->a", M))
        m.check(r.type in MULT, "declared-type", rep=r)
        m.check(r.sum_of_squares_constituents == MULT[r.type], "declared-endomorphism-dimension", rep=r)
        m.close(np.array([float(r.character(e)) for e in E[:40]]), chars[-1][:40], "character-is-trace", 1e-6, rep=r)
        m.event("irrep", f"{spec}:{r.id}:{r.type}:{r.size}")
    for i, r in enumerate(irr):
        nrm = float((W * chars[i] ** 2).sum())
        m.close(nrm, float(MULT[r.type]), "irreducible-of-declared-type", 1e-6, rep=r, group=spec)
        fs = float((W * np.array([np.trace(a @ a) for a in mats[i]])).sum())
        m.close(fs, float(FS[r.type]), "frobenius-schur", 1e-6, rep=r, group=spec)
        for j in range(i):
            m.close(float((W * chars[i] * chars[j]).sum()), 0., "inequivalent", 1e-6, a=r, b=irr[j], group=spec)
        B = r.endomorphism_basis()
        k = MULT[r.type]
        m.check(B.shape == (k, r.size, r.size), "endomorphism-basis-shape", rep=r, shape=B.shape)
        for b in B:
            m.close(np.einsum("aij,jk->aik", mats[i], b), np.einsum("ij,ajk->aik", b, mats[i]), "endomorphism-commutes", 1e-6, rep=r)
        m.close(np.einsum("aij,bij->ab", B, B), np.eye(k) * r.size, "endomorphism-orthogonal", 1e-6, rep=r)
        # Schur orthogonality of the matrix elements: <rho_ij rho_kl> = (1/d) sum_q (E_q)_ik (E_q)_jl
        d = r.size
        lhs = np.einsum("a,aij,akl->ijkl", W, mats[i], mats[i])
        rhs = np.einsum("qik,qjl->ijkl", B, B) / d
        m.close(lhs, rhs, "schur-orthogonality", 1e-6, rep=r)
    m.check(sum(1 for r in irr if r.is_trivial()) == 1, "one-trivial-irrep", group=spec)
    m.check(irr[0].group.trivial_representation.is_trivial(), "trivial-irrep-flag", group=spec)
    m.check(len({tuple(r.id) for r in irr}) == len(irr), "ids-unique", group=spec)
    if g.order() > 0:
        allirr = list(g.irreps())
        tot = sum(r.size ** 2 / MULT[r.type] for r in allirr)
        m.close(float(tot), float(g.order()), "complete", 1e-9, group=spec, got=tot)
        m.check(len(allirr) == len(irr), "enumeration", group=spec, got=len(allirr), expected=len(irr))
    for r in irr:
        m.check(g.irrep(*r.id) == r and g.irrep(*r.id).id == r.id, "lookup-by-id", rep=r)


def composite_endomorphisms(m, spec):
    g = G(spec)
    rng = m.rng()
    for _ in range(2):
        r, d = rand_rep(g, rng, 1, 14, ["irrep", "sum", "sum", "basis", "regular", "skew"])
        m.event("composite", d[:60])
        B = r.endomorphism_basis()
        dim = sum(g.irrep(*i).sum_of_squares_constituents for i in r.irreps for j in r.irreps if tuple(i) == tuple(j))
        m.check(B.shape == (dim, r.size, r.size), "endomorphism-basis-shape", rep=r, shape=B.shape, expected=dim)
        m.check(np.linalg.matrix_rank(B.reshape(len(B), -1), tol=1e-6) == dim, "endomorphism-independent", rep=r)
        for e in elements(g, rng, 5):
            R = np.asarray(r(e), float)
            m.close(R @ B, B @ R, "endomorphism-commutes", 1e-6, rep=r, recipe=d)


def band_limits(m, spec):
    """Irreps of any frequency exist on request, whatever maximum frequency the group was first built with."""
    g = G(spec + ":1")
    top = [(9,), (5,)] if spec in ("SO2", "SO3") else [(1, 9), (1, 5)] if spec == "O2" else [(0, 6), (1, 7)]
    rng = m.rng()
    for i in top:
        r = g.irrep(*i)
        f = i[-1]
        size = {"SO2": 2, "O2": 2}.get(spec, 2 * f + 1)
        m.check(r.size == size, "size-of-frequency", rep=r)
        check_rep(m, r, rng, 8, 1e-6, f"{spec}{i}")
    for L in (0, 1, 2, 3):
        if hasattr(g, "bl_irreps"):
            ids = g.bl_irreps(L)
            m.check(len(set(map(tuple, ids))) == len(ids), "bl-irreps-unique", group=spec)
            exp = {"SO2": L + 1, "O2": L + 2, "SO3": L + 1, "O3": 2 * (L + 1)}[spec]
            m.check(len(ids) == exp, "bl-irreps-complete", group=spec, L=L, got=ids)
            for i in ids:
                m.check(abs(i[-1]) <= L, "bl-irreps-band", group=spec, L=L, id=i)
