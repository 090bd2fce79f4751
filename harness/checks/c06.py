"""C06: regular, quotient, induced representations and homogeneous spaces do what their definitions say."""
import numpy as np
from core import Case
from lib import *
RULE = ("a case = one group and one subgroup id; the regular/quotient/induced representations are compared entry by entry with the coset action "
        "computed by the harness from matrices of the elements, and the Fourier bases of the homogeneous space are judged for size, left "
        "equivariance, stabiliser equivariance, orthonormality (exact quadrature) and completeness")
FIN = ["C1", "C2", "C3", "C4", "C6", "C9", "D1", "D2", "D3", "D4", "D6", "Octa", "C3*D2", "C4*C2", "C3*C3", "Dbl(C3)", "FCylD3", "CylD4", "Dbl(D3)"]
INF = ["SO2:3", "O2:3", "SO3:2", "O3:2", "Cyl:2", "FCyl:2", "C3*SO2:2"]
CASE_TIMEOUT = 240


def prewarm(tier):
    G("Octa")
    if tier != "quick":
        G("Ico")


def cases(tier, rng):
    out = []
    for s in FIN + (["Ico", "FOcta", "D8", "C12", "D12"] if tier != "quick" else []):
        out.append(Case("regular", spec=s))
        ids = subgroup_ids(G(s))
        cap = 6 if tier == "quick" else 40
        if len(ids) > cap:
            ids = rng.sample(ids, cap)
        for i in ids:
            out.append(Case("quotient", spec=s, id=i))
            out.append(Case("homspace", spec=s, id=i))
    for s in INF:
        ids = subgroup_ids(G(s))
        cap = 8 if tier == "quick" else 60
        if len(ids) > cap:
            ids = rng.sample(ids, cap)
        for i in ids:
            out.append(Case("homspace", spec=s, id=i))
            if kind(G(s)) in ("SO3", "O3") and i not in ("so3", "o3"):
                out.append(Case("homspace", core=False, spec=s, id=i, adj=True))
    for s in ["SO2:4", "O2:4", "SO3:4", "O3:4", "C8", "D6", "D5", "C7", "Octa"] + (["Ico"] if tier != "quick" else []):
        out.append(Case("bandlimited", spec=s))
    return out


def key(M):
    return tuple((np.round(np.asarray(M), 4) + 0.).reshape(-1))


def table(g):
    E = list(g.elements)
    M = [mat(e) for e in E]
    return E, M, {key(x): i for i, x in enumerate(M)}


def regular(m, spec):
    g = G(spec)
    E, M, idx = table(g)
    r = g.regular_representation
    m.check(r.size == len(E), "regular-size", group=spec)
    for a in range(len(E)):
        P = np.zeros((len(E), len(E)))
        for b in range(len(E)):
            P[idx[key(M[a] @ M[b])], b] = 1
        m.close(r(E[a]), P, "regular-permutes-elements", 1e-6, group=spec, a=E[a])
        if a < 4:
            m.close(float(r.character(E[a])), float(np.trace(P)), "regular-character", 1e-6, group=spec)
    m.check(all(r.multiplicity(i.id) * i.sum_of_squares_constituents == i.size for i in g.irreps()), "regular-multiplicities", group=spec)
    m.event("regular", f"{spec}:{len(E)}")


def quotient(m, spec, id):
    g = G(spec)
    sid = tup(id)
    rng = m.rng()
    E, M, idx = table(g)
    H, inc, res = g.subgroup(sid)
    Hm = [mat(inc(h)) for h in H.elements]
    lab = f"{spec}/{sid}"
    # cosets by the matrix model
    coset = -np.ones(len(E), int)
    reps = []
    for i in range(len(E)):
        if coset[i] < 0:
            for h in Hm:
                coset[idx[key(M[i] @ h)]] = len(reps)
            reps.append(i)
    k = len(reps)
    m.check(k * H.order() == g.order(), "cosets-partition", sub=lab)
    q = g.quotient_representation(sid)
    m.check(q.size == k, "quotient-size", sub=lab, got=q.size, want=k)
    mats = [np.asarray(q(e), float) for e in E]
    m.event("quotient", f"{lab}:{k}")
    for e, P in zip(E, mats):
        R = np.round(P)
        m.close(P, R, "quotient-permutation", 1e-6, sub=lab, g=e)
        m.check((R.sum(0) == 1).all() and (R.sum(1) == 1).all() and (R >= 0).all(), "quotient-permutation", sub=lab, g=e)
    # as a G-set: transitive, and one of its points is stabilised by exactly H
    m.check(all(any(P[i, 0] > .5 for P in mats) for i in range(k)), "quotient-transitive", sub=lab)
    hk = set(key(h) for h in Hm)
    stab = [set(key(M[a]) for a in range(len(E)) if mats[a][i, i] > .5) for i in range(k)]
    m.check(any(s == hk for s in stab), "quotient-stabiliser-is-the-subgroup", sub=lab)
    # induced representations
    psis = list(H.irreps())
    sel = [psis[i] for i in sorted(rng.choice(len(psis), min(3, len(psis)), replace=False))]
    hidx = {key(mat(inc(h))): h for h in H.elements}
    inv = [np.linalg.inv(x) for x in M]
    for n, psi in enumerate(sel):
        if psi.size * k > 72:
            continue
        ind = g.induced_representation(sid, psi)
        m.check(ind.size == psi.size * k, "induced-size", sub=lab, psi=psi)
        for a in list(rng.choice(len(E), min(10, len(E)), replace=False)):
            A = np.asarray(ind(E[a]), float)
            chi = 0.
            for x in range(len(E)):
                h = hidx.get(key(inv[x] @ M[a] @ M[x]))
                if h is not None:
                    chi += float(np.trace(np.asarray(psi(h), float)))
            m.close(float(np.trace(A)), chi / H.order(), "induced-character", 1e-6, sub=lab, psi=psi, g=E[a])
            B = np.abs(A).reshape(k, psi.size, k, psi.size).max((1, 3)) > 1e-6
            m.check((B.sum(0) == 1).all() and (B.sum(1) == 1).all(), "induced-permutes-fibres", sub=lab, psi=psi, g=E[a])
        # with explicit representatives the matrices are determined: rho(g) e_(i,p) = sum_q psi(h)_qp e_(j,q), g r_i = r_j h
        for trial in range(2):
            rr = []
            for c in rng.permutation(k):
                members = [i for i in range(len(E)) if coset[i] == c]
                rr.append(members[rng.randint(len(members))])
            for nm in ((None,) if trial == 0 else (f"ind_{rng.randint(10**9)}",)):
                ind = g.induced_representation(sid, psi, representatives=[E[i] for i in rr], name=nm)
                pos = {coset[i]: j for j, i in enumerate(rr)}
                for a in list(rng.choice(len(E), min(6, len(E)), replace=False)):
                    W = np.zeros((k, psi.size, k, psi.size))
                    for i, ri in enumerate(rr):
                        t = M[a] @ M[ri]
                        j = pos[coset[idx[key(t)]]]
                        h = hidx[key(inv[rr[j]] @ t)]
                        W[j, :, i, :] = np.asarray(psi(h), float)
                    m.close(np.asarray(ind(E[a]), float), W.reshape(ind.size, ind.size), "induced-with-representatives", 1e-6, sub=lab, psi=psi,
                            g=E[a], site="named" if nm else "default-name")
        m.event("induced", f"{lab}:{psi.id}")
    rr = [E[[i for i in range(len(E)) if coset[i] == c][-1]] for c in rng.permutation(k)]
    qq = g.quotient_representation(sid, representatives=rr)
    pos = {coset[idx[key(mat(r))]]: j for j, r in enumerate(rr)}
    for a in list(rng.choice(len(E), min(6, len(E)), replace=False)):
        W = np.zeros((k, k))
        for i, r in enumerate(rr):
            W[pos[coset[idx[key(M[a] @ mat(r))]]], i] = 1
        m.close(np.asarray(qq(E[a]), float), W, "quotient-with-representatives", 1e-6, sub=lab, g=E[a])


def homspace(m, spec, id, adj=False):
    g = G(spec)
    sid = tup(id)
    rng = m.rng()
    lab = f"{spec}/{sid}/{adj}"
    if adj:
        sid = adj_id(g, sid, elements(g, rng, 3, False)[-1])
    X = g.homspace(sid)
    H, inc, res = g.subgroup(sid)
    m.check(X.H == H and X.G == g, "homspace-groups", sub=lab)
    E = elements(g, rng, 4)
    HE = elements(H, rng, 4) if H.order() < 0 else list(H.elements)
    hE = [HE[i] for i in rng.randint(0, len(HE), 5)]
    Him = set(key(mat(inc(h))) for h in HE) if H.order() > 0 else None
    for _ in range(4):
        a, h = E[rng.randint(len(E))], HE[rng.randint(len(HE))]
        m.check(X.same_coset(a, a @ inc(h)), "same-coset", sub=lab, g=a, h=h)
        b = E[rng.randint(len(E))]
        if Him is not None:
            m.check(X.same_coset(a, b) == (key(np.linalg.inv(mat(a)) @ mat(b)) in Him), "same-coset-iff", sub=lab, a=a, b=b)
            b = inc(h) @ a
            m.check(X.same_coset(a, b) == (key(np.linalg.inv(mat(a)) @ mat(b)) in Him), "same-coset-iff", sub=lab, a=a, b=b)
    irr = irreps_of(g, 2)
    if len(irr) > 7:
        irr = [irr[j] for j in sorted(rng.choice(len(irr), 7, replace=False))]
    L = max(degree(g, r) for r in irr)
    quad_h, wh = haar(H, 2 * L + 1)
    if len(quad_h) > 1500:
        j = None
    quad_g, wg = (haar(g, 2 * L) if g.order() < 0 else (list(g.elements), np.full(g.order(), 1. / g.order())))
    psis = irreps_of(H, 2)
    if len(psis) > 4:
        psis = [psis[j] for j in sorted(rng.choice(len(psis), 4, replace=False))]
    triv = H.trivial_representation
    if triv not in psis:
        psis.append(triv)
    for rho in irr:
        chi_r = np.array([float(np.trace(np.asarray(rho(inc(h)), float))) for h in quad_h])
        Rg = np.array([np.asarray(rho(a), float) for a in quad_g]) if len(quad_g) <= 400 else None
        for psi in psis:
            chi_p = np.array([float(np.trace(np.asarray(psi(h), float))) for h in quad_h])
            want = float((wh * chi_r * chi_p).sum()) / rho.sum_of_squares_constituents
            n = int(round(want))
            tag = dict(sub=lab, rho=rho.id, psi=psi.id)
            m.close(want, float(n), "harness-multiplicity-integer", 1e-4, **tag)
            d = tuple(X.dimension_basis(rho.id, psi.id))
            m.check(d == (rho.size, n, psi.size), "basis-dimension", got=d, want=n, **tag)
            m.event("basis", f"{lab}:{rho.id}:{psi.id}:{n}")
            a, b = E[rng.randint(len(E))], E[rng.randint(len(E))]
            Ba, Bb = X.basis(a, rho, psi), X.basis(b, rho.id, psi.id)
            m.check(Ba.shape == d, "basis-shape", got=Ba.shape, want=d, **tag)
            m.close(Bb, np.einsum("oi,ijp->ojp", np.asarray(rho(b @ ~a), float), Ba), "basis-left-equivariance", 1e-6, **tag)
            m.close(X.basis(b, rho, psi), Bb, "basis-repeatable", 1e-12, **tag)
            if n == 0:
                continue
            for h in hE[:3]:
                m.close(X.basis(a @ inc(h), rho, psi), np.einsum("ijp,pq->ijq", Ba, np.asarray(psi(h), float)), "basis-stabiliser", 1e-6, h=h, **tag)
            if psi == triv:
                m.close(X.scalar_basis(a, rho), Ba, "scalar-basis", 1e-9, **tag)
            # orthonormal: int sum_p B_omp B_o'm'p = dpsi/drho delta delta
            B0 = X.basis(g.identity, rho, psi)
            if Rg is not None:
                BB = np.einsum("goi,imp->gomp", Rg, B0)
                Gm = np.einsum("g,gomp,gxyp->omxy", wg, BB, BB).reshape(rho.size * n, rho.size * n)
                m.close(Gm, np.eye(rho.size * n) * psi.size / rho.size, "basis-orthonormal", 1e-5, **tag)
            else:
                # by Schur: it is enough that the vectors are independent under the commutant of rho
                V = np.einsum("kij,jmp->kimp", rho.endomorphism_basis(), B0)
                V = V.transpose(0, 2, 1, 3).reshape(-1, rho.size * psi.size)
                m.check(np.linalg.matrix_rank(V, 1e-6) == len(V), "basis-independent", **tag)
    for psi in psis[:3]:
        sel = [r for r in irr if X.dimension_basis(r.id, psi.id)[1] > 0]
        ind = X.induced_representation(psi, [r.id for r in irr])
        m.check((ind is None) == (not sel), "induced-spectral-empty", sub=lab, psi=psi.id)
        if ind is None:
            continue
        want = [r.id for r in irr for _ in range(X.dimension_basis(r.id, psi.id)[1])]
        m.check(list(ind.irreps) == want, "induced-spectral-irreps", sub=lab, psi=psi.id, got=ind.irreps, want=want)
        for _ in range(3):
            a, b = E[rng.randint(len(E))], E[rng.randint(len(E))]
            ka, kb = [X.complete_basis(x, psi, [r.id for r in irr]) for x in (a, b)]
            m.check(ka.shape == (ind.size,), "complete-basis-shape", sub=lab, psi=psi.id)
            m.close(kb, np.asarray(ind(b @ ~a), float) @ ka, "complete-basis-equivariance", 1e-6, sub=lab, psi=psi.id)


def bandlimited(m, spec):
    g = G(spec)
    rng = m.rng()
    k = kind(g)
    E = elements(g, rng, 4)
    # band limits beyond the irreps built so far too, in an order that is not increasing
    top = {"SO2": 9, "O2": 9, "SO3": 5, "O3": 4}.get(k)
    for L in [0, 1, 2, 3] + ([] if top is None else [int(x) for x in rng.permutation(np.arange(4, top + 1))] + [top - 1, 2]):
        if k in ("C", "D") and L > (g.order() if k == "C" else g.order() // 2) // 2:
            continue
        ids = g.bl_irreps(L) if hasattr(g, "bl_irreps") else None
        if ids is not None:
            if k in ("SO2", "SO3"):
                m.check(sorted(ids) == [(i,) for i in range(L + 1)], "bl-irreps", group=spec, L=L, got=ids)
            elif k == "O2":
                m.check(sorted(ids) == sorted([(0, 0)] + [(1, i) for i in range(L + 1)]), "bl-irreps", group=spec, L=L, got=ids)
            elif k == "O3":
                m.check(sorted(ids) == sorted([(j, i) for i in range(L + 1) for j in (0, 1)]), "bl-irreps", group=spec, L=L, got=ids)
            elif k == "C":
                m.check(sorted(ids) == [(i,) for i in range(min(L, g.order() // 2) + 1)], "bl-irreps", group=spec, L=L, got=ids)
            m.event("bl-irreps", f"{spec}:{L}:{len(ids)}")
            r = g.spectral_regular_representation(*ids)
            for i in ids:
                ir = g.irrep(*i)
                m.check(r.multiplicity(i) == ir.size // ir.sum_of_squares_constituents, "spectral-regular-multiplicity", group=spec, L=L, irrep=i)
            m.check(r.size == sum(g.irrep(*i).size ** 2 // g.irrep(*i).sum_of_squares_constituents for i in ids), "spectral-regular-size", group=spec, L=L)
        if hasattr(g, "bl_regular_representation") and k != "Ico":
            r2 = g.bl_regular_representation(L)
            if ids is not None:
                m.check(sorted(r2.irreps) == sorted(r.irreps), "bl-regular", group=spec, L=L)
        if hasattr(g, "bl_sphere_representation"):
            r = g.bl_sphere_representation(L)
            want = [(i,) if k == "SO3" else (i % 2, i) for i in range(L + 1)]
            m.check(sorted(r.irreps) == sorted(want), "bl-sphere", group=spec, L=L, got=r.irreps)
        if hasattr(g, "bl_induced_representation") and L <= 3:
            for sid in subgroup_ids(g, rng, 3):
                H, X = g.subgroup(sid)[0], g.homspace(sid)
                psi = irreps_of(H, 2)
                psi = psi[rng.randint(len(psi))]
                want = []
                for i in ids:
                    want += [i] * X.dimension_basis(i, psi.id)[1]
                if want:
                    r = g.bl_induced_representation(L, psi, sid)
                    m.check(sorted(r.irreps) == sorted(want), "bl-induced", group=spec, L=L, sub=sid, psi=psi, got=r.irreps, want=want)
        if hasattr(g, "bl_quotient_representation") and L <= 4:
            for sid in subgroup_ids(g, rng, 4 if L <= 3 else 1):
                H, inc, _ = g.subgroup(sid)
                X = g.homspace(sid)
                want = []
                for i in ids:
                    want += [i] * X.dimension_basis(i, H.trivial_representation.id)[1]
                if not want:
                    continue
                r = g.bl_quotient_representation(L, sid)
                m.check(sorted(r.irreps) == sorted(want), "bl-quotient", group=spec, L=L, sub=sid, got=r.irreps, want=want)
                q, wq = haar(H, L + 1)
                inv = float(sum(w * np.trace(np.asarray(r(inc(h)), float)) for h, w in zip(q, wq)))
                m.check(inv > .99, "quotient-has-invariant-vector", group=spec, L=L, sub=sid)
