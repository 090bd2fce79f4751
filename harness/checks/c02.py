"""C02: everything the library calls a representation is an orthogonal matrix representation."""
import numpy as np
from core import Case
from lib import *

RULE = ("a case = one group and one family of constructors; every Representation object constructed while it runs (caught "
        "by a monitor on the constructor, including intermediate ones) is checked on random and edge elements for "
        "rho(e)=1, rho(ab)=rho(a)rho(b), inverse, orthogonality, character = trace and agreement with its declared "
        "decomposition into irreps; non-trivial if at least one representation was observed")
ASSUMPTIONS = ["orthogonality is only required of representations whose change of basis is orthogonal"]

GROUPS = ["C1", "C2", "C3", "C4", "C5", "C8", "C12", "D1", "D2", "D3", "D4", "D6", "D8", "SO2:4", "O2:4", "SO3:4", "O3:3",
          "Octa", "FOcta", "Ico", "CylD4", "FCylD3", "FCylD4", "Cyl:3", "FCyl:2", "C3*D2", "C4*C3", "C3*C3", "D3*D2",
          "Dbl(C3)", "Dbl(D3)", "SO3:2*C3", "C4*SO2:2", "SO2:2*SO2:2"]
CASE_TIMEOUT = 200


def prewarm(tier):
    G("Octa"), G("Ico")


def cases(tier, rng):
    out = []
    for s in GROUPS:
        out.append(Case("irreps", spec=s))
        out.append(Case("constructed", spec=s, i=0))
        out.append(Case("library_reps", spec=s))
    n = 24 if tier == "quick" else 300
    for i in range(n):
        s = rng.choice(GROUPS + ["C%d" % rng.randint(1, 24), "D%d" % rng.randint(1, 12), "C%d*C%d" % (rng.randint(2, 6), rng.randint(2, 6))])
        out.append(Case("constructed", core=False, spec=s, i=i + 1))
    for s in ["SO2:9", "O2:9", "SO3:8", "O3:7"]:
        out.append(Case("irreps", spec=s, maxf=int(s.split(":")[1])))
    return out


class Spy:
    """Monitor on the constructor: every Representation made while active is kept for checking."""
    def __init__(self):
        self.made = []

    def __enter__(self):
        self.orig = eg.Representation.__init__
        made, orig = self.made, self.orig

        def init(self_, *a, **k):
            orig(self_, *a, **k)
            made.append(self_)
        eg.Representation.__init__ = init
        return self

    def __exit__(self, *a):
        eg.Representation.__init__ = self.orig


def is_orth(M):
    M = np.asarray(M, float)
    return np.abs(M @ M.T - np.eye(len(M))).max() < 1e-6


def check_all(m, made, rng, tag, cap=60):
    seen = set()
    idx = list(range(len(made)))
    if len(idx) > cap:
        idx = sorted(rng.choice(len(made), cap, replace=False))
    ecache = {}
    for j in idx:
        r = made[j]
        if r.size > 130:
            continue
        key = id(r.group)
        if key not in ecache:
            ecache[key] = elements(r.group, rng, 4)
        co = np.asarray(r.change_of_basis, float)
        m.close(co @ np.asarray(r.change_of_basis_inv, float), np.eye(r.size), "rep-change-of-basis-inverse", 1e-7, rep=r)
        m.check(r.size == sum(r.group.irrep(*i).size for i in r.irreps), "rep-size-is-sum-of-irreps", rep=r)
        check_rep(m, r, rng, 3, 1e-6, tag, orth=is_orth(co), elems=ecache[key])
        triv = r.group.trivial_representation.id
        m.check(r.contains_trivial() == (triv in list(r.irreps)), "rep-contains-trivial", rep=r)
        m.check(all(r.multiplicity(i) == list(r.irreps).count(i) for i in set(r.irreps)), "rep-multiplicity", rep=r)
        m.check(r.multiplicity(("absent",)) == 0, "rep-multiplicity", rep=r)
        if r.is_trivial():
            for e in ecache[key][:5]:
                m.close(r(e), np.eye(1), "rep-trivial-is-trivial", 1e-9, rep=r)
        elif r.size == 1 and r.irreducible:
            m.check(any(abs(float(r(e)[0, 0]) - 1) > 1e-6 for e in (list(r.group.elements)
                        if r.group.order() > 0 else elements(r.group, rng, 20))), "rep-nontrivial-not-flagged-trivial", rep=r)


def irreps(m, spec, maxf=3):
    g = G(spec)
    rng = m.rng()
    with Spy() as s:
        irr = irreps_of(g, maxf)
    E = elements(g, rng, 6)
    for r in irr:
        check_rep(m, r, rng, 12 if m.tier == "quick" else 40, 1e-6, f"{spec}{r.id}", elems=E)
        m.check(r.irreducible and list(r.irreps) == [r.id], "irrep-declares-itself", rep=r)
        m.check(g.irrep(*r.id) == r, "irrep-by-id", rep=r)
    m.event("irrep-family", f"{spec}:{len(irr)}")
    check_all(m, s.made, rng, spec)


def constructed(m, spec, i):
    g = G(spec)
    rng = m.rng()
    with Spy() as s:
        for _ in range(3):
            r, d = rand_rep(g, rng, 2, 40)
            m.event("recipe", d[:60])
        # sums of irreps in a basis that is almost, but not quite, their own
        for _ in range(2):
            irr = irreps_of(g, 2)
            parts = [irr[rng.randint(len(irr))] for _ in range(3)]
            size = sum(p.size for p in parts)
            if size <= 30:
                Q = slight_rotation(rng, size, 10 ** rng.uniform(-3, -2)) if rng.rand() < .7 else np.diag(rng.choice([-1., 1.], size))
                q = eg.directsum(parts, change_of_basis=Q, name=f"near_{rng.randint(10**9)}")
                m.event("near-identity-basis", size)
                for a in elements(g, rng, 4):
                    m.close(q(a), Q @ blockdiag([np.asarray(p(a), float) for p in parts]) @ Q.T, "rep-in-the-given-basis", 1e-6, rep=q, a=a)
        ids = subgroup_ids(g, rng, 3)
        for sid in ids:
            irr = irreps_of(g, 2)
            irr[rng.randint(len(irr))].restrict(sid)
            r.restrict(sid)
    check_all(m, s.made, rng, spec, 30 if m.tier == "quick" else 80)


def library_reps(m, spec):
    """The named constructors."""
    g = G(spec)
    rng = m.rng()
    k = kind(g)
    with Spy() as s:
        kept = [g.trivial_representation]
        if g.order() > 0 and g.order() <= (48 if k == "prod" else 60):
            kept.append(g.regular_representation)
        if k in ("C", "D", "SO2", "O2", "SO3", "O3") or hasattr(g, "bl_regular_representation"):
            for L in (0, 1, 2):
                for nm in ("bl_regular_representation", "bl_sphere_representation"):
                    f = getattr(g, nm, None)
                    if f is not None:
                        kept.append(f(L))
        for nm in ("standard_representation",):
            f = getattr(g, nm, None)
            if f is not None:
                r = f() if callable(f) and not hasattr(f, "irreps") else f
                kept.append(r)
                for a in elements(g, rng, 5):
                    # the standard representation is the defining matrix, where the defining dimension matches
                    M = mat(a)
                    if r.size == M.shape[0] and k in ("SO2", "O2", "SO3", "O3", "Octa", "Ico"):
                        m.close(r(a), M, "standard-representation", 1e-6, group=spec, a=a)
        if g.order() > 0 and g.order() <= 24:
            for sid in subgroup_ids(g, rng, 4):
                kept.append(g.quotient_representation(sid))
                H = g.subgroup(sid)[0]
                psi = list(H.irreps())
                kept.append(g.induced_representation(sid, psi[rng.randint(len(psi))]))
    check_all(m, s.made, rng, spec, 25)
    check_all(m, [r for r in kept if r is not None], rng, spec + ":named")
