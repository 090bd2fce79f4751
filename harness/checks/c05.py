"""C05: restricting a representation = composing it with the inclusion of the subgroup."""
import numpy as np
from core import Case
from lib import *
RULE = ("a case = one group, one subgroup id (possibly conjugated), several representations (irreps, sums, tensor products, regular); the "
        "restricted representation is compared with rho(inclusion(h)) for random and edge h, and judged as a representation itself")
SPECS = ["C1", "C4", "C6", "C12", "D1", "D2", "D3", "D4", "D6", "D12", "SO2:4", "O2:4", "SO3:3", "O3:3", "Octa", "Ico", "CylD4", "FCylD4", "C3*D2",
         "C4*C6", "Dbl(C4)", "Dbl(D3)", "Cyl:2", "FCyl:2", "C4*SO2:2", "FOcta", "SO3:1*C3"]
CASE_TIMEOUT = 240


def prewarm(tier):
    G("Octa"), G("Ico")


def cases(tier, rng):
    out = []
    for s in SPECS:
        g = G(s)
        ids = subgroup_ids(g)
        cap = 8 if tier == "quick" else 40
        if s in ("SO3:3", "O3:3", "O2:4", "SO2:4", "D6", "D12", "C12"):
            cap = 60
        if len(ids) > cap:
            ids = rng.sample(ids, cap)
        for i in ids:
            out.append(Case("restrict", spec=s, id=i))
            if kind(g) in ("SO3", "O3", "Octa", "Ico"):
                out.append(Case("restrict", core=False, spec=s, id=i, adj=True))
    # high frequencies, beyond what a group is usually built with
    for s, n in (("SO2:4", 6), ("O2:4", 6), ("SO3:3", 12), ("O3:3", 12)):
        ids = [i for i in subgroup_ids(G(s)) if not any(t in str(i) for t in ("octa", "ico"))]
        for i in rng.sample(ids, min(n if tier == "quick" else 60, len(ids))):
            out.append(Case("restrict_high", core=False, spec=s, id=i))
    for s, i in (("SO3:3", (False, -1)), ("SO3:3", (True, -1)), ("SO3:3", (True, 2)), ("SO3:3", "ico"), ("SO3:3", "octa"), ("O2:4", (0., 3)), ("SO2:4", 5)):
        out.append(Case("restrict_high", spec=s, id=i))
    for i in range(10 if tier == "quick" else 120):
        out.append(Case("chain", core=False, i=i, spec=rng.choice(["D12", "C12", "SO2:3", "O2:3", "SO3:2", "O3:2", "D6", "FCylD4", "CylD4"])))
    return out


def compare(m, g, rho, sid, rng, lab, tag):
    H, inc, res = g.subgroup(sid)
    r = rho.restrict(sid)
    m.check(r.group == H, "restricted-group", sub=lab, rep=tag)
    m.check(r.size == rho.size, "restricted-size", sub=lab, rep=tag)
    E = elements(H, rng, 5)
    if H.order() > 0:
        E = list(H.elements)[:24] + E[:4]
    for h in E:
        m.close(np.asarray(r(h), float), np.asarray(rho(inc(h)), float), "restriction-is-composition", 1e-6, sub=lab, rep=tag, h=h)
    h = E[-1]
    m.close(float(r.character(h)), float(np.trace(np.asarray(rho(inc(h)), float))), "restricted-character", 1e-6, sub=lab, rep=tag)
    m.close(expected_matrix(r, h), np.asarray(r(h), float), "restricted-decomposition", 1e-6, sub=lab, rep=tag)
    m.check(set(rho.supported_nonlinearities) <= set(r.supported_nonlinearities), "restricted-keeps-nonlinearities", sub=lab, rep=tag)
    r2 = rho.restrict(sid)
    m.check(r2 == r, "restriction-repeatable", sub=lab, rep=tag)
    m.event("restriction", f"{lab}:{tag[:30]}")
    return r


def restrict(m, spec, id, adj=False):
    g = G(spec)
    sid = tup(id)
    rng = m.rng()
    lab = f"{spec}/{sid}/{adj}"
    if adj:
        sid = adj_id(g, sid, elements(g, rng, 3, False)[-1])
    irr = irreps_of(g, 3 if kind(g) in ("SO2", "O2", "SO3", "O3") else 2)
    if len(irr) > 8:
        irr = [irr[j] for j in sorted(rng.choice(len(irr), 8, replace=False))]
    for r in irr:
        compare(m, g, r, sid, rng, lab, f"irrep{r.id}")
    for _ in range(2):
        r, d = rand_rep(g, rng, 2, 24, ["sum", "tensor", "basis", "regular", "sum", "skew"])
        compare(m, g, r, sid, rng, lab, d)


def restrict_high(m, spec, id):
    g = G(spec)
    rng = m.rng()
    sid = tup(id)
    k = kind(g)
    top = 26 if k in ("SO2", "O2") else 8 if k == "SO3" else 6
    ls = {top} | {int(x) for x in rng.randint(3, top + 1, 2 if k == "SO3" else 4)}
    if str(id) in ("ico", "octa"):
        ls = {6}
    for l in sorted(ls):
        r = g.irrep(l) if k in ("SO2", "SO3") else g.irrep(1, l) if k == "O2" else g.irrep(int(rng.randint(2)), l)
        t = f"{spec}/{sid}/high"
        compare(m, g, r, sid, rng, t, f"irrep{r.id}")
        if k in ("SO3", "O3") and rng.rand() < .4:
            compare(m, g, r, adj_id(g, sid, elements(g, rng, 3, False)[-1]), rng, t + "/adj", f"irrep{r.id}")


def chain(m, spec, i):
    """G > H > K: restricting twice equals composing the two inclusions."""
    g = G(spec)
    rng = m.rng()
    for _ in range(3):
        ids = subgroup_ids(g)
        s1 = ids[rng.randint(len(ids))]
        H, i1, _ = g.subgroup(s1)
        ids2 = subgroup_ids(H)
        if not ids2:
            continue
        s2 = ids2[rng.randint(len(ids2))]
        K, i2, _ = H.subgroup(s2)
        irr = irreps_of(g, 2)
        rho = irr[rng.randint(len(irr))]
        r = rho.restrict(s1).restrict(s2)
        for k in elements(K, rng, 4):
            m.close(np.asarray(r(k), float), np.asarray(rho(i1(i2(k))), float), "restriction-chain", 1e-6, sub=f"{spec}/{s1}/{s2}", rep=rho)
        m.event("chain", f"{spec}/{s1}/{s2}")
