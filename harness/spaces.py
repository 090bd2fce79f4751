"""G-spaces by JSON description, the documented isometries they stand for, and representation workloads on them."""
import math
import numpy as np
import core
from lib import *
import escnn.gspaces as gs
import escnn.kernels as ek

TWO_D = [["rot2dOnR2", {"N": n}] for n in (1, 2, 3, 4, 5, 6, 8, 12, -1)] + \
        [["flipRot2dOnR2", {"N": n}] for n in (1, 2, 3, 4, 6, 8, -1)] + \
        [["flipRot2dOnR2", {"N": n, "axis": a}] for n, a in ((4, 0.0), (4, math.pi / 4), (3, 0.3), (2, 1.1), (1, 0.7), (-1, 0.0), (-1, 0.4), (6, 2.5))] + \
        [["flip2dOnR2", {}], ["flip2dOnR2", {"axis": 0.0}], ["flip2dOnR2", {"axis": 0.9}], ["trivialOnR2", {}]]
THREE_D = [["flipRot3dOnR3", {}], ["rot3dOnR3", {}], ["fullOctaOnR3", {}], ["octaOnR3", {}], ["icoOnR3", {}], ["fullIcoOnR3", {}],
           ["invOnR3", {}], ["trivialOnR3", {}], ["mirOnR3", {}], ["mirOnR3", {"axis": 0.4}], ["mirOnR3", {"axis": 0.0, "adj": 3}]] + \
          [["rot2dOnR3", {"n": n}] for n in (1, 2, 3, 4, 6, -1)] + [["rot2dOnR3", {"n": 4, "adj": 1}], ["rot2dOnR3", {"n": -1, "adj": 2}]] + \
          [["dihedralOnR3", {"n": n}] for n in (1, 2, 3, 4, -1)] + \
          [["dihedralOnR3", {"n": 3, "axis": 0.2}], ["dihedralOnR3", {"n": 2, "axis": 0.0, "adj": 4}], ["dihedralOnR3", {"n": -1, "axis": 0.7}]] + \
          [["conicalOnR3", {"n": n}] for n in (1, 2, 4, -1)] + [["conicalOnR3", {"n": 3, "axis": 0.5}], ["conicalOnR3", {"n": 2, "axis": 0.0, "adj": 5}], ["conicalOnR3", {"n": -1, "axis": 0.3}]] + \
          [["cylindricalOnR3", {"n": n}] for n in (1, 2, 3, 4, -1)] + [["cylindricalOnR3", {"n": 4, "adj": 6}]] + \
          [["fullCylindricalOnR3", {"n": n}] for n in (1, 2, 3, -1)] + [["fullCylindricalOnR3", {"n": 2, "axis": 0.6}], ["fullCylindricalOnR3", {"n": 2, "axis": 0.0, "adj": 7}]]


def adj_matrix(seed):
    return rand_rot(np.random.RandomState(1000 + seed))


def space(d):
    name, kw = d
    kw = dict(kw)
    if name == "point":
        return gs.no_base_space(G(kw["group"]))
    if "adj" in kw:
        kw["adjoint"] = eg.o3_group(2).element((int(kw["adj"] % 2), adj_matrix(kw.pop("adj"))), "MAT")
    return getattr(gs, name)(**kw)


def sname(d):
    return d[0] + "".join(f",{k}={v:.3g}" if isinstance(v, (int, float)) else f",{k}={v}" for k, v in sorted(d[1].items()))


def reps_for(space_, rng, max_size=9, n=2, maxf=2, kinds=None, skew=False):
    g = space_.fibergroup
    return [rand_rep(g, rng, maxf, max_size, kinds or ["irrep", "irrep", "sum", "basis", "regular", "quotient", "tensor"] + (["skew"] if skew else []), order_cap=12) for _ in range(n)]


def npts(rng, d, n=6):
    """Random points at several scales, the origin, points on axes and near the origin."""
    P = [rng.randn(d) * s for s in (.3, 1., 1., 2., 3.) for _ in range(max(1, n // 5))]
    P += [np.zeros(d), 1e-3 * rng.randn(d)]
    for i in range(d):
        e = np.zeros(d)
        e[i] = 1. + i * .5
        P += [e, -.7 * e]
    return np.array(P)


def action_elements(g, rng, n=5):
    E = elements(g, rng, 4)
    return [E[i] for i in rng.choice(len(E), min(n, len(E)), replace=False)]
