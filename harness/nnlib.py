"""Reference models for neural-network level monitors: group action on grids and point clouds, random field types."""
import copy
import numpy as np
import torch
import core
from lib import *
from spaces import *
import escnn.nn as enn


# Known finding F33 (C16, case `tensorlayout`): TensorProductModule raises on a batch of several multi-channel features without spatial
# axes. The other workloads feed such a batch one feature at a time, so that everything else about the module is still watched.
TP_FORWARD = enn.TensorProductModule.forward


def _tp_forward(self, input):
    try:
        return TP_FORWARD(self, input)
    except RuntimeError as e:
        t = getattr(input, "tensor", None)
        if "view size is not compatible" not in str(e) or t is None or t.ndim != 2 or t.shape[0] < 2:
            raise
    ys = [TP_FORWARD(self, enn.GeometricTensor(t[i:i + 1], input.type, None if input.coords is None else input.coords[i:i + 1])) for i in range(t.shape[0])]
    return enn.GeometricTensor(torch.cat([y.tensor for y in ys]), ys[0].type, input.coords)


enn.TensorProductModule.forward = _tp_forward


# ------------------------------------------------------------------------------------------- grids
def grid_coords(shape):
    """Cartesian coordinates (x, y[, z]) of the cells of an array with axes ([z,] y, x): x grows, the others fall."""
    d = len(shape)
    ax = [np.arange(s) - (s - 1) / 2. for s in shape]
    for i in range(d - 1):
        ax[i] = -ax[i]
    M = np.meshgrid(*ax, indexing="ij")
    return np.stack(M[::-1], -1)            # [..., d] as (x, y, z)


def is_signed_perm(A, tol=1e-6):
    A = np.asarray(A, float)
    R = np.round(A)
    return np.abs(A - R).max() < tol and (np.abs(R).sum(0) == 1).all() and (np.abs(R).sum(1) == 1).all()


def grid_act(x, A):
    """x: array [..., *spatial]; returns y(p) = x(A^-1 p) for a signed permutation matrix A (exact)."""
    A = np.round(np.asarray(A, float))
    d = A.shape[0]
    sp = x.shape[-d:]
    # output shape: axis permuted accordingly. axes are ([z],y,x) <-> coordinate index d-1-axis
    out_sp = [0] * d
    for c in range(d):                       # output coordinate c comes from input coordinate c2 with |A[c,c2]|=1
        c2 = int(np.argmax(np.abs(A[c])))
        out_sp[d - 1 - c] = sp[d - 1 - c2]
    P = grid_coords(tuple(out_sp)).reshape(-1, d)
    Q = P @ A                                # A^-1 p = A^T p, row-wise p @ A
    idx = []
    for axis in range(d):
        c = d - 1 - axis
        v = Q[:, c] if axis == d - 1 else -Q[:, c]
        k = np.round(v + (sp[axis] - 1) / 2.).astype(int)
        idx.append(k)
    xf = x.reshape(x.shape[:-d] + (-1,))
    flat = np.ravel_multi_index(tuple(idx), sp)
    return xf[..., flat].reshape(x.shape[:-d] + tuple(out_sp))


def fiber_mat(reps, g):
    return blockdiag([np.asarray(r(g), float) for r in reps])


def fiber_act(x, reps, g):
    M = fiber_mat(reps, g).astype(x.dtype if x.dtype.kind == "f" else float)
    return np.einsum("oi,bi...->bo...", M, x)


def act(x, reps, sp, g):
    """Reference action of g on a grid signal (numpy [B, C, *spatial])."""
    y = fiber_act(x, reps, g)
    if sp.dimensionality == 0:
        return y
    return grid_act(y, np.asarray(sp.basespace_action(g), float))


def grid_elements(sp, rng=None, n=None, nontrivial=True):
    """Elements of the fibre group that map the grid to itself (all of them when they are few)."""
    g = sp.fibergroup
    E = []
    if g.order() > 0:
        cand = list(g.elements)
    else:
        cand = []
        k = kind(g)
        try:
            if k == "SO2":
                cand = [g.element(i * np.pi / 2) for i in range(4)]
            elif k == "O2":
                cand = [g.element((f, i * np.pi / 2)) for f in (0, 1) for i in range(4)]
            elif k in ("SO3", "O3"):
                oc = eg.octa_group()
                for e in oc.elements:
                    q = e.to("Q")
                    cand += [g.element(q, "Q")] if k == "SO3" else [g.element((0, q), "Q"), g.element((1, q), "Q")]
            elif k == "prod":
                A = _cand(g.G1); B = _cand(g.G2)
                cand = [g.element((a.value, b.value)) for a in A for b in B]
        except Exception:
            cand = []
    if sp.dimensionality == 0:
        E = cand or elements(g, rng, 4)
    else:
        E = [e for e in cand if is_signed_perm(sp.basespace_action(e))]
    if not E:
        E = [g.identity]
    if n is not None and len(E) > n:
        nt = [e for e in E if not (sp.dimensionality and np.allclose(sp.basespace_action(e), np.eye(sp.dimensionality)))] or E
        i = rng.choice(len(nt), min(n, len(nt)), replace=False)
        E = [nt[j] for j in i]
    return E


def _cand(g):
    if g.order() > 0:
        return list(g.elements)
    k = kind(g)
    if k == "SO2":
        return [g.element(i * np.pi / 2) for i in range(4)]
    if k == "O2":
        return [g.element((f, i * np.pi / 2)) for f in (0, 1) for i in range(4)]
    return [g.identity]


# ------------------------------------------------------------------------------------------- types
ORTH = ["irrep", "irrep", "sum", "basis", "regular", "quotient"]


def namesake(r, rng, pool=()):
    """A different representation with the same name: another basis of r, or another member of the pool renamed."""
    if r.name in r.group.representations:            # registered names are taken
        return None
    others = [p for p in pool if p.name != r.name]
    if others and rng.rand() < .3:
        o = others[rng.randint(len(others))]
        return eg.Representation(r.group, r.name, o.irreps, o.change_of_basis, o.supported_nonlinearities, change_of_basis_inv=o.change_of_basis_inv)
    if r.size < 2:
        return None
    if "pointwise" in r.supported_nonlinearities:
        Q = np.eye(r.size)[rng.permutation(r.size)]
        sup = set(r.supported_nonlinearities) & {"pointwise", "norm", "gated", "concatenated"}
    else:
        Q, _ = np.linalg.qr(rng.randn(r.size, r.size))
        sup = set(r.supported_nonlinearities) & {"norm", "gated"}
    return eg.Representation(r.group, r.name, r.irreps, Q @ r.change_of_basis, sup, change_of_basis_inv=r.change_of_basis_inv @ Q.T)


def rand_type(sp, rng, nf=None, max_field=8, kinds=None, maxf=2, pool=None, order_cap=12, max_size=40, need=None):
    """Random field type with repeated and interleaved fields."""
    nf = nf or int(rng.randint(1, 6))
    if not pool:
        pool = [rand_rep(sp.fibergroup, rng, maxf, max_field, kinds or ORTH, order_cap=order_cap)[0] for _ in range(int(rng.randint(1, 4)))]
        if rng.rand() < .2:
            own = [r for r in pool if r.name not in r.group.representations] or pool
            n = namesake(own[rng.randint(len(own))], rng, pool)
            pool += [n] if n is not None else []
    if need:
        pool = [r for r in pool if need in r.supported_nonlinearities] or [sp.trivial_repr]
    reps = []
    for _ in range(nf):
        r = pool[rng.randint(len(pool))]
        if reps and sum(x.size for x in reps) + r.size > max_size:
            break
        reps.append(r)
    return enn.FieldType(sp, reps)


def rand_input(rng, t, shape, kind_="normal", dtype=np.float32):
    """shape: (batch, *spatial)."""
    full = (shape[0], t.size) + tuple(shape[1:])
    if kind_ == "normal":
        x = rng.randn(*full)
    elif kind_ == "zero":
        x = np.zeros(full)
    elif kind_ == "tiny":
        x = 1e-6 * rng.randn(*full)
    elif kind_ == "huge":
        x = 1e3 * rng.randn(*full)
    elif kind_ == "sparse":
        x = rng.randn(*full) * (rng.rand(*full) < .2)
    elif kind_ == "ties":
        x = np.round(rng.randn(*full))
    elif kind_ == "negative":
        x = -np.abs(rng.randn(*full))
    else:
        raise ValueError(kind_)
    return x.astype(dtype)


def T(a, dtype=torch.float32):
    return torch.tensor(np.ascontiguousarray(a), dtype=dtype)


def desc(t):
    return ",".join(str(r.name)[:24] for r in t.representations)[:160]


def randomize(mod, rng, scale=1.):
    """Give every parameter (and nothing else) random values."""
    with torch.no_grad():
        for p in mod.parameters():
            if p.requires_grad:
                p.copy_(torch.tensor(np.asarray(rng.randn(*p.shape) * scale), dtype=p.dtype))
    return mod


def randomize_stats(mod, rng):
    """Plausible non-default running statistics."""
    with torch.no_grad():
        for n, b in mod.named_buffers():
            if "running_mean" in n:
                b.copy_(T(rng.randn(*b.shape) * .3, b.dtype))
            elif "running_var" in n:
                b.copy_(T(.5 + rng.rand(*b.shape), b.dtype))
    return mod
