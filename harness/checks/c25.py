"""C25: the library's own equivariance self-checks tell equivariant modules from others, and the elements they test with cover the group."""
import contextlib, io, types
from core import Case, Skip
from nnlib import *
import zoo

RULE = ("a case = one module whose check_equivariance is run as built and again with a forward pass that was made non-equivariant, or one group whose testing elements are collected; "
        "a state = distinct (module, space, verdict) or (group, number of testing elements)")
ASSUMPTIONS = ["modules whose check_equivariance is documented as untestable (pooling, batch normalisation, dropout) are not judged", "planar spaces, where every self-check can build its own input"]
CASE_TIMEOUT = 200
NAMES = ["pointwise", "norm", "gated1", "concatenated", "vectorfield", "inducednorm", "inducedgated", "reshuffle", "grouppool", "normpool", "inducednormpool", "tensorproduct", "disentangle",
         "restriction", "fourier", "identity"]
ZERO = ["linear", "tensorproduct", "harmonic", "identity"]
GROUPS = ["C1", "C2", "C3", "C8", "D1", "D2", "D3", "D6", "SO2", "O2", "SO3", "O3", "Octa", "Ico", "Cyl:3", "CylD3", "C2*C4", "FOcta", "FIco", "Dbl(C3)", "D4*C2", "T"]


def cases(tier, rng):
    k = 1 if tier == "quick" else 6
    out = []
    for i in range(4 * k):
        for n in NAMES:
            out.append(Case("module", name=n, dim=2, i=i))
        for n in ZERO:
            out.append(Case("module", name=n, dim=0, i=i))
        for d in (2, 3):
            out.append(Case("module", name="pointconv", dim=d, i=i))
    for i in range(12 * k):
        out.append(Case("composite", i=i))
    for g in GROUPS:
        out.append(Case("elements", g=g))
    return out


def run(mod):
    """None if the self-check accepts the module, its message if it rejects it; anything else is raised."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf), np.errstate(all="ignore"):
        try:
            mod.check_equivariance(atol=2e-3, rtol=2e-3 if not isinstance(mod, (enn.FourierPointwise, enn.QuotientFourierPointwise)) else 5e-1)
        except AssertionError as e:
            return str(e) or "rejected"
    return None


def corrupt(mod, rng, elements, tin, tout, to_out=lambda g: g):
    """Make forward() add a linear map of the pooled input that is not an intertwiner; returns False if the group cannot notice."""
    R = 4 * rng.randn(tout.size, tin.size)
    gap = max([np.abs(tout.representation(g) @ R - R @ tin.representation(to_out(g))).max() for g in elements] or [0.])
    if gap < .5:
        return False
    plain = mod.forward
    M = T(R)

    def forward(self, x, *a, **k):
        y = plain(x, *a, **k)
        t = x.tensor.flatten(2).mean(2) if x.tensor.dim() > 2 else x.tensor
        e = t @ M.to(t.dtype).T
        v = y.tensor + e.reshape(e.shape + (1,) * (y.tensor.dim() - 2))
        return enn.GeometricTensor(v, y.type, y.coords)
    mod.forward = types.MethodType(forward, mod)
    return True


def verdicts(m, mod, rng, tag, elements, tin, tout, to_out=lambda g: g):
    torch.manual_seed(int(rng.randint(2 ** 31)))
    np.random.seed(int(rng.randint(2 ** 31)))
    mod.eval()
    msg = run(mod)
    m.event("accepts", tag)
    m.check(msg is None, "accepts-equivariant", tag=tag, message=(msg or "")[:300])
    if not corrupt(mod, rng, elements, tin, tout, to_out):
        m.event("nothing-to-notice")
        return
    msg = run(mod)
    m.event("rejects", tag)
    m.check(msg is not None, "rejects-non-equivariant", tag=tag)


def module(m, name, dim, i):
    rng = m.rng()
    for _ in range(10):
        spec = zoo.make(name, rng, dim)
        if spec.t.size <= 40 and kind(spec.sp.fibergroup) not in ("SO3", "O3") or name == "harmonic":
            break
    else:
        raise Skip("no small instance")
    mod = spec.build()
    randomize(mod, rng, .5)
    tag = f"{type(mod).__name__}:{spec.sp.name}"
    G_ = spec.sp.fibergroup
    els = list(G_.testing_elements())
    els = els if len(els) <= 40 else [els[j] for j in rng.choice(len(els), 40, replace=False)]
    to_out = lambda g: g
    if name == "restriction":
        _, up, _ = spec.sp.restrict(mod._id)
        els, to_out = list(mod.out_type.gspace.fibergroup.testing_elements())[:40], up
    if name == "harmonic" and mod.out_type.size == 1:
        raise Skip("invariant output")
    verdicts(m, mod, rng, tag, els, mod.in_type, mod.out_type, to_out)


def composite(m, i):
    rng = m.rng()
    sp = space([["rot2dOnR2", {"N": 4}], ["flipRot2dOnR2", {"N": 2}], ["flip2dOnR2", {}], ["rot2dOnR2", {"N": 2}]][i % 4])
    t = rand_type(sp, rng, nf=3, max_field=6, maxf=2, max_size=12)
    class Mix(enn.EquivariantModule):
        """An intertwiner acting on fibres only, checked by the default implementation."""

        def __init__(self):
            super().__init__()
            self.in_type = self.out_type = t
            self.s = .5

        def forward(self, x):
            return enn.GeometricTensor(x.tensor * self.s, self.out_type, x.coords)

        def evaluate_output_shape(self, s):
            return s
    mods = [Mix(), enn.IdentityModule(t)]
    mod = enn.SequentialModule(*mods) if rng.rand() < .7 else mods[0]
    els = list(sp.testing_elements)
    verdicts(m, mod, rng, f"{type(mod).__name__}:{sp.name}", els, t, t)


def elements(m, g):
    grp = G(g)
    E = list(grp.testing_elements())
    m.event("testing-elements", f"{grp.name}:{len(E)}")
    m.check(len(E) > 0 and all(e.group == grp for e in E), "testing-elements-of-the-group", group=grp.name)
    m.check(len(set(E)) == len(E), "testing-elements-distinct", group=grp.name)
    if not grp.continuous:
        # they generate the whole group
        S, front = {grp.identity}, [grp.identity]
        while front:
            new = []
            for a in front:
                for e in E[:6] + E[-6:]:
                    b = a @ e
                    if b not in S:
                        S.add(b)
                        new.append(b)
            front = new
        m.check(len(S | set(E)) == grp.order(), "testing-elements-generate", group=grp.name, got=len(S), want=grp.order())
    else:
        # every irrep moves under some of them: no non-trivial irrep looks invariant
        for psi in grp.irreps():
            if not psi.is_trivial():
                m.check(max(np.abs(psi(e) - np.eye(psi.size)).max() for e in E) > .1, "testing-elements-move-every-irrep", group=grp.name, irrep=psi.name)
    sp = gs.no_base_space(grp)
    m.check([str(e) for e in sp.testing_elements] == [str(e) for e in E], "space-tests-with-the-group", group=grp.name)
    t = enn.FieldType(sp, [sp.trivial_repr])
    m.check([str(e) for e in t.testing_elements] == [str(e) for e in E], "type-tests-with-the-group", group=grp.name)
