"""C22: predicted output shapes always match the produced tensors."""
from core import Case, Skip
RULE = ("a forward call of a module (hooked at every level of nesting) on an input shape it accepts whose returned shape and type are compared with the predicted ones, for a distinct (module, options, shape)")
import zoo
from nnlib import *


def cases(tier, seed):
    out = []
    k = 3 if tier == "quick" else 20
    GEO = ["conv", "convT", "maxpool", "avgpool", "adaptive", "antialiased", "upsampling", "normmax"]
    for dim in (2, 3, 0):
        for n in zoo.names(dim):
            for i in range(k * (4 if n in GEO else 1)):
                out.append(Case("single", name=n, dim=dim, i=i))
    for i in range(14 * k):
        out.append(Case("branches", i=i))
        out.append(Case("gated2", i=i))
    for i in range(10 * k):
        out.append(Case("padded", i=i))
        out.append(Case("nets", i=i))
    return out


def hook(m, mod):
    """Every equivariant module in the tree checks its own prediction on every forward call."""
    hs = []

    def check(q, inp, out):
        if isinstance(out, dict):
            want = q.evaluate_output_shape(tuple(inp[0].shape))
            m.event("observed", f"{type(q).__name__}:{len(inp[0].shape)}d")
            m.check(set(want) == set(out) and all(tuple(want[l]) == tuple(out[l].shape) for l in out), "predicted-shape", mod=type(q).__name__, got=str({l: tuple(o.shape) for l, o in out.items()}), want=str(want))
            m.check(all(out[l].type == q.out_type[l] for l in out), "declared-type", mod=type(q).__name__)
            return
        if isinstance(inp[0], dict):
            want = q.evaluate_output_shape(**{l: tuple(v.shape) for l, v in inp[0].items()})
            inshape = [tuple(v.shape) for v in inp[0].values()]
        elif isinstance(q.in_type, tuple):
            want = q.evaluate_output_shape(*[tuple(v.shape) for v in inp])
            inshape = [tuple(v.shape) for v in inp]
        else:
            want = q.evaluate_output_shape(tuple(inp[0].shape))
            want2 = q.evaluate_output_shape(inp[0].shape)
            m.check(tuple(want) == tuple(want2), "shape-objects-alike", mod=type(q).__name__)
            inshape = tuple(inp[0].shape)
        got = tuple(out.shape)
        m.event("observed", f"{type(q).__name__}:{inshape}->{got}")
        m.check(tuple(want) == got, "predicted-shape", mod=type(q).__name__, inp=str(inshape), got=got, want=tuple(want))
        m.check(all(isinstance(v, (int, np.integer)) for v in want), "integers", mod=type(q).__name__, want=str(want))
        m.check(out.type == q.out_type and got[1] == q.out_type.size and out.tensor.shape == out.shape, "declared-type", mod=type(q).__name__)

    for q in mod.modules():
        if isinstance(q, enn.EquivariantModule):
            hs.append(q.register_forward_hook(check))
    return hs


def single(m, name, dim, i):
    rng = m.rng()
    spec = zoo.make(name, rng, dim)
    mod = spec.build()
    hook(m, mod)
    nm = type(mod).__name__
    for mode in (True, False):
        mod.train(mode)
        for _ in range(3):
            b = int(rng.choice([1, 2, 3, 5])) if not (mode and spec.stateful) else int(rng.randint(2, 6))
            x = spec.sample(rng, b)
            with torch.no_grad():
                y = spec(mod, x)
            m.check(y.shape[0] == b, "batch-kept", mod=nm)
            if x.ndim > 2 and rng.rand() < .3 and name != "mask":
                with torch.no_grad():
                    spec(mod, np.concatenate([x, x], 2))
    # shapes with the wrong number of channels are not given an answer
    bad = (2, spec.t.size + 1) + tuple(x.shape[2:])
    try:
        mod.evaluate_output_shape(bad)
        m.event("wrong-channels-answered", nm)
    except Exception:
        m.event("wrong-channels-refused", nm)


def padded(m, i):
    """Convolutions whose padding (and output padding) differs per axis."""
    rng = m.rng()
    dim = int(rng.choice([2, 2, 3]))
    sp = zoo.pick_space(rng, dim)
    t = enn.FieldType(sp, [sp.trivial_repr] * 2)
    tr = rng.rand() < .5
    k = int(rng.choice([2, 3, 4] if dim == 2 else [2, 3]))
    pad = tuple(int(v) for v in rng.randint(0, 3, dim))
    kw = dict(kernel_size=k, padding=pad, stride=int(rng.randint(1, 4)), dilation=int(rng.randint(1, 3)), sigma=1.)
    if tr:
        op = tuple(int(v) for v in rng.randint(0, max(kw["stride"], kw["dilation"]), dim))
        kw["output_padding"] = op
        cls = enn.R2ConvTransposed if dim == 2 else enn.R3ConvTransposed
    else:
        kw["padding_mode"] = str(rng.choice(["zeros", "reflect", "circular", "replicate"]))
        cls = enn.R2Conv if dim == 2 else enn.R3Conv
    mod = cls(t, t, **kw)
    hook(m, mod)
    for _ in range(3):
        lo = kw["dilation"] * (k - 1) + 3
        x = torch.randn(2, t.size, *[int(v) for v in rng.randint(lo, lo + 4, dim)])
        y = mod(t(x))
        if not tr:
            # the axes are padded in the order in which the arguments name them
            W, b = mod.expand_parameters()
            f = torch.nn.functional.conv2d if dim == 2 else torch.nn.functional.conv3d
            xp = x.numpy()
            md = {"zeros": "constant", "reflect": "reflect", "replicate": "edge", "circular": "wrap"}[kw["padding_mode"]]
            xp = np.pad(xp, [(0, 0), (0, 0)] + [(p, p) for p in pad], mode=md)
            m.close(y.tensor.detach().numpy(), f(torch.tensor(xp), W, b, stride=kw["stride"], dilation=kw["dilation"]).detach().numpy(), "padding-per-axis", 1e-4, pad=pad, mode=kw["padding_mode"])
        m.event("padded", f"{tr}:{pad}")


def gated2(m, i):
    rng = m.rng()
    dim = int(rng.choice([0, 2, 3]))
    sp = zoo.pick_space(rng, dim)
    t = rand_type(sp, rng, need="gated", max_size=16)
    if not all("gated" in r.supported_nonlinearities for r in t.representations):
        raise Skip("no gated type")
    tg = enn.FieldType(sp, [sp.trivial_repr] * len(t))
    mod = enn.GatedNonLinearity2((tg, t))
    hook(m, mod)
    for _ in range(3):
        sh = tuple(int(v) for v in rng.randint(1, 5, dim))
        if dim and rng.rand() < .3:
            sh = ()
        b = int(rng.randint(1, 4))
        co = T(rng.randn(b, dim)) if dim and not sh else None
        mod(enn.GeometricTensor(T(rng.randn(b, tg.size, *sh)), tg, co), enn.GeometricTensor(T(rng.randn(b, t.size, *sh)), t, co))


def branches(m, i):
    """Branching, merging and both together on points, planes, volumes and clouds."""
    rng = m.rng()
    dim = int(rng.choice([0, 2, 2, 3]))
    spec, mod = multiple(rng, dim)
    hook(m, mod)
    for mode in (True, False):
        mod.train(mode)
        for _ in range(2):
            x = spec.sample(rng)
            with torch.no_grad():
                spec(mod, x)


def multiple(rng, dim, sp=None, t=None, uniform=True):
    """A MultipleModule over randomly labelled fields."""
    sp = sp or zoo.pick_space(rng, dim)
    t = t or zoo._types(sp, rng, nf=int(rng.randint(2, 6)), size=20)
    k = int(rng.randint(1, 4))
    labels = [f"l{rng.randint(k)}" for _ in range(len(t))]
    reshuffle = int(rng.randint(3))
    br = enn.BranchingModule(t, labels, reshuffle)
    names = ["norm", "pointwise", "gnorm", "identity", "reshuffle", "innerbn", "fieldnorm", "disentangle", "normpool"] + (["linear"] if dim == 0 else [])
    B = []
    for l in [str(v) for v in rng.permutation(sorted(set(labels)))]:
        for _ in range(12):
            try:
                s = zoo.make(str(rng.choice(names)), rng, dim, t=br.out_type[l], sp=sp, tries=1)
                break
            except Skip:
                continue
        else:
            s = zoo.identity(rng, sp, br.out_type[l])
        B.append((s, [l] if rng.rand() < .3 and False else l))
    cloud = dim and rng.rand() < .2
    spatial = (lambda r: ()) if dim == 0 or cloud else (lambda r: tuple(int(v) for v in r.randint(1, 5, dim)))
    build = lambda: enn.MultipleModule(t, list(labels), [(s._build(), l) for s, l in B], reshuffle)
    spec = zoo.Spec("multiple", sp, t, build, spatial, stateful=any(s.stateful for s, _ in B))
    spec.parts = (labels, reshuffle, B)
    return spec, build()


def nets(m, i):
    from checks.c20 import network
    rng = m.rng()
    dim = int(rng.choice([0, 2, 3]))
    spec = network(rng, dim)
    mod = spec.build()
    hook(m, mod)
    for mode in (True, False):
        mod.train(mode)
        with torch.no_grad():
            try:
                spec(mod, spec.sample(rng))
            except RuntimeError as e:
                if "Kernel size can't be greater" not in str(e):
                    raise
                m.event("nets-input-too-small")
