"""C21: exported plain PyTorch modules compute the same function as the equivariant ones and live separate lives."""
from core import Case, Skip
RULE = ("an export of a distinct (module, space, options, history) whose plain PyTorch result is run side by side with the original on plain tensors, before and after either of them is trained")
ASSUMPTIONS = ["batch normalisations over a base space are exported for grid inputs (PyTorch's BatchNorm2d/3d refuse point clouds)",
               "NotImplementedError and the documented ValueError for modules without running statistics are refusals"]
import zoo
from nnlib import *
from checks.c16 import strided
from checks.c20 import snap, same, rebuilt, forward, STATS

EXPORTABLE = ["conv", "convT", "pointwise", "innerbn", "iid", "gnorm", "dropout", "grouppool", "maxpool", "avgpool", "adaptive", "antialiased", "upsampling", "identity", "restriction"]


def cases(tier, seed):
    out = []
    k = 2 if tier == "quick" else 12
    for dim in (2, 3, 0):
        for n in zoo.names(dim):
            r = k * ((6 if dim == 2 else 4) if n in EXPORTABLE else 1)
            if n in ("conv", "convT", "innerbn", "iid", "gnorm"):
                r += 4 * k
            if n == "linear":
                r = 8 * k
            for i in range(r):
                out.append(Case("export", name=n, dim=dim, i=i))
    for i in range(12 * k):
        out.append(Case("network", i=i))
    for s in ("ico", "dodeca"):
        out.append(Case("ico", samples=s))
    return out


def export(m, name, dim, i):
    rng = m.rng()
    torch.manual_seed(int(rng.randint(2 ** 31)))
    judge(m, zoo.make(name, rng, dim), rng)


def ico(m, samples):
    rng = m.rng()
    from checks.c14 import build
    sp = space(["icoOnR3", {}])
    t = enn.FieldType(sp, [sp.trivial_repr, sp.irrep(1)])
    for tr in (False, True):
        c = dict(kernel_size=3, padding=int(rng.randint(2)), stride=int(rng.randint(1, 3)), dilation=1, bias=True, groups=1, initialize=True)
        judge(m, zoo.Spec("ico", sp, t, lambda: build(sp, 3, tr, t, t, c, samples), lambda r: (4, 4, 5)), rng)


def plain(spec, mod, x, dtype=torch.float32):
    return mod(torch.as_tensor(x).to(dtype))


def train_step(spec, f, params, x, rng):
    """one in-place gradient step of whatever callable f computes; returns False when nothing can be trained"""
    ps = [p for p in params if p.requires_grad]
    if not ps:
        return False
    for p in ps:
        p.grad = None
    y = f(x)
    if not y.requires_grad:
        return False
    (y * torch.tensor(rng.randn(*y.shape), dtype=y.dtype)).sum().backward()
    torch.optim.SGD(ps, lr=.1).step()
    return True


def judge(m, spec, rng):
    mod = randomize(spec.build(), rng, .6)
    randomize_stats(mod, rng)
    if any(len(spec.spatial_fn(np.random.RandomState(q))) == 0 for q in range(2)) and spec.sp.dimensionality and spec.stateful:
        raise Skip("point clouds are not accepted by PyTorch's batch norm of this dimension")
    nm = type(mod).__name__
    # a life before the export: training batches, mode switches
    for _ in range(int(rng.randint(0, 4))):
        if rng.rand() < .3:
            mod.train(bool(rng.rand() < .5))
        elif mod.training:
            train_step(spec, lambda x: forward(spec, mod, x), mod.parameters(), spec.sample(rng), rng)
    mod.train(bool(rng.rand() < .5))
    rec = snap(mod)
    try:
        ex = mod.export()
    except NotImplementedError:
        m.event("refused", nm)
        return
    except ValueError as e:
        if "track_running_stats" in str(e):
            m.event("refused", nm)
            return
        raise
    m.event("exported", f"{nm}:{spec.sp.name}:{desc(spec.t)[:40]}")
    m.check(isinstance(ex, torch.nn.Module) and not any(isinstance(q, enn.EquivariantModule) for q in ex.modules()), "plain-module", mod=nm, got=type(ex).__name__)
    m.check(same(snap(mod), rec), "export-keeps-state", mod=nm)
    ex.eval()
    if mod.training:
        mod.eval()          # otherwise nothing is rebuilt: whatever the export shares with the module shows below
    ref = rebuilt(spec, rec, False)

    def agree(tag, refs=(mod,)):
        for kd in ("normal", "zero", "sparse", "negative"):
            if kd != "normal" and rng.rand() < .5:
                continue
            x = spec.sample(rng, kind_=kd)
            with torch.no_grad():
                before = torch.as_tensor(x).clone()
                y = plain(spec, ex, strided(rng, x))
                r = forward(spec, refs[0], x)
            if not m.check(tuple(y.shape) == tuple(r.shape), "same-shape", mod=nm, got=tuple(y.shape), want=tuple(r.shape), tag=tag):
                return False
            s = max(1e-2, float(r.abs().max()) if r.numel() else 1.)
            m.event("compared", f"{nm}:{tag}:{kd}")
            if y.numel() and float((y - r).abs().max()) > 5e-5 * s:
                # a cancellation amplified by a normalisation?  Decide in double precision (the round trip is lossless).
                with torch.no_grad():
                    ex.double()
                    refs[0].double()
                    try:
                        y, r = plain(spec, ex, x, torch.float64), forward(spec, refs[0], x, dtype=torch.float64)
                    finally:
                        ex.float()
                        refs[0].float()
                m.event("decided-in-double-precision", f"{nm}:{tag}")
            m.close(y.numpy() / s, r.numpy() / s, "same-function", 5e-5, mod=nm, tag=tag, kind_=kd, t=desc(spec.t), shape=x.shape)
        return True
    if not agree("after-export"):
        return
    agree("rebuilt", (ref,))
    # writing into one of them, with no mode switch in between, never shows in the other
    x = spec.sample(rng)
    with torch.no_grad():
        r0, e0 = forward(spec, mod, x), plain(spec, ex, x)
        for v in list(ex.parameters()) + [b for b in ex.buffers() if b.is_floating_point()]:
            v += .25
        m.check(torch.equal(forward(spec, mod, x), r0) and same(snap(mod), rec), "original-untouched-by-writing-into-the-export", mod=nm)
        for v in list(ex.parameters()) + [b for b in ex.buffers() if b.is_floating_point()]:
            v -= .25
        keep = {n: v.clone() for n, v in ex.state_dict().items()}
        old = [(b, b.clone()) for b in list(mod.buffers()) + list(mod.parameters()) if b.is_floating_point()]
        for b, v in old:
            b += .25
        m.check(all(torch.equal(v, keep[n]) for n, v in ex.state_dict().items()), "exported-untouched-by-writing-into-the-original", mod=nm)
        for b, v in old:
            b.copy_(v)
        m.event("written-into", nm)
    # each of them trains on its own
    x = spec.sample(rng)
    rec_ex = {n: v.detach().clone() for n, v in ex.state_dict().items()}
    mod.train()
    tr = False
    for _ in range(2):
        tr = train_step(spec, lambda x: forward(spec, mod, x), mod.parameters(), x, rng) or tr
    if spec.stateful:
        forward(spec, mod, x)
    m.check(all(torch.equal(v, rec_ex[n]) for n, v in ex.state_dict().items()), "exported-untouched-by-training-the-original", mod=nm)
    if tr:
        m.event("original-trained-on", nm)
    agree("original-trained", (ref,))
    with torch.no_grad():
        for n, v in list(mod.named_parameters()) + [(n, b) for n, b in mod.named_buffers() if any(q in n for q in STATS)]:
            v.copy_(rec[n])
    mod.eval()
    agree("restored")
    ex.train()
    if not spec.random:
        train_step(spec, lambda x: plain(spec, ex, x), ex.parameters(), x, rng)
        m.event("exported-trained", nm)
    with torch.no_grad():
        y, r = forward(spec, mod, x), forward(spec, ref, x)
    s = max(1e-2, float(r.abs().max()) if r.numel() else 1.)
    m.close(y.numpy() / s, r.numpy() / s, "original-untouched-by-training-the-export", 2e-5, mod=nm)
    m.check(same(snap(mod), rec), "original-state-untouched-by-training-the-export", mod=nm)
    # exported once more, in double precision
    md = rebuilt(spec, rec, False).double()
    if spec.name in ("conv", "convT", "linear"):
        ed = md.export().eval()
        with torch.no_grad():
            m.close(plain(spec, ed, x, torch.float64).numpy() / s, forward(spec, mod, x).numpy() / s, "double-export", 5e-5, mod=nm)


def network(m, i):
    """Sequences, nested or not, of exportable modules."""
    rng = m.rng()
    torch.manual_seed(int(rng.randint(2 ** 31)))
    dim = int(rng.choice([0, 2, 2, 3]))
    sp = zoo.pick_space(rng, dim)
    lin = "linear" if dim == 0 else "conv"
    specs = []
    t = None
    for j in range(int(rng.randint(2, 6))):
        for _ in range(20):
            n = lin if j == 0 else str(rng.choice([lin, "pointwise", "innerbn", "iid", "dropout", "identity", "gnorm"] + (["maxpool", "upsampling", "adaptive"] if dim else [])))
            try:
                s = zoo.make(n, rng, dim, t=t, sp=sp, tries=1)
            except Skip:
                continue
            if dim and not s.spatial_fn(np.random.RandomState(0)):
                s.spatial_fn = lambda r: (3,) * dim
            specs.append(s)
            t = s.build().out_type
            break
    B = [s._build for s in specs]
    nested = rng.rand() < .5 and len(B) > 2
    cut = int(rng.randint(1, len(B))) if nested else 0

    def build():
        L = [b() for b in B]
        if nested:
            return enn.SequentialModule(enn.SequentialModule(*L[:cut]), *L[cut:]) if rng is None else enn.SequentialModule(enn.SequentialModule(*L[:cut]), *L[cut:])
        return enn.SequentialModule(*L)
    size = tuple(14 if dim == 2 else 9 for _ in range(dim))
    spec = zoo.Spec("net", sp, specs[0].t, build, lambda r: size, stateful=True, random=any(s.random for s in specs))
    try:
        probe = build()
        y = forward(spec, probe.eval(), spec.sample(rng))
    except (RuntimeError, AssertionError, ValueError):
        raise Skip("the random sequence does not accept this input size")
    judge(m, spec, rng)
