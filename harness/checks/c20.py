"""C20: training, evaluation, saving, loading, copying and dtype histories never change the function a module computes."""
import io, json, os, subprocess, sys
from core import Case, Skip
RULE = ("an event of a random life (training step, mode switch, save, load, copy, dtype round trip, forward) of several modules of one architecture and of neighbours that share "
        "representations with them; after it every module's outputs are compared with a module rebuilt from the recorded parameters and every untouched module's state with its record")
ASSUMPTIONS = ["states are saved and loaded in the same mode, as documented (evaluation mode recommended)",
               "parameters are not changed while a module is in evaluation mode (its expanded filter is documented to be built on eval())"]
import zoo
from nnlib import *

DET = ["conv", "convT", "tensorproduct", "norm", "gated1", "gateduniform", "inducednorm", "inducedgated", "fourier", "quotientfourier", "pointwise", "concatenated", "fieldnorm", "disentangle", "reshuffle", "normpool", "grouppool"]


def cases(tier, seed):
    out = []
    k = 1 if tier == "quick" else 8
    for dim in (2, 0, 3):
        for n in zoo.names(dim):
            if n in ("identity", "harmonic", "restriction") and tier == "quick":
                continue
            for i in range(k * (6 if n in ("conv", "convT", "linear") and dim != 3 else 4 if n in ("pointconv", "tensorproduct") else 3 if n in ("innerbn", "iid", "gnorm", "normbn") else 1)):
                out.append(Case("life", name=n, dim=dim, i=i))
    for dim, n in ((2, "conv"), (3, "conv"), (2, "pointconv"), (0, "linear"), (2, "convT"), (3, "pointconv")):
        for i in range(4 * k):
            out.append(Case("neighbours", name=n, dim=dim, i=i))
    for n, dim in (("conv", 2), ("convT", 2), ("linear", 0), ("tensorproduct", 0), ("pointconv", 2)):
        out.append(Case("evalcopy", name=n, dim=dim))
    for i in range(6 * k):
        out.append(Case("net", i=i))
    for dim in (0, 2, 3):
        for i in range(2 * k):
            out.append(Case("processes", dim=dim, i=i))
    return out


STATS = ("running_mean", "running_var", "num_batches_tracked")


def snap(mod):
    """Parameters and running statistics: what defines the function."""
    d = {n: p.detach().clone() for n, p in mod.named_parameters()}
    d.update({n: b.detach().clone() for n, b in mod.named_buffers() if any(s in n for s in STATS)})
    return d


def same(a, b):
    return a.keys() == b.keys() and all(torch.equal(a[k], b[k]) and a[k].dtype == b[k].dtype for k in a)


def rebuilt(spec, st, mode):
    """A fresh module with this state, put in the mode through the public interface."""
    r = spec.build()
    with torch.no_grad():
        for n, p in list(r.named_parameters()) + [(n, b) for n, b in r.named_buffers() if any(s in n for s in STATS)]:
            p.copy_(st[n])
    r.train(mode)
    return r


class Slot:
    def __init__(self, mod, rec):
        self.mod, self.rec = mod, rec       # rec: parameters and statistics it must have
        self.explicit = False               # train()/eval() has been called
        self.opt = None


def life(m, name, dim, i=0, steps=None):
    rng = m.rng()
    torch.manual_seed(int(rng.randint(2 ** 31)))
    spec = zoo.make(name, rng, dim)
    run_life(m, spec, rng, steps or 14)


def net(m, i=0):
    """A network of several modules, one of which is used twice under different names."""
    rng = m.rng()
    torch.manual_seed(int(rng.randint(2 ** 31)))
    dim = int(rng.choice([0, 2, 2, 3]))
    spec = network(rng, dim)
    run_life(m, spec, rng, 12)


def network(rng, dim, depth=None):
    first = zoo.make({0: "linear", 2: "conv", 3: "conv"}[dim], rng, dim, uniform=True)
    specs = [first]
    t = first.build().out_type
    size = 5 if dim else 0
    for _ in range(depth or int(rng.randint(1, 4))):
        for _ in range(20):
            n = str(rng.choice(["norm", "gated1", "pointwise", "innerbn", "gnorm", "iid", "linear" if dim == 0 else "conv", "fieldnorm", "reshuffle", "disentangle", "normpool"]))
            try:
                s = zoo.make(n, rng, dim, t=t, sp=t.gspace, tries=1, uniform=True)
                break
            except Skip:
                continue
        else:
            break
        specs.append(s)
        t = s.build().out_type
    S = [s._build for s in specs]
    sh = [max(9, a) for a in first.spatial_fn(np.random.RandomState(0))] if dim else ()
    return zoo.Spec("net", first.sp, first.t, lambda: enn.SequentialModule(*[b() for b in S]), lambda r: tuple(sh), stateful=True)


def forward(spec, mod, x, dtype=None):
    return spec(mod, x, dtype).tensor


def probe(m, spec, slot, x, tag, tol=2e-5):
    """The slot's outputs against a module rebuilt from its record, in the slot's own mode when that does not change its state."""
    mod = slot.mod
    if mod.training and (spec.stateful or spec.random):
        return
    with torch.no_grad():
        y = forward(spec, mod, x)
        r = forward(spec, rebuilt(spec, slot.rec, mod.training), x)
    s = max(1e-2, float(r.abs().max()) if r.numel() else 1.)
    m.event("probe", f"{tag}:{'train' if mod.training else 'eval'}")
    m.close(y.numpy() / s, r.numpy() / s, "function-of-parameters", tol, after=tag, mode=mod.training)


def run_life(m, spec, rng, steps):
    xs = []
    for _ in range(2):
        try:
            xs.append(spec.sample(rng, 3))
        except Exception:
            raise Skip("no input")
    slots = []
    for _ in range(2):
        mod = randomize(spec.build(), rng, .7)
        slots.append(Slot(mod, snap(mod)))
    saved = {}                                    # mode -> list of (state dict, record, explicit)
    m.check(not any(p is q for p in slots[0].mod.parameters() for q in slots[1].mod.parameters()), "parameters-not-shared")
    b0 = {b.data_ptr() for b in slots[0].mod.buffers() if b.numel()}
    m.check(not any(b.data_ptr() in b0 for b in slots[1].mod.buffers() if b.numel()), "buffers-not-shared", spec=spec.name)
    hist = []
    for step in range(steps):
        k = int(rng.randint(len(slots)))
        s = slots[k]
        mod = s.mod
        x = xs[rng.randint(len(xs))]
        ev = str(rng.choice(["step", "step", "mode", "mode", "save", "load", "load", "copy", "dtype", "forward", "grad", "zero", "reinit", "cycle"]))
        others = [(o, snap(o.mod)) for j, o in enumerate(slots) if j != k]
        try:
            done = event(m, spec, s, slots, saved, ev, x, rng, hist)
        except NotTrainable:
            done = False
        if not done:
            continue
        hist.append(f"{ev}{k}")
        m.event("lifecycle", f"{spec.name}:{ev}:{'t' if mod.training else 'e'}")
        for o, st in others:
            m.check(same(snap(o.mod), st), "other-module-untouched", event=ev, spec=spec.name, hist=hist[-6:])
        m.check(same(snap(s.mod), s.rec), "state-as-recorded", event=ev, spec=spec.name, hist=hist[-6:])
        for o in slots:
            probe(m, spec, o, x, f"{spec.name}:{ev}")
    # finally everybody in evaluation mode, and once more after the others changed
    for s in slots:
        s.mod.eval()
    for s in slots:
        probe(m, spec, s, xs[0], f"{spec.name}:end")
        m.check(same(snap(s.mod), s.rec), "state-as-recorded", event="eval", spec=spec.name, hist=hist[-6:])


class NotTrainable(Exception):
    pass


def loss_of(spec, mod, x, w):
    y = forward(spec, mod, x)
    return (y * w[: y.numel()].reshape(y.shape).to(y.dtype)).sum()


def event(m, spec, s, slots, saved, ev, x, rng, hist):
    mod = s.mod
    ps = [p for p in mod.parameters() if p.requires_grad]
    if ev in ("step", "grad"):
        if not ps or not mod.training or spec.random:
            return False
        w = torch.tensor(rng.randn(40000), dtype=torch.float32)
        ref = rebuilt(spec, s.rec, True)
        mod.zero_grad()
        l = loss_of(spec, mod, x, w)
        if not l.requires_grad:
            raise NotTrainable
        l.backward()
        loss_of(spec, ref, x, w).backward()
        for (n, p), (n2, q) in zip(mod.named_parameters(), ref.named_parameters()):
            a = p.grad if p.grad is not None else torch.zeros_like(p)
            b = q.grad if q.grad is not None else torch.zeros_like(q)
            sc = max(1e-3, float(b.abs().max()) if b.numel() else 1)
            m.close((a / sc).numpy(), (b / sc).numpy(), "gradient-of-parameters", 1e-3, p=n, spec=spec.name, hist=hist[-6:])
        st = snap(mod)
        for n, b in ref.named_buffers():             # statistics moved alike
            if any(q in n for q in STATS):
                m.close(dict(mod.named_buffers())[n].float().numpy(), b.float().numpy(), "statistics", 1e-4, b=n, spec=spec.name)
                s.rec[n] = st[n]
        if ev == "step":
            lr = .05
            for n, p in mod.named_parameters():
                if p.grad is not None and p.numel():
                    g = p.grad / max(1., float(p.grad.abs().max()))
                    p.grad.copy_(g)
                    s.rec[n] = (s.rec[n] - lr * g).detach()
            torch.optim.SGD(mod.parameters(), lr=lr).step()
            for n, p in mod.named_parameters():
                m.close(p.detach().numpy(), s.rec[n].numpy(), "step-changes-own-parameters", 1e-6, p=n)
                s.rec[n] = p.detach().clone()
        return True
    if ev == "mode":
        new = bool(rng.rand() < .5)
        mod.train(new)
        s.explicit = True
        return True
    if ev == "save":
        sd = mod.state_dict()
        for n, p in mod.named_parameters():
            m.check(n in sd and torch.equal(sd[n], p), "state-dict-has-parameters", p=n)
        if rng.rand() < .5:
            b = io.BytesIO()
            torch.save(sd, b)
            b.seek(0)
            sd = torch.load(b)
        else:
            sd = {n: v.clone() for n, v in sd.items()}
        saved.setdefault((mod.training, s.explicit or not mod.training), []).append((sd, dict(s.rec)))
        return True
    if ev == "load":
        c = saved.get((mod.training, s.explicit or not mod.training), [])
        if not c:
            return False
        sd, rec = c[rng.randint(len(c))]
        r = mod.load_state_dict({n: v.clone() for n, v in sd.items()})
        m.check(not r.missing_keys and not r.unexpected_keys, "keys-match", spec=spec.name)
        s.rec = {n: v.clone() for n, v in rec.items()}
        return True
    if ev == "copy":
        if len(slots) > 3 or (not mod.training and any(b.requires_grad for b in mod.buffers())):
            return False
        c = copy.deepcopy(mod)
        n = Slot(c, {a: b.clone() for a, b in s.rec.items()})
        n.explicit = s.explicit
        m.check(same(snap(c), n.rec) and c.training == mod.training, "copy-has-same-state", spec=spec.name)
        pt = {p.data_ptr() for p in list(mod.parameters()) + list(mod.buffers()) if p.numel()}
        m.check(not any(p.data_ptr() in pt for p in list(c.parameters()) + list(c.buffers()) if p.numel()), "copy-shares-nothing", spec=spec.name)
        m.check(c.in_type == mod.in_type and c.out_type == mod.out_type, "copy-has-same-types")
        slots.append(n)
        return True
    if ev == "dtype":
        if mod.training and (spec.stateful or spec.random):
            return False
        y = forward(spec, mod, x).detach()
        mod.double()
        yd = forward(spec, mod, x, torch.float64).detach()
        m.check(yd.dtype == torch.float64, "double-output", spec=spec.name)
        sc = max(1e-2, float(y.abs().max()) if y.numel() else 1.)
        m.close(yd.numpy() / sc, y.numpy() / sc, "double-is-the-same-function", 1e-4, spec=spec.name)
        mod.float()
        return True
    if ev == "forward":
        if mod.training and spec.stateful:
            return False
        st = snap(mod)
        with torch.no_grad():
            forward(spec, mod, x)
        m.check(same(snap(mod), st), "forward-changes-nothing", spec=spec.name)
        return True
    if ev == "zero":
        mod.zero_grad()
        return True
    if ev == "reinit":                   # parameters written in place in training mode are what the next calls use
        if not mod.training or not ps:
            return False
        edit(mod, rng)
        s.rec = snap(mod)
        return True
    if ev == "cycle":                    # validate, resume training, change the parameters, validate
        if not ps:
            return False
        for _ in range(2):
            mod.eval()
            mod.train()
            if rng.rand() < .8:
                edit(mod, rng)
            s.rec = snap(mod)
            mod.eval()
            if rng.rand() < .5:
                probe(m, spec, s, x, f"{spec.name}:cycle")
        s.explicit = True
        return True
    return False


def edit(mod, rng):
    """Parameters get new values in one of the ways programs use."""
    how = int(rng.randint(5))
    for p in mod.parameters():
        if not p.requires_grad or rng.rand() < .15:
            continue
        v = torch.tensor(np.asarray(rng.randn(*p.shape) * .5), dtype=p.dtype)
        if how == 0:
            with torch.no_grad():
                p.copy_(v)
        elif how == 1:
            p.data.copy_(v)
        elif how == 2:
            p.data = v
        elif how == 3:
            p.data.mul_(-.7).add_(.1)
        else:
            torch.nn.init.uniform_(p, -.5, .5)


def neighbours(m, name, dim, i):
    """Layers over the same representations and sizes (hence the same caches) live independent lives."""
    rng = m.rng()
    torch.manual_seed(int(rng.randint(2 ** 31)))
    a = zoo.make(name, rng, dim)
    b = None
    # same input type, other output types / options; plus an exact twin
    try:
        b = zoo.make(name, rng, dim, t=a.t, sp=a.sp)
    except Skip:
        pass
    specs = [a, a] + ([b] if b else [])
    mods = [randomize(s.build(), rng, .7) for s in specs]
    X = [s.sample(rng, 3) for s in specs]
    ref = [forward(s, q, x).detach() for s, q, x in zip(specs, mods, X)]
    # one of them is moved to another dtype, trained, destroyed, loaded with garbage ...
    v = mods[0]
    acts = [lambda: v.double(), lambda: v.float(), lambda: v.half() and None, lambda: v.float(), lambda: v.eval(), lambda: v.train(),
            lambda: v.load_state_dict({n: torch.randn_like(p) if p.dtype.is_floating_point else p for n, p in v.state_dict().items()}),
            lambda: [p.data.zero_() for p in v.parameters()], lambda: [b_.data.mul_(0) for b_ in v.buffers() if b_.dtype.is_floating_point]]
    for j in rng.permutation(len(acts)):
        acts[j]()
        m.event("neighbour-disturbed", f"{name}:{j}")
        for q, s, x, y in list(zip(mods, specs, X, ref))[1:]:
            m.check(torch.equal(forward(s, q, x).detach(), y), "neighbour-unchanged", act=int(j), spec=name)
        late = s_late = a.build()                # built after the disturbance
        rebuilt_ = {n: p.detach().clone() for n, p in mods[1].named_parameters()}
        with torch.no_grad():
            for n, p in late.named_parameters():
                p.copy_(rebuilt_[n])
        y = forward(a, late, X[1]).detach()
        m.check(y.dtype == torch.float32, "later-module-dtype", act=int(j))
        sc = max(1e-2, float(ref[1].abs().max()))
        m.close(y.numpy() / sc, ref[1].numpy() / sc, "later-module-same-function", 2e-5, act=int(j), spec=name)


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def processes(m, dim, i):
    """The same modules built in another process (other hash seed, other random generators' states, other history, other disk
    cache) have the same parameters and buffers in the same order, the same initial values under the same seed, and compute the
    same function of their parameters: what checkpoints of modules and optimizers and distributed training rely on."""
    rng = m.rng()
    N = zoo.names(dim)
    must = [n for n in ("conv", "linear", "pointconv", "convT", "iid", "gnorm", "fieldnorm") if n in N]
    mods = [(str(n), dim, int(rng.randint(2 ** 31))) for n in must + must[:3] + list(rng.choice(N, 5))]
    P = []
    for h, rev in ((0, False), (int(rng.randint(1, 2 ** 31)), True)):
        a = json.dumps(dict(mods=mods, noise=int(rng.randint(2 ** 31)), reverse=rev))
        P.append(subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "procdump.py"), a], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                  env=dict(os.environ, PYTHONHASHSEED=str(h))))
    D = []
    for p in P:
        try:
            o, e = p.communicate(timeout=300)
        except subprocess.TimeoutExpired:
            for q in P:
                q.kill()
            raise Skip("a process did not finish in time")
        if p.returncode:
            raise Skip("a process failed: " + e[-200:])    # the other cases judge failures
        D.append(json.loads(o.rsplit("DUMP ", 1)[1]))
    for x, y in zip(*D):
        if x[2] == "skip" or x[:3] != y[:3]:
            m.event("processes-differ-in-the-workload" if x[:3] != y[:3] else "processes-skip")
            continue
        tag = dict(mod=x[1], t=x[2])
        m.event("processes", f"{x[1]}:{x[2]}")
        m.check(x[3] == y[3], "parameters-and-their-order-in-another-process", got=str([u for u, v in zip(x[3], y[3]) if u != v])[:200], **tag)
        m.check(x[4] == y[4], "state-and-its-order-in-another-process", got=str([u for u, v in zip(x[4], y[4]) if u != v])[:200], **tag)
        if len(x[5]) == len(y[5]):
            m.close(x[5], y[5], "initial-values-in-another-process", 1e-3, **tag)
        if x[6] is not None and y[6] is not None and m.check(len(x[6]) == len(y[6]), "shape-in-another-process", **tag) and x[6]:
            s = max(1., max(map(abs, x[6])))
            m.close(np.array(x[6]) / s, np.array(y[6]) / s, "function-in-another-process", 2e-4, **tag)


def evalcopy(m, name, dim):
    """Copying a module that is in evaluation mode."""
    rng = m.rng()
    spec = zoo.make(name, rng, dim)
    mod = randomize(spec.build(), rng).eval()
    x = spec.sample(rng, 3)
    y = forward(spec, mod, x).detach()
    try:
        c = copy.deepcopy(mod)
    except RuntimeError as e:
        if "deepcopy protocol" not in str(e):
            raise
        m.check(False, f"deepcopy-in-evaluation-mode:{type(mod).__name__}", error=str(e)[:120])
        return
    m.close(forward(spec, c, x).detach().numpy(), y.numpy(), "copy-in-evaluation-mode", 1e-6)
    m.event("evalcopy", name)
