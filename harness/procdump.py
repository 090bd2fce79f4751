"""procdump.py SPEC: build modules with seeded choices and dump what a checkpoint (of the module or of its optimizer) depends on.

Run by C20 in several processes that differ in hash seed, in the state of the global random generators and in what was
built before; the modules are the same, so the dumps have to agree."""
import json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
spec = json.loads(sys.argv[1])
import core
core.load_library()
from core import Skip
import zoo
from nnlib import *


def digest(mod):
    return ([(n, list(p.shape)) for n, p in mod.named_parameters()],
            [(n, list(p.shape)) for n, p in mod.state_dict().items()])


def main():
    np.random.seed(spec["noise"] % 2 ** 32)
    random.seed(spec["noise"])
    torch.manual_seed(spec["noise"])
    out = []
    todo = list(enumerate(spec["mods"]))
    if spec["reverse"]:
        todo = todo[::-1]
    for k, (name, dim, seed) in todo:
        rng = np.random.RandomState(seed)
        try:
            s = zoo.make(name, rng, dim)
            torch.manual_seed(seed)
            mod = s.build()
            I = [round(float(p.detach().double().sum()), 5) for p in mod.parameters()]
            r = np.random.RandomState(seed + 1)
            P, S = digest(mod)
            with torch.no_grad():
                for n, p in sorted(mod.named_parameters()):
                    p.copy_(torch.tensor(r.randn(*p.shape) * .7))
                mod.eval()
                x = s.sample(r, 2)
                y = None if s.random else zoo_forward(s, mod, x)
        except Skip:
            out.append([k, name, "skip", None, None, None, None])
            continue
        out.append([k, name, desc(s.t)[:80], P, S, I, None if y is None else [round(float(v), 9) for v in y.reshape(-1)[:: max(1, y.numel() // 400)]]])
    sys.stdout.write("\nDUMP " + json.dumps(sorted(out)) + "\n")


def zoo_forward(s, mod, x):
    from checks.c20 import forward
    return forward(s, mod, x).detach()


main()
