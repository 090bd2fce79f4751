"""Mutation campaign: how sensitive are the checks to small semantic changes of the library?

mutate.py list FILE            - number of mutants of a source file
mutate.py run SEED N FILE...   - N random mutants over the files: run the mapped checks (fail fast), append to /tmp/mut/log.jsonl
"""
import ast, json, os, random, subprocess, sys, time, shutil
REPO = os.environ.get("MUT_REPO", "/repo")
MAP = [("group/groups/_numerical_thomson", ["C01"]), ("group/groups/", ["C01", "C04", "C03", "C05", "C12", "C17"]), ("group/directproduct", ["C01", "C03", "C04", "C05", "C07"]),
       ("group/doublegroup", ["C04", "C05", "C03"]), ("group/homspace", ["C06", "C17"]), ("group/_clebsh", ["C07", "C09"]), ("group/_numerical", ["C07", "C08", "C05"]),
       ("group/representation", ["C08", "C06", "C05", "C02", "C07"]), ("group/irrep", ["C03", "C02", "C08"]), ("group/group", ["C06", "C01", "C04", "C02", "C09"]), ("group/utils", ["C08"]),
       ("kernels/", ["C10", "C11", "C09", "C14", "C23"]), ("gspaces/", ["C12", "C10", "C13", "C11"]), ("nn/field_type", ["C13", "C12", "C23"]), ("nn/geometric_tensor", ["C13"]),
       ("basismanager", ["C14", "C15", "C16", "C20", "C23", "C21"]), ("modules/conv/", ["C14", "C20", "C21", "C22", "C23"]), ("pointconv", ["C15", "C20", "C22", "C23"]),
       ("modules/linear", ["C16", "C20", "C21", "C22"]), ("nonlinearities/fourier", ["C17", "C22", "C23", "C20"]), ("nonlinearities/tensor", ["C16", "C20"]),
       ("nonlinearities/", ["C16", "C22", "C21", "C20"]), ("invariantmaps", ["C18", "C22", "C21"]), ("pooling", ["C18", "C22", "C21"]), ("upsampling", ["C18", "C22", "C21"]), ("masking", ["C18", "C22"]),
       ("batchnorm", ["C19", "C21", "C20", "C22"]), ("normalization", ["C19", "C20", "C22", "C21"]), ("dropout", ["C19", "C22", "C21"]), ("nn/init", ["C24", "C09"]), ("nn/modules/", ["C23", "C22", "C20", "C21", "C16"])]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "//", ast.FloorDiv: "/"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Assert, ast.Raise)) or (isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__str__", "extra_repr")) or isinstance(n, ast.JoinedStr):
            for c in ast.walk(n):
                skip.add(id(c))
        if isinstance(n, ast.FunctionDef):
            for d in list(n.args.defaults) + [a.annotation for a in n.args.args if a.annotation] + ([n.returns] if n.returns else []):
                for c in ast.walk(d) if d is not None else []:
                    skip.add(id(c))
        if isinstance(n, ast.AnnAssign):
            for c in ast.walk(n.annotation):
                skip.add(id(c))

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()

    def rep(n, new, kind):
        s, e = pos(n)
        out.append((s, e, new, kind, n.lineno))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, f"({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})", "cmp")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            rep(n, f"({seg(n.left)} {'is not' if isinstance(n.ops[0], ast.Is) else 'is'} {seg(n.comparators[0])})", "is")
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS and not isinstance(n.left, (ast.Constant, ast.List)) | isinstance(n.right, (ast.List, ast.JoinedStr)) or \
                (isinstance(n, ast.BinOp) and type(n.op) in OPS and isinstance(n.left, ast.Constant) and isinstance(n.left.value, (int, float))):
            rep(n, f"({seg(n.left)} {OPS[type(n.op)]} {seg(n.right)})", "op")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
            rep(n, f"({seg(n.right)} @ {seg(n.left)})", "matswap")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + o.join(seg(v) for v in n.values) + ")", "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(n, f"({seg(n.operand)})", "unary")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            rep(n, repr(n.value + 1), "const")
        elif isinstance(n, ast.Attribute) and n.attr in ("change_of_basis", "change_of_basis_inv", "in_type", "out_type") and isinstance(n.ctx, ast.Load):
            o = {"change_of_basis": "change_of_basis_inv", "change_of_basis_inv": "change_of_basis", "in_type": "out_type", "out_type": "in_type"}[n.attr]
            rep(n, f"{seg(n.value)}.{o}", "attr")
        elif isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.ctx, ast.Load):
            rep(n, seg(n.value), "transpose")
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and isinstance(n.func, ast.Attribute) and n.func.attr not in ("register_buffer", "get", "setdefault"):
            rep(n, f"{seg(n.func)}({seg(n.args[1])}, {seg(n.args[0])})", "argswap")
        elif isinstance(n, (ast.AugAssign,)):
            rep(n, "pass", "drop")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "super" not in seg(n):
            rep(n, "pass", "drop")
        elif isinstance(n, ast.If):
            s, e = pos(n.test)
            out.append((s, e, f"(not ({seg(n.test)}))", "ifnot", n.lineno))
        elif isinstance(n, (ast.Break, ast.Continue)):
            rep(n, "pass", "drop")
    return src, b, out


def checks_of(f):
    for k, v in MAP:
        if k in f:
            return v
    return []


def main():
    if sys.argv[1] == "list":
        for f in sys.argv[2:]:
            print(f, len(mutants(f)[2]), checks_of(f))
        return
    seed, N, files = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    rng = random.Random(seed)
    os.makedirs("/tmp/mut", exist_ok=True)
    W = f"/tmp/mut/w{seed}"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, W])
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    pool = []
    for f in files:
        rel = os.path.relpath(f, REPO)
        src, b, ms = mutants(f)
        for m in ms:
            pool.append((rel, m))
    # even over files
    by = {}
    for p in pool:
        by.setdefault(p[0], []).append(p)
    for v in by.values():
        rng.shuffle(v)
    order = []
    while any(by.values()) and len(order) < N:
        for k in list(by):
            if by[k] and len(order) < N:
                order.append(by[k].pop())
    for rel, (s, e, new, kind, line) in order:
        src, b, _ = mutants(os.path.join(REPO, rel))
        nb = b[:s] + new.encode() + b[e:]
        try:
            compile(nb, rel, "exec")
        except SyntaxError:
            continue
        open(os.path.join(W, rel), "wb").write(nb)
        t0 = time.time()
        verdict, by_ = "survived", None
        for c in checks_of(rel):
            shutil.rmtree(os.path.join(W, "escnn/group/_cache"), ignore_errors=True)
            env = dict(os.environ, ESCNN_REPO=W, VERIF_SOFT=os.environ.get("MUT_SOFT", "150"))
            try:
                r = subprocess.run([sys.executable, os.path.join(verif, "harness/run.py"), c, "--fail-fast", "--seed", str(seed)], env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                verdict, by_ = "timeout", c
                break
            if r.returncode == 1:
                verdict, by_ = "killed", c
                break
            if r.returncode != 0:
                verdict, by_ = f"rc{r.returncode}", c
                if "Error" in r.stderr[-400:]:
                    break
        rec = dict(file=rel, line=line, kind=kind, old=b[s:e].decode()[:160], new=new[:160], verdict=verdict, by=by_, t=round(time.time() - t0))
        with open("/tmp/mut/log.jsonl", "a") as f:
            f.write(json.dumps(rec) + "\n")
        open(os.path.join(W, rel), "wb").write(b)
    shutil.rmtree(W, ignore_errors=True)


main()
