"""
Mutation campaign (development tool): python3 tools/mutate.py ID file:Qual.name[,Qual.name2] [more file:...] [--n N] [--seed S]
Makes single-token mutants of the given functions in a scratch copy and runs the check of the property on each; prints the survivors.
"""
import ast, os, random, shutil, subprocess, sys, time

ID = sys.argv[1]
args = [a for a in sys.argv[2:] if not a.startswith("--")]
opt = dict(a[2:].split("=") for a in sys.argv[2:] if a.startswith("--"))
N, SEED = int(opt.get("n", 40)), int(opt.get("seed", 1))
W = f"/tmp/mut-{ID}-{os.getpid()}"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "//"}


def find(tree, qual):
    body = tree.body
    node = None
    for part in qual.split("."):
        node = [n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part][0]
        body = node.body
    return node


def mutants(src, fn):
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def sp(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = sp(n)
        return b[s:e].decode()

    out = []

    def add(n, new, what):
        s, e = sp(n)
        out.append((n.lineno, what, (b[:s] + new.encode() + b[e:]).decode()))

    def walk(n):
        if isinstance(n, (ast.Raise, ast.Assert)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print":
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("debug", "info", "warning") :
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, f"({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})", f"cmp {seg(n)}")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or (isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(n.left, ast.Constant) and isinstance(n.left.value, (int, float))):
            add(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})", f"bin {seg(n)}")
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), f"const {n.value}+1")
            if n.value == 1:
                add(n, "0", "const 1->0")
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), f"bool {n.value}")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join("(" + seg(v) + ")" for v in n.values) + ")", f"boolop {seg(n)[:60]}")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, f"(not ({seg(n.test)}))", f"neg {seg(n.test)[:60]}")
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("min", "max"):
            add(n.func, "max" if n.func.id == "min" else "min", f"minmax {seg(n)[:60]}")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.Continue, ast.Break)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            add(n, "pass", f"del {seg(n)[:70]}")
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list"):
                continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    walk(c)

    for s in fn.body:
        walk(s)
    return out


ms = []
for a in args:
    f, quals = a.split(":")
    src = open("/repo/" + f).read()
    tree = ast.parse(src)
    for q in quals.split(","):
        for m in mutants(src, find(tree, q)):
            ms.append((f, q) + m)
rng = random.Random(SEED)
rng.shuffle(ms)
print(len(ms), "mutants, running", min(N, len(ms)), flush=True)
os.makedirs(W)
subprocess.check_call(["cp", "-a", "/repo/returnn", "/repo/tools", W + "/"])
for x in ("__init__.py", "rnn.py", "tests"):
    if os.path.exists("/repo/" + x):
        subprocess.check_call(["cp", "-a", "/repo/" + x, W + "/"])
st = {"killed": 0, "survived": 0}
try:
    for f, q, line, what, new in ms[:N]:
        try:
            compile(new, f, "exec")
        except SyntaxError:
            continue
        orig = open("/repo/" + f).read()
        open(W + "/" + f, "w").write(new)
        t0 = time.time()
        r = subprocess.run(["/verif/bin/check", ID], env={**os.environ, "VP_REPO": W, "VERIF_SEED": "1"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        k = "killed" if r.returncode == 1 else "survived" if r.returncode == 0 else "rc%i" % r.returncode
        st[k] = st.get(k, 0) + 1
        if k != "killed":
            print(f"{k} {f}:{line} [{q}] {what!r} {time.time() - t0:.0f}s", flush=True)
        open(W + "/" + f, "w").write(orig)
    print(ID, st)
finally:
    shutil.rmtree(W)
