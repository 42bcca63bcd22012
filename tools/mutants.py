"""Mutation testing of the checks:  mutants.py OUT.jsonl [--n 300] [--seed 1] [--jobs 4] [--files a.py,b.py]
Random small edits of /repo's source; those which pass the stable tests are given to the checks of every property anchored at the file.
The survivors (no check fails) are listed with their diffs: equivalent edits, edits outside of every domain, or gaps of the checks."""
import argparse, ast, json, os, pathlib, random, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import threading

VER = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--n", type=int, default=300)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--jobs", type=int, default=4)
ap.add_argument("--files", default="")
a = ap.parse_args()
PROPS = [json.loads(x) for x in (VER / "properties.jsonl").read_text().splitlines()]
BY = {}
for p in PROPS:
    for f in p["anchors"]["files"]:
        BY.setdefault(f, []).append(p["id"])
SLOW = ["C16", "C25", "C23", "C10", "C28"]
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
SWAPC = {"<": ["<=", ">"], "<=": ["<", ">="], ">": [">=", "<"], ">=": [">", "<="], "==": ["!="], "!=": ["=="]}
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|"}
SWAPB = {"+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "%": ["*"], "**": ["*"], "&": ["|"], "|": ["&"]}


def mutants(path):
    text = path.read_text()
    lines = text.split("\n")
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()) + 1)
    raw = text.encode()
    at = lambda ln, col: off[ln - 1] + col
    span = lambda n: (at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset))
    tree = ast.parse(text)
    out = []

    def add(s, e, new, kind):
        out.append((s, e, new, kind))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
        if isinstance(n, ast.FunctionDef):
            if n.name in ("__repr__", "__str__"):
                for y in ast.walk(n):
                    docs.add(id(y))
    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            s, e = span(n.left)[1], span(n.comparators[0])[0]
            op = CMP[type(n.ops[0])]
            src = raw[s:e].decode()
            if src.count(op) == 1:
                for w in SWAPC[op]:
                    add(s, e, src.replace(op, w), "compare")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            s, e = span(n.left)[1], span(n.right)[0]
            op = BIN[type(n.op)]
            src = raw[s:e].decode()
            if src.count(op) == 1:
                for w in SWAPB[op]:
                    add(s, e, src.replace(op, w), "arith")
            if isinstance(n.op, (ast.Sub, ast.Div)) and not isinstance(n.left, ast.Constant):
                l, r = raw[slice(*span(n.left))].decode(), raw[slice(*span(n.right))].decode()
                add(*span(n), f"(({r}) {op} ({l}))", "swap operands")
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            s, e = span(n.target)[1], span(n.value)[0]
            op = BIN[type(n.op)]
            for w in SWAPB[op]:
                add(s, e, raw[s:e].decode().replace(op + "=", w + "="), "aug")
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                add(*span(n), str(not n.value), "bool")
            elif isinstance(n.value, int):
                add(*span(n), str(n.value + 1), "const+1")
                add(*span(n), str(n.value - 1), "const-1")
            else:
                add(*span(n), repr(n.value * 2 + 0.5), "float")
        if isinstance(n, ast.BoolOp):
            op = "and" if isinstance(n.op, ast.And) else "or"
            for x, y in zip(n.values, n.values[1:]):
                s, e = span(x)[1], span(y)[0]
                src = raw[s:e].decode()
                if src.count(op) == 1:
                    add(s, e, src.replace(op, "or" if op == "and" else "and"), "bool op")
            for x in n.values:
                add(*span(n), raw[slice(*span(x))].decode(), "drop operand")
        if isinstance(n, (ast.If, ast.IfExp)):
            c = raw[slice(*span(n.test))].decode()
            add(*span(n.test), f"(not ({c}))", "negate")
            add(*span(n.test), "False", "never")
            if not (isinstance(n, ast.If) and isinstance(n.body[0], ast.Raise)):
                add(*span(n.test), "True", "always")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            add(*span(n), "(" + raw[slice(*span(n.operand))].decode() + ")", "drop unary")
        if isinstance(n, (ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(*span(n), "pass", "drop statement")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
            add(*span(n), "pass", "drop reassignment")
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                add(*span(n), raw[slice(*span(n.func.value))].decode(), "drop copy")
            if len(n.args) >= 2:
                for i in range(len(n.args) - 1):
                    x, y = raw[slice(*span(n.args[i]))].decode(), raw[slice(*span(n.args[i + 1]))].decode()
                    s, e = span(n.args[i])[0], span(n.args[i + 1])[1]
                    mid = raw[span(n.args[i])[1]:span(n.args[i + 1])[0]].decode()
                    add(s, e, y + mid + x, "swap arguments")
            for k in n.keywords:
                if k.arg and not isinstance(k.value, ast.Constant):
                    s, e = at(k.value.lineno, k.value.col_offset) - len(k.arg) - 1, span(k.value)[1]
                    if raw[s:e].decode().startswith(k.arg + "="):
                        while raw[e:e + 1] in (b",", b" ", b"\n"):
                            e += 1
                        add(s, e, "", "drop keyword")
            if isinstance(n.func, (ast.Name, ast.Attribute)):
                name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                for x, y in (("min", "max"), ("max", "min"), ("all", "any"), ("any", "all"), ("sin", "cos"), ("cos", "sin"), ("argmin", "argmax"), ("argmax", "argmin"),
                             ("floor", "ceil"), ("ceil", "floor"), ("sorted", "list"), ("zeros", "ones"), ("ones", "zeros"), ("sqrt", "abs"), ("abs", "float"),
                             ("union", "intersection"), ("append", "extend"), ("mean", "median"), ("sum", "max"), ("unique", "asarray"), ("vstack", "hstack"), ("hstack", "vstack"),
                             ("maximum", "minimum"), ("minimum", "maximum"), ("radians", "degrees"), ("deg2rad", "asarray"), ("set", "list"), ("zip", "product"), ("isclose", "equal")):
                    if name == x:
                        s, e = span(n.func)
                        add(e - len(x), e, y, "function")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            if n.slice.lower is not None:
                add(*span(n.slice.lower), "", "drop bound")
            if n.slice.upper is not None:
                add(*span(n.slice.upper), "", "drop bound")
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            x, y = (raw[slice(*span(z))].decode() for z in n.value.elts)
            add(*span(n.value), f"{y}, {x}", "swap results")
    res = []
    for s, e, new, kind in out:
        t = (raw[:s] + new.encode() + raw[e:]).decode()
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append((kind, raw[:s].decode().count("\n") + 1, t))
    return res


files = [f for f in a.files.split(",") if f] or sorted(BY)
pool = []
for f in files:
    for m in mutants(REPO / f):
        pool.append((f, *m))
random.Random(a.seed).shuffle(pool)
done = set()
out = pathlib.Path(a.out)
if out.exists():
    done = {json.loads(x)["key"] for x in out.read_text().splitlines()}
lock = threading.Lock()
base = pathlib.Path(tempfile.mkdtemp(prefix="mutants"))
local = threading.local()
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")


def sh(cmd, timeout, **kw):
    p = subprocess.Popen("ulimit -v 12000000; exec " + cmd, shell=True, executable="/bin/bash", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 99, "timeout"


def one(m):
    f, kind, line, text = m
    key = f"{f}:{line}:{kind}:{hash_(text)}"
    if key in done:
        return
    d = base / str(threading.get_ident())
    if not d.exists():
        shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    orig = (REPO / f).read_text()
    (d / f).write_text(text)
    r = {"key": key, "file": f, "line": line, "kind": kind}
    try:
        rc, o = sh(f"bash {VER}/tools/testcopy.sh {d}", 60)
        if rc == 99 or "tests ok" not in o:
            r["result"] = "killed by tests"
        else:
            r["result"] = "SURVIVED"
            for p in sorted(BY[f], key=lambda p: (p in SLOW, p)):
                rc, o = sh(f"/opt/venv/bin/python {VER}/check.py {p}", 400, env=dict(ENV, PYVC_REPO=str(d), PYVC_EVIDENCE=str(d / ".ev"), VERIF_SEED="1"), cwd=VER)
                if rc != 0:
                    v = [x for x in o.splitlines() if x.startswith("VIOLATION")]
                    r["result"] = f"{p} exit {rc} " + (v[0] if v else o[-200:])
                    break
        import difflib

        r["diff"] = "\n".join(x for x in difflib.unified_diff(orig.splitlines(), text.splitlines(), lineterm="", n=2) if not x.startswith(("---", "+++")))
    finally:
        (d / f).write_text(orig)
    with lock:
        with out.open("a") as h:
            h.write(json.dumps(r) + "\n")
        print(r["result"].split(" replay")[0][:80], key, flush=True)


def hash_(t):
    import hashlib

    return hashlib.sha1(t.encode()).hexdigest()[:8]


try:
    print(len(pool), "possible edits", flush=True)
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, pool[: a.n]))
finally:
    shutil.rmtree(base, ignore_errors=True)
