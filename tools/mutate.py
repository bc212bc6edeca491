"""Mutation testing of the checks (development tool; nothing registered uses it).

usage: mutate.py gen OUT.jsonl [file ...]        enumerate mutants
       mutate.py run IN.jsonl RESULT.jsonl [n]   tests, then the checks that concern the file, on each mutant
A mutant that passes the repository's tests and every listed check is a survivor to be read by hand."""
import ast, copy, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, threading
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")
SCR = "/tmp/dmsa_mut"
ORDER = {
    "bitio.py": "C02 C01 C03 C31 C04 C32",
    "dfreader.py": "C32 C31 C08 C09 C04 C10 C06 C11 C16 C13 C14 C05",
    "dfwriter.py": "C31 C11 C12 C06 C04 C08 C09 C10 C16 C13 C14 C05",
    "entity.py": "C25 C33 C18 C34 C12 C09 C20 C16",
    "level.py": "C18 C23 C20 C16 C25 C11 C34 C17 C24 C22",
    "prop.py": "C20 C08",
    "replay.py": "C33 C31 C13 C32 C34 C14",
    "tile.py": "C36 C26 C33 C12 C31 C21 C23 C34 C22 C24",
    "transform.py": "C19 C20 C21 C29",
    "variable.py": "C25 C26 C04 C27 C34 C16",
    "cmd/main.py": "C37 C28",
    "cmd/common.py": "C37 C28",
    "cmd/save_convert.py": "C37 C30",
    "cmd/thumbnail.py": "C37 C28",
    "cmd/transform.py": "C37 C29",
    "cmd/variables.py": "C37 C27 C28",
}
# the expensive checks only where they look
WHERE = {("level.py", "C24"): "calculate_edge_caps", ("level.py", "C22"): "upscale", ("level.py", "C23"): "calculate_edge_visibility",
         ("tile.py", "C22"): "upscale", ("tile.py", "C24"): "-", ("tile.py", "C21"): "transform rotate _transform", ("transform.py", "C29"): "-"}


def function_at(src, line):
    best = ""
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.lineno <= line <= n.end_lineno:
            best += " " + n.name
    return best.split()
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv], ast.FloorDiv: [ast.Mult], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.BitXor: [ast.BitOr], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}


def sites(tree):
    """(node path description, mutate function) pairs; functions edit a deep copy located by index"""
    out = []
    nodes = list(ast.walk(tree))
    doc = set()
    ann = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            ann.add(n.body[0].value)
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                ann.update(ast.walk(a))
        if isinstance(n, ast.Raise):
            ann.update(ast.walk(n))
        if isinstance(n, ast.keyword) and n.arg in ("help", "doc", "description", "required"):
            ann.update(ast.walk(n.value))
    for i, n in enumerate(nodes):
        if n in ann:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for k, o in enumerate(CMP.get(type(n.ops[0]), [])):
                out.append((i, "cmp", k, ln))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            out.append((i, "bin", 0, ln))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            out.append((i, "aug", 0, ln))
        if isinstance(n, ast.BoolOp):
            out.append((i, "bool", 0, ln))
            for k in range(len(n.values)):
                out.append((i, "drop", k, ln))
        if isinstance(n, ast.UnaryOp):
            out.append((i, "unary", 0, ln))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((i, "flip", 0, ln))
            elif isinstance(n.value, int):
                out.append((i, "const", 1, ln))
                out.append((i, "const", -1, ln))
            elif isinstance(n.value, float):
                out.append((i, "const", 1, ln))
            elif isinstance(n.value, bytes) or (isinstance(n.value, str) and n.value):
                out.append((i, "text", 0, ln))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n, ast.While):
                out.append((i, "true", 0, ln))
            out.append((i, "false", 0, ln))
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "deepcopy":
                out.append((i, "nocopy", 0, ln))
            if isinstance(n.func, ast.Name) and n.func.id in ("dict", "list", "int", "round", "abs", "bytes", "sorted", "reversed", "bool") and len(n.args) >= 1:
                out.append((i, "nocopy", 0, ln))
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                out.append((i, "swap", 0, ln))
            for k in range(len(n.keywords)):
                if n.keywords[k].arg not in ("help", "doc", "description", "required"):
                    out.append((i, "nokw", k, ln))
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for k, st in enumerate(b):
                    if st in doc or isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass)):
                        continue
                    out.append((i, "del:" + f, k, st.lineno))
                    if k + 1 < len(b) and isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(b[k + 1], (ast.Assign, ast.AugAssign, ast.Expr)):
                        out.append((i, "exch:" + f, k, st.lineno))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for k in ("lower", "upper"):
                if getattr(n.slice, k) is not None:
                    out.append((i, "slice", k, ln))
        if isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
            out.append((i, "tswap", 0, ln))
    return out


def mutate(src, site):
    tree = ast.parse(src)
    i, kind, k, ln = site
    nodes = list(ast.walk(tree))
    n = nodes[i]
    before = ast.unparse(n) if not kind.startswith(("del", "exch")) else ast.unparse(getattr(n, kind.split(":")[1])[k])

    def put(new):
        for p in ast.walk(tree):
            for f, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, f, new); return
                if isinstance(v, list):
                    for j, x in enumerate(v):
                        if x is n:
                            v[j] = new; return
    after = None
    if kind == "cmp":
        n.ops[0] = CMP[type(n.ops[0])][k]()
    elif kind in ("bin", "aug"):
        n.op = BIN[type(n.op)][0]()
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "drop":
        del n.values[k]
        if len(n.values) == 1:
            put(n.values[0])
    elif kind == "unary":
        put(n.operand)
    elif kind == "flip":
        n.value = not n.value
    elif kind == "const":
        n.value = n.value + k
    elif kind == "text":
        n.value = n.value[:-1] + (b"#" if isinstance(n.value, bytes) else "#")
    elif kind in ("true", "false"):
        n.test = ast.Constant(kind == "true")
    elif kind == "nocopy":
        put(n.args[0])
    elif kind == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "nokw":
        del n.keywords[k]
    elif kind.startswith("del:"):
        b = getattr(n, kind[4:])
        b[k] = ast.copy_location(ast.Pass(), b[k])
        after = "pass"
    elif kind.startswith("exch:"):
        b = getattr(n, kind[5:])
        b[k], b[k + 1] = b[k + 1], b[k]
        after = "exchanged with next"
    elif kind == "slice":
        setattr(n.slice, k, None)
    elif kind == "tswap":
        n.elts.reverse()
    ast.fix_missing_locations(tree)
    new = ast.unparse(tree)
    try:
        if after is None:
            after = ast.unparse(n)
    except Exception:
        after = kind
    return new, before[:110], (kind + ": " + after)[:110]


def gen(out, files):
    n = 0
    with open(out, "w") as f:
        for name in files or ORDER:
            src = open(f"{REPO}/dustmaker/{name}").read()
            base = ast.unparse(ast.parse(src))
            seen = {base}
            for s in sites(ast.parse(src)):
                try:
                    new, b, a = mutate(src, s)
                except Exception as e:
                    continue
                if new in seen:
                    continue
                seen.add(new)
                f.write(json.dumps({"file": name, "site": list(s), "before": b, "after": a}) + "\n")
                n += 1
    print(n, "mutants")


local = threading.local()
count = [0]
lock = threading.Lock()


def one(m):
    d = getattr(local, "d", None)
    if d is None:
        with lock:
            count[0] += 1
            d = local.d = f"{SCR}/{count[0]}"
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", REPO, d], check=True)
    p = f"{d}/dustmaker/{m['file']}"
    src = open(f"{REPO}/dustmaker/{m['file']}").read()
    open(p, "w").write(mutate(src, m["site"])[0])
    try:
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "tests"], cwd=d, capture_output=True, timeout=60, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": d})
            ok = r.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        if not ok:
            return dict(m, result="tests")
        und = []
        for c in ORDER[m["file"]].split():
            w = WHERE.get((m["file"], c))
            if w is not None and not set(w.split()) & set(function_at(src, m["site"][3])):
                continue
            try:
                r = subprocess.run([sys.executable, H + "/check.py", c, "--strict", "--procs", "1", "--first"], capture_output=True, text=True, timeout=420, env={**os.environ, "DMSA_REPO": d, "DMSA_EVIDENCE": d + ".ev"})
            except subprocess.TimeoutExpired:
                und.append(c + ":timeout"); continue
            if r.returncode == 1:
                return dict(m, result="caught", by=c, how=r.stdout[:160])
            if r.returncode != 0:
                und.append(c + (":%d" % r.returncode if r.returncode != 3 else ""))
        return dict(m, result="survived", undecided=und)
    finally:
        open(p, "w").write(src)


def run(inp, out, n):
    ms = [json.loads(l) for l in open(inp)]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l); done.add((x["file"], json.dumps(x["site"])))
    ms = [m for m in ms if (m["file"], json.dumps(m["site"])) not in done]
    random.Random(5).shuffle(ms)
    os.makedirs(SCR, exist_ok=True)
    with open(out, "a") as f, cf.ThreadPoolExecutor(n) as ex:
        for w in cf.as_completed([ex.submit(one, m) for m in ms]):
            r = w.result()
            f.write(json.dumps(r) + "\n"); f.flush()


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], sys.argv[3:])
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 8)
