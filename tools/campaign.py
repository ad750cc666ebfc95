"""Mutation campaign: python3 tools/campaign.py OUT.jsonl SEED N [file glob...]: random AST mutants of sd_mecha on scratch copies, each run through the checks
that concern its file until one of them reports a violation. Survivors are to be reviewed by hand (equivalent, unspecified, or a hole in a check)."""
import ast, copy, fnmatch, json, os, pathlib, random, shutil, subprocess, sys, tempfile, time
ROOT = pathlib.Path(__file__).resolve().parent.parent
SRC = pathlib.Path(os.environ.get("MV_SRC", "/repo")) / "sd_mecha"
CHECKS = [
    ("merging.py", "P01 P29 P31 P20 P14 P06 P02 P21 P25 P23 P22 P05 P08"), ("streaming.py", "P03 P04 P05 P02 P22 P21 P20 P14"), ("serialization.py", "P07 P27 P08"),
    ("recipe_nodes.py", "P01 P07 P26 P09 P25 P20 P22 P10 P08"), ("extensions/merge_methods.py", "P32 P10 P09 P28 P25 P01 P24 P06"), ("extensions/model_configs.py", "P15 P14 P11 P01 P27"),
    ("extensions/merge_spaces.py", "P09 P15 P28 P27"), ("extensions/model_formats.py", "P20 P03 P05 P21"), ("helpers.py", "P26 P20 P08 P09"), ("conversion.py", "P24 P11 P12 P25"),
    ("merge_method_wrappers.py", "P26 P16 P17 P18 P19"), ("typing_.py", "P10 P09"), ("extensions/builtin/lycoris.py", "P12"), ("extensions/builtin/merge_methods/ema.py", "P23 P26"),
    ("extensions/builtin/merge_methods/*", "P16 P17 P18 P19 P26 P06 P23"), ("extensions/builtin/model_configs/convert_*_blocks.py", "P13"), ("extensions/builtin/model_configs/*", "P11 P15 P24"),
]
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.Pow: ast.Mult, ast.Mod: ast.Mult}


def sites(tree):
    """yields (description, function that mutates the node in place)"""
    doc = {id(n.body[0]) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.JoinedStr)) or id(n) in doc or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("logging", "warnings"):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.FunctionDef, ast.AnnAssign)):
            for a in [getattr(n, "returns", None), getattr(n, "annotation", None)]:
                if a is not None:
                    skip.update(id(x) for x in ast.walk(a))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(id(n))
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                if type(op) in CMP:
                    yield i, f"cmp{j}"
        elif isinstance(n, ast.BoolOp):
            yield i, "boolop"
            for j in range(len(n.values)):
                yield i, f"drop{j}"
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield i, "binop"
            yield i, "swap"
        elif isinstance(n, ast.UnaryOp):
            yield i, "unary"
        elif isinstance(n, ast.If):
            yield i, "iftrue"
            yield i, "iffalse"
        elif isinstance(n, ast.IfExp):
            yield i, "iftrue"
            yield i, "iffalse"
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            yield i, "plus1"
            yield i, "minus1"
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield i, "not"
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value:
            yield i, "str"
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                yield i, "swapargs"
            if n.keywords:
                for j in range(len(n.keywords)):
                    yield i, f"dropkw{j}"
            if len(n.args) == 1 and not n.keywords:
                yield i, "unwrap"
            if isinstance(n.func, ast.Attribute) and not isinstance(n.func.value, ast.Name):
                yield i, "unmethod"
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            yield i, "delete"
        elif isinstance(n, ast.Return) and n.value is not None:
            yield i, "none"
        elif isinstance(n, ast.Slice):
            yield i, "slice"


def mutate(tree, index, kind):
    n = list(ast.walk(tree))[index]

    def replace(new):
        for p in ast.walk(tree):
            for f, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, f, new)
                    return
                if isinstance(v, list):
                    for j, x in enumerate(v):
                        if x is n:
                            v[j] = new
                            return
    before = ast.unparse(n)[:100]
    if kind.startswith("cmp"):
        n.ops[int(kind[3:])] = CMP[type(n.ops[int(kind[3:])])]()
    elif kind == "boolop":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind.startswith("dropkw"):
        del n.keywords[int(kind[6:])]
    elif kind.startswith("drop"):
        del n.values[int(kind[4:])]
        if len(n.values) == 1:
            replace(n.values[0])
            n = n.values[0]
    elif kind == "binop":
        n.op = BIN[type(n.op)]()
    elif kind == "swap":
        n.left, n.right = n.right, n.left
    elif kind == "unary":
        replace(n.operand)
        n = n.operand
    elif kind in ("iftrue", "iffalse"):
        n.test = ast.Constant(kind == "iftrue")
    elif kind == "plus1":
        n.value += 1
    elif kind == "minus1":
        n.value -= 1
    elif kind == "not":
        n.value = not n.value
    elif kind == "str":
        n.value = n.value[:-1]
    elif kind == "swapargs":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "unwrap":
        new = n.args[0].value if isinstance(n.args[0], ast.Starred) else n.args[0]
        replace(new)
        n = new
    elif kind == "unmethod":
        replace(n.func.value)
        n = n.func.value
    elif kind == "delete":
        replace(ast.Pass())
        n = ast.Pass()
    elif kind == "none":
        n.value = ast.Constant(None)
    elif kind == "slice":
        n.lower, n.upper = (None, n.upper) if n.lower else (None, None)
    ast.fix_missing_locations(tree)
    return before, ast.unparse(n)[:100]


def main():
    out, seed, count, globs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:] or ["*"]
    rng = random.Random(seed)
    pool = []
    for f in sorted(SRC.rglob("*.py")):
        rel = str(f.relative_to(SRC))
        if rel.endswith("__init__.py") and "builtin/merge_methods" not in rel or not any(fnmatch.fnmatch(rel, g) for g in globs):
            continue
        pool += [(rel, i, k) for i, k in sites(ast.parse(f.read_text()))]
    print(len(pool), "mutants", flush=True)
    rng.shuffle(pool)
    for rel, i, kind in pool[:count]:
        tree = ast.parse((SRC / rel).read_text())
        line = getattr(list(ast.walk(tree))[i], "lineno", 0)
        try:
            before, after = mutate(tree, i, kind)
            text = ast.unparse(tree)
            compile(text, rel, "exec")
        except Exception:
            continue
        if ast.unparse(ast.parse((SRC / rel).read_text())) == text:
            continue
        checks = next(c for g, c in CHECKS if fnmatch.fnmatch(rel, g)).split()
        d = pathlib.Path(tempfile.mkdtemp(prefix="mvcamp-", dir="/tmp"))
        res = {"file": rel, "line": line, "kind": kind, "before": before, "after": after, "checks": {}}
        try:
            shutil.copytree(SRC, d / "sd_mecha", ignore=shutil.ignore_patterns("__pycache__"))
            (d / "sd_mecha" / rel).write_text(text)
            env = dict(os.environ, MV_REPO=str(d), MV_WALL="200", MV_SHRINK="0.5", TQDM_DISABLE="1")
            p = subprocess.run(["/opt/venv/bin/python", "-B", "-c", f"import sys; sys.path.insert(0, {str(d)!r}); import sd_mecha"], capture_output=True, cwd="/tmp", timeout=100)
            if p.returncode:
                continue
            killed = None
            for c in checks:
                t = time.time()
                try:
                    p = subprocess.run([str(ROOT / "check"), c], env=env, capture_output=True, text=True, timeout=400)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                res["checks"][c] = [rc, round(time.time() - t)]
                if rc == 1:
                    killed = c
                    break
                if rc == 2:
                    res["err"] = p.stdout[-600:]
            res["killed"] = killed
        finally:
            shutil.rmtree(d, ignore_errors=True)
        with open(out, "a") as f:
            f.write(json.dumps(res) + "\n")


main()
