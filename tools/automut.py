"""Random single-node mutants of the repository: tests, then the checks of the
file's area until one reports.  Prints the survivors.

    automut.py SEED COUNT [FILE-SUBSTRING]
"""
import ast, copy, os, random, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
AREA = {
    "decoder_top.py": "C03 C04 C02 C01 C15 C16 C32 C33 C14",
    "utilities/bits.py": "C05 C06 C10",
    "utilities/CRC24Q.py": "C01",
    "sub_decoders/RTCM_MSM.py": "C11 C10 C12 C13 C14 C16 C15 C32",
    "sub_decoders/RTCM_EPH.py": "C06 C07 C14 C15 C32",
    "sub_decoders/RTCM_BASE.py": "C08 C09 C14 C15 C32",
    "utilities/RTCM_utilities.py": "C11 C13 C31",
    "printers/margo": "C19 C20 C21 C25 C17 C32 C15",
    "printers/json": "C18 C22 C17 C25 C15 C32",
    "printer_top.py": "C17 C15 C33 C25 C32",
    "converter_top.py": "C17 C15 C33 C26",
    "controls.py": "C23 C28",
    "logger.py": "C32 C28 C26",
    "run_conversion.py": "C26 C25 C28 C34 C24 C23",
    "gnss_types/data_class_methods.py": "C27 C16 C11 C18",
}


def area(f):
    for k, v in AREA.items():
        if f.startswith(k):
            return v.split()
    return []


CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq, ast.GtE, ast.LtE], ast.NotEq: [ast.Eq, ast.Gt],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift,
       ast.Mod: ast.FloorDiv, ast.Div: ast.Mult, ast.FloorDiv: ast.Mod, ast.Pow: ast.Mult}


def sites(tree):
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for r in CMP.get(type(o), ()):
                    out.append((n, "cmp", (i, r)))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant | ast.JoinedStr | ast.List):
            out.append((n, "bin", BIN[type(n.op)]))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            out.append((n, "bin", BIN[type(n.op)]))
        elif isinstance(n, ast.BoolOp):
            out.append((n, "bool", None))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((n, "not", None))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((n, "neg", None))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1):
                out.append((n, "int", d))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((n, "flip", None))
        elif isinstance(n, ast.Constant) and type(n.value) is float:
            out.append((n, "float", None))
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.Try, ast.ExceptHandler)):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None) or []
                for i, s in enumerate(b):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) == "print":
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Break, ast.Continue, ast.Raise, ast.Assert, ast.Return, ast.If)):
                        out.append((n, "del", (fld, i)))
    return out


def apply(site):
    n, k, a = site
    if k == "cmp":
        n.ops[a[0]] = a[1]()
    elif k == "bin":
        n.op = a()
    elif k == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == "not":
        n.op = ast.UAdd()
        n.operand = ast.Call(ast.Name("bool", ast.Load()), [n.operand], [])
    elif k == "neg":
        n.op = ast.UAdd()
    elif k == "int":
        n.value += a
    elif k == "flip":
        n.value = not n.value
    elif k == "float":
        n.value = n.value * 1.0001 if n.value else 1.0
    elif k == "del":
        getattr(n, a[0])[a[1]] = ast.copy_location(ast.Pass(), getattr(n, a[0])[a[1]])


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    sub = sys.argv[3] if len(sys.argv) > 3 else ""
    rnd = random.Random(seed)
    files = []
    for d, _, fs in os.walk(REPO):
        for f in fs:
            r = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith(".py") and "test" not in r and area(r) and sub in r:
                files.append(r)
    files.sort()
    pool = []
    for f in files:
        t = ast.parse(open(os.path.join(REPO, f), encoding="utf-8").read())
        n = len(sites(t))
        pool += [(f, i) for i in range(n)]
    print(len(pool), "sites in", files, flush=True)
    # every file gets its share
    by = {}
    for f, i in pool:
        by.setdefault(f, []).append(i)
    dst = f"/tmp/automut.{os.getpid()}"
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8", PYTHONPATH="/opt/vp/plugin")
    got = tried = 0
    base = None
    while got < count and tried < 40 * count:
        tried += 1
        f = rnd.choice(files)
        i = rnd.choice(by[f])
        src = open(os.path.join(REPO, f), encoding="utf-8").read()
        t = ast.parse(src)
        st = sites(t)[i]
        line = st[0].lineno if st[1] != "del" else getattr(st[0], st[2][0])[st[2][1]].lineno
        before = ast.unparse(t)
        apply(st)
        ast.fix_missing_locations(t)
        after = ast.unparse(t)
        if before == after:
            continue
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns(".git"))
        open(os.path.join(dst, f), "w", encoding="utf-8").write(after)
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "bool_results", "--timeout=60", "--rootdir=" + dst, "."], cwd=dst, env=env, capture_output=True, text=True)
        last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
        if "failed" in last or "error" in last or "passed" not in last:
            continue
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns(".git"))
        open(os.path.join(dst, f), "w", encoding="utf-8").write(after)
        got += 1
        res = "SURVIVED"
        notes = []
        for c in area(f):
            r = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), c, "--tier", "quick"], env=dict(os.environ, VERIF_REPO=dst), capture_output=True, text=True, cwd=HERE)
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                res = "caught by " + c
                break
            if r.returncode != 0 or "undecided=0" not in r.stdout:
                notes.append(f"{c}:rc{r.returncode}")
        a, b = before.splitlines(), after.splitlines()
        df = [(x.strip(), y.strip()) for x, y in zip(a, b) if x != y][:1] if len(a) == len(b) else "(lines)"
        print(f"{res} {f}:{line} {st[1]} {st[2]} {notes} {df}"[:330], flush=True)
    shutil.rmtree(dst, ignore_errors=True)


main()
