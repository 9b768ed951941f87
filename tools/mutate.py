"""Mutation survey of the checks: which small changes of robpy survive its tests and all relevant checks?

usage: mutate.py OUT.jsonl [--n 200] [--workers 2] [--jobs 4] [--seed 0] [--files substr,...]
Works on scratch copies under /tmp/mutwt_*; never touches /repo.  Not registered in the manifest: it is a tool for the author.
"""
import argparse, ast, concurrent.futures as cf, hashlib, json, os, pathlib, shutil, subprocess, threading, time

PY = "/opt/venv/bin/python"
MAP = {"univariate/qn": "C01 C04 C05", "utils/median": "C01 C35 C28", "univariate/mcd": "C02 C04 C05", "univariate/onestep": "C03 C04 C05", "univariate/tau": "C03 C04 C05",
       "univariate/base": "C06 C04 C01", "adjusted_boxplot": "C07", "utils/rho": "C08 C24", "alter_cov": "C35 C20", "utils/general": "C35 C20", "utils/distance": "C35 C15",
       "outlyingness": "C35 C27", "scaling": "C09 C06", "transfo": "C10 C11", "data_cleaner": "C12", "preprocessing/utils": "C12 C11", "covariance/mcd": "C13 C37 C14 C17",
       "ogk": "C16 C17", "kendall": "C16", "wrapping": "C16 C08", "covariance/base": "C15 C36 C06", "outliers/ddc": "C18 C19 C36", "covariance/cellmcd.py": "C20 C21 C22 C36",
       "cellmcd_utils": "C20 C21", "cellmcd_vis": "C36", "initial_ddcw": "C37 C21", "pca": "C27 C28 C36", "regression/lts": "C23 C25 C26", "regression/s": "C24 C25 C26",
       "regression/mm": "C24 C25 C26", "regression/base": "C36 C34 C25", "datasets": "C33"}
TAIL = "C32 C29 C30 C34 C06 C15"
SWAP = {"min": "max", "max": "min", "mean": "median", "median": "mean", "ceil": "floor", "floor": "ceil", "argmin": "argmax", "argmax": "argmin", "any": "all", "all": "any",
        "nanmedian": "nanmean", "abs": "square", "sqrt": "abs", "sort": "array", "zeros": "ones", "ones": "zeros", "isnan": "isfinite", "minimum": "maximum", "maximum": "minimum",
        "deepcopy": "copy_", "sum": "mean", "std": "var", "pinvh": "inv_", "iloc": "loc", "log": "log1p", "argsort": "argsort"}


def sites(path):
    src = path.read_text()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    raw = src.encode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0]))
            skip.add(id(n.body[0].value))
        if isinstance(n, (ast.AnnAssign, ast.arg)) and n.annotation:
            skip |= {id(m) for m in ast.walk(n.annotation)}
        if isinstance(n, ast.FunctionDef) and n.returns:
            skip |= {id(m) for m in ast.walk(n.returns)}
        if isinstance(n, (ast.Raise, ast.JoinedStr)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "log" in ast.dump(n.value.func):
            skip |= {id(m) for m in ast.walk(n)}

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []

    def rep(n, new, op):
        a, b = span(n)
        out.append((a, b, new, op, n.lineno))

    def between(l, r, table, op):
        a, b = span(l)[1], span(r)[0]
        mid = raw[a:b].decode()
        for o, w in table:
            if mid.strip(" ()\n") == o or mid.strip() == o:
                out.append((a, b, mid.replace(o, w), op, l.lineno))
                return
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            between(n.left, n.comparators[0], [("<=", "<"), (">=", ">"), ("<", "<="), (">", ">="), ("==", "!="), ("!=", "=="), ("is not", "is"), ("is", "is not")], "compare")
        elif isinstance(n, ast.BinOp):
            between(n.left, n.right, [("+", "-"), ("-", "+"), ("*", "/"), ("//", "*"), ("/", "*"), ("**", "*"), ("@", "*"), ("&", "|"), ("|", "&"), ("%", "*")], "binop")
        elif isinstance(n, ast.BoolOp):
            between(n.values[0], n.values[1], [("and", "or"), ("or", "and")], "bool")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), "flip")
            elif isinstance(v, int):
                rep(n, str(v + 1), "int+")
                if v > 0:
                    rep(n, str(v - 1), "int-")
            else:
                rep(n, f"({v!r} * 1.07)", "float*")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            rep(n, "(" + raw[span(n.operand)[0]:span(n.operand)[1]].decode() + ")", "unary")
        elif isinstance(n, ast.If):
            a, b = span(n.test)
            t = raw[a:b].decode()
            out.append((a, b, "True", "if-true", n.lineno))
            out.append((a, b, "False", "if-false", n.lineno))
        elif isinstance(n, ast.IfExp):
            rep(n.test, "True", "ifexp-true")
            rep(n.test, "False", "ifexp-false")
        elif isinstance(n, (ast.AugAssign, ast.Expr)):
            rep(n, "pass", "delete")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(n, "pass", "delete-assign")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in SWAP and SWAP[f.attr][-1] != "_":
                a, b = span(f)
                out.append((b - len(f.attr), b, SWAP[f.attr], "swap", n.lineno))
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "flatten", "ravel") and not n.args or isinstance(f, ast.Name) and f.id == "deepcopy":
                inner = n.args[0] if isinstance(f, ast.Name) else f.value
                rep(n, raw[span(inner)[0]:span(inner)[1]].decode(), "no-copy")
            for k in n.keywords:
                if k.arg and not isinstance(k.value, ast.Constant):
                    continue
                a, b = off[k.lineno - 1] + k.col_offset, off[k.end_lineno - 1] + k.end_col_offset
                c = b
                while raw[c:c + 1] in b" \n" and c < len(raw):
                    c += 1
                if raw[c:c + 1] == b",":
                    out.append((a, c + 1, "", "drop-keyword", n.lineno))
                else:
                    out.append((a, b, "", "drop-keyword", n.lineno))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            if n.slice.upper is not None:
                rep(n.slice.upper, raw[slice(*span(n.slice.upper))].decode() + " - 1", "slice")
    good = []
    for a, b, new, op, line in out:
        t = raw[:a] + new.encode() + raw[b:]
        if t == raw:
            continue
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        good.append((a, b, new, op, line, raw[a:b].decode()))
    return good


def sh(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -1, "timeout"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--n", type=int, default=200); ap.add_argument("--workers", type=int, default=2)
    ap.add_argument("--jobs", default="4"); ap.add_argument("--seed", default="0"); ap.add_argument("--files", default="")
    ap.add_argument("--tail", action="store_true"); ap.add_argument("--hours", type=float, default=10.0)
    a = ap.parse_args()
    repo = pathlib.Path("/repo")
    allm = []
    for f in sorted(repo.glob("robpy/**/*.py")):
        rel = str(f.relative_to(repo))
        if a.files and not any(s in rel for s in a.files.split(",")):
            continue
        for m in sites(f):
            allm.append((rel,) + m)
    allm.sort(key=lambda m: hashlib.blake2b((a.seed + repr(m[:4])).encode()).digest())
    seen = set()
    try:
        for ln in open(a.out):
            r = json.loads(ln); seen.add((r["file"], r["a"], r["b"], r["new"]))
    except FileNotFoundError:
        pass
    todo = [m for m in allm if (m[0], m[1], m[2], m[3]) not in seen][: a.n]
    print(len(allm), "mutants,", len(todo), "to do", flush=True)
    lock, end = threading.Lock(), time.time() + 3600 * a.hours

    def one(k, m):
        if time.time() > end:
            return
        rel, x, y, new, op, line, old = m
        wt = f"/tmp/mutwt_{os.getpid()}_{k}"
        shutil.rmtree(wt, ignore_errors=True)
        shutil.copytree("/repo", wt, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        p = pathlib.Path(wt, rel)
        raw = p.read_bytes()
        p.write_bytes(raw[:x] + new.encode() + raw[y:])
        env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONPATH=wt)
        rc, o = sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-x"], wt, env, 120)
        rec = dict(file=rel, line=line, op=op, old=old[:120], new=new[:120], a=x, b=y, tests=rc)
        t0 = time.time()
        if rc == 0:
            keys = next((v for s, v in MAP.items() if s in rel), "")
            order = keys.split() + ([c for c in TAIL.split() if c not in keys] if a.tail else [])
            rec["caught"], rec["odd"] = None, []
            env = {k: v for k, v in os.environ.items()}
            env.update(VERIF_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE="/tmp")
            for c in order:
                rc, o = sh([PY, "run.py", c, "--tier", "quick", "--jobs", a.jobs], COPY, env, 900)
                if rc == 1 and "VIOLATION" in o:
                    rec["caught"] = c
                    break
                if rc != 0:
                    rec["odd"].append((c, rc, o[-200:]))
        rec["s"] = round(time.time() - t0)
        shutil.rmtree(wt, ignore_errors=True)
        with lock:
            open(a.out, "a").write(json.dumps(rec) + "\n")
            if rec.get("caught", 1) is None:
                print("SURVIVED", rel, line, op, repr(old[:80]), "->", repr(new[:80]), rec["odd"], flush=True)
    global COPY
    COPY = f"/tmp/mutverif_{os.getpid()}"
    shutil.copytree("/verif", COPY, ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__", "replays"))
    with cf.ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(lambda km: one(*km), enumerate(todo)))
    shutil.rmtree(COPY, ignore_errors=True)


main()
