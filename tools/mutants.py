"""Self-assessment: systematic mutants of the library against its tests and the checks (scratch copies only).

usage: mutants.py OUT.jsonl [FILE-SUBSTRING ...] [--every N] [--workers N]

A mutant which survives the repository's related tests is run against the checks of the properties its file can
break (cases of its indicator only).  Survivors of both are listed for reading: equivalent, or a gap.
"""
import ast, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
CMP = {"Lt": ["<=", ">"], "LtE": ["<", ">="], "Gt": [">=", "<"], "GtE": [">", "<="], "Eq": ["!="], "NotEq": ["=="],
       "Is": ["is not"], "IsNot": ["is"], "In": ["not in"], "NotIn": ["in"]}
TXT = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!=", "Is": "is", "IsNot": "is not", "In": "in",
       "NotIn": "not in"}
BIN = {"Add": ("+", "-"), "Sub": ("-", "+"), "Mult": ("*", "/"), "Div": ("/", "*"), "BitAnd": ("&", "|"), "BitOr": ("|", "&")}
NAMES = {"max": "min", "min": "max", "ffill": "bfill", "bfill": "ffill", "maximum": "minimum", "minimum": "maximum",
         "high": "low", "idxmax": "idxmin", "any": "all", "all": "any", "cumsum": "cumprod", "BUY": "SELL", "SELL": "BUY", "HOLD": "BUY"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []

    def put(a, z, new, what, line):
        m = b[:a] + new.encode() + b[z:]
        try:
            ast.parse(m)
        except SyntaxError:
            return
        out.append({"file": path, "line": line, "what": what, "a": a, "z": z, "new": new})
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):
            for q in ast.walk(n):
                skip.add(id(q))
            a, z = pos(n)
            put(a, z, "pass", "no raise", n.lineno)
            skip.discard(id(n))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0])), skip.add(id(n.body[0].value))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0]).__name__
            a, z = pos(n.left)[1], pos(n.comparators[0])[0]
            gap = b[a:z].decode()
            for new in CMP.get(t, []):
                put(a, z, gap.replace(TXT[t], new, 1), "%s -> %s" % (TXT[t], new), n.lineno)
        elif isinstance(n, ast.BinOp) and type(n.op).__name__ in BIN:
            o, new = BIN[type(n.op).__name__]
            a, z = pos(n.left)[1], pos(n.right)[0]
            gap = b[a:z].decode()
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            put(a, z, gap.replace(o, new, 1), "%s -> %s" % (o, new), n.lineno)
        elif isinstance(n, ast.BoolOp):
            a, z = pos(n.values[0])[1], pos(n.values[1])[0]
            gap = b[a:z].decode()
            o, new = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            put(a, z, gap.replace(o, new, 1), "%s -> %s" % (o, new), n.lineno)
            for v in n.values:
                a, z = pos(v)
                put(a, z, "True" if isinstance(n.op, ast.And) else "False", "condition dropped", n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, z = pos(n)
            put(a, z, "(%s)" % b[pos(n.operand)[0]:pos(n.operand)[1]].decode(), "not dropped", n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            a, z = pos(n)
            put(a, z, "(%s)" % b[pos(n.operand)[0]:pos(n.operand)[1]].decode(), "minus dropped", n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            a, z = pos(n)
            put(a, z, str(not n.value), "%s flipped" % n.value, n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            a, z = pos(n)
            for new in ([n.value + 1, n.value - 1] if isinstance(n.value, int) else [n.value * 1.001, n.value + 1]):
                put(a, z, "(%r)" % new, "%r -> %r" % (n.value, new), n.lineno)
        elif isinstance(n, ast.Constant) and n.value in ("high", "low", "close", "open", "volume", "first", "last", "buy", "sell",
                                                         "hold", "LONG", "SHORT"):
            a, z = pos(n)
            new = {"high": "low", "low": "high", "close": "open", "open": "close", "first": "last", "last": "first", "buy": "sell",
                   "sell": "buy", "hold": "buy", "LONG": "SHORT", "SHORT": "LONG", "volume": "close"}[n.value]
            put(a, z, repr(new), "%r -> %r" % (n.value, new), n.lineno)
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg in (None, "columns", "data", "index", "dtype"):
                    continue
                a, z = pos(k)
                e = b.find(b",", z)
                if e >= 0 and b[z:e].strip() == b"":
                    put(a, e + 1, "", "argument %s dropped" % k.arg, n.lineno)
                elif k.arg == "columns":
                    pass
                else:
                    s = b.rfind(b",", 0, a)
                    if s > pos(n.func)[1]:
                        put(s, z, "", "argument %s dropped" % k.arg, n.lineno)
                    else:
                        put(a, z, "", "argument %s dropped" % k.arg, n.lineno)
            if isinstance(n.func, ast.Attribute) and not n.keywords or isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "shift", "abs", "round", "copy", "fillna", "sort_index", "replace", "ffill", "bfill", "dropna", "astype"):
                a, z = pos(n)
                put(a, z, "(%s)" % b[pos(n.func.value)[0]:pos(n.func.value)[1]].decode(), "call .%s dropped" % n.func.attr,
                    n.lineno)
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            a, z = pos(n)
            a = z - len(n.attr)
            put(a, z, NAMES[n.attr], "%s -> %s" % (n.attr, NAMES[n.attr]), n.lineno)
        elif isinstance(n, (ast.AugAssign, ast.Break, ast.Continue)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) \
                or isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            a, z = pos(n)
            put(a, z, "pass", "statement dropped", n.lineno)
        elif isinstance(n, ast.If):
            a, z = pos(n.test)
            put(a, z, "False", "if never", n.lineno)
            put(a, z, "True", "if always", n.lineno)
    return out


def camel(path):
    import importlib
    from ttimon import lib
    import tti.indicators as ti
    base = os.path.basename(path)[1:-3]
    for n in dir(ti):
        c = getattr(ti, n)
        if isinstance(c, type) and c.__module__.rsplit(".", 1)[-1] == "_" + base:
            return n
    return None


FAST = {"formula": "F", "signal": "S"}


def checks_for(rel, ind):
    from ttimon import spec as sp
    if ind:
        fam = [f for f, ns in sp.FAMILY.items() if ind in ns]
        F = dict(zip(("averages", "bands", "regression", "momentum", "volume", "range"), ("F01", "F02", "F03", "F04", "F05", "F06")))
        S = "S02" if fam and fam[0] in ("momentum", "volume") else "S01"
        return [F[fam[0]], S, "S03", "D07", "D06", "D08", "G01"] if fam else []
    return {"trading_simulation.py": ["T01", "T02", "T04", "T06", "T05", "T03", "G02", "D04", "D05", "D02", "D03", "S04"],
            "plot.py": ["G01", "G02", "T05", "C01"],
            "data_preprocessing.py": ["D04", "D02", "D01", "D03", "T04", "C01"],
            "data_validation.py": ["D05", "D06", "D07", "T04", "D01", "D02"],
            }.get(os.path.basename(rel), ["D01", "D02", "D04", "D05", "D06", "D08", "S04", "G01", "T01", "T04", "T05", "G02", "D03",
                                          "D07", "C01", "T03", "C02"])


def setup():
    global TOP
    TOP = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    shutil.copytree("/repo", TOP + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
    os.makedirs(TOP + "/evidence")


def one(m):
    rel = os.path.relpath(m["file"], "/repo")
    p = os.path.join(TOP, "repo", rel)
    b = open(m["file"], "rb").read()
    open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["z"]:])
    e = dict(os.environ, PYTHONPATH=TOP + "/repo", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TTI_REPO=TOP + "/repo", VERIF_PROCS="1", VERIF_SEED="1",
             VERIF_TIER="quick", VERIF_CAP_S="40", VERIF_EVIDENCE=TOP + "/evidence")
    ind = m["ind"]
    if ind:
        e["VERIF_ONLY"] = ind
    t0 = time.time()
    res = {"file": rel, "line": m["line"], "what": m["what"], "new": m["new"], "src": b[m["a"]:m["z"]].decode()}
    try:
        try:
            r = subprocess.run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "-p", "no:xdist"] + m["tests"],
                               cwd=TOP + "/repo", env=e, capture_output=True, timeout=400)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = 9
        res["tests"] = rc
        if rc == 0:
            res["caught"] = None
            for c in m["checks"]:
                r = subprocess.run([PY, HERE + "/check.py", c], cwd=HERE, env=e, capture_output=True, text=True, timeout=600)
                if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                    res["caught"] = c
                    break
                if r.returncode not in (0, 1):
                    res.setdefault("other", []).append([c, r.returncode])
    except Exception as x:
        res["error"] = repr(x)[:200]
    finally:
        open(p, "wb").write(b)
    res["secs"] = round(time.time() - t0, 1)
    return res


def drop():
    shutil.rmtree(TOP)


if __name__ == "__main__":
    a = sys.argv[1:]
    opt = {k: int(a[a.index(k) + 1]) for k in ("--every", "--workers", "--skip") if k in a}
    subs = [x for i, x in enumerate(a[1:], 1) if not x.startswith("--") and not a[i - 1].startswith("--")]
    from ttimon import lib  # noqa: F401
    jobs = []
    tests = sorted(os.listdir("/repo/tests"))
    for root, _d, fs in os.walk("/repo/tti"):
        for f in sorted(fs):
            p = os.path.join(root, f)
            if not f.endswith(".py") or "properties" in root or f in ("__init__.py", "constants.py", "exceptions.py"):
                continue
            if subs and not any(s in p for s in subs):
                continue
            ind = camel(p) if "/indicators/" in root + "/" and f != "_technical_indicator.py" else None
            stem = "test_indicator" + {"_price_and_volume_trend": "_price_volume_trend"}.get(f[:-3], f[:-3])
            t = ["tests/" + x for x in tests if ind and x.startswith(stem)]
            t = t or (["tests/" + x for x in tests if x.startswith("test_") and x.endswith(".py") and (
                "utils" in x or "technical_indicator" in x)] if ind is None else [])
            for m in mutants(p):
                m.update(ind=ind, tests=t or ["tests"], checks=checks_for(p, ind))
                jobs.append(m)
    jobs = jobs[opt.get("--skip", 0)::opt.get("--every", 1)]
    print(len(jobs), "mutants")
    if "--list" in a:
        sys.exit()
    with open(a[0], "a") as out, ProcessPoolExecutor(opt.get("--workers", 6), initializer=setup) as ex:
        for r in ex.map(one, jobs):
            out.write(json.dumps(r) + "\n")
            out.flush()
