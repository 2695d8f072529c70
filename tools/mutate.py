"""Systematic mutation run (development only; no check uses this).

mutate.py list                       count mutants per file
mutate.py run OUT.jsonl [FILE ...]   test every mutant with the suite, survivors with the checks (8 at a time)

Each record: file, line, kind, old, new, tests (pass/fail), hit (first check that raised an alarm, or null).
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg")
AS = ["C02", "C04", "C11", "C06", "C10", "C25", "C09", "C16", "C14", "C12", "C13", "C03", "C08", "C17", "C24"]
CS = ["C01", "C06", "C11", "C10", "C25", "C09", "C16", "C12", "C03", "C07", "C17", "C24"]
CHECKS = {
    "etd.py": ["C26", "C15", "C01", "C16", "C02", "C11", "C25"],
    "etd4.py": CS, "etd5.py": CS, "if4.py": CS,
    "etd34.py": AS, "etd35.py": AS, "if34.py": AS, "if45dp.py": AS,
    "solveras.py": ["C05", "C15", "C08", "C04", "C10", "C09", "C14", "C17", "C16", "C02", "C06", "C13", "C25"],
    "solvercs.py": ["C07", "C09", "C10", "C17", "C16", "C01", "C25", "C06"],
    "solver.py": ["C25", "C17", "C16", "C09", "C01", "C02"],
    "grids.py": ["C18", "C20", "C21", "C22", "C19", "C23"],
    "derivatives.py": ["C19", "C20"],
    "transforms.py": ["C21"],
    "models.py": ["C23", "C24"],
    "util/loghelper.py": ["C17", "C16"],
    "util/solver_type.py": ["C25"],
}
CMP = {ast.Lt: ("<=", ">="), ast.LtE: ("<", ">"), ast.Gt: (">=", "<="), ast.GtE: (">", "<"), ast.Eq: ("!=",), ast.NotEq: ("==",), ast.Is: ("is not",), ast.IsNot: ("is",), ast.In: ("not in",), ast.NotIn: ("in",)}
BIN = {ast.Add: ("-",), ast.Sub: ("+",), ast.Mult: ("/",), ast.Div: ("*",), ast.Pow: ("*",), ast.Mod: ("*",), ast.MatMult: ("*",)}


def mutants(path):
    src = open(os.path.join(REPO, "rkstiff", path), "rb").read()
    tree = ast.parse(src)
    starts = [0]
    for ln in src.splitlines(keepends=True):
        starts.append(starts[-1] + len(ln))

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(n, kind, new):
        a, b = span(n)
        old = src[a:b].decode()
        if old != new:
            out.append((n.lineno, kind, a, b, old, new))

    docs = set()
    anns = set()
    for n in ast.walk(tree):
        body = getattr(n, "body", None)
        if isinstance(body, list):
            for s in body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                    docs.add(s)
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                anns.update(ast.walk(a))
    skip = set(anns)
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.JoinedStr)) or (isinstance(n, ast.Call) and "logger" in ast.unparse(n.func)):
            skip.update(ast.walk(n))
    seg = lambda n: src[slice(*span(n))].decode()  # noqa: E731
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and n not in docs and not isinstance(n.value, ast.Constant):
            add(n, "drop-stmt", "pass")
        if isinstance(n, ast.Raise):
            add(n, "drop-raise", "pass")
        if n in skip or n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), ()):
                add(n, "cmp", "%s %s %s" % (seg(n.left), o, seg(n.comparators[0])))
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), ()):
                add(n, "bin", "(%s %s %s)" % (seg(n.left), o, seg(n.right)))
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                add(n, "lhs", "(%s)" % seg(n.left))
        if isinstance(n, ast.UnaryOp):
            add(n, "unary", "(%s)" % seg(n.operand))
        if isinstance(n, ast.BoolOp):
            add(n, "bool", "(%s)" % ((" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % seg(v) for v in n.values)))
            for k in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != k]
                add(n, "bool-drop", "(%s)" % ((" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % seg(v) for v in rest)))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, "cond", "(not (%s))" % seg(n.test))
            if isinstance(n, (ast.If, ast.IfExp)):
                add(n.test, "true", "True")
                add(n.test, "false", "False")
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = n.value
            for w in {v + 1, v - 1} if type(v) is int else {v * 1.01, v * 2}:
                add(n, "const", "(%r)" % w)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, "const", repr(not n.value))
        if isinstance(n, ast.Constant) and n.value is None and not isinstance(n, ast.Expr):
            pass
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            add(n, "drop-assign", "pass")
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple):
            pass
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "astype", "ravel", "transpose", "reshape", "item"):
                add(n, "drop-call", seg(f.value))
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "sp", "math") and len(n.args) == 1:
                add(n, "drop-fn", "(%s)" % seg(n.args[0]))
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                add(n, "swap-args", "%s(%s)" % (seg(f), ", ".join([seg(n.args[1]), seg(n.args[0])] + ["%s=%s" % (k.arg, seg(k.value)) for k in n.keywords if k.arg])))
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    add(n, "drop-kw", "%s(%s)" % (seg(f), ", ".join([seg(a) for a in n.args] + ["%s=%s" % (q.arg, seg(q.value)) for q in n.keywords if q is not k])))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self":
            # sibling names: _a51 -> _a52, _NL3 -> _NL2
            m = n.attr.rstrip("0123456789")
            d = n.attr[len(m):]
            if d and d.isdigit():
                for w in (int(d) + 1, int(d) - 1):
                    if ("self.%s%d" % (m, w)).encode() in src:
                        add(n, "sibling", "self.%s%d" % (m, w))
            if n.attr == "real":
                pass
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id[:3] in ("psi",):
            for other in ("psi1_12", "psi1_1", "psi2_1", "psi2_12", "psi3_1", "psi1_14", "psi2_14", "psi1_34", "psi2_34", "psi1", "psi2", "psi3"):
                if other != n.id and len(other) == len(n.id) and other[:4] != n.id[:4] and (other.encode() in src):
                    add(n, "sibling", other)
    seen, res = set(), []
    for m in out:
        key = (m[2], m[3], m[5])
        if key not in seen:
            seen.add(key)
            new = src[: m[2]] + m[5].encode() + src[m[3]:]
            try:
                compile(new, path, "exec")
            except SyntaxError:
                continue
            res.append(dict(file=path, line=m[0], kind=m[1], old=m[4][:200], new=m[5][:200], src=new))
    return res


def worker(m, scale):
    tmp = tempfile.mkdtemp(prefix="mut-", dir="/tmp/mut")
    try:
        copy = tmp + "/repo"
        subprocess.run(["cp", "-a", REPO, copy], check=True)
        open(os.path.join(copy, "rkstiff", m["file"]), "wb").write(m.pop("src"))
        try:
            t = subprocess.run([PY, "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider", "-x", "tests"], cwd=copy, env=dict(ENV, PYTHONPATH=copy), capture_output=True, text=True, timeout=120)
            m["tests"] = "pass" if t.returncode == 0 else "fail"
        except subprocess.TimeoutExpired:
            m["tests"] = "timeout"
        m["hit"] = None
        if m["tests"] == "pass":
            m["rcs"] = {}
            for p in CHECKS[m["file"]]:
                try:
                    r = subprocess.run(["python3-vt", "check.py", p, "--jobs", "1", "--scale", str(scale)], cwd=os.environ.get("VERIF_DIR", "/verif"), capture_output=True, text=True, timeout=1500,
                                       env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_EVIDENCE=tmp))
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                m["rcs"][p] = rc
                if rc == 1 and "VIOLATION property=" + p in r.stdout:
                    m["hit"] = p
                    break
                if rc not in (0, 1):
                    m.setdefault("odd", []).append([p, rc if rc == "timeout" else r.stderr[-300:]])
        return m
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f in CHECKS:
            print(f, len(mutants(f)))
        sys.exit()
    out, files = sys.argv[2], sys.argv[3:] or list(CHECKS)
    done = set()
    if os.path.exists(out):
        done = {(r["file"], r["line"], r["kind"], r["old"], r["new"]) for r in map(json.loads, open(out))}
    todo = [m for f in files for m in mutants(f) if (m["file"], m["line"], m["kind"], m["old"], m["new"]) not in done]
    random.Random(int(os.environ.get("MSEED", "1"))).shuffle(todo)
    if os.environ.get("MAX"):
        todo = todo[: int(os.environ["MAX"])]
    with ThreadPoolExecutor(8) as ex, open(out, "a") as f:
        for m in ex.map(lambda m: worker(m, float(os.environ.get("SCALE", "0.4"))), todo):
            f.write(json.dumps(m) + "\n")
            f.flush()
