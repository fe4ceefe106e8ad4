"""Mechanical edits of single places: those the repository's tests let pass should be caught by some check or change nothing.

usage: auto_mut.py list | run FILES..   (EVERY=n: one edit in n; JOBS=n)
"""
import ast, copy, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("AM_REPO", "/repo")
FILES = {
    "hadar/optimizer/lp/optimizer.py": "C01 C02 C03 C04 C05 C06 C07 C08 C26 C14",
    "hadar/optimizer/lp/mapper.py": "C01 C02 C03 C04 C05 C06 C07 C08 C14",
    "hadar/optimizer/lp/domain.py": "C06 C01 C02 C03 C04 C05 C07 C08",
    "hadar/optimizer/domain/numeric.py": "C10 C09 C27 C05 C16 C11",
    "hadar/optimizer/domain/input.py": "C09 C27 C11 C13 C18 C10 C14",
    "hadar/optimizer/domain/output.py": "C12 C13 C06 C14 C07",
    "hadar/optimizer/utils.py": "C11 C12 C13 C06",
    "hadar/optimizer/optimizer.py": "C15 C07 C08 C06 C14",
    "hadar/optimizer/remote/optimizer.py": "C15",
    "hadar/analyzer/result.py": "C16 C20 C17 C19 C18 C14 C25",
    "hadar/workflow/pipeline.py": "C21 C22 C23 C24",
    "hadar/workflow/shuffler.py": "C24 C26 C22 C21",
    "hadar/viewer/abc.py": "C25 C31 C18 C14",
    "hadar/viewer/html.py": "C31 C25 C14",
}
SIBS = [("quantity", "cost"), ("flow_in", "flow_out"), ("var_flow_in", "var_flow_out"), ("capacity", "init_capacity"), ("capacity", "flow_in"),
        ("src", "dest"), ("horizon", "nb_scn"), ("consumptions", "productions"), ("inputs", "outputs"), ("lower", "upper"),
        ("downtime_min", "downtime_max"), ("networks", "converters"), ("dest_node", "dest_network"), ("cost", "max"), ("max", "min"),
        ("flow_src", "flow_dest"), ("var_flow_dest", "var_flow_src"), ("tile", "repeat"), ("keys", "values"), ("all", "any"), ("linkable_to", "computable")]
NAMES = [("scn", "t"), ("h", "scn"), ("i", "j"), ("n", "node"), ("net", "node"), ("network", "node"), ("src", "dest"), ("im", "exp"),
         ("any", "all"), ("max", "min"), ("k", "v"), ("u", "v"), ("begin", "duration"), ("start", "end"), ("rc", "sc")]
STRS = [("scn", "t"), ("asked", "given"), ("used", "avail"), ("node", "dest"), ("node", "network"), ("flow_in", "flow_out"), ("capacity", "max_capacity"),
        ("name", "node"), ("cost", "used"), ("networks", "converters")]


def pairs(ps, x):
    return [b for a, b in ps if a == x] + [a for a, b in ps if b == x]


CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr]}


def variants(n, doc):
    """replacements of the node n"""
    C = copy.deepcopy
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), []):
            m = C(n)
            m.ops = [o()]
            yield m
    if isinstance(n, ast.BinOp):
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
            return
        for o in BIN.get(type(n.op), []):
            m = C(n)
            m.op = o()
            yield m
    if isinstance(n, ast.BoolOp):
        m = C(n)
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        yield m
        for i in range(len(n.values)):
            m = C(n)
            del m.values[i]
            yield m.values[0] if len(m.values) == 1 else m
    if isinstance(n, ast.UnaryOp):
        yield C(n.operand)
    if isinstance(n, ast.Constant) and id(n) not in doc:
        v = n.value
        if isinstance(v, bool):
            yield ast.Constant(not v)
        elif isinstance(v, (int, float)):
            yield ast.Constant(v + 1)
            if v:
                yield ast.Constant(0)
        elif isinstance(v, str):
            for s in pairs(STRS, v):
                yield ast.Constant(s)
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
        for s in pairs(SIBS, n.attr):
            m = C(n)
            m.attr = s
            yield m
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
        for s in pairs(NAMES, n.id):
            yield ast.Name(s, ast.Load())
    if isinstance(n, ast.IfExp):
        m = C(n)
        m.body, m.orelse = m.orelse, m.body
        yield m
    if isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ("copy", "flatten", "sort_index", "unique", "sum", "astype") and not (f.attr == "copy" and False):
            yield C(f.value)
        if isinstance(f, ast.Name) and f.id in ("deepcopy", "float", "int", "list", "tuple", "sorted", "abs") and len(n.args) == 1:
            yield C(n.args[0])
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            for i in range(len(n.args) - 1):
                m = C(n)
                m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]
                yield m
        if len(n.args) >= 2:
            m = C(n)
            m.args.pop()
            yield m
        for i in range(len(n.keywords)):
            m = C(n)
            del m.keywords[i]
            yield m
            for j in range(i + 1, len(n.keywords)):
                if n.keywords[i].arg and n.keywords[j].arg and j <= i + 2:
                    m = C(n)
                    m.keywords[i].value, m.keywords[j].value = m.keywords[j].value, m.keywords[i].value
                    yield m
    if isinstance(n, (ast.comprehension, ast.For)):
        for lo, hi in ((1, None), (None, -1)):
            m = C(n)
            m.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [m.iter], []),
                                   ast.Slice(ast.Constant(lo) if lo else None, ast.UnaryOp(ast.USub(), ast.Constant(1)) if hi else None), ast.Load())
            yield m
    if isinstance(n, ast.comprehension) and n.ifs:
        m = C(n)
        m.ifs = []
        yield m
    if isinstance(n, ast.List) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
        for i in range(len(n.elts) - 1):
            m = C(n)
            m.elts[i], m.elts[i + 1] = m.elts[i + 1], m.elts[i]
            yield m
    if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
        m = C(n)
        m.elts[0], m.elts[1] = m.elts[1], m.elts[0]
        yield m
    if isinstance(n, ast.Slice) and n.lower is not None and n.upper is not None:
        m = C(n)
        m.upper = ast.BinOp(m.upper, ast.Sub(), ast.Constant(1))
        yield m
    if isinstance(n, ast.If):
        m = C(n)
        m.test = ast.Constant(True)
        yield m
        m = C(n)
        m.test = ast.Constant(False)
        yield m
    if isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        yield ast.Pass()
    if isinstance(n, ast.AugAssign):
        yield ast.Assign([C(n.target)], C(n.value))
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
        yield ast.Pass()
    if isinstance(n, ast.Break):
        yield ast.Pass()


def mutants(rel):
    src = open(os.path.join(REPO, rel)).read()
    tree = ast.parse(src)
    doc = set()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(id(n.value))
        if isinstance(n, (ast.arg,)) and n.annotation is not None:
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            skip.update(id(x) for x in ast.walk(n.returns))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("debug", "info"):
            skip.update(id(x) for x in ast.walk(n))
            skip.add(id(n))
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
        if isinstance(n, ast.FunctionDef) and n.name in ("__str__", "__repr__", "__hash__", "_wrap_profiler"):
            skip.update(id(x) for x in ast.walk(n))
    k = 0
    for parent in ast.walk(tree):
        if id(parent) in skip:
            continue
        for f, val in ast.iter_fields(parent):
            for i, n in enumerate(val if isinstance(val, list) else [val]):
                if not isinstance(n, ast.AST) or id(n) in skip:
                    continue
                if isinstance(n, ast.Expr) and id(n.value) in skip:
                    continue
                for m in variants(n, doc):
                    old = val[i] if isinstance(val, list) else val
                    if isinstance(val, list):
                        val[i] = m
                    else:
                        setattr(parent, f, m)
                    try:
                        text = ast.unparse(ast.fix_missing_locations(tree))
                    finally:
                        if isinstance(val, list):
                            val[i] = old
                        else:
                            setattr(parent, f, old)
                    yield k, getattr(n, "lineno", 0), short(n), short(m), text
                    k += 1


def short(n):
    try:
        return ast.unparse(n).strip().replace("\n", " ")[:110]
    except Exception:
        return type(n).__name__


def tests(job):
    rel, k, line, a, b, text, skip = job
    d = tempfile.mkdtemp(prefix="hcam", dir="/dev/shm")
    try:
        for x in ("hadar", "tests"):
            shutil.copytree(os.path.join(REPO, x), os.path.join(d, x), ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, rel), "w").write(text)
        env = dict(os.environ, PYTHONPATH=d, MPLBACKEND="Agg", PYTHONHASHSEED="0", NO_PROXY="localhost,127.0.0.1", PYTHONDONTWRITEBYTECODE="1",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL")
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "tests", "--timeout=30", "-p", "no:cacheprovider", "-W", "ignore"]
                               + (["--ignore=tests/optimizer/remote"] if skip else []), cwd=d, env=env, capture_output=True, text=True, timeout=200)
            ok = p.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        return rel, k, line, a, b, ok
    finally:
        shutil.rmtree(d)


def checks(job):
    rel, k, line, a, b, text = job
    d = tempfile.mkdtemp(prefix="hcam", dir="/dev/shm")
    try:
        shutil.copytree(os.path.join(REPO, "hadar"), os.path.join(d, "hadar"), ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, rel), "w").write(text)
        und = []
        for c in FILES[rel].split():
            try:
                p = subprocess.run(["python3", "-m", "hc.run", c], cwd=VERIF, capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, HC_REPO=d, HC_OUT=os.path.join(d, "out"), PYTHONDONTWRITEBYTECODE="1"))
            except subprocess.TimeoutExpired:
                und.append(c + "!")
                continue
            if "VIOLATION" in p.stdout:
                return rel, k, line, a, b, "caught", [c]
            if "undecided=0" not in p.stdout:
                und.append(c)
        return rel, k, line, a, b, "undecided" if und else "missed", und
    finally:
        shutil.rmtree(d)


def main():
    cmd, rest = sys.argv[1], sys.argv[2:]
    files = [f for f in FILES if not rest or any(r in f for r in rest)]
    jobs = int(os.environ.get("JOBS", "8"))
    if cmd == "list":
        for f in files:
            print(f, sum(1 for _ in mutants(f)))
        return
    for f in files:
        every = {m[0]: m for m in mutants(f) if m[0] % int(os.environ.get("EVERY", "1")) == 0}
        with ThreadPoolExecutor(jobs) as ex:
            rs = list(ex.map(checks, [(f,) + m for m in every.values()]))
            left = [r for r in rs if r[5] != "caught"]
            remote = "remote" in f
        with ThreadPoolExecutor(1 if remote else jobs) as ex:
            ts = list(ex.map(tests, [(f,) + every[r[1]] + (not remote,) for r in left]))
        live = {t[1] for t in ts if t[-1]}
        print("%s: %d edits, %d caught, %d left, %d of them pass the tests" % (f, len(rs), len(rs) - len(left), len(left), len(live)), flush=True)
        for r in left:
            if r[1] in live:
                print("   %s %s:%d  %s  ->  %s  %s" % (r[5], r[0].split("/")[-1], r[2], r[3], r[4], ",".join(r[6])), flush=True)


main()
