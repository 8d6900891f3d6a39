"""tools/mutate.py OUT.jsonl [every] [workers]: systematic changes of the source in scratch copies; those the test suite does not notice
are shown to the generated cases of every property (not the proofs). Survivors are read by hand: the same behaviour, or a gap."""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/bin/python3"
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}

def mutants(src):
    """(line, what, new source)"""
    n = len(list(ast.walk(ast.parse(src))))
    for i in range(n):
        for kind in range(6):
            t = ast.parse(src)
            x = list(ast.walk(t))[i]
            what = None
            if isinstance(x, ast.Compare) and kind == 0:
                what = "comparison"; x.ops[0] = SWAP[type(x.ops[0])]()
            elif isinstance(x, ast.BoolOp) and kind == 0:
                what = "and/or"; x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            elif isinstance(x, ast.BoolOp) and kind in (1, 2):
                what = "operand %d only" % (kind - 1); x.values = [x.values[kind - 1]]
            elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) and kind == 0:
                what = "not"; x.op = ast.UAdd(); x.operand = ast.Call(ast.Name("bool", ast.Load()), [x.operand], [])
            elif isinstance(x, ast.Constant) and kind < 2 and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
                what = "constant"; x.value = x.value + (1 if kind else -1)
            elif isinstance(x, ast.Constant) and kind == 0 and isinstance(x.value, bool):
                what = "constant"; x.value = not x.value
            elif isinstance(x, ast.BinOp) and kind == 0 and isinstance(x.op, (ast.Add, ast.Sub, ast.Mult, ast.BitOr, ast.BitAnd)):
                what = "operator"; x.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}[type(x.op)]()
            elif isinstance(x, ast.Call) and kind == 0 and isinstance(x.func, ast.Attribute) and x.func.attr in ("deepcopy", "copy") and x.args:
                what = "no copy"; x.func = ast.Name("_same", ast.Load()); t.body.append(ast.parse("def _same(x): return x").body[0])
            elif isinstance(x, ast.Call) and kind == 1 and isinstance(x.func, ast.Name) and x.func.id in ("list", "sorted", "frozenset", "set", "dict") and x.args:
                what = "first argument instead of " + x.func.id; x.func = ast.Name("_same", ast.Load()); x.keywords = []; t.body.append(ast.parse("def _same(x): return x").body[0])
            elif isinstance(x, ast.IfExp) and kind < 2:
                what = "one side"; x.test = ast.Constant(bool(kind))
            elif isinstance(x, ast.comprehension) and kind == 0 and x.ifs:
                what = "no filter"; x.ifs = x.ifs[1:]
            elif isinstance(x, (ast.If, ast.While)) and kind in (0, 1) and not (isinstance(x, ast.While) and kind):
                what = "condition %s" % bool(kind); x.test = ast.Constant(bool(kind))
            elif isinstance(x, (ast.FunctionDef, ast.If, ast.For, ast.While)) and kind >= 2:
                k = kind - 2                                    # drop a statement
                for b in (x.body,):
                    if len(b) > k and isinstance(b[k], (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Continue, ast.Break, ast.Raise, ast.Return)) and not (isinstance(b[k], ast.Expr) and isinstance(b[k].value, ast.Constant)):
                        what = "dropped: " + ast.unparse(b[k])[:60]; b[k] = ast.Pass()
            elif isinstance(x, ast.Dict) and kind < 4 and len(x.keys) > 3:
                what = "entry dropped: " + ast.unparse(x.keys[(kind * 7 + i) % len(x.keys)])
                j = (kind * 7 + i) % len(x.keys); del x.keys[j]; del x.values[j]
            if what:
                ast.fix_missing_locations(t)
                try: yield getattr(x, "lineno", 0), what, ast.unparse(t)
                except Exception: pass

ALL = "E04 E06 S01 G01 E03 E02 S02 S03 S04 V01 V02 G02 G03 G04 G05 G06 M01 M02 M03 E01 E05 E07 E08 E09 T01 F01".split()
NEAR = {"graph": "G01 G02 G03 G04 G05 G06 M02 M03", "deserializer": "M01 M02 E04 E06", "version": "V01 V02 S01", "draworder": "E02", "slot": "E03 E04 T01 E09", "utils": "T01 E09", "editor": "E01 E04 E05 E06 E07 E08 F01 S02", "container": "M03 E04 E06", "spine_anim_data": "S01 S02 S03 E03 E05 E09"}
def job(a):
    f, line, what, new, pool, budget = a
    d = pool.pop()
    try:
        p = os.path.join(d, f)
        old = open(p).read()
        try:
            open(p, "w").write(new)
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60"], cwd=d, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
            if r.returncode: return None
            first = [p for k, v in NEAR.items() if k in f for p in v.split()]
            order = first + [p for p in ALL if p not in first]
            for pid in order:
                r = subprocess.run([VT, "-c", "import sys; sys.path.insert(0, %r); from rt import run; r = run.search(%r, 1, %r, procs=1); print('BAD' if r['bad'] else 'ok', r['bad'] and r['bad'][1][:150])" % (HERE, pid, budget)],
                                   capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"))
                if "ok" not in r.stdout: return {"file": f, "line": line, "what": what, "by": pid, "msg": (r.stdout + r.stderr[-200:]).strip()[:300]}
            return {"file": f, "line": line, "what": what, "by": None}
        finally: open(p, "w").write(old)
    finally: pool.append(d)

if __name__ == "__main__":
    out, every, workers = sys.argv[1], int((sys.argv + ["", "7"])[2] or 7), int((sys.argv + ["", "", "6"])[3] or 6)
    top = tempfile.mkdtemp(dir="/tmp/w")
    pool = []
    for i in range(workers):
        shutil.copytree("/repo", "%s/%d" % (top, i)); pool.append("%s/%d" % (top, i))
    js = []
    for r, _, fs in os.walk("/repo/spine_json_lib"):
        for f in sorted(fs):
            if f.endswith(".py") and "/test" not in r:
                p = os.path.join(r, f)
                js += [(os.path.relpath(p, "/repo"), l, w, s, pool, 4.0) for l, w, s in mutants(open(p).read())]
    print(len(js), "mutants"); random.Random(5).shuffle(js)
    js = js[::every]
    with ThreadPoolExecutor(workers) as ex, open(out, "w") as o:
        for r in ex.map(job, js):
            if r: o.write(json.dumps(r) + "\n"); o.flush()
    shutil.rmtree(top)
