"""Sorts, background theory and solver calls.

V is the sort of Python scalars and opaque JSON values; R is the sort of references to graph nodes.
Numbers are mathematical (int -> Int, float -> Real)."""
import z3, time, subprocess, tempfile, os

V = z3.DeclareSort("V")
R = z3.DeclareSort("R")
Int, Bool, Real, Str = z3.IntSort(), z3.BoolSort(), z3.RealSort(), z3.StringSort()
K_NONE, K_BOOL, K_INT, K_REAL, K_STR, K_LIST, K_DICT, K_REF = range(8)
kind = z3.Function("kind", V, Int)
num = z3.Function("num", V, Real)
intv = z3.Function("intv", Int, V)
realv = z3.Function("realv", Real, V)
strv = z3.Function("strv", Int, V)             # str(int)
unstr = z3.Function("unstr", V, Int)
refv = z3.Function("refv", R, V)
jeq = z3.Function("jeq", V, V, Bool)           # == on JSON lists and objects
NONE, TRUE, FALSE = z3.Consts("None True False", V)
EMPTYL, EMPTYD = z3.Consts("[] {}", V)
fmtf = {}

_lits, _lit_py = {}, {}
_facts_cache = None
STRFUNS = set()                                # declarations whose values are strings (typed inputs)

def lit(x):
    if x is None: return NONE
    if x is True: return TRUE
    if x is False: return FALSE
    key = (type(x).__name__, x)
    if key not in _lits:
        _lits[key] = z3.Const("lit_%s<%s>" % (type(x).__name__, x if type(x) is not str or x.replace("_", "").isalnum() and x.isascii() else x.encode().hex() + "!"), V)
        _lit_py[_lits[key].get_id()] = x
        global _facts_cache
        _facts_cache = None
    return _lits[key]

def is_lit(t):
    return z3.is_const(t) and t.get_id() in _lit_py

def background():
    """Facts about literals and the few injections."""
    global _facts_cache
    if _facts_cache is not None:
        return _facts_cache
    f = []
    i = z3.Int("i!"); x = z3.Real("x!"); r = z3.Const("r!", R); v, w, u = z3.Consts("v! w! u!", V)
    f += [kind(NONE) == K_NONE, kind(TRUE) == K_BOOL, kind(FALSE) == K_BOOL, TRUE != FALSE, num(TRUE) == 1, num(FALSE) == 0,
          kind(EMPTYL) == K_LIST, kind(EMPTYD) == K_DICT]
    f += [z3.ForAll([v], z3.Implies(kind(v) == K_NONE, v == NONE), patterns=[kind(v)]),
          z3.ForAll([v], z3.And(kind(v) >= 0, kind(v) <= 7), patterns=[kind(v)])]
    f += [z3.ForAll([i], z3.And(kind(intv(i)) == K_INT, num(intv(i)) == z3.ToReal(i)), patterns=[intv(i)]),
          z3.ForAll([x], z3.And(kind(realv(x)) == K_REAL, num(realv(x)) == x), patterns=[realv(x)]),
          z3.ForAll([i], z3.And(kind(strv(i)) == K_STR, unstr(strv(i)) == i), patterns=[strv(i)])]
    f += [z3.ForAll([v, w], z3.Implies(jeq(v, w), z3.And(kind(v) == kind(w), z3.Or(kind(v) == K_LIST, kind(v) == K_DICT))), patterns=[jeq(v, w)]),
          z3.ForAll([v, w], z3.Implies(jeq(v, w), jeq(w, v)), patterns=[jeq(v, w)])]
    strs = []
    for (t, p), c in _lits.items():
        if t == "str":
            f.append(kind(c) == K_STR); strs.append(c)
        elif t == "int":
            f += [kind(c) == K_INT, num(c) == p, c == intv(z3.IntVal(p))]
        elif t == "float":
            f += [kind(c) == K_REAL, num(c) == z3.RealVal(repr(p)), c == realv(z3.RealVal(repr(p)))]
        elif t == "tuple":
            pass
    if len(strs) > 1:
        f.append(z3.Distinct(*strs))
    _facts_cache = f
    return f

def is_num(v):
    return z3.And(kind(v) >= K_BOOL, kind(v) <= K_REAL)

def toV(x):
    """Any scalar as a V term."""
    if not isinstance(x, z3.ExprRef):
        return lit(x)
    s = x.sort()
    if s == V: return x
    if s == Bool:
        if z3.is_true(x): return TRUE
        if z3.is_false(x): return FALSE
        return z3.If(x, TRUE, FALSE)
    if s == Int: return intv(x)
    if s == Real: return realv(x)
    if s == R: return refv(x)
    raise TypeError("no V for %s" % s)

def known_str(t):
    if not isinstance(t, z3.ExprRef):
        return isinstance(t, str)
    if t.sort() != V: return False
    if z3.is_app(t):
        if t.decl().name() in STRFUNS or t.decl().eq(strv): return True
        if is_lit(t): return isinstance(_lit_py[t.get_id()], str)
        if z3.is_app_of(t, z3.Z3_OP_ITE): return known_str(t.arg(1)) and known_str(t.arg(2))
    return False

def known_ref(t):
    return isinstance(t, z3.ExprRef) and t.sort() == V and z3.is_app(t) and t.decl().eq(refv)

def pyeq(a, b):
    """Python == on scalars."""
    if not isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef):
        return z3.BoolVal(a == b)
    sa = a.sort() if isinstance(a, z3.ExprRef) else None
    sb = b.sort() if isinstance(b, z3.ExprRef) else None
    if sa == Str or sb == Str:
        if sa == Str and sb == Str: return a == b
        o = b if sa == Str else a
        if isinstance(o, str): return (a if sa == Str else b) == z3.StringVal(o)
        if not isinstance(o, z3.ExprRef): return z3.BoolVal(False)
        raise TypeError("mixed string comparison")
    nums = lambda x, s: s in (Int, Real) or (s is None and isinstance(x, (int, float)) and not isinstance(x, bool))
    if nums(a, sa) and nums(b, sb):
        f = lambda x: z3.RealVal(repr(x)) if isinstance(x, float) else x
        a, b = f(a), f(b)
        return a == b
    if sa == Bool and sb == Bool: return a == b
    if sa == Bool and isinstance(b, bool): return a if b else z3.Not(a)
    if sb == Bool and isinstance(a, bool): return b if a else z3.Not(b)
    if sa == R and sb == R: return a == b
    if a is None or b is None or isinstance(a, str) or isinstance(b, str) or known_str(a) or known_str(b) or known_ref(a) or known_ref(b):
        return toV(a) == toV(b)
    x, y = toV(a), toV(b)
    if x.eq(y): return z3.BoolVal(True)
    if any(t.eq(e) for t in (x, y) for e in (EMPTYL, EMPTYD)): return x == y
    return z3.Or(x == y, z3.And(is_num(x), is_num(y), num(x) == num(y)), jeq(x, y))

def truth(x):
    """Python truth value of a scalar."""
    if not isinstance(x, z3.ExprRef): return z3.BoolVal(bool(x))
    s = x.sort()
    if s == Bool: return x
    if s in (Int, Real): return x != 0
    if s == Str: return z3.Length(x) > 0
    if s == V:
        if known_str(x): return x != lit("")
        return z3.Not(z3.Or(x == NONE, x == FALSE, z3.And(is_num(x), num(x) == 0), x == lit(""), x == EMPTYL, x == EMPTYD))
    raise TypeError(s)

def And(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a): return z3.BoolVal(False)
    return z3.BoolVal(True) if not a else a[0] if len(a) == 1 else z3.And(*a)

def Or(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a): return z3.BoolVal(True)
    return z3.BoolVal(False) if not a else a[0] if len(a) == 1 else z3.Or(*a)

def Not(a):
    if z3.is_true(a): return z3.BoolVal(False)
    if z3.is_false(a): return z3.BoolVal(True)
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)

def Implies(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return z3.BoolVal(True)
    return z3.Implies(a, b)

def If(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b): return a
    if a is b: return a
    return z3.If(c, a, b)

def Exists(bs, f):
    if z3.is_false(f) or z3.is_true(f) or not bs: return f
    return z3.Exists(list(bs), f)

def ForAll(bs, f, pats=None):
    if z3.is_true(f) or not bs: return f
    return z3.ForAll(list(bs), f, patterns=pats) if pats else z3.ForAll(list(bs), f)

def ite(c, a, b):
    """Conditional scalar, in the best common sort."""
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    ea, eb = isinstance(a, z3.ExprRef), isinstance(b, z3.ExprRef)
    if not ea and not eb:
        if type(a) is type(b) and a == b: return a
        if isinstance(a, bool) and isinstance(b, bool): return c if a else Not(c)
    sa = a.sort() if ea else (Bool if isinstance(a, bool) else Int if isinstance(a, int) else None)
    sb = b.sort() if eb else (Bool if isinstance(b, bool) else Int if isinstance(b, int) else None)
    if sa is not None and sa == sb and (ea or eb):
        f = lambda x, e, s: x if e else (z3.BoolVal(x) if s == Bool else z3.IntVal(x))
        return If(c, f(a, ea, sa), f(b, eb, sb))
    if Str in (sa, sb) and all(s == Str or isinstance(x, str) for x, s in ((a, sa), (b, sb))):
        f = lambda x, e: x if e else z3.StringVal(x)
        return If(c, f(a, ea), f(b, eb))
    return If(c, toV(a), toV(b))

_n = [0]
CTX = []                                       # binders of the loops whose bodies are being executed
def bvar(name, sort):
    """A variable to be bound by a quantifier or a loop."""
    _n[0] += 1
    return z3.Const("%s!%d" % (name, _n[0]), sort)

def fresh(name, sort):
    """An unknown value; inside a loop body it depends on the iteration."""
    _n[0] += 1
    if CTX:
        return z3.Function("%s!%d" % (name, _n[0]), *([b.sort() for b in CTX] + [sort]))(*CTX)
    return z3.Const("%s!%d" % (name, _n[0]), sort)

def freshf(name, *sorts):
    _n[0] += 1
    f = z3.Function("%s!%d" % (name, _n[0]), *([b.sort() for b in CTX] + list(sorts)))
    if not CTX: return f
    ctx = list(CTX)
    return lambda *a: f(*ctx, *a)

EMATCH = {"auto_config": False, "smt.mbqi": False}   # stop when instantiation saturates

class Stats:
    def __init__(self):
        self.queries = self.time = 0
        self.time = 0.0
        self.by = {}
STATS = Stats()
SLOW = float(os.environ.get("DV_SLOW", 0))

_mv = {}
def mentions_v(t):
    """Does the term speak of V values?"""
    k = t.get_id()
    if k in _mv: return _mv[k][0]
    seen, todo, r = set(), [t], False
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.sort() == V or z3.is_quantifier(x) and any(x.var_sort(i) == V for i in range(x.num_vars())): r = True; break
        todo.extend(x.children())
    _mv[k] = (r, t)
    return r

RATE = 1500                                             # units of z3's resource counter in a millisecond
def check(assertions, timeout=2000, bg=True, opts=None):
    bg = bg and any(mentions_v(a) for a in assertions)
    s = z3.Solver()
    s.set("timeout", 6 * timeout)
    s.set("rlimit", RATE * timeout)                     # the limit that counts: not a matter of the machine's load
    if opts:
        for k, v in opts.items():
            s.set(k, v)
    if bg:
        s.add(*background())
    s.add(*assertions)
    t = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t
    if SLOW and time.time() - t > SLOW:
        import traceback
        print("      [%.1fs %s]" % (time.time() - t, r), " < ".join(f.name for f in reversed(traceback.extract_stack()[-9:-1])), flush=True)
    return r, s

def proves(hyps, goal, timeout=2000):
    if z3.is_true(goal): return True
    if check(hyps + [Not(goal)], timeout, opts=EMATCH)[0] == z3.unsat: return True
    return check(hyps + [Not(goal)], min(timeout, 500))[0] == z3.unsat

def smt2(assertions, bg=True):
    s = z3.Solver()
    if bg: s.add(*background())
    s.add(*assertions)
    return s.to_smt2()

def cvc5_check(assertions, timeout=10000, bg=True, extra=()):
    """Second back end, on the same verification condition in SMT-LIB."""
    bg = bg and any(mentions_v(a) for a in assertions)
    txt = "(set-logic ALL)\n" + smt2(assertions, bg)
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    t = time.time()
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, *extra, f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
    except Exception:
        out = "unknown"
    finally:
        os.unlink(f.name)
    STATS.queries += 1
    STATS.time += time.time() - t
    return out
