"""Program states: immutable contents, locations, path exploration."""
import z3
from dv import smt
from dv.smt import V, R, Int, Bool, And, Or, Not, If, Implies, Exists, ForAll, lit, toV, fresh, freshf, bvar

class Unsupported(Exception):
    pass
class Infeasible(Exception):
    pass

# ---------------------------------------------------------------------------------------------- locations
_stamp = [0]
class Loc:
    """A mutable object: a heap address and steps ('f',name) ('k',key) ('i',index) ('r',ref) inside it."""
    __slots__ = ("addr", "path", "stamp")
    def __init__(self, addr, path=(), stamp=None):
        self.addr, self.path = addr, tuple(path)
        if stamp is None:
            _stamp[0] += 1
            stamp = _stamp[0]
        self.stamp = stamp
    def step(self, *s):
        return Loc(self.addr, self.path + s)
    def __repr__(self):
        return "Loc(%s%s)" % (self.addr, "".join("/%s:%s" % s for s in self.path))

def step_eq(a, b):
    """Formula: the two steps name the same place (None: different kinds of steps)."""
    if a[0] != b[0]:
        return z3.BoolVal(False)
    if a[0] == "f":
        return z3.BoolVal(a[1] == b[1])
    x, y = a[1], b[1]
    if a[0] == "k":
        x, y = toV(x), toV(y)
    if not isinstance(x, z3.ExprRef) and not isinstance(y, z3.ExprRef):
        return z3.BoolVal(x == y)
    if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y):
        return z3.BoolVal(True)
    return x == y

def step_match(a, b):
    if a[1] is None or b[1] is None: return z3.BoolVal(a[0] == b[0])
    return step_eq(a, b)

def loc_eq(a, b):
    if a.addr != b.addr or len(a.path) != len(b.path):
        return z3.BoolVal(False)
    return And([step_eq(x, y) for x, y in zip(a.path, b.path)])

# ---------------------------------------------------------------------------------------------- contents
class Rec:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields
    def __repr__(self):
        return "Rec(%s)" % getattr(self.cls, "name", self.cls)

class DictC:
    """entries: constant keys in order -> (present, content); has/get: every other key; order: token of the key order."""
    def __init__(self, entries=None, has=None, get=None, order=None):
        self.entries, self.has_, self.get_, self.order = entries or {}, has, get, order
    def pure(self):
        return self.has_ is None
    def has(self, k):
        if isinstance(k, str):
            if k in self.entries:
                return self.entries[k][0]
            return self.has_(lit(k)) if self.has_ else z3.BoolVal(False)
        if not isinstance(k, z3.ExprRef) and k in self.entries:
            return self.entries[k][0]
        kv = toV(k)
        r = self.has_(kv) if self.has_ else z3.BoolVal(False)
        for c, (p, _) in reversed(list(self.entries.items())):
            r = If(keq(kv, c), p, r)
        return r
    def get(self, k):
        if isinstance(k, str) or not isinstance(k, z3.ExprRef):
            if k in self.entries:
                return self.entries[k][1]
            return self.get_(lit(k)) if self.get_ else None
        r = self.get_(k) if self.get_ else NOTHING
        for c, (p, v) in reversed(list(self.entries.items())):
            r = mk_ite(keq(k, c), v, r)
        return r
    def put(self, k, v, pres=None):
        pres = z3.BoolVal(True) if pres is None else pres
        if not isinstance(k, z3.ExprRef):
            e = dict(self.entries)
            if k in e or self.has_ is None:
                e[k] = (pres, v)
                return DictC(e, self.has_, self.get_, None)
            e[k] = (pres, v)                       # entries shadow the symbolic part
            return DictC(e, self.has_, self.get_, None)
        old = self
        has = lambda x: If(x == k, pres, old.has(x))
        get = lambda x: mk_ite(x == k, v, old.get(x))
        return DictC({}, has, get, None)
    def remove(self, k):
        if not isinstance(k, z3.ExprRef) and k in self.entries and self.has_ is None:
            e = dict(self.entries)
            del e[k]
            return DictC(e, None, None, self.order)
        old, kv = self, toV(k)
        return DictC({}, lambda x: And(old.has(x), Not(keq(x, kv))), lambda x: old.get(x), self.order)

def keq(a, b):
    a, b = toV(a), toV(b)
    if a.eq(b):
        return z3.BoolVal(True)
    if smt.is_lit(a) and smt.is_lit(b):
        return z3.BoolVal(False)
    return a == b

class SetC:
    def __init__(self, mem):
        self.mem = mem

class Seg:
    """for binders if cond: elem   (no binders: one element when cond)"""
    __slots__ = ("binders", "cond", "elem", "carry")
    def __init__(self, binders, cond, elem, carry=None):
        self.binders, self.cond, self.elem, self.carry = list(binders), cond, elem, carry
    def inst(self):
        """The same segment with fresh binders."""
        if self.carry:
            return self
        m = [(b, bvar(str(b).split("!")[0], b.sort())) for b in self.binders]
        return Seg([n for _, n in m], sub(self.cond, m), sub(self.elem, m))

class ListC:
    def __init__(self, segs=(), n=None, at=None, ordered=True):
        self.segs_, self.n, self.at, self.ordered = list(segs), n, at, ordered
    @property
    def segs(self):
        if self.n is not None:
            if self.cached is None:
                i = bvar("i", Int)
                self.cached = [Seg([i], And(i >= 0, i < self.n), self.at(i))]
            return self.cached
        return self.segs_
    cached = None
    members = None                    # a predicate that is known to say what is in the list
    def is_base(self):
        return self.n is not None
    def units(self):
        """The elements, when their number is known."""
        if self.n is not None:
            if z3.is_int_value(self.n):
                return [self.at(z3.IntVal(i)) for i in range(self.n.as_long())]
            return None
        if all(not s.binders and not s.carry and z3.is_true(s.cond) for s in self.segs_):
            return [s.elem for s in self.segs_]
        return None

def flat_and(f):
    if z3.is_and(f): return [y for x in f.children() for y in flat_and(x)]
    return [f]

def as_base(c):
    """(length, element at an index) of a list made of ranges and single elements; None when that is not known."""
    if c.is_base(): return c.n, c.at
    n, at = z3.IntVal(0), (lambda i: NOTHING)
    for s in c.segs_:
        if s.carry: return None
        if not s.binders:
            if not z3.is_true(s.cond): return None
            n, at = n + 1, (lambda i, n=n, at=at, s=s: mk_ite(i == n, s.elem, at(i)))
            continue
        b = s.binders[0]
        if len(s.binders) != 1 or b.sort() != Int: return None
        cs, rest, lo, hi = flat_and(s.cond), [], False, None
        for k in cs:
            if not occurs(k, b): rest.append(k)
            elif z3.is_ge(k) and k.arg(0).eq(b) and z3.is_int_value(k.arg(1)) and k.arg(1).as_long() == 0: lo = True
            elif z3.is_lt(k) and k.arg(0).eq(b) and not occurs(k.arg(1), b) and hi is None: hi = k.arg(1)
            else: return None
        if not lo or hi is None: return None
        hi = If(And(rest), hi, z3.IntVal(0))
        n, at = n + hi, (lambda i, n=n, at=at, s=s, b=b: mk_ite(i < n, at(i), sub(s.elem, [(b, i - n)])))
    return z3.simplify(n), at

class MapC:
    """Total map from references to records (a region)."""
    def __init__(self, at):
        self.at = at

class Ref:
    def __init__(self, loc):
        self.loc = loc

class IteC:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

class Nothing:
    """Content of an absent key."""
    def __repr__(self):
        return "NOTHING"
NOTHING = Nothing()
class Poison:
    def __init__(self, why):
        self.why = why

STRUCT = (Rec, DictC, SetC, ListC, MapC, Ref, IteC)

def mk_ite(c, a, b):
    if z3.is_true(c) or a is b: return a
    if z3.is_false(c): return b
    if a is NOTHING: return b
    if b is NOTHING: return a
    if not isinstance(a, STRUCT) and not isinstance(b, STRUCT):
        if isinstance(a, (z3.ExprRef, bool, int, float, str, type(None))) and isinstance(b, (z3.ExprRef, bool, int, float, str, type(None))):
            return smt.ite(c, a, b)
        if type(a) is type(b) and a == b: return a
        return IteC(c, a, b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.loc is b.loc: return a
        x, y = a.loc, b.loc
        if x.addr == y.addr and len(x.path) == len(y.path) and all(s[0] == t[0] and (s[0] != "f" or s[1] == t[1]) for s, t in zip(x.path, y.path)):
            return Ref(Loc(x.addr, [(s[0], s[1] if s[0] == "f" else smt.ite(c, s[1], t[1])) for s, t in zip(x.path, y.path)], min(x.stamp, y.stamp)))
        return IteC(c, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec) and a.cls is b.cls and list(a.fields) == list(b.fields):
        return Rec(a.cls, {k: mk_ite(c, a.fields[k], b.fields[k]) for k in a.fields})
    if isinstance(a, DictC) and isinstance(b, DictC):
        keys = list(a.entries) + [k for k in b.entries if k not in a.entries]
        hs = a.has_ is not None or b.has_ is not None
        e = {}
        for k in keys:
            pa, pb = a.has(k), b.has(k)
            va, vb = (a.get(k) if not z3.is_false(pa) else NOTHING), (b.get(k) if not z3.is_false(pb) else NOTHING)
            e[k] = (If(c, pa, pb), mk_ite(c, va, vb))
        F = z3.BoolVal(False)
        return DictC(e, (lambda x: If(c, a.has_(x) if a.has_ else F, b.has_(x) if b.has_ else F)) if hs else None,
                     (lambda x: mk_ite(c, a.get_(x) if a.get_ else NOTHING, b.get_(x) if b.get_ else NOTHING)) if hs else None,
                     a.order if a.order == b.order else None)
    if isinstance(a, SetC) and isinstance(b, SetC):
        return SetC(lambda x: If(c, a.mem(x), b.mem(x)))
    if isinstance(a, ListC) and isinstance(b, ListC):
        if a.is_base() and b.is_base():
            return ListC(n=If(c, a.n, b.n), at=lambda i: mk_ite(c, a.at(i), b.at(i)))
        if a.is_base() or b.is_base():
            sa, sb = a.segs, b.segs
        else:
            sa, sb = a.segs_, b.segs_
        p = 0
        while p < len(sa) and p < len(sb) and sa[p] is sb[p]:
            p += 1
        g = lambda s, q: Seg(s.binders, And(q, s.cond), s.elem, s.carry)
        if any(s.carry for s in sa[p:] + sb[p:]):
            return IteC(c, a, b)
        if len(sa) == p + 1 == len(sb) and not sa[p].binders and not sb[p].binders:
            return ListC(sa[:p] + [Seg([], If(c, sa[p].cond, sb[p].cond), mk_ite(c, sa[p].elem, sb[p].elem))], ordered=a.ordered and b.ordered)
        return ListC(sa[:p] + [g(s, c) for s in sa[p:]] + [g(s, Not(c)) for s in sb[p:]], ordered=a.ordered and b.ordered)
    if isinstance(a, MapC) and isinstance(b, MapC):
        return MapC(lambda r: mk_ite(c, a.at(r), b.at(r)))
    return IteC(c, a, b)

def sub(x, m):
    """Substitute constants by terms in a content (lazily under closures)."""
    if not m:
        return x
    if isinstance(x, z3.ExprRef):
        return z3.substitute(x, *m)
    if isinstance(x, Rec):
        return Rec(x.cls, {k: sub(v, m) for k, v in x.fields.items()})
    if isinstance(x, DictC):
        return DictC({k: (sub(p, m), sub(v, m)) for k, (p, v) in x.entries.items()},
                     subf(x.has_, m) if x.has_ else None, subf(x.get_, m) if x.get_ else None, sub_tok(x.order, m))
    if isinstance(x, SetC):
        return SetC(subf(x.mem, m))
    if isinstance(x, ListC):
        if x.is_base():
            return ListC(n=sub(x.n, m), at=subf(x.at, m), ordered=x.ordered)
        return ListC([Seg(s.binders, sub(s.cond, m), sub(s.elem, m), s.carry) for s in x.segs_], ordered=x.ordered)
    if isinstance(x, MapC):
        return MapC(subf(x.at, m))
    if isinstance(x, Ref):
        return Ref(sub_loc(x.loc, m))
    if isinstance(x, Loc):
        return sub_loc(x, m)
    if isinstance(x, IteC):
        return mk_ite(sub(x.c, m), sub(x.a, m), sub(x.b, m))
    if isinstance(x, tuple):
        return tuple(sub(v, m) for v in x)
    return x

def sub_loc(l, m):
    return Loc(l.addr, [(s[0], sub(s[1], m) if s[0] != "f" else s[1]) for s in l.path], l.stamp)

def sub_tok(t, m):
    if isinstance(t, tuple):
        return tuple(sub_tok(x, m) for x in t)
    if isinstance(t, z3.ExprRef):
        return z3.substitute(t, *m)
    return t

def subf(f, m):
    """The argument is shielded from the substitution by a fresh constant."""
    def g(x):
        if isinstance(x, z3.ExprRef):
            if not any(occurs(x, b) for b, _ in m):
                c = x
                return sub(f(c), m)
            c = bvar("arg", x.sort())
            return sub(sub(f(c), m), [(c, x)])
        return sub(f(x), m)
    return g

def occurs(t, c):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(c): return True
        if z3.is_quantifier(x): todo.append(x.body())
        else: todo.extend(x.children())
    return False

def consts_in(t, acc=None, seen=None):
    """Uninterpreted declarations occurring in a term."""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[x.decl().name()] = x.decl()
            todo.extend(x.children())
    return acc

# ---------------------------------------------------------------------------------------------- states and runs
class State:
    def __init__(self):
        self.heap, self.frames, self.stale = {}, {}, ()
        self.ghost = {}
    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.stale = self.stale
        s.ghost = dict(self.ghost)
        return s

class Effect:
    """For all binders with guard: write at loc.  kind: set | put | del | append | add | discard | cell"""
    __slots__ = ("binders", "guard", "addr", "path", "kind", "key", "content")
    def __init__(self, binders, guard, addr, path, kind, key, content):
        self.binders, self.guard, self.addr, self.path, self.kind, self.key, self.content = binders, guard, addr, path, kind, key, content
    def __repr__(self):
        return "Effect(%s %s %s %s %s)" % (self.kind, self.addr, self.path, self.key, self.binders)

class Run:
    def __init__(self, parent, script):
        self.parent, self.script, self.pos = parent, script, 0
        self.conds, self.facts, self.alts = [], [], []     # decisions (formulas), assumed facts
        self.seq = []                                        # both, in order
        self.effects, self.reads = [], []
        self.sides, self.start, self.noside = [], len(script), 0   # paths that left the run on the way
    def assume(self, f):
        if z3.is_true(f): return
        self.facts.append(f)
        self.seq.append(f)
    def hint(self, f):
        """A consequence of the path condition."""
        if z3.is_true(f): return
        self.seq.append(f)
    def decide(self, f):
        if z3.is_true(f): return
        self.conds.append(f)
        self.seq.append(f)
    def pc(self):
        out = []
        r = self
        while r is not None:
            out = r.seq + out
            r = r.parent
        return out

class Path:
    def __init__(self, run, out, state):
        self.conds, self.facts, self.out, self.state = run.conds, run.facts, out, state
        self.effects, self.reads = run.effects, run.reads
        self.guard = And(run.conds)
