"""Symbolic execution of the real program text over the states of core.py.  One obligation = one call of explore()."""
import ast, os, z3
from dv import smt, core
from dv.smt import V, R, Int, Bool, Real, Str, And, Or, Not, If, Implies, Exists, ForAll, lit, toV, fresh, freshf, bvar, pyeq, truth
from dv.core import *
from dv.source import Program, FuncDef, ClassV, ModuleV
from dv.builtins_ import Builtin, ExcType, NAMES, EXC, exc_ancestors

def p_seq(p): return list(p.conds) + list(p.facts)
class PyExc(Exception):
    def __init__(self, cls, args=()):
        self.cls, self.args_ = cls, args
    def names(self):
        return self.cls.exc_names() if isinstance(self.cls, ClassV) else exc_ancestors(self.cls.name)
    def __repr__(self):
        return "raises %s" % self.cls
class Ret(Exception):
    def __init__(self, value): self.value = value
class Brk(Exception): pass
class Cont(Exception): pass
class NoMerge(Exception): pass

class FuncV:
    def __init__(self, d, frames=(), bound=None, cls=None):
        self.d, self.frames, self.bound, self.cls = d, frames, bound, cls
    def __repr__(self): return "<function %s>" % self.d.qual
class PropV:
    def __init__(self, f): self.f = f
class StaticV:
    def __init__(self, f): self.f = f
class ClsMethV:
    def __init__(self, f): self.f = f
class EnumV:
    def __init__(self, cls, name, value): self.cls, self.name, self.value = cls, name, value
    def __repr__(self): return "%s.%s" % (self.cls.name, self.name)
class Meth:
    """A method of a built-in container or string."""
    def __init__(self, obj, name): self.obj, self.name = obj, name
class SuperV:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj
class View:
    """keys / values / items / enumerate of something"""
    def __init__(self, kind, obj, start=0): self.kind, self.obj, self.start = kind, obj, start
class ObjDict:
    def __init__(self, loc): self.loc = loc
class NTCls:
    def __init__(self, name, fields): self.name, self.fields = name, fields
class NTVal:
    def __init__(self, cls, vals): self.cls, self.vals = cls, vals
class Carried:
    """A variable of an earlier iteration."""
    def __init__(self, name, old): self.name, self.old = name, old
class Item:
    """One step of an iteration: for binders if cond, the value."""
    def __init__(self, binders, cond, value, own=None):        # own: the step to the place whose value this is
        self.binders, self.cond, self.value, self.own = binders, cond, value, own

T, F = z3.BoolVal(True), z3.BoolVal(False)
SCALAR = (z3.ExprRef, bool, int, float, str, type(None))
IMMUT = (FuncV, ClassV, EnumV, Builtin, ExcType, ModuleV, NTCls)

def same_step(a, b):
    if a[0] != b[0]: return False
    if isinstance(a[1], z3.ExprRef) and isinstance(b[1], z3.ExprRef): return a[1].eq(b[1])
    return type(a[1]) is type(b[1]) and a[1] == b[1]

class Interp:
    FEAS_MS = 400
    def __init__(self, program=None):
        self.prog = program or Program()
        self.mods, self.naddr = {}, 0
        self.st, self.run = State(), Run(None, [])
        self.contracts = {}                      # qualname -> fn(interp, FuncV, args, kwargs)
        self.loop_rules = {}                     # qualname -> fn(interp, node, frame) -> bool (handled)
        self.inlined, self.contracted = set(), set()
        self.depth, self.loopmarks = 0, []
        self.fnstack = []
        self.prove_log = []
        self.feas_cache = {}
        self.readonly = set()
        self.loopruns = []
        self.static = {}

    # ------------------------------------------------------------------------------------ logic
    def assume(self, f): self.run.assume(f)
    def feasible(self, f):
        pc = self.run.pc()
        key = (tuple(x.get_id() for x in pc), f.get_id())
        if key not in self.feas_cache:
            r, _ = smt.check(pc + [f], timeout=self.FEAS_MS, opts=smt.EMATCH)
            self.feas_cache[key] = (r != z3.unsat, pc, f)
        return self.feas_cache[key][0]
    def entails(self, f, ms=2000):
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        return smt.proves(self.run.pc(), f, ms)
    def choose(self, cond):
        if isinstance(cond, bool): return cond
        cond = z3.simplify(cond) if not has_quant(cond) else cond
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if not self.feasible(cond):
            return False
        if not self.feasible(Not(cond)):
            return True
        run = self.run
        if run.pos < len(run.script):
            v = run.script[run.pos]
        else:
            v = True
            run.alts.append(run.script[:run.pos] + [False])
            run.script = run.script + [True]
        run.pos += 1
        run.decide(cond if v else Not(cond))
        return v

    def explore(self, fn, first=None, limit=400):
        """All paths of fn from the current state; the current state and run stay as they are."""
        base, prun = self.st, self.run
        todo, paths = [[]], []
        while todo:
            script = todo.pop()
            run = Run(prun, script)
            self.run, self.st = run, base.copy()
            try:
                if first is not None: run.decide(first)
                try:
                    out = ("normal", fn())
                except PyExc as e: out = ("raise", e)
                except Ret as e: out = ("return", e.value)
                except Brk: out = ("break", None)
                except Cont: out = ("continue", None)
                paths.append(Path(run, out, self.st))
                paths += run.sides
            except Infeasible:
                paths += run.sides
            finally:
                todo += run.alts
                self.st, self.run = base, prun
            if len(paths) > limit: raise Unsupported("more than %d paths" % limit)
        return paths

    def adopt(self, p, guard_effects=True):
        """Continue as path p."""
        self.st = p.state
        for c in p.conds: self.run.decide(c)
        for f in p.facts: self.run.assume(f)
        self.run.effects += p.effects
        self.run.reads += p.reads

    def merge(self, paths, want=("normal",), leave=True):
        """Join the paths whose outcome kind is in want into one; the others leave the current run.  Returns the outcome continued with."""
        if not paths: raise Infeasible()
        good = [p for p in paths if p.out[0] in want]
        bad = [p for p in paths if p.out[0] not in want]
        if len(paths) == 1:
            p = paths[0]
            self.adopt(p)
            return p
        if len(bad) > 1: bad = self.join_raises(bad)
        if good and leave and not self.run.noside and all(p.out[0] in ("raise", "return") for p in bad) and bad:
            run = self.run
            if run.pos >= run.start:
                for p in bad: run.sides.append(self.aside(run, p))
            run.decide(Or([p.guard for p in good]))
            bad = []
            if len(good) == 1:
                self.adopt(good[0])
                return good[0]
        gg = Or([p.guard for p in good])
        if good and (not bad or self.choose(gg)):
            m = None
            if len(good) > 1:
                try:
                    m = self.join(good)
                except NoMerge:
                    m = None
            if m is None:
                for p in good[:-1]:
                    if self.choose(p.guard):
                        self.adopt(p); return p
                self.adopt(good[-1]); return good[-1]
            return m
        for p in bad[:-1]:
            if self.choose(p.guard):
                self.adopt(p); return p
        self.adopt(bad[-1]); return bad[-1]

    def aside(self, run, p):
        """The path that leaves the run here with the outcome of p."""
        q = Run(run.parent, [])
        q.seq, q.conds, q.facts = run.seq + p_seq(p), run.conds + p.conds, run.facts + p.facts
        q.effects, q.reads = run.effects + p.effects, run.reads + p.reads
        return Path(q, p.out, p.state)
    def join_raises(self, bad):
        """Paths ending with the same exception become one when their states can be joined."""
        groups = {}
        for p in bad:
            k = p.out[1].cls.name if p.out[0] == "raise" and hasattr(p.out[1].cls, "name") and not p.out[1].args_ else id(p)
            groups.setdefault(k, []).append(p)
        out = []
        for ps in groups.values():
            if len(ps) == 1: out += ps; continue
            save, run = self.st, self.run
            self.run = Run(run, [])
            try:
                o = ps[0].out
                for p in ps: p.out_ = p.out
                for p in ps: p.out = ("raise", None)
                m = self.join(ps)
                q = Path(self.run, o, self.st)
                q.conds = [Or([p.guard for p in ps])]
                q.guard = q.conds[0]
                out.append(q)
            except NoMerge:
                out += ps
                for p in ps: p.out = p.out_
            finally: self.st, self.run = save, run
        return out

    def join(self, paths):
        st = paths[-1].state.copy()
        val = paths[-1].out[1]
        new = State()
        for p in reversed(paths[:-1]):
            st = self.join_state(p.guard, p.state, st)
            val = self.join_val(p.guard, p.out[1], val)
        for p in paths:
            for f in p.facts: self.run.assume(Implies(p.guard, f))
            for e in p.effects: self.run.effects.append(Effect(e.binders, And(p.guard, e.guard), e.addr, e.path, e.kind, e.key, e.content))
            for r in p.reads: self.run.reads.append((And(p.guard, r[0]),) + r[1:])
        self.run.hint(Or([p.guard for p in paths]))
        self.st = st
        m = Path(Run(None, []), ("normal" if paths[0].out[0] == "normal" else paths[0].out[0], val), st)
        m.out = (paths[0].out[0], val)
        return m
    def join_state(self, c, a, b):
        s = State()
        for k in {**a.heap, **b.heap}:
            x, y = a.heap.get(k, NOTHING), b.heap.get(k, NOTHING)
            s.heap[k] = x if x is y else mk_ite(c, x, y)
        for f in {**a.frames, **b.frames}:
            x, y = a.frames.get(f), b.frames.get(f)
            if x is None or y is None:
                s.frames[f] = dict(x or y); continue
            d = {}
            for n in {**x, **y}:
                if n in x and n in y:
                    if x[n] is y[n]: d[n] = x[n]; continue
                    try: d[n] = self.join_val(c, x[n], y[n])
                    except NoMerge:
                        if self.depth_of(f): raise
                        d[n] = Poison("%s differs between branches" % n)
                else:
                    d[n] = Poison("%s may be unbound" % n)
            s.frames[f] = d
        s.stale = a.stale + tuple(x for x in b.stale if x not in a.stale)
        s.ghost = {k: a.ghost.get(k) if a.ghost.get(k) is b.ghost.get(k) else self.join_val(c, a.ghost.get(k), b.ghost.get(k)) for k in {**a.ghost, **b.ghost}}
        return s
    def depth_of(self, f): return True
    def join_val(self, c, x, y):
        if x is y: return x
        if isinstance(x, Poison): return x
        if isinstance(y, Poison): return y
        if isinstance(x, Carried) or isinstance(y, Carried):
            if isinstance(x, Carried) and isinstance(y, Carried): return x
            k, o = (x, y) if isinstance(x, Carried) else (y, x)
            if isinstance(o, Loc) and isinstance(k.old, Loc) and isinstance(self.load(k.old, log=False), SetC): raise NoMerge()
            return Poison("carried")
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.join_val(c, a, b) for a, b in zip(x, y))
        if isinstance(x, NTVal) and isinstance(y, NTVal) and x.cls is y.cls:
            return NTVal(x.cls, tuple(self.join_val(c, a, b) for a, b in zip(x.vals, y.vals)))
        if isinstance(x, SCALAR) and isinstance(y, SCALAR):
            text = lambda v: isinstance(v, z3.ExprRef) and v.sort() == Str
            if (text(x) or text(y)) and not all(text(v) or isinstance(v, str) for v in (x, y)): raise NoMerge()
            return smt.ite(c, x, y)
        if isinstance(x, Loc) and isinstance(y, Loc):
            r = mk_ite(c, Ref(x), Ref(y))
            if isinstance(r, Ref): return r.loc
            fx, fy = self.fresh_addr(x), self.fresh_addr(y)
            raise NoMerge()
        if isinstance(x, Item) or isinstance(y, Item): raise NoMerge()
        if type(x) is type(y) and isinstance(x, EnumV) and x.cls is y.cls and x.name == y.name: return x
        if isinstance(x, FuncV) and isinstance(y, FuncV) and x.d is y.d and x.frames == y.frames and x.bound is None and y.bound is None: return x
        raise NoMerge()
    def fresh_addr(self, l): return not l.path

    def branch(self, cond, ft, fe):
        """Value of (ft if cond else fe), states merged when possible."""
        if isinstance(cond, bool): return ft() if cond else fe()
        cond = z3.simplify(cond) if not has_quant(cond) else cond
        if z3.is_true(cond): return ft()
        if z3.is_false(cond): return fe()
        if not self.feasible(cond):
            self.run.hint(Not(cond)); return fe()
        if not self.feasible(Not(cond)):
            self.run.hint(cond); return ft()
        ps = self.explore(ft, cond) + self.explore(fe, Not(cond))
        p = self.merge(ps)
        return self.outcome(p)
    def outcome(self, p):
        k, v = p.out
        if k == "normal": return v
        if k == "raise": raise v
        if k == "return": raise Ret(v)
        if k == "break": raise Brk()
        raise Cont()

    # ------------------------------------------------------------------------------------ heap
    def alloc(self, content):
        self.naddr += 1
        self.st.heap[self.naddr] = content
        return Loc(self.naddr)
    def canon(self, loc):
        """Follow references from the root of loc."""
        while True:
            c = self.st.heap.get(loc.addr)
            if c is None: c = self.st.heap[loc.addr] = self.static[loc.addr]
            path, i = loc.path, 0
            if isinstance(c, Ref):
                loc = Loc(c.loc.addr, c.loc.path + path, min(loc.stamp, c.loc.stamp)); continue
            again = False
            for i, s in enumerate(path):
                c = self.pick(c)
                c = self.step(c, s)
                if isinstance(c, Ref):
                    loc = Loc(c.loc.addr, c.loc.path + path[i + 1:], min(loc.stamp, c.loc.stamp))
                    again = True
                    break
            if not again: return loc, c
    def pick(self, c):
        while isinstance(c, IteC):
            c = c.a if self.choose(c.c) else c.b
        return c
    def step(self, c, s):
        if isinstance(c, Rec):
            if s[1] not in c.fields: raise Unsupported("no field %s in %s" % (s[1], c))
            return c.fields[s[1]]
        if isinstance(c, DictC): return c.get(s[1])
        if isinstance(c, ListC):
            if c.is_base(): return c.at(s[1])
            u = c.units()
            if u is not None and isinstance(s[1], int): return u[s[1]]
            raise Unsupported("element of a filtered list by index")
        if isinstance(c, MapC): return c.at(s[1])
        raise Unsupported("step %s in %r" % (s, c))
    def load(self, loc, whole=False, log=True):
        loc2, c = self.canon(loc)
        self.stale_check(loc2)
        if log: self.log_read(loc2, whole)
        return self.pick(c)
    def stale_check(self, loc):
        for addr, path, stamp in self.st.stale:
            if addr == loc.addr and stamp > loc.stamp and len(path) <= len(loc.path):
                f = And([step_match(x, y) for x, y in zip(path, loc.path)])
                if not z3.is_false(f) and (z3.is_true(f) or self.feasible(f)):
                    raise Unsupported("use of a replaced object at %r" % loc)
    def log_read(self, loc, whole):
        if self.loopmarks and loc.addr <= self.loopmarks[-1]:
            if whole is False and self.made_present(loc): whole = "present"
            if self.written_here(loc): return
            self.run.reads.append((T, [], loc.addr, loc.path, whole))
    def log_write(self, loc, kind):
        if loc.addr in self.readonly: raise Unsupported("change of an element of a filtered list")
        if loc.addr in self.static: raise Unsupported("a table of a class or module is changed")
        if self.loopmarks and loc.addr <= self.loopmarks[-1]:
            self.run.effects.append(Effect([], T, loc.addr, loc.path, kind, None, None))
    def update(self, c, steps, f):
        if not steps: return f(c)
        s, rest = steps[0], steps[1:]
        c = self.pick(c)
        if isinstance(c, Rec):
            d = dict(c.fields); d[s[1]] = self.update(c.fields.get(s[1], NOTHING), rest, f)
            return Rec(c.cls, d)
        if isinstance(c, DictC):
            return dict_set(c, s[1], self.update(c.get(s[1]), rest, f))
        if isinstance(c, ListC):
            if not c.is_base():
                u = c.units()
                if u is not None and isinstance(s[1], int):
                    u = list(u); u[s[1]] = self.update(u[s[1]], rest, f)
                    return ListC([Seg([], T, x) for x in u])
                raise Unsupported("update of a filtered list by index")
            old, i = c, s[1]
            i = i if isinstance(i, z3.ExprRef) else z3.IntVal(i)
            new = self.update(old.at(i), rest, f)
            return ListC(n=old.n, at=lambda j: mk_ite(j == i, new, old.at(j)))
        if isinstance(c, MapC):
            old, r = c, s[1]
            new = self.update(old.at(r), rest, f)
            return MapC(lambda q: new if q.eq(r) else mk_ite(q == r, new, old.at(q)))
        raise Unsupported("update at %s of %r" % (s, c))
    def modify(self, loc, f, kind):
        loc, c = self.canon(loc)
        self.stale_check(loc)
        self.log_write(loc, kind)
        self.st.heap[loc.addr] = self.update(self.st.heap[loc.addr], list(loc.path), f)
    def setfield(self, loc, name, rv):
        loc, c = self.canon(loc)
        old = c.fields.get(name, NOTHING) if isinstance(c, Rec) else NOTHING
        self.replaced(loc.step(("f", name)), old)
        if self.same_place(rv, loc.step(("f", name))): return
        rv = self.detach(loc.step(("f", name)), old, rv)
        v = self.embed(rv, loc.step(("f", name)))
        self.log_write(loc.step(("f", name)), "slot")
        self.st.heap[loc.addr] = self.update(self.st.heap[loc.addr], list(loc.path), lambda c: self.rec_put(c, name, v))
    def rec_put(self, c, name, v):
        c = self.pick(c)
        d = dict(c.fields); d[name] = v
        return Rec(c.cls, d)
    def replaced(self, loc, old):
        if isinstance(old, STRUCT) and not isinstance(old, Ref):
            core._stamp[0] += 1
            self.st.stale = self.st.stale + ((loc.addr, loc.path, core._stamp[0]),)
    def dict_put(self, loc, key, rv):
        loc, c = self.canon(loc)
        c = self.pick(c)
        old = c.get(key) if not z3.is_false(c.has(key)) else NOTHING
        self.replaced(loc.step(("k", key)), old)
        if self.same_place(rv, loc.step(("k", key))): return
        rv = self.detach(loc.step(("k", key)), old, rv)
        v = self.embed(rv, loc.step(("k", key)))
        self.log_write(loc.step(("k", key)), "slot")
        self.st.heap[loc.addr] = self.update(self.st.heap[loc.addr], list(loc.path), lambda c: self.pick(c).put(key, v))
    def make_present(self, l, key, empty):
        """The key is there from now on, with an empty content unless it was there before."""
        self.run.effects.append(Effect([], T, l.addr, l.path + (("k", key),), "present", None, empty))
        def f(c):
            c = self.pick(c)
            h = c.has(key)
            return c.put(key, empty if z3.is_false(h) else mk_ite(h, c.get(key), empty))
        self.st.heap[l.addr] = self.update(self.st.heap[l.addr], list(l.path), f)
    def written_here(self, l):
        """This iteration has written the place before."""
        run, stop = self.run, self.loopruns[-1] if self.loopruns else None
        while run is not None and run is not stop:
            for e in run.effects:
                if e.kind == "slot" and e.addr == l.addr and not e.binders and z3.is_true(e.guard) and 0 < len(e.path) <= len(l.path) and all(same_step(a, b) for a, b in zip(e.path, l.path)): return True
            run = run.parent
        return False
    def made_present(self, l):
        run = self.run
        while run is not None:
            for e in run.effects:
                if e.kind == "present" and e.addr == l.addr and not e.binders and z3.is_true(e.guard) and len(e.path) == len(l.path) and all(z3.is_true(step_match(a, b)) for a, b in zip(e.path, l.path)): return True
            run = run.parent
        return False
    def dict_del(self, loc, key):
        loc, c = self.canon(loc)
        c = self.pick(c)
        self.replaced(loc.step(("k", key)), c.get(key))
        self.log_write(loc.step(("k", key)), "slot")
        self.st.heap[loc.addr] = self.update(self.st.heap[loc.addr], list(loc.path), lambda c: self.pick(c).remove(key))
    def detach(self, place, old, rv):
        """The object at the place is replaced by one that keeps parts of it: it moves to an address of its own first."""
        if not isinstance(old, STRUCT) or isinstance(old, Ref): return rv
        H = None if self.loopmarks else self.keep_locals(place, old)
        if not isinstance(rv, Loc): return rv
        inside = lambda l: l.addr == place.addr and len(l.path) >= len(place.path) and all(a[0] == b[0] and (a[1] == b[1] if a[0] == "f" else self.same_key(a, b)) for a, b in zip(place.path, l.path))
        overlaps = lambda l: l.addr == place.addr and len(l.path) >= len(place.path) and not z3.is_false(And([step_eq(a, b) for a, b in zip(place.path, l.path)]))
        a0, c0 = self.canon(rv)
        if not inside(a0):
            if a0.path:
                if self.refs_in(c0, overlaps): raise Unsupported("an object keeps parts of what it replaces")
                return rv
            if not self.refs_in(c0, overlaps): return rv
        H = H or self.alloc(old)
        def move(l):
            if inside(l): return Loc(H.addr, l.path[len(place.path):])
            if overlaps(l): raise Unsupported("the new content may keep parts of what it replaces")
            return l
        if inside(a0): return move(a0)
        todo, seen = [a0.addr], {H.addr, place.addr}
        while todo:
            a = todo.pop()
            if a in seen: continue
            seen.add(a)
            self.st.heap[a] = map_refs(self.st.heap[a], move, lambda l: todo.append(l.addr) if l.addr not in seen and l.addr != place.addr else None)
        return rv
    def keep_locals(self, place, old):
        """Variables that hold the object replaced, or a part of it, go on holding it."""
        H = None
        for fr in self.st.frames.values():
            for n, v in list(fr.items()):
                if not isinstance(v, Loc): continue
                try: l, _ = self.canon(v)
                except (Unsupported, KeyError): continue
                if l.addr == place.addr and len(l.path) >= len(place.path) and all(a == b if a[0] == "f" else self.same_key(a, b) for a, b in zip(place.path, l.path)):
                    if any(ad == l.addr and st > l.stamp and len(pa) <= len(l.path) and not z3.is_false(And([step_match(x, y) for x, y in zip(pa, l.path)])) for ad, pa, st in self.st.stale[:-1]): continue
                    if H is None: H = self.alloc(old)
                    fr[n] = Loc(H.addr, l.path[len(place.path):])
        return H
    def same_place(self, rv, place):
        if not isinstance(rv, Loc): return False
        l, _ = self.canon(rv)
        return l.addr == place.addr and len(l.path) == len(place.path) and all(self.same_key(a, b) if a[0] != "f" else a == b for a, b in zip(l.path, place.path))
    def no_sharing(self, c, mark):
        """What is stored by value must not be reachable twice: the copies would no longer be one object."""
        found = []
        def go(c, args, depth):
            if depth > 40: raise Unsupported("deep content")
            if isinstance(c, Ref):
                l, x = self.canon(c.loc)
                if l.addr <= mark: return
                for a in args:
                    if not any(s[0] != "f" and isinstance(s[1], z3.ExprRef) and s[1].eq(a) for s in l.path): raise Unsupported("an object stored in several places")
                for o in found:
                    n = min(len(o.path), len(l.path))
                    if o.addr == l.addr and not z3.is_false(And([step_eq(p, q) for p, q in zip(o.path[:n], l.path[:n])])): raise Unsupported("an object stored in two places")
                found.append(l)
                if isinstance(x, STRUCT): go(x, args, depth + 1)
            elif isinstance(c, Rec):
                for v in c.fields.values(): go(v, args, depth + 1)
            elif isinstance(c, tuple):
                for v in c: go(v, args, depth + 1)
            elif isinstance(c, IteC):
                n = len(found)
                go(c.a, args, depth + 1)
                f1 = found[n:]; del found[n:]
                go(c.b, args, depth + 1)
                found.extend(f1)
            elif isinstance(c, DictC):
                for p, v in c.entries.values():
                    if not z3.is_false(p): go(v, args, depth + 1)
                if c.get_ is not None:
                    k = bvar("k", V)
                    go(c.get_(k), args + [k], depth + 1)
            elif isinstance(c, ListC):
                if c.is_base():
                    i = bvar("i", Int)
                    go(c.at(i), args + [i], depth + 1)
                else:
                    for s in c.segs_:
                        s = s.inst()
                        go(s.elem, args + s.binders, depth + 1)
        go(c, [], 0)
        for l in found:                                       # the originals of the copies are not to be used any more
            core._stamp[0] += 1
            self.st.stale = self.st.stale + ((l.addr, tuple((s[0], None) if s[0] != "f" and isinstance(s[1], z3.ExprRef) else s for s in l.path), core._stamp[0]),)
    def same_key(self, a, b):
        f = step_eq(a, b)
        return z3.is_true(z3.simplify(f)) if not z3.is_true(f) else True
    def refs_in(self, c, test, seen=None, depth=0):
        """Does a content hold a reference that passes the test?  (looked at with arbitrary keys and indices)"""
        seen = set() if seen is None else seen
        if depth > 40: raise Unsupported("deep content")
        go = lambda x: self.refs_in(x, test, seen, depth + 1)
        if isinstance(c, Ref):
            if test(c.loc): return True
            if c.loc.path or c.loc.addr in seen: return False
            seen.add(c.loc.addr)
            x = self.st.heap.get(c.loc.addr)
            return x is not None and go(x)
        if isinstance(c, Rec): return any(go(v) for v in c.fields.values())
        if isinstance(c, tuple): return any(go(v) for v in c)
        if isinstance(c, IteC): return go(c.a) or go(c.b)
        if isinstance(c, DictC):
            return any(go(v) for p, v in c.entries.values() if not z3.is_false(p)) or c.get_ is not None and go(c.get_(bvar("k", V)))
        if isinstance(c, ListC):
            if c.is_base(): return go(c.at(bvar("i", Int)))
            return any(go(s.elem) for s in c.segs_)
        if isinstance(c, MapC): return go(c.at(bvar("r", R)))
        return False
    def embed(self, rv, dest=None):
        """Content for storing a value.  Objects made in this iteration of a loop are stored by value."""
        if isinstance(rv, Loc):
            l, c = self.canon(rv)
            if self.loopmarks and l.addr > self.loopmarks[-1] and not l.path and dest is not None and dest.addr <= self.loopmarks[-1]:
                c = self.pick(c)
                self.no_sharing(c, self.loopmarks[-1])
                c = self.close(c, self.loopmarks[-1])
                self.st.heap[l.addr] = Ref(dest)
                return c
            return Ref(l)
        if isinstance(rv, tuple): return tuple(self.embed(x) for x in rv)
        if isinstance(rv, (Carried, Poison)): raise Unsupported("stored " + str(getattr(rv, "why", rv.__class__.__name__)))
        return rv
    def close(self, c, mark):
        """By-value content of an object of this iteration, its own parts included."""
        if isinstance(c, Ref):
            l, x = self.canon(c.loc)
            if l.addr > mark: return self.close(self.pick(x), mark)
            return Ref(l)
        if isinstance(c, Rec): return Rec(c.cls, {k: self.close(v, mark) for k, v in c.fields.items()})
        if isinstance(c, DictC):
            return DictC({k: (p, self.close(v, mark)) for k, (p, v) in c.entries.items()}, c.has_, self.closef(c.get_, mark), c.order)
        if isinstance(c, ListC):
            if c.is_base(): return ListC(n=c.n, at=self.closef(c.at, mark), ordered=c.ordered)
            return ListC([Seg(s.binders, s.cond, self.close(s.elem, mark), s.carry) for s in c.segs_], ordered=c.ordered)
        if isinstance(c, IteC): return mk_ite(c.c, self.close(c.a, mark), self.close(c.b, mark))
        if isinstance(c, tuple): return tuple(self.close(x, mark) for x in c)
        return c
    def closef(self, f, mark):
        if f is None: return None
        heap = dict(self.st.heap)
        def g(x):
            save = self.st
            self.st = State(); self.st.heap = heap; self.st.frames = save.frames
            try: return self.close(f(x), mark)
            finally: self.st = save
        return g
    def snapshot(self, c):
        """Deep copy."""
        return self.close(c, -1)
    def value(self, c, loc):
        """The run-time value of a content read at loc."""
        if isinstance(c, (Rec, DictC, ListC, SetC, MapC)): return loc
        if isinstance(c, Ref): return c.loc
        if isinstance(c, IteC):
            try:
                return self.value(self.pick(c), loc)
            except RecursionError: raise
        if isinstance(c, Poison): raise Unsupported("value lost: " + c.why)
        if c is NOTHING: raise Unsupported("value of an absent key")
        if isinstance(c, tuple): return tuple(self.value(x, loc) for x in c)
        return c

    # ------------------------------------------------------------------------------------ program
    def module(self, name):
        if name in self.mods: return self.mods[name]
        m = ModuleV(name)
        self.mods[name] = m
        for n in self.prog.tree(name).body:
            self.top(n, m)
        return m
    def top(self, n, m):
        if isinstance(n, ast.ClassDef): m.env[n.name] = self.classdef(n, m)
        elif isinstance(n, ast.FunctionDef): m.env[n.name] = FuncV(FuncDef(n, m, None, n.name))
        elif isinstance(n, ast.ImportFrom):
            if n.module in self.prog.files:
                src = self.module(n.module)
                for a in n.names: m.env[a.asname or a.name] = src.env.get(a.name, Builtin("import:" + a.name))
            else:
                for a in n.names: m.env[a.asname or a.name] = Builtin("%s.%s" % (n.module, a.name))
        elif isinstance(n, ast.Import):
            for a in n.names: m.env[a.asname or a.name] = ModuleV(a.name)
        elif isinstance(n, (ast.Assign, ast.AnnAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if n.value is None: return
            if isinstance(t, ast.Name):
                try:
                    m.env[t.id] = LazyGlobal(n.value, m)
                except Unsupported:
                    pass
        elif isinstance(n, ast.Expr): pass
        elif isinstance(n, (ast.If, ast.Try)):
            pass
        else:
            raise Unsupported("module level %s in %s" % (type(n).__name__, m.name))
    def glob(self, m, name):
        v = m.env[name]
        if isinstance(v, LazyGlobal):
            if v.val is None:
                v.val = (self.const_eval(v.node, v.mod),)
            v = v.val[0]
        return v
    def const_eval(self, node, mod, cls=None):
        """Class- and module-level expressions; mutable tables live in the heap at addresses below every object of a run."""
        save, srun, sm = self.st, self.run, self.loopmarks
        st = State(); st.heap = self.ghost_heap()
        self.st, self.run, self.loopmarks = st, Run(None, []), []
        try:
            fid = ("mod", mod.name)
            env = dict(cls.attrs) if cls else {}
            st.frames[fid] = env
            self.fnstack.append((mod, (fid,), None))
            try:
                return self.ev(node)
            finally:
                self.fnstack.pop()
        finally:
            for k, v in self.st.heap.items():
                save.heap.setdefault(k, v)
                self.static[k] = v
            self.st, self.run, self.loopmarks = save, srun, sm
    def ghost_heap(self): return dict(self.static)
    def classdef(self, n, m):
        c = ClassV(n.name, n, m)
        for b in n.bases:
            if isinstance(b, ast.Name) and b.id in m.env:
                v = m.env[b.id]
                if isinstance(v, ClassV): c.bases.append(v)
                elif isinstance(v, Builtin) and v.name == "enum.Enum": c.is_enum = True
            elif isinstance(b, ast.Name) and b.id in EXC: c.bases.append(b.id)
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                f = FuncV(FuncDef(s, m, c, "%s.%s" % (n.name, s.name)))
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "property": f = PropV(f)
                    elif isinstance(d, ast.Name) and d.id == "staticmethod": f = StaticV(f)
                    elif isinstance(d, ast.Name) and d.id == "classmethod": f = ClsMethV(f)
                    elif isinstance(d, ast.Attribute) and d.attr == "abstractmethod": pass
                    else: raise Unsupported("decorator on %s" % s.name)
                c.attrs[s.name] = f
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if s.value is not None and isinstance(t, ast.Name):
                    if c.is_enum:
                        c.members[t.id] = EnumV(c, t.id, self.const_eval(s.value, m, c))
                    else:
                        c.attrs[t.id] = LazyGlobal(s.value, m, c)
        return c
    def cls_attr(self, v, c):
        if isinstance(v, LazyGlobal):
            if v.val is None: v.val = (self.const_eval(v.node, v.mod, v.cls),)
            return v.val[0]
        return v

def map_refs(c, f, note, depth=0):
    """The content with its references changed by f."""
    def go(x): return map_refs(x, f, note)
    if isinstance(c, Ref):
        l = f(c.loc)
        if l is c.loc: note(l)
        return c if l is c.loc else Ref(l)
    if isinstance(c, Rec): return Rec(c.cls, {k: go(v) for k, v in c.fields.items()})
    if isinstance(c, tuple): return tuple(go(v) for v in c)
    if isinstance(c, IteC): return mk_ite(c.c, go(c.a), go(c.b))
    if isinstance(c, DictC): return DictC({k: (p, go(v)) for k, (p, v) in c.entries.items()}, c.has_, (lambda x: map_refs(c.get_(x), f, lambda l: None)) if c.get_ else None, c.order)
    if isinstance(c, ListC):
        if c.is_base(): return ListC(n=c.n, at=lambda i: map_refs(c.at(i), f, lambda l: None), ordered=c.ordered)
        return ListC([Seg(s.binders, s.cond, go(s.elem), s.carry) for s in c.segs_], ordered=c.ordered)
    if isinstance(c, MapC): return MapC(lambda r: map_refs(c.at(r), f, lambda l: None))
    return c

class LazyGlobal:
    def __init__(self, node, mod, cls=None):
        self.node, self.mod, self.cls, self.val = node, mod, cls, None

_hq = {}
def has_quant(t):
    k = t.get_id()
    if k in _hq: return _hq[k][0]
    seen, todo, r = set(), [t], False
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): r = True; break
        todo.extend(x.children())
    _hq[k] = (r, t)
    return r

def dict_set(c, k, v):
    """Replace the content at an existing key."""
    if not isinstance(k, z3.ExprRef):
        e = dict(c.entries)
        if k in e:
            e[k] = (e[k][0], v)
            return DictC(e, c.has_, c.get_, c.order)
        kv = lit(k)
        return DictC(e, c.has_, lambda x: mk_ite(keq(x, kv), v, c.get_(x)) if c.get_ else v, c.order)
    if c.get_ is None or c.entries:
        old = c
        return DictC({}, lambda x: old.has(x), lambda x: v if x.eq(k) else mk_ite(x == k, v, old.get(x)), c.order)
    return DictC({}, c.has_, lambda x: v if x.eq(k) else mk_ite(x == k, v, c.get_(x)), c.order)
