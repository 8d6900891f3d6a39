"""Loops.  A loop over a symbolic collection is summarised: its body is executed once for a generic iteration, the places
it writes are generalised over all iterations, and the solver shows that no iteration reads what another one writes."""
import z3
from dv import smt, core
from dv.smt import V, R, Int, Bool, And, Or, Not, If, Implies, Exists, ForAll, lit, toV, fresh, freshf, bvar
from dv.core import *
from dv.interp import *
from dv.interp import has_quant
from dv.evalx import b2z, conjuncts

def is_const_step(s, bs):
    return s[0] == "f" or not isinstance(s[1], z3.ExprRef) or not any(occurs(s[1], b) for b in bs)

class LoopMixin:
    # ------------------------------------------------------------------------------------ what is iterated
    def items(self, it):
        """-> [Item], the location iterated (or None)"""
        if isinstance(it, tuple): return [Item([], T, v) for v in it], None
        if isinstance(it, str): return [Item([], T, v) for v in it], None
        if isinstance(it, ClassV) and it.is_enum: return [Item([], T, v) for v in it.members.values()], None
        if isinstance(it, NTVal): return [Item([], T, v) for v in it.vals], None
        if isinstance(it, View): return self.view_items(it)
        if isinstance(it, Loc):
            l, c = self.canon(it)
            c = self.pick(c)
            self.stale_check(l)
            self.log_read(l, "shape" if isinstance(c, DictC) or isinstance(c, ListC) and (c.is_base() or c.units() is not None) else True)
            if isinstance(c, ListC): return self.list_items(c, l), l
            if isinstance(c, DictC): return self.dict_items(c, l, "keys"), l
            if isinstance(c, SetC):
                k = bvar("k", V)
                m = c.mem(k)
                fin = finite_members(m, k)
                if fin is not None: return [Item([], cond, v) for v, cond in fin], l
                return [Item([k], m, k)], l
        if it is None: self.throw("TypeError")
        raise Unsupported("iteration over %r" % (it,))
    def list_items(self, c, l):
        u = c.units()
        if u is not None:
            return [Item([], T, self.elem_value(x, l, ("i", i if c.n is None else z3.IntVal(i))), ("i", i)) for i, x in enumerate(u)]
        out = []
        for s in c.segs:
            if s.carry: raise Unsupported("iteration over a list built step by step")
            s = s.inst()
            if c.is_base(): out.append(Item(s.binders, s.cond, self.value(c.at(s.binders[0]), l.step(("i", s.binders[0]))), ("i", s.binders[0])))
            else: out.append(Item(s.binders, s.cond, self.elem_value(s.elem, l, None)))
        return out
    def elem_value(self, e, l, step):
        if isinstance(e, (Rec, DictC, ListC, SetC)):
            if step is not None: return self.value(e, l.step(step))
            a = self.alloc(e)
            self.readonly.add(a.addr)
            return a
        if isinstance(e, IteC): raise Unsupported("element depending on a condition")
        return self.value(e, l)
    def dict_items(self, c, l, what):
        out = []
        own = lambda k: None if what == "keys" else ("k", k)
        def val(k, content): return self.value(content, l.step(("k", k)))
        if c.has_ is not None and not c.entries and isinstance(c.order, tuple) and c.order[0] == "keys":
            _, n, i0, key = c.order
            i = bvar("i", Int)
            k = z3.substitute(key, (i0, i))
            return [Item([i], And(i >= 0, i < n, c.has(k)), k if what == "keys" else (lambda: val(k, c.get_(k))) if what == "values" else (lambda: (k, val(k, c.get_(k)))), own(k))]
        for k, (p, v) in c.entries.items():
            if z3.is_false(p): continue
            out.append(Item([], p, k if what == "keys" else (lambda k=k, v=v: val(k, v)) if what == "values" else (lambda k=k, v=v: (k, val(k, v))), own(k)))
        if c.has_ is not None:
            k = bvar("k", V)
            cond = And([c.has_(k)] + [k != lit(e) for e in c.entries])
            out.append(Item([k], cond, k if what == "keys" else (lambda: val(k, c.get_(k))) if what == "values" else (lambda: (k, val(k, c.get_(k)))), own(k)))
        return out
    def view_items(self, v):
        if v.kind in ("keys", "values", "items"):
            if isinstance(v.obj, ObjDict):
                l, c = self.canon(v.obj.loc)
                c = self.pick(c)
                if not isinstance(c, Rec): raise Unsupported("attributes of %r" % c)
                f = lambda n: (lambda: self.getattr(l, n))
                return [Item([], T, n if v.kind == "keys" else f(n) if v.kind == "values" else (lambda n=n: (n, self.getattr(l, n)))) for n in c.fields], None
            l, c = self.canon(v.obj)
            c = self.pick(c)
            self.stale_check(l)
            self.log_read(l, "shape")
            if not isinstance(c, DictC): raise Unsupported("items of %r" % c)
            return self.dict_items(c, l, v.kind), l
        if v.kind == "snapshot":
            items, _ = self.items(v.obj)
            return [i if i.binders or not callable(i.value) else Item(i.binders, i.cond, i.value()) for i in items], None
        if v.kind == "enumerate":
            items, l = self.items(v.obj)
            if all(not i.binders and z3.is_true(i.cond) for i in items):
                return [Item([], T, (n + v.start, i.value), i.own) for n, i in enumerate(items)], l
            if len(items) == 1 and l is not None and isinstance(self.load(l), ListC) and self.load(l).is_base() and v.start == 0:
                i = items[0]
                return [Item(i.binders, i.cond, (i.binders[0], i.value), i.own)], l
            raise Unsupported("enumerate of a filtered collection")
        if v.kind == "reversed":
            items, l = self.items(v.obj)
            if all(not i.binders and z3.is_true(i.cond) for i in items): return items[::-1], l
            if len(items) == 1 and l is not None and isinstance(self.load(l), ListC) and self.load(l).is_base():
                c, i = self.load(l), bvar("i", Int)
                j = c.n - 1 - i
                return [Item([i], And(i >= 0, i < c.n), self.value(c.at(j), l.step(("i", j))), ("i", j))], l
            raise Unsupported("reversed")
        if v.kind == "range":
            a = [self.number(x) for x in v.obj]
            lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else (a[0], a[1])
            if len(a) > 2: raise Unsupported("range with a step")
            s = z3.simplify(hi - lo)
            if z3.is_int_value(s): return [Item([], T, z3.simplify(lo + i).as_long() if z3.is_int_value(z3.simplify(lo)) else lo + i) for i in range(max(0, s.as_long()))], None
            i = bvar("i", Int)
            return [Item([i], And(i >= lo, i < hi), i)], None
        raise Unsupported("iteration over a view")

    # ------------------------------------------------------------------------------------ loops
    def loop(self, it, body, names, node):
        items, src = self.items(it)
        def go(v):
            try: body(v() if callable(v) and not isinstance(v, (FuncV, ClassV)) else v)
            except Cont: pass
        def step(item):
            old = self.iterated(src)
            go(item.value)
            if old is not None: self.same_shape(old, self.iterated(src), item.own)
        for item in items:
            if item.binders: self.symloop(item, go, names, src)
            else: self.branch(item.cond, lambda: step(item), lambda: None)
    # the collection a loop goes over keeps its members while it does
    def iterated(self, src):
        return None if src is None else self.load(src, log=False)
    def same_shape(self, a, b, own=None):
        if a is b: return
        ok = False
        same = lambda x, y: x is y or isinstance(x, STRUCT) and isinstance(y, STRUCT) or isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y) or not isinstance(x, (z3.ExprRef,) + STRUCT) and not isinstance(y, (z3.ExprRef,) + STRUCT) and x == y
        if isinstance(a, ListC) and isinstance(b, ListC):
            u, v = a.units(), b.units()
            ok = (u is not None and v is not None and len(u) == len(v) and all(own == ("i", i) or same(x, y) for i, (x, y) in enumerate(zip(u, v)))) or (a.is_base() and b.is_base() and a.n.eq(b.n))
        elif isinstance(a, DictC) and isinstance(b, DictC):
            k = bvar("k", V)
            ok = (a.has_ is b.has_ or self.entails(ForAll([k], a.has(k) == b.has(k)))) and all(self.entails(a.has(e) == b.has(e)) for e in {**a.entries, **b.entries})
            if own is not None: ok = ok and all(own == ("k", e) or e in b.entries and same(a.entries[e][1], b.entries[e][1]) for e in a.entries)
        elif isinstance(a, SetC) and isinstance(b, SetC):
            k = bvar("k", V)
            ok = self.entails(ForAll([k], a.mem(k) == b.mem(k)))
        if not ok: raise Unsupported("a collection changed while a loop goes over it")
    def keeps_members(self, src, paths, own=None):
        if src is None: return
        for p in paths:
            for e in p.effects:
                if e.addr != src.addr or len(e.path) > len(src.path) + 1: continue
                n = min(len(e.path), len(src.path))
                f = And([p.guard, e.guard] + list(p.facts) + [step_match(x, y) for x, y in zip(src.path[:n], e.path[:n])])
                if z3.is_false(f): continue
                if len(e.path) > len(src.path):
                    s = e.path[-1]
                    if s[0] == "f" or e.kind == "append": continue
                    if s[0] != "k":
                        if own is None or smt.proves(self.run.pc() + [f], step_match(own, s), 2000): continue
                        raise Unsupported("a collection changed while a loop goes over it")
                    old, _ = self.read_path(self.st, e.addr, e.path)
                    new, _ = self.read_path(p.state, e.addr, e.path)
                    if smt.proves(self.run.pc() + [f], old == new if own is None or e.kind == "present" else And(old == new, step_match(own, s)), 2000): continue
                elif smt.proves(self.run.pc() + [f], F, 1000): continue
                raise Unsupported("a collection changed while a loop goes over it")
    def carried(self, f, name, v):
        old = v.old
        if isinstance(old, Loc):
            c = self.load(old, log=False)
            if isinstance(c, SetC):
                M = freshf("acc_" + name, V, Bool)
                l = self.alloc(SetC(lambda x: M(toV(x))))
                self.st.frames[f][name] = l
                self.accs.setdefault((f, name), []).append((M, l.addr))
                return l
            self.inplace.add((f, name))
            return old
        if isinstance(old, (FuncV, ClassV, EnumV)): raise Unsupported("variable %s rebound in a loop" % name)
        raise Unsupported("variable %s carries a value from one iteration to the next" % name)

    def symloop(self, item, body, names, src):
        tau = item.binders
        fid = self.fnstack[-1][1][0] if self.fnstack else None
        fr = self.st.frames.get(fid, {})
        for n in names:                                    # a set accumulated by the loop around this one
            if isinstance(fr.get(n), Carried) and isinstance(fr[n].old, Loc) and isinstance(self.load(fr[n].old, log=False), SetC): fr[n] = self.carried(fid, n, fr[n])
        mark = self.naddr
        pre = self.st
        preframe = dict(pre.frames.get(fid, {}))
        saved = getattr(self, "accs", None), getattr(self, "inplace", None)
        def go():
            fr = self.st.frames.get(fid)
            if fr is not None:
                for n in names:
                    fr[n] = Carried(n, fr[n]) if n in fr and not isinstance(fr[n], (Poison, Carried)) else Poison("%s of an earlier iteration" % n)
            body(item.value)
        self.accs, self.inplace = {}, set()
        self.loopmarks.append(mark)
        self.loopruns.append(self.run)
        smt.CTX.extend(tau)
        try:
            paths = self.explore(go, item.cond)
            accs, inplace = self.accs, self.inplace
        finally:
            del smt.CTX[len(smt.CTX) - len(tau):]
            self.loopmarks.pop()
            self.loopruns.pop()
            self.accs, self.inplace = saved
        if not paths: return
        for p in paths:
            if z3.is_true(p.guard): pass
        exits = [p for p in paths if p.out[0] in ("break", "return", "raise")]
        goods = [p for p in paths if p.out[0] in ("normal", "continue")]
        leave = None
        if exits:
            ex = Or([p.guard for p in exits])
            none = Not(Exists(tau, ex))
            if not self.choose(none):
                leave = [fresh("x", b.sort()) for b in tau]
                m = list(zip(tau, leave))
                self.assume(sub(ex, m))
                self.assume(sub(item.cond, m))
                if len(tau) == 1 and tau[0].sort() == Int: before = tau[0] < leave[0]
                else:
                    B = freshf("before", *([b.sort() for b in tau] + [Bool]))
                    before = B(*tau)
                    self.assume(Not(B(*leave)))
                self.assume(ForAll(tau, Implies(And(item.cond, before), Not(ex))))
                # facts of the earlier iterations
                for p in goods:
                    if p.facts: self.assume(ForAll(tau, Implies(And(before, p.guard), And(p.facts))))
                self.keeps_members(src, goods, item.own)
                if any(p.effects for p in goods): self.apply_effects(goods, tau, before, mark, accs, src, item)
                self.note_reads(paths, tau, mark)
                self.finish_names(goods, names, preframe, fid, accs, inplace, tau, before, mark, poison=True)
                val = item.value
                v = val if not callable(val) or isinstance(val, (FuncV, ClassV)) else val()
                body(self.subst_val(v, m))
                raise Infeasible()                     # the body leaves the loop here
        if exits: self.drop_implied(goods, exits)
        self.keeps_members(src, goods, item.own)
        for p in goods:
            if p.facts: self.assume(ForAll(tau, Implies(p.guard, And(p.facts))))
        self.apply_effects(goods, tau, T, mark, accs, src, item)
        self.note_reads(goods, tau, mark)
        self.finish_names(goods, names, preframe, fid, accs, inplace, tau, T, mark)

    def drop_implied(self, goods, exits):
        """No iteration leaves the loop: a decision against leaving it follows from the decisions before it."""
        left = {tuple(c.get_id() for c in q.conds) for q in exits}
        for p in goods:
            cs = []
            for j, c in enumerate(p.conds):
                no = c.arg(0) if z3.is_not(c) else Not(c)
                pre = tuple(x.get_id() for x in p.conds[:j])
                if pre + (no.get_id(),) in left or pre + (z3.Not(c).get_id(),) in left: continue
                cs.append(c)
            p.guard = And(cs)

    def subst_val(self, v, m):
        if isinstance(v, Loc): return sub_loc(v, m)
        if isinstance(v, tuple): return tuple(self.subst_val(x, m) for x in v)
        if isinstance(v, z3.ExprRef): return sub(v, m)
        return v

    def note_reads(self, paths, tau, mark):
        if not self.loopmarks: return
        outer = self.loopmarks[-1]
        for p in paths:
            for r in p.reads:
                if r[2] <= outer: self.run.reads.append((And(p.guard, r[0]), list(tau) + list(r[1]), r[2], r[3], r[4]))

    def conflicts(self, paths, tau, mark):
        """No iteration may read what another one writes."""
        ren = [(b, bvar(str(b).split("!")[0], b.sort())) for b in tau]
        writes, seen = [], set()
        for q in paths:
            for e in q.effects:
                key = (e.addr, tuple((s[0], s[1].get_id() if isinstance(s[1], z3.ExprRef) else s[1]) for s in e.path), e.kind, q.guard.get_id())
                if key in seen: continue
                seen.add(key)
                writes.append((And(q.guard, e.guard), list(e.binders), e))
        if not writes: return
        addrs = {w[2].addr for w in writes}
        seen = set()
        for p in paths:
            for (g, bs, addr, path, whole) in p.reads:
                if addr not in addrs: continue
                rk = (addr, tuple((s[0], s[1].get_id() if isinstance(s[1], z3.ExprRef) else s[1]) for s in path), whole, p.guard.get_id())
                if rk in seen: continue
                seen.add(rk)
                for wg, wb, e in writes:
                    if e.addr != addr: continue
                    if e.kind == "append" and not (whole and len(path) <= len(e.path)): 
                        if not (len(path) == len(e.path) and whole): continue
                    if len(e.path) > len(path) and (not whole or whole == "present"): continue
                    if e.kind == "present" and (whole == "present" or len(path) > len(e.path)): continue
                    if whole == "shape" and len(e.path) > len(path) + (1 if e.kind == "slot" else 0): continue     # inside an element
                    k = min(len(path), len(e.path))
                    ov = And([step_match(a, (b[0], sub(b[1], ren) if b[0] != "f" else b[1])) for a, b in zip(path[:k], e.path[:k])])
                    if z3.is_false(ov): continue
                    other = Or([a != b for a, b in ren])
                    f = And(p.guard, g, sub(wg, ren), other, ov)
                    r, _ = smt.check(self.run.pc() + [f], timeout=1500)
                    if r != z3.unsat:
                        raise Unsupported("an iteration may read what another one writes: %s%s, %s" % (addr, path, e))

    def read_path(self, st, addr, path):
        """(presence, content) at a path of a state."""
        c, pres = st.heap[addr], T
        for s in path:
            while isinstance(c, IteC) and (isinstance(c.a, STRUCT) != isinstance(c.b, STRUCT)): c = c.a if isinstance(c.a, STRUCT) else c.b
            if isinstance(c, IteC): raise Unsupported("write below a conditional object")
            if s[0] == "k":
                if isinstance(c, SetC): pres, c = c.mem(toV(s[1])), NOTHING
                else:
                    pres = c.has(s[1])
                    c = NOTHING if z3.is_false(pres) else c.get(s[1])
            else:
                pres = T
                c = self.step(c, s)
        return pres, c

    def apply_effects(self, paths, tau, extra, mark, accs, src, item):
        self.conflicts(paths, tau, mark)
        pre = self.st
        # distinct places, outermost first; a place inside another written place is covered by it
        groups = {}
        for p in paths:
            places = {}
            for e in p.effects:
                k = (e.addr, tuple((s[0], s[1].get_id() if isinstance(s[1], z3.ExprRef) else s[1]) for s in e.path))
                if k in places:
                    o = places[k]
                    if o.kind != e.kind: o = Effect(o.binders, Or(o.guard, e.guard), o.addr, o.path, "slot", None, None)
                    else: o = Effect(o.binders, Or(o.guard, e.guard), o.addr, o.path, o.kind, None, o.content)
                    places[k] = o
                else: places[k] = e
            ks = sorted(places, key=lambda k: len(k[1]))
            kept = []
            for k in ks:
                if any(k[0] == q[0] and len(q[1]) < len(k[1]) and k[1][:len(q[1])] == q[1] and places[q].kind == "slot" and not places[q].binders for q in kept): continue
                kept.append(k)
            for k in kept: groups.setdefault(k, []).append((p, places[k]))
        work = []
        for k, lst in groups.items():
            e0 = lst[0][1]
            if any(len(e.binders) != len(e0.binders) or not all(a.eq(b) for a, b in zip(e.binders, e0.binders)) for _, e in lst):
                raise Unsupported("nested writes of different shape")
            guard = F; val = None; pres = None
            kinds = {e.kind for _, e in lst}
            if "present" in kinds:
                if kinds != {"present"} or len({type(e.content) for _, e in lst}) != 1: raise Unsupported("a key made and written")
                work.append((Effect(e0.binders, And(Or([And(p.guard, e.guard) for p, e in lst]), extra), e0.addr, e0.path, "present", None, e0.content), "present", None))
                continue
            if kinds == {"append"}:
                segs = []
                for p, e in lst:
                    _, old = self.read_path(pre, e.addr, e.path) if not (self.naddr and False) else (T, None)
                    _, new = self.read_path(p.state, e.addr, e.path)
                    a, b = old.segs, (new.segs if isinstance(new, ListC) else None)
                    if b is None or len(b) < len(a) or any(x is not y and not self.same_seg(x, y) for x, y in zip(a, b)):
                        raise Unsupported("list changed other than by appending")
                    segs.append((And(p.guard, e.guard), b[len(a):], new.ordered))
                work.append((e0, "append", segs))
                continue
            for p, e in reversed(lst):
                pr, v = self.read_path(p.state, e.addr, e.path)
                v = self.closev(p, v, mark)
                g = And(p.guard, e.guard)
                if val is None: val, pres = v, pr
                else: val, pres = mk_ite(g, v, val), If(g, pr, pres)
                guard = Or(g, guard)
            work.append((Effect(e0.binders, And(guard, extra), e0.addr, e0.path, "slot", None, None), "slot", (pres, val)))
        if len(work) > 1: work.sort(key=lambda w: len(w[0].path))
        for e, kind, payload in work:
            bs = list(tau) + [b for b in e.binders if not any(b.eq(t) for t in tau)]
            if kind == "append": self.apply_append(e, bs, payload, extra, tau)
            elif kind == "present": self.apply_present(e, bs)
            else: self.apply_slot(e, bs, payload, tau, src)
        core._stamp[0] += 1
        for p in paths:
            for addr, path, stamp in p.state.stale:
                if (addr, path, stamp) not in pre.stale and addr <= mark:
                    wild = tuple((s[0], None) if not is_const_step(s, tau) else s for s in path)
                    self.st.stale = self.st.stale + ((addr, wild, core._stamp[0]),)
    def same_seg(self, x, y):
        return len(x.binders) == len(y.binders) and all(a.eq(b) for a, b in zip(x.binders, y.binders)) and x.elem is y.elem and x.cond.eq(y.cond)
    def closev(self, p, v, mark):
        save = self.st
        self.st = p.state
        try: return self.close(v, mark)
        finally: self.st = save

    def solve(self, e, bs):
        """Placeholders for the variable steps, a substitution for the binders they determine, the other equations and binders."""
        xs, eqs, sigma, left = {}, [], [], list(bs)
        for n, s in enumerate(e.path):
            if is_const_step(s, bs): continue
            t = toV(s[1]) if s[0] == "k" else s[1]
            x = bvar("at", t.sort())
            xs[n] = x
            hit = [b for b in left if t.eq(b)]
            if hit:
                sigma.append((hit[0], x)); left = [b for b in left if not b.eq(hit[0])]
            else: eqs.append((t, x))
        eqs = [z3.substitute(t, *sigma) == x if sigma else t == x for t, x in eqs]
        return xs, sigma, eqs, left
    def apply_slot(self, e, bs, payload, tau, src=None):
        pres, val = payload
        xs, sigma, eqs, left = self.solve(e, bs)
        allx = [xs[n] for n in sorted(xs)]
        body = And([sub(e.guard, sigma)] + eqs)
        pres, val = sub(pres, sigma), sub(val, sigma)
        pending = []
        if left:
            hit = Exists(left, body)
            if self.depends(pres, val, left):
                ws = [freshf("last_" + str(b).split("!")[0], *([x.sort() for x in allx] + [b.sort()])) for b in left]
                if allx: at = [w(*allx) for w in ws]
                else: at = [w() for w in ws]
                m = list(zip(left, at))
                self.assume(ForAll(allx, Implies(hit, sub(body, m))))
                if len(left) == 1 and left[0].sort() == Int and len(bs) == 1:
                    self.assume(ForAll(allx + left, Implies(body, left[0] <= at[0])))
                pres, val = sub(pres, m), sub(val, m)
        else: hit = body
        self.write(e, xs, allx, hit, pres, val, self.key_order(e, bs, tau, src))
        self.log_outer(e, bs, "slot")
    def apply_present(self, e, bs):
        xs, sigma, eqs, left = self.solve(e, bs)
        body = And([sub(e.guard, sigma)] + eqs)
        hit = Exists(left, body) if left else body
        self.write(e, xs, None, hit, T, e.content)
        if self.loopmarks and e.addr <= self.loopmarks[-1]:
            self.run.effects.append(Effect(list(bs), e.guard, e.addr, e.path, "present", None, e.content))
    def key_order(self, e, bs, tau, src):
        """The order of the keys of a dict filled by a loop over a range or over the keys of another dict, each iteration its own key."""
        if src is not None and len(tau) == 1 and len(bs) == 1 and tau[0].sort() == V and e.path and e.path[-1][0] == "k" and isinstance(e.path[-1][1], z3.ExprRef) and e.path[-1][1].eq(tau[0]):
            if any(not is_const_step(s, bs) for s in e.path[:-1]): return None
            c = self.load(src, log=False)
            return c.order if isinstance(c, DictC) and not c.entries else None
        if len(tau) != 1 or len(bs) != 1 or tau[0].sort() != Int or not e.path or e.path[-1][0] != "k" or is_const_step(e.path[-1], bs): return None
        if any(not is_const_step(s, bs) for s in e.path[:-1]): return None
        i, key = tau[0], toV(e.path[-1][1])
        lo, n = False, None
        for k in flat_and(e.guard):
            if z3.is_ge(k) and k.arg(0).eq(i) and z3.is_int_value(k.arg(1)) and k.arg(1).as_long() == 0: lo = True
            elif z3.is_lt(k) and k.arg(0).eq(i) and not occurs(k.arg(1), i): n = k.arg(1)
        if not lo or n is None: return None
        j = bvar("j", Int)
        if not self.entails(ForAll([i, j], Implies(And(e.guard, z3.substitute(e.guard, (i, j)), i != j), key != z3.substitute(key, (i, j))))): return None
        return ("keys", n, i, key)
    def depends(self, pres, val, left):
        if any(occurs(pres, b) for b in left): return True
        return content_mentions(val, left)
    def log_outer(self, e, bs, kind):
        if self.loopmarks and e.addr <= self.loopmarks[-1]:
            self.run.effects.append(Effect(list(bs), e.guard, e.addr, e.path, kind, None, None))
    def write(self, e, xs, allx, hit, pres, val, order=None):
        """The new content: at every instance of the path where hit, presence and value as given."""
        path = e.path
        def go(c, n, m):
            if n == len(path):
                h = sub(hit, m)
                return mk_ite(h, sub(val, m), c)
            s = path[n]
            if isinstance(c, IteC): return mk_ite(c.c, go(c.a, n, m), go(c.b, n, m))
            if not isinstance(c, STRUCT): return c                       # never the place written
            if n in xs: return go_var(c, n, m)
            if s[0] == "f":
                d = dict(c.fields); d[s[1]] = go(c.fields.get(s[1], NOTHING), n + 1, m)
                return Rec(c.cls, d)
            if s[0] == "k":
                if isinstance(c, SetC):
                    h, pr, kv = sub(hit, m), sub(pres, m), toV(s[1])
                    return SetC(lambda y: If(And(keq(y, kv), h), pr, c.mem(y)))
                if n + 1 == len(path) and e.kind == "present":
                    old = c.has(s[1])
                    return c.put(s[1], e.content if z3.is_false(old) else mk_ite(old, c.get(s[1]), e.content), Or(old, sub(hit, m)))
                if n + 1 == len(path):
                    h, pr = sub(hit, m), sub(pres, m)
                    old = c.has(s[1])
                    oc = NOTHING if z3.is_false(old) else c.get(s[1])
                    return c.put(s[1], mk_ite(h, sub(val, m), oc), If(h, pr, old))
                return dict_set(c, s[1], go(c.get(s[1]), n + 1, m))
            return self.update(c, [s], lambda o: go(o, n + 1, m))
        def go_var(c, n, m):
            s, x = path[n], xs[n]
            if s[0] == "k":
                if isinstance(c, SetC):
                    def mem(y):
                        mm = m + [(x, toV(y))]
                        return If(sub(hit, mm), sub(pres, mm), c.mem(y))
                    return SetC(mem)
                if n + 1 == len(path) and e.kind == "present":
                    def at(y):
                        h = c.has(y)
                        return e.content if z3.is_false(h) else mk_ite(h, c.get(y), e.content)
                    return DictC({}, lambda y: Or(c.has(y), sub(hit, m + [(x, toV(y))])), at)
                if n + 1 == len(path):
                    def has(y):
                        mm = m + [(x, toV(y))]
                        return If(sub(hit, mm), sub(pres, mm), c.has(y))
                    def get(y):
                        mm = m + [(x, toV(y))]
                        return mk_ite(sub(hit, mm), sub(val, mm), c.get(y) if c.get_ or c.entries else NOTHING)
                    if order is not None and c.has_ is None and not c.entries: return DictC({}, has, get, order)
                    return DictC({}, has, get, None if self.may_add(c, x, sub(hit, m), sub(pres, m)) else c.order)
                return DictC({}, lambda y: c.has(y), lambda y: go(c.get(y), n + 1, m + [(x, toV(y))]), c.order)
            if s[0] == "i":
                if isinstance(c, ListC) and not c.is_base():
                    return ListC([Seg(g.binders, g.cond, go_elem(g, n, m, x)) for g in c.segs_], ordered=c.ordered)
                return ListC(n=c.n, at=lambda i: go(c.at(i), n + 1, m + [(x, i)]), ordered=c.ordered)
            if s[0] == "r": return MapC(lambda r: go(c.at(r), n + 1, m + [(x, r)]))
            raise Unsupported("write at %s" % (s,))
        def go_elem(g, n, m, x): raise Unsupported("write into a filtered list")
        self.st.heap = dict(self.st.heap)
        self.st.heap[e.addr] = go(self.st.heap[e.addr], 0, [])
    def may_add(self, c, x, hit, pres):
        if c.order is None or z3.is_false(c.has(x)): return True
        f = Not(Exists([x], And(hit, pres, Not(c.has(x)))))
        memo = self.__dict__.setdefault("added", {})
        pc = self.run.pc()
        key = (f.get_id(), tuple(p.get_id() for p in pc))
        if key not in memo: memo[key] = (not smt.proves(pc, f, 500), f, pc)
        return memo[key][0]

    def apply_append(self, e, bs, payload, extra, tau):
        """payload: [(guard, new segments, ordered)] of the exclusive paths"""
        if e.addr in self.readonly: raise Unsupported("change of an element of a filtered list")
        single = all(len(s) == 1 and not s[0].binders and not s[0].carry for g, s, o in payload)
        if single:
            cond, elem = F, None
            for g, s, o in reversed(payload):
                gc = And(g, s[0].cond)
                elem = s[0].elem if elem is None else mk_ite(gc, s[0].elem, elem)
                cond = Or(gc, cond)
            segs = [(bs, And(cond, extra), elem)]
            ordered = True
        else:
            segs, ordered = [], sum(len(s) for _, s, _ in payload) <= 1
            for g, ss, o in payload:
                for s in ss:
                    if s.carry: raise Unsupported("nested accumulation")
                    segs.append((bs + list(s.binders), And(g, extra, s.cond), s.elem))
        if not any(not is_const_step(s, bs) for s in e.path):
            new = []
            for b, c, el in segs:
                new.append(Seg(b, c, el))
            loc = Loc(e.addr, e.path)
            def f(old):
                old = self.pick(old)
                if ordered and len(new) == 1 and len(tau) == 1 and len(new[0].binders) == 1 and old.units() == [] and z3.is_true(extra):
                    base = self.int_range(new[0], tau[0])
                    if base is not None:
                        b, el = tau[0], new[0].elem
                        return ListC(n=base, at=lambda i: sub(el, [(b, i if isinstance(i, z3.ExprRef) else z3.IntVal(i))]), ordered=old.ordered)
                return ListC(old.segs + new, ordered=old.ordered and ordered)
            self.st.heap = dict(self.st.heap)
            self.st.heap[e.addr] = self.update(self.st.heap[e.addr], list(e.path), f)
        else:
            xs, sigma, eqs, left = self.solve(e, bs)
            allx = [xs[n] for n in sorted(xs)]
            new = []
            for b, c, el in segs:
                rest = [z for z in b if not any(z.eq(q[0]) for q in sigma)]
                new.append((rest, And([sub(c, sigma)] + eqs), sub(el, sigma)))
            path = e.path
            def go(c, n, m):
                if n == len(path):
                    c = self.pick(c)
                    return ListC(c.segs + [Seg(r, sub(q, m), sub(el, m)).inst() for r, q, el in new], ordered=c.ordered and ordered)
                s = path[n]
                if isinstance(c, IteC): return mk_ite(c.c, go(c.a, n, m), go(c.b, n, m))
                if n not in xs: return self.update(c, [s], lambda o: go(o, n + 1, m))
                x = xs[n]
                if s[0] == "k": return DictC({}, lambda y: c.has(y), lambda y: go(c.get(y), n + 1, m + [(x, toV(y))]), c.order)
                if s[0] == "i": return ListC(n=c.n, at=lambda i: go(c.at(i), n + 1, m + [(x, i)]), ordered=c.ordered)
                if s[0] == "r": return MapC(lambda r: go(c.at(r), n + 1, m + [(x, r)]))
                raise Unsupported("append at %s" % (s,))
            self.st.heap = dict(self.st.heap)
            self.st.heap[e.addr] = go(self.st.heap[e.addr], 0, [])
        self.log_outer(Effect(e.binders, Or([g for g, _, _ in payload]), e.addr, e.path, "append", None, None), bs, "append")
    def int_range(self, seg, b):
        """n when the segment's condition is exactly 0 <= b < n."""
        if b.sort() != Int: return None
        cs = flat_and(seg.cond)
        n, lo, rest, other = None, False, [], False
        for k in cs:
            if not occurs(k, b): rest.append(k)
            elif z3.is_lt(k) and k.arg(0).eq(b) and not occurs(k.arg(1), b) and n is None: n = k.arg(1)
            elif z3.is_ge(k) and k.arg(0).eq(b) and z3.is_int_value(k.arg(1)) and k.arg(1).as_long() == 0: lo = True
            else: other = True
        if n is not None and lo and not other: return If(And(rest), n, z3.IntVal(0)) if rest else n
        n = None
        for k in cs:
            if z3.is_lt(k) and k.arg(0).eq(b) and not occurs(k.arg(1), b): n = k.arg(1)
        if n is None: return None
        if self.entails(Implies(And(b >= 0, b < n), seg.cond)) and self.entails(Implies(seg.cond, b >= 0)): return n
        return None

    def finish_names(self, goods, names, preframe, fid, accs, inplace, tau, extra, mark, poison=False):
        fr = self.st.frames.get(fid)
        for (f, n) in inplace:
            for p in goods:
                v = p.state.frames[f].get(n)
                if not isinstance(v, Carried) and v is not preframe.get(n):
                    raise Unsupported("variable %s is both changed and rebound in a loop" % n)
        for (f, n), ms in accs.items():
            self.finish_acc(f, n, ms, goods, preframe, tau, extra, mark)
        for n in names:
            if (fid, n) in accs: continue
            vals = [p.state.frames.get(fid, {}).get(n) for p in goods]
            if n in preframe and all(isinstance(v, Carried) or v is preframe[n] for v in vals): fr[n] = preframe[n]
            elif fr is not None: fr[n] = Poison("%s set in a loop" % n)
    def finish_acc(self, f, n, ms, goods, preframe, tau, extra, mark):
        old = self.load(preframe[n], log=False)
        x = bvar("x", V)
        P, Q, g = [], [], []
        touched = F
        for p in goods:
            v = p.state.frames[f].get(n)
            if isinstance(v, Carried): continue
            def setof(c):
                while isinstance(c, Ref): c = p.state.heap[c.loc.addr] if not c.loc.path else None
                if isinstance(c, IteC): c = mk_ite(c.c, setof(c.a), setof(c.b))
                if not isinstance(c, SetC): raise Unsupported("variable %s in a loop" % n)
                return c
            c = setof(p.state.heap[v.addr] if isinstance(v, Loc) and not v.path else None)
            b = c.mem(x)
            for M, _ in ms:
                pass
            decls = [M(x) for M, _ in ms]
            bt = z3.substitute(b, *[(d, T) for d in decls]); bf = z3.substitute(b, *[(d, F) for d in decls])
            names_ = consts_in(bt); names_.update(consts_in(bf))
            if any(d.decl().name() in names_ for d in decls): raise Unsupported("accumulator %s used otherwise" % n)
            P.append((p.guard, z3.simplify(bt) if not has_quant(bt) else bt)); Q.append((p.guard, z3.simplify(bf) if not has_quant(bf) else bf))
        add = Or([And(g, q) for g, q in Q])                          # becomes a member
        keep = And([Implies(g, q) for g, q in P])                     # stays a member
        om = old.mem
        ctx = [And(extra, Or([g for g, _ in P]))]
        if not P:
            self.st.frames[f][n] = preframe[n]; return
        pc = self.run.pc()
        if all(z3.is_true(q) for _, q in P) or smt.proves(pc + [extra], keep):
            r = lambda y: Or(om(y), Exists(tau, And(extra, sub(add, [(x, toV(y))]))))
        elif all(z3.is_false(q) for _, q in Q) or smt.proves(pc + [extra], Not(add)):
            r = lambda y: And(om(y), ForAll(tau, Implies(extra, sub(keep, [(x, toV(y))]))))
        else:
            # every iteration decides about one key only
            aff = And(extra, Or(add, Not(keep)))
            if len(tau) == 1 and tau[0].sort() == V and smt.proves(pc + [aff], x == tau[0]):
                def r(y):
                    m = [(x, toV(y)), (tau[0], toV(y))]
                    return If(And(sub(extra, m), sub(Or([g for g, _ in P]), m)), If(om(y), sub(keep, m), sub(add, m)), om(y))
            else: raise Unsupported("accumulator %s is neither growing nor shrinking" % n)
        self.st.frames[f][n] = self.alloc(SetC(r))

def content_mentions(c, left):
    """May the content depend on these variables?"""
    if isinstance(c, z3.ExprRef): return any(occurs(c, b) for b in left)
    if isinstance(c, Rec): return any(content_mentions(v, left) for v in c.fields.values())
    if isinstance(c, tuple): return any(content_mentions(v, left) for v in c)
    if isinstance(c, Ref): return any(s[0] != "f" and isinstance(s[1], z3.ExprRef) and any(occurs(s[1], b) for b in left) for s in c.loc.path)
    if isinstance(c, DictC) and c.pure(): return any(content_mentions(p, left) or content_mentions(v, left) for p, v in c.entries.values())
    if isinstance(c, ListC) and not c.is_base() and all(not s.binders for s in c.segs_):
        return any(content_mentions(s.cond, left) or content_mentions(s.elem, left) for s in c.segs_)
    if isinstance(c, SetC): return content_mentions(c.mem(bvar("x", V)), left)
    if isinstance(c, (DictC, ListC, MapC, IteC)): return True
    return False

def finite_members(m, k):
    """[(value, condition)] when the set is an explicit finite one."""
    parts = m.children() if z3.is_or(m) else [m]
    out = []
    for p in parts:
        if z3.is_false(p): continue
        cs = conjuncts(p)
        eqs = [c for c in cs if z3.is_eq(c) and (c.arg(0).eq(k) or c.arg(1).eq(k))]
        if not eqs: return None
        v = eqs[0].arg(1) if eqs[0].arg(0).eq(k) else eqs[0].arg(0)
        if occurs(v, k) or not smt.is_lit(v): return None
        rest = And([c for c in cs if c is not eqs[0]])
        if occurs(rest, k): rest = z3.substitute(rest, (k, v))
        out.append((smt._lit_py[v.get_id()], rest))
    vals = [v for v, _ in out]
    if len(set(map(repr, vals))) != len(vals): return None
    return out
