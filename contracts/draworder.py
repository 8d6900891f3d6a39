"""Draw order: removing slots keeps the order of the others (E02)."""
import ast
from contracts.data import *
from dv.smt import Real
from dv.interp import View, Cont
from dv.evalx import as_base
from contracts.editor import ids_list

MOD = "data.data_types.draworder"
rng = lambda i, n: And(i >= 0, i < n)

class Slots:
    """A setup order: n slots with distinct names; the ghost field _i is a slot's place in it."""
    def __init__(self, W, name="setup"):
        self.W, vm = W, W.vm
        self.n, self.s = z3.Int(name + ".n"), z3.Function(name + ".name", Int, V)
        self.at_ = z3.Function(name + ".place", V, Int)
        smt.STRFUNS.add(self.s.name())
        i = bvar("i", Int)
        vm.assume(self.n >= 0)
        vm.assume(ForAll([i], Implies(rng(i, self.n), And(smt.kind(self.s(i)) == smt.K_STR, self.at_(self.s(i)) == i)), [self.s(i)]))
        self.cls = vm.cls("data.data_types.slot", "Slot")
    def content(self, name="setup"):
        def at(i):
            r = self.W.sym.obj("Slot", name)
            return r
        return ListC(n=self.n, at=lambda i: self.slot(i))
    def slot(self, i, only=False):
        fs = {"name": self.s(i), "_i": i}
        if not only:
            for a in KINDS["Slot"]["fields"]:
                if a != "name": fs[a] = z3.Function("setup." + a, Int, V)(i)
        return Rec(self.cls, fs)
    def ghost(self, vm, c):
        """The place in the setup order of the slot a content is."""
        if isinstance(c, Ref):
            c = vm.canon(c.loc)[1]
            return self.ghost(vm, c)
        if isinstance(c, IteC): return If(c.c, self.ghost(vm, c.a), self.ghost(vm, c.b))
        if isinstance(c, Rec) and "_i" in c.fields: return c.fields["_i"]
        raise Unsupported("not a slot of the setup pose: %r" % c)
    def name(self, vm, c):
        if isinstance(c, Ref): return self.name(vm, vm.canon(c.loc)[1])
        if isinstance(c, IteC): return smt.ite(c.c, self.name(vm, c.a), self.name(vm, c.b))
        if isinstance(c, Rec): return toV(c.fields["name"])
        raise Unsupported("not a slot: %r" % c)

class Keyframe:
    """Which slots a keyframe moves, and where to."""
    def __init__(self, S, moved, offset):
        """moved: formula of a place; offset: integer of a place"""
        self.S, self.moved, self.target = S, moved, lambda i: i + offset(i)
    def valid(self):
        i, j = bvar("i", Int), bvar("j", Int)
        n, mv, to = self.S.n, self.moved, self.target
        return And(ForAll([i], Implies(And(rng(i, n), mv(i)), rng(to(i), n))),
                   ForAll([i, j], Implies(And(rng(i, n), rng(j, n), i != j, mv(i), mv(j)), to(i) != to(j))))

def applied(n, moved, target, g, r, m=None):
    """g (slot at a position) and r (position of a slot) are the order the offsets give; m: number of positions."""
    p, q, i = bvar("p", Int), bvar("q", Int), bvar("i", Int)
    if m is not None:
        return [("every position has a slot", ForAll([p], Implies(rng(p, m), And(rng(g(p), n), r(g(p)) == p)))),
                ("every slot has a position", ForAll([i], Implies(rng(i, n), And(rng(r(i), m), g(r(i)) == i))))]
    return [("every position has a slot", ForAll([p], Implies(rng(p, n), And(rng(g(p), n), r(g(p)) == p)))),
            ("every slot has a position", ForAll([i], Implies(rng(i, n), And(rng(r(i), n), g(r(i)) == i)))),
            ("the moved slots are where their offsets say", ForAll([i], Implies(And(rng(i, n), moved(i)), r(i) == target(i)))),
            ("the others keep their setup order", ForAll([p, q], Implies(And(p >= 0, p < q, q < n, Not(moved(g(p))), Not(moved(g(q)))), g(p) < g(q))))]

class Loops:
    """Invariants of the loops that take slots out of a list of slots and put them back."""
    def __init__(self, P, S, K):
        self.P, self.S, self.K = P, S, K
    def install(self, vm):
        vm.for_rule, vm.list_hook = self.for_rule, self.hook
        self.ops = []
    def hook(self, op, old, new, i, v):
        vm = self.S.W.vm
        self.ops.append((op, i, v))
        r = getattr(old, "rank", None)
        if r is None: return
        if op == "pop": new.rank = lambda x: If(r(x) < i, r(x), r(x) - 1)
        else:
            g = self.S.ghost(vm, v)
            new.rank = lambda x: If(x == g, i, If(r(x) < i, r(x), r(x) + 1))
    def oblige(self, vm, label, f):
        for k, g in enumerate(f if isinstance(f, list) else [f]):
            if not self.P.goal("%s (%d)" % (label, k + 1) if isinstance(f, list) else label, vm.run.pc(), g): raise Unsupported("%s does not hold" % label)
    def sequence(self, vm, it):
        rev = False
        while isinstance(it, View) and it.kind == "reversed": it, rev = it.obj, not rev
        if not isinstance(it, Loc): return None
        l, c = vm.canon(it)
        c = vm.pick(c)
        b = vm.enumerated(c) if isinstance(c, ListC) else None
        if b is None: return None
        vm.log_read(l, True)
        n, at = b
        vm.readonly.add(l.addr)
        ix = (lambda t: n - 1 - t) if rev else (lambda t: t)
        def value(t):
            c = at(ix(t))
            if isinstance(c, STRUCT) and not isinstance(c, Ref):
                a = vm.alloc(c)
                vm.readonly.add(a.addr)
                return a
            return vm.value(c, l)
        return n, value
    def changed(self, node):
        out = set()
        for b in node.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "insert") and isinstance(x.func.value, ast.Name): out.add((x.func.attr, x.func.value.id))
        return out
    def for_rule(self, vm, it, body, names, node):
        ch = self.changed(node)
        if len(ch) != 1: return False
        (op, var), = ch
        l = vm.lookup(var)
        if not isinstance(l, Loc) or vm.canon(l)[0].path: return False
        l = vm.canon(l)[0]
        c = vm.pick(vm.canon(l)[1])
        if not isinstance(c, ListC): return False
        seq = self.sequence(vm, it)
        b = vm.enumerated(c)
        if seq is None or b is None: return False
        k, value = seq
        at0 = b[1]
        fid = vm.fnstack[-1][1][0]
        # what one iteration does
        t = bvar("t", Int)
        smt.CTX.append(t)
        mark = vm.naddr
        vm.loopmarks.append(mark)
        self.ops = []
        def go():
            for x in names:
                if x != var: vm.st.frames[fid][x] = Poison("%s of an earlier iteration" % x)
            vm.st.heap[l.addr] = ListC(n=fresh("dry", Int), at=at0)
            body(value(t))
        try:
            if op == "pop": vm.choose, save = (lambda f: True), vm.choose
            try: ps = vm.explore(go, rng(t, k))
            finally:
                if op == "pop": vm.choose = save
        finally:
            vm.loopmarks.pop()
            smt.CTX.pop()
        if len(ps) != 1 or ps[0].out[0] != "normal" or len(self.ops) != 1: raise Unsupported("a loop that changes %s in another way" % var)
        if any(e.addr != l.addr for e in ps[0].effects): raise Unsupported("the loop changes something else")
        facts = ps[0].facts
        _, q, x = self.ops[0]
        Q = lambda u: z3.substitute(q, (t, u))
        if op == "pop": inv, c0 = self.pops(vm, k, Q), self.ranked(vm, b)
        else:
            X0 = self.S.ghost(vm, x)
            X = lambda u: z3.substitute(X0, (t, u))
            inv, c0 = self.inserts(vm, k, Q, X, b), self.ranked(vm, b, getattr(c, "rank", None))
        where = "%s in %s" % ("taking slots out" if op == "pop" else "putting slots back", vm.curq())
        self.oblige(vm, "invariant before %s" % where, inv(c0, z3.IntVal(0)))
        def go2():
            u = fresh("u", Int)
            vm.assume(rng(u, k))
            for x in names:
                if x != var: vm.st.frames[fid][x] = Poison("%s of an earlier iteration" % x)
            S1 = self.havoc(vm, l)
            vm.assume(And(inv(S1, u)))
            try: body(value(u))
            except Cont: pass
            S2 = vm.st.heap[l.addr]
            self.oblige(vm, "one iteration keeps the invariant, %s" % where, inv(S2, u + 1))
        vm.loopmarks.append(vm.naddr)
        try: ps = vm.explore(go2)
        finally: vm.loopmarks.pop()
        for p in ps:
            if p.out[0] != "normal": raise Unsupported("%s: %r" % (where, p.out[1]))
            for e in p.effects:
                if e.addr != l.addr: raise Unsupported("the loop changes something else: %s" % e)
        S3 = self.havoc(vm, l)
        vm.assume(And(inv(S3, k)))
        for x in names: vm.st.frames[fid][x] = Poison("%s set in a loop" % x)
        return True
    def ranked(self, vm, b, rank=None):
        c = ListC(n=b[0], at=b[1])
        c.rank = rank if rank is not None else (lambda i: i)
        return c
    def havoc(self, vm, l):
        n, g, r = fresh("len", Int), freshf("g", Int, Int), freshf("r", Int, Int)
        c = ListC(n=n, at=lambda j: self.S.slot(g(j), True))
        c.rank = r
        vm.st.heap[l.addr] = c
        return c
    def well_named(self, vm, c):
        p = bvar("p", Int)
        x = c.at(p)
        return ForAll([p], Implies(rng(p, c.n), And(rng(self.S.ghost(vm, x), self.S.n), self.S.name(vm, x) == self.S.s(self.S.ghost(vm, x)))))
    def pops(self, vm, k, Q):
        n, mv = self.S.n, self.K.moved
        p, q, i = bvar("p", Int), bvar("q", Int), bvar("i", Int)
        def inv(c, t):
            g, r = (lambda j: self.S.ghost(vm, c.at(j))), c.rank
            B = If(t == 0, n, Q(t - 1))
            return [c.n == n - t, And(t >= 0, t <= k), And(B >= 0, B <= c.n),
                    self.well_named(vm, c),
                    ForAll([p], Implies(rng(p, c.n), And(r(g(p)) == p, Or(g(p) < B, Not(mv(g(p))))))),
                    ForAll([i], Implies(And(rng(i, n), Or(i < B, Not(mv(i)))), And(rng(r(i), c.n), g(r(i)) == i))),
                    ForAll([p, q], Implies(And(p >= 0, p < q, q < c.n), g(p) < g(q))),
                    ForAll([p], Implies(rng(p, B), g(p) == p))]
        return inv
    def inserts(self, vm, k, Q, X, b):
        n, mv, to = self.S.n, self.K.moved, self.K.target
        t, u, i, p, q = bvar("t", Int), bvar("u", Int), bvar("i", Int), bvar("p", Int), bvar("q", Int)
        m = b[0]
        lemma = lambda l, f: (self.oblige(vm, l, f), vm.assume(f))
        lemma("what is put back is a moved slot, where it belongs", ForAll([t], Implies(rng(t, k), And(rng(X(t), n), mv(X(t)), Q(t) == to(X(t))))))
        self.oblige(vm, "every moved slot is put back", ForAll([i], Implies(And(rng(i, n), mv(i)), Exists([t], And(rng(t, k), X(t) == i)))))
        tau = freshf("when", Int, Int)
        vm.assume(ForAll([i], Implies(And(rng(i, n), mv(i)), And(rng(tau(i), k), X(tau(i)) == i))))
        lemma("from the lowest position to the highest", ForAll([t, u], Implies(And(t >= 0, t < u, u < k), Q(t) < Q(u))))
        lemma("as many put back as taken out", m + k == n)
        # by induction on t: the t-th from the last goes to position n-1-t or lower
        v = fresh("t", Int)
        self.oblige(vm, "room for the last one", Implies(k > 0, Q(k - 1) <= n - 1))
        self.oblige(vm, "room for the one before", Implies(And(v >= 0, v + 1 < k, Q(k - 1 - v) <= n - 1 - v), Q(k - 2 - v) <= n - 2 - v))
        vm.assume(ForAll([t], Implies(rng(t, k), Q(t) <= m + t)))
        def inv(c, t):
            g, r = (lambda j: self.S.ghost(vm, c.at(j))), c.rank
            ins = lambda i: And(t > 0, mv(i), to(i) <= Q(t - 1))
            return [c.n == m + t, And(t >= 0, t <= k),
                    self.well_named(vm, c),
                    ForAll([p], Implies(rng(p, c.n), And(r(g(p)) == p, Or(Not(mv(g(p))), ins(g(p)))))),
                    ForAll([i], Implies(And(rng(i, n), Or(Not(mv(i)), ins(i))), And(rng(r(i), c.n), g(r(i)) == i))),
                    ForAll([i], Implies(And(rng(i, n), ins(i)), r(i) == to(i))),
                    ForAll([p, q], Implies(And(p >= 0, p < q, q < c.n, Not(mv(g(p))), Not(mv(g(q)))), g(p) < g(q)))]
        return inv

def prove_reorder(P):
    """_reorder_slots_with_offset gives the order the offsets describe."""
    W = World(P)
    vm = W.vm
    S = Slots(W)
    mv, off = z3.Function("moved", V, Bool), z3.Function("offset", V, Int)
    K = Keyframe(S, lambda i: mv(S.s(i)), lambda i: off(S.s(i)))
    vm.assume(K.valid())
    ocls = vm.cls(MOD, "DrawOrderTimelineOffset")
    slots = vm.alloc(S.content())
    d0 = DictC({}, lambda k: mv(k), lambda k: Rec(ocls, {"slot": k, "offset": off(k)}), order=("offsets",))
    offs = vm.alloc(d0)
    L = Loops(P, S, K)
    L.install(vm)
    f = vm.fn(MOD, "DrawOrderTimeline._reorder_slots_with_offset")
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        c = vm.pick(vm.canon(out[1])[1])
        g = [("a new list", z3.BoolVal(vm.canon(out[1])[0].addr not in (slots.addr, offs.addr)))]
        b = as_base(c)
        if b is None or not hasattr(c, "rank"): return [("a reordered list of slots", F)]
        g += [("as many slots", b[0] == S.n), ("the slots of the setup pose", L.well_named(vm, c))]
        g += applied(S.n, K.moved, K.target, lambda p: S.ghost(vm, b[1](p)), c.rank)
        j = fresh("j", Int)
        now = vm.pick(vm.canon(slots)[1])
        g.append(("the setup order is not changed", And(now.n == S.n, Implies(rng(j, S.n), S.ghost(vm, now.at(j)) == j))))
        g.append(("the offsets are not changed", z3.BoolVal(vm.canon(offs)[1] is d0)))
        return g
    P.functions.add("DrawOrderTimeline._reorder_slots_with_offset")
    P.run("_reorder_slots_with_offset", vm, lambda: vm.inline(f, [offs, slots], {}), post)
    note(P)

# ------------------------------------------------------------------------------------------- remove_offsets_with_ids
class Timeline:
    """A draw order keyframe with N offsets of distinct slots of the setup pose, which is valid."""
    def __init__(self, W, S):
        vm = W.vm
        self.W, self.S = W, S
        self.N, self.o, self.ix = z3.Int("offsets.n"), z3.Function("offsets.slot", Int, V), z3.Function("offsets.index", V, Int)
        smt.STRFUNS.add(self.o.name())
        self.off = z3.Function("offset", V, Int)
        self.mv = z3.Function("moved", V, Bool)
        j, k = bvar("j", Int), bvar("k", V)
        vm.assume(self.N >= 0)
        o, ix = self.o, self.ix
        vm.assume(ForAll([j], Implies(rng(j, self.N), And(smt.kind(o(j)) == smt.K_STR, ix(o(j)) == j, self.mv(o(j)), rng(S.at_(o(j)), S.n), S.s(S.at_(o(j))) == o(j))), [o(j)]))
        vm.assume(ForAll([k], Implies(self.mv(k), And(rng(ix(k), self.N), o(ix(k)) == k)), [self.mv(k)]))
        self.K = Keyframe(S, lambda i: self.mv(S.s(i)), lambda i: self.off(S.s(i)))
        vm.assume(self.K.valid())
        self.ocls, self.cls = vm.cls(MOD, "DrawOrderTimelineOffset"), vm.cls(MOD, "DrawOrderTimeline")
    def content(self):
        return ListC(n=self.N, at=lambda j: Rec(self.ocls, {"slot": self.o(j), "offset": self.off(self.o(j))}))
    def timeline(self):
        return Rec(self.cls, {"time": z3.Const("time", V), "offsets": self.content()})

def reorder_contract(P, L, S, T_, made):
    """The contract of _reorder_slots_with_offset, as prove_reorder has it."""
    def contract(vm, f, args, kw):
        env = L.W.args(f, args, kw)
        d, l = vm.canon(env["slot_offsets"])[1], vm.canon(env["original_slots"])[1]
        d = vm.pick(d)
        vm.log_read(vm.canon(env["slot_offsets"])[0], True)
        vm.log_read(vm.canon(env["original_slots"])[0], True)
        i = fresh("i", Int)
        if not isinstance(d, DictC) or not isinstance(l, ListC) or not l.is_base(): raise Unsupported("arguments of the reordering")
        off = vm.value(d.get(S.s(i)), Loc(vm.canon(env["slot_offsets"])[0].addr, [("k", S.s(i))]))
        off = vm.number(vm.getattr(off, "offset"))
        L.oblige(vm, "the reordering gets the keyframe's offsets", Implies(rng(i, S.n), And(d.has(S.s(i)) == T_.mv(S.s(i)), Implies(T_.mv(S.s(i)), off == T_.off(S.s(i))))))
        L.oblige(vm, "the reordering gets the slots of the setup pose", And(l.n == S.n, Implies(rng(i, S.n), And(S.ghost(vm, l.at(i)) == i))))
        g, r = freshf("g", Int, Int), freshf("r", Int, Int)
        for _, x in applied(S.n, T_.K.moved, T_.K.target, g, r): vm.assume(x)
        made.append((g, r))
        return vm.alloc(ListC(n=S.n, at=lambda p: S.slot(g(p))))
    return contract

def removed_names(vm, gone, ids_as):
    """The names removed, as a list or as a set."""
    if ids_as == "set": return vm.alloc(SetC(lambda k: gone(toV(k))))
    ids, mem = ids_list(vm, "ids")
    k = bvar("k", V)
    vm.assume(ForAll([k], gone(k) == mem(k), [gone(k)]))
    vm.load(ids).members = lambda k: gone(toV(k))
    return ids

def prove_remove_offsets(P, ids_as="list"):
    """remove_offsets_with_ids: the offsets that stay put the slots that stay in the order they had."""
    W = World(P)
    vm = W.vm
    S = Slots(W)
    T_ = Timeline(W, S)
    L = Loops(P, S, T_.K)
    L.W = W
    made = []
    vm.contracts["DrawOrderTimeline._reorder_slots_with_offset"] = reorder_contract(P, L, S, T_, made)
    slots = vm.alloc(S.content())
    tl = vm.alloc(T_.timeline())
    gone = z3.Function("gone", V, Bool)
    ids0 = removed_names(vm, gone, ids_as)
    f = vm.fn(MOD, "DrawOrderTimeline.remove_offsets_with_ids")
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        if len(made) != 1: return [("one reordering", F)]
        g, r = made[0]
        now = vm.pick(vm.canon(tl)[1])
        res = [("time unchanged", toV(now.fields["time"]) == z3.Const("time", V))]
        res.append(("nothing else in the keyframe", z3.BoolVal(set(now.fields) == {"time", "offsets"})))
        offs = vm.load(Loc(tl.addr, [("f", "offsets")]))
        offs = offs if isinstance(offs, ListC) else None
        b = vm.enumerated(offs) if offs is not None else None
        if b is None: return res + [("a list of offsets", F)]
        # the specification's own lists: the offsets that stay, the slots that stay in setup order, and as drawn before
        x = bvar("x", Int)
        nE, e, _ = vm.enumeration(T_.N, Not(gone(T_.o(x))), x)
        nC, c, rc = vm.enumeration(S.n, Not(gone(S.s(x))), x)
        nL, l, rl = vm.enumeration(S.n, Not(gone(S.s(g(x)))), x)
        m = fresh("m", Int)
        got = vm.pick(b[1](m))
        if isinstance(got, Ref): got = vm.canon(got.loc)[1]
        sl, of = toV(got.fields["slot"]), vm.number(got.fields["offset"])
        here = And(rng(m, nE))
        x = S.at_(T_.o(e(m)))
        res += [("as many offsets as moved slots stay", b[0] == nE),
                ("no other attributes", z3.BoolVal(set(got.fields) == {"slot", "offset"})),
                ("offsets name the slots that stay, in the order of before", Implies(here, sl == T_.o(e(m)))),
                ("an offset is the slot's place as drawn minus its place in the setup order, among the slots that stay", Implies(here, of == rl(r(x)) - rc(x)))]
        # what these offsets mean, by the definition of a draw order over the slots that stay
        mv2, to2 = (lambda i: T_.mv(S.s(c(i)))), (lambda i: i + (rl(r(c(i))) - rc(c(i))))
        g2, r2 = (lambda p: rc(g(l(p)))), (lambda i: rl(r(c(i))))
        label = "applied to the slots that stay, the offsets give the old order without the removed slots: "
        for name, f in applied(nC, mv2, to2, g2, r2, nL): L.oblige(vm, label + name + " (both ways)", f)
        vm.assume(nL == nC)                                   # prove_counting
        return res + [(label + name, f) for name, f in applied(nC, mv2, to2, g2, r2)]
    P.functions |= {"DrawOrderTimeline.remove_offsets_with_ids", "DrawOrderTimeline._adjust_draw_oder_offset_with_erased_slots"}
    P.run("remove_offsets_with_ids", vm, lambda: vm.inline(f, [tl, ids0, slots], {}), post)
    note(P)

def prove_offsets(P):
    prove_reorder(P)
    prove_remove_offsets(P)
    prove_counting(P)

def prove_counting(P):
    """A one-to-one map of [0, n) onto [0, m) means n = m: induction on n."""
    n, m, x = z3.Int("n"), z3.Int("m"), bvar("x", Int)
    f, g = z3.Function("f", Int, Int), z3.Function("g", Int, Int)
    def onto(n, m, f, g): return And(ForAll([x], Implies(rng(x, n), And(rng(f(x), m), g(f(x)) == x))), ForAll([x], Implies(rng(x, m), And(rng(g(x), n), f(g(x)) == x))))
    P.goal("counting: nothing onto nothing", [m >= 0, onto(z3.IntVal(0), m, f, g)], m == 0)
    h = [n >= 0, m >= 0, onto(n + 1, m, f, g)]
    P.goal("counting: something is counted", h, m >= 1)
    f1 = lambda x: If(f(x) == m - 1, f(n), f(x))
    g1 = lambda x: If(g(x) == n, g(m - 1), g(x))
    P.goal("counting: leaving out one of each", h + [m >= 1], onto(n, m - 1, f1, g1))

def prove_one_order(P):
    """The offsets describe one order only: two orders that satisfy the definition agree at every place (the first place where they differ)."""
    n = z3.Int("n")
    mv, to = z3.Function("moved", Int, Bool), z3.Function("target", Int, Int)
    g, r, g2, r2 = [z3.Function(x, Int, Int) for x in ("g", "r", "g2", "r2")]
    p, q = z3.Int("p"), bvar("q", Int)
    h = [n >= 0, rng(p, n), ForAll([q], Implies(And(q >= 0, q < p), g(q) == g2(q)))]
    for a, b in ((g, r), (g2, r2)): h += [f for _, f in applied(n, mv, to, a, b)]
    P.goal("one order: the same slot at the first place not compared", h, g(p) == g2(p))
