"""The path search (G06).  For an arbitrary list q of nodes, the ghost state counts how often q was found."""
from contracts.graph import *
from dv.source import ClassV

class FoundC(ListC):
    """The list of the paths that were found: only its ghost count is known."""
    def __init__(self, ghost): self.ghost = ghost
    def no(self, *a): raise Unsupported("what was found is used in the search")
    segs = segs_ = n = at = ordered = property(no)
    is_base = units = no

class Paths:
    def __init__(self, P, g, vm):
        self.P, self.g, self.vm, self.name = P, g, vm, "path search"
        self.start, self.end, self.max = idv(vm, "node_start"), idv(vm, "node_end"), z3.Int("maximum_depth")
        self.m, self.q, self.chain, self.rank = z3.Int("m"), z3.Function("q", Int, V), z3.Function("chain", Int, Bool), z3.Function("rank", V, Int)
        k, c, s, j = z3.Consts("k c", V) + z3.Ints("s j")
        m, q, chain, r = self.m, self.q, self.chain, self.rank
        vm.assume(m >= 0)
        self.acyclic = ForAll([k, c], Implies(And(g.N(k), g.ch(g.nd(k), c)), r(k) < r(c)), [g.ch(g.nd(k), c)])
        # chain(s): every node of q from place s on is a parent of the next
        step = lambda s: g.ch(g.nd(q(s)), q(s + 1))
        self.unroll = ForAll([s], chain(s) == Or(s >= m - 1, And(step(s), chain(s + 1))), [chain(s)])
        self.lemma = ForAll([s, j], Implies(And(s >= 0, s < j, j < m, g.N(q(s)), chain(s)), r(q(s)) < r(q(j))), [z3.MultiPattern(chain(s), r(q(j)))])
        self.nodes = ForAll([k, c], Implies(And(g.N(k), g.ch(g.nd(k), c)), g.N(c)), [g.ch(g.nd(k), c)])
        self.ctx, self.proved, self.found, self.off = None, set(), None, None
        old = vm.method
        def method(o, mth, a, kw):
            if isinstance(o, Loc) and isinstance(vm.canon(o)[1], FoundC): return self.record(vm, vm.canon(o)[1], mth, a)
            return old(o, mth, a, kw)
        vm.method = method
        vm.for_rule, vm.nested_contract = self.for_rule, self.nested
    def lemmas(self):
        """From place s on the ranks grow; chain says that every node is a parent of the next."""
        g, m, q, chain, r = self.g, self.m, self.q, self.chain, self.rank
        s, j, i = z3.Ints("s j0 i")
        ih = ForAll([j], Implies(And(s + 1 < j, j < m, g.N(q(s + 1)), chain(s + 1)), r(q(s + 1)) < r(q(j))))
        x = z3.Int("x")
        self.P.goal("ranks grow along a path, by induction", [self.acyclic, self.unroll, self.nodes, ih, s >= 0, s < x, x < m, g.N(q(s)), chain(s)], r(q(s)) < r(q(x)))
        directed = lambda s: ForAll([i], Implies(And(i >= s, i < m - 1), g.ch(g.nd(q(i)), q(i + 1))))
        self.P.goal("chain is what a path is, by induction: to", [self.unroll, Implies(chain(s + 1), directed(s + 1)), chain(s)], directed(s))
        self.P.goal("chain is what a path is, by induction: from", [self.unroll, Implies(directed(s + 1), chain(s + 1)), directed(s)], chain(s))
        self.vm.assume(And(self.acyclic, self.unroll, self.lemma))
    def oblige(self, vm, label, f):
        if isinstance(f, bool): f = z3.BoolVal(f)
        if not self.P.goal("%s: %s" % (self.name, label), vm.run.pc(), f): raise ContractFailed("%s: %s" % (self.name, label))
    # ghost state
    def count(self, vm): return vm.st.heap[self.found.ghost.addr].fields["count"]
    def setcount(self, vm, n):
        a = self.found.ghost
        vm.log_write(a.step(("f", "count")), "slot")
        vm.st.heap[a.addr] = Rec(vm.st.heap[a.addr].cls, {"count": z3.simplify(n)})
    def record(self, vm, c, mth, a):
        """paths.append(list)"""
        if mth != "append" or len(a) != 1 or not isinstance(a[0], Loc): raise Unsupported("paths.%s" % mth)
        l, x = vm.canon(a[0])
        if l.path or not isinstance(x, ListC) or isinstance(x, FoundC): raise Unsupported("what is added to the paths")
        if l.addr <= self.mark or l.addr == self.path: raise Unsupported("a list that is still in use is added to the paths")
        self.kept.append((l.addr, x))
        self.setcount(vm, self.count(vm) + If(self.is_q(x), 1, 0))
    mark = 0
    def is_q(self, c):
        ba = as_base(c)
        if ba is None: raise Unsupported("what is added to the paths")
        i = bvar("i", Int)
        u = c.units()
        if u is not None: return And([self.m == len(u)] + [self.q(z3.IntVal(n)) == toV(x) for n, x in enumerate(u)])
        return And(self.m == ba[0], ForAll([i], Implies(And(i >= 0, i < ba[0]), toV(ba[1](i)) == self.q(i))))
    def extends(self, c, node):
        """q goes on from a path to a node with a directed path to the end, and has not too many nodes."""
        n, at = as_base(c)
        i = bvar("i", Int)
        pre = T if z3.is_int_value(n) and n.as_long() == 0 else ForAll([i], Implies(And(i >= 0, i < n), toV(at(i)) == self.q(i)))
        return And(self.m >= n + 1, self.m <= self.max, pre, self.q(n) == node, self.q(self.m - 1) == self.end, self.chain(n))
    # the nested function
    def params(self, vm, f, env):
        """What the arguments are: (path, visited set or None, node, end, depth)."""
        lists = [v for v in env.values() if isinstance(v, Loc) and isinstance(vm.canon(v)[1], ListC) and not isinstance(vm.canon(v)[1], FoundC)]
        if len(lists) != 1 or lists[0].path: raise Unsupported("the parameters of the search")
        return lists[0]
    def nested(self, vm, f, args, kw):
        env = vm.bindargs(f, args, kw)
        path = self.params(vm, f, env)
        fid = f.frames[0]
        fr = vm.st.frames[fid]
        if self.found is None:
            self.setup(vm, f, env, path, fr)
        if f.d.node is not self.fn: raise Unsupported("another nested function")
        node, depth = toV(env[self.role["node"]]), env[self.role["depth"]]
        for n, v in env.items():
            if n == self.role["end"]: self.oblige(vm, "the search goes to the same node", toV(v) == self.end)
            elif n not in self.role.values() and v is not path:
                if not (isinstance(v, Loc) and isinstance(self.fixed[n], Loc) and vm.canon(v)[0].addr == self.fixed[n].addr): raise Unsupported("parameter %s" % n)
        if f.d.node not in self.proved:
            self.proved.add(f.d.node)
            self.prove(vm, f, env, path)
        c = vm.canon(path)[1]
        self.oblige(vm, "precondition at the call in %s" % vm.curq(), self.pre(vm, c, node, depth, fr))
        self.setcount(vm, self.count(vm) + If(self.extends(c, node), 1, 0))
        return None
    def setup(self, vm, f, env, path, fr):
        """The first call: the roles of the parameters and of the local variables."""
        self.fn, self.role = f.d.node, {}
        for n, v in env.items():
            if isinstance(v, z3.ExprRef) and v.sort() == V and z3.eq(v, self.start): self.role["node"] = n
            elif isinstance(v, z3.ExprRef) and v.sort() == V and z3.eq(v, self.end): self.role["end"] = n
            elif isinstance(v, int) and not isinstance(v, bool): self.role["depth"] = n; self.off = v - 1
            elif v is path: self.role["path"] = n
        if set(self.role) != {"node", "end", "depth", "path"} and set(self.role) != {"node", "depth", "path"}: raise Unsupported("the parameters of the search")
        self.role.setdefault("end", None)
        self.fixed = {n: v for n, v in env.items() if n not in self.role.values()}
        found = [n for n, v in fr.items() if isinstance(v, Loc) and not v.path and isinstance(vm.st.heap[v.addr], ListC) and v.addr != path.addr]
        sets = [v for v in list(fr.values()) + list(self.fixed.values()) if isinstance(v, Loc) and not v.path and isinstance(vm.st.heap[v.addr], SetC)]
        sets = {v.addr: v for v in sets}
        if len(found) != 1 or len(sets) > 1: raise Unsupported("the local variables of the search")
        a = fr[found[0]]
        if vm.st.heap[a.addr].units() != []: raise Unsupported("paths that are there before the search")
        self.visited = list(sets.values())[0] if sets else None
        self.found = FoundC(vm.alloc(Rec(ClassV("count", None, None), {"count": z3.IntVal(0)})))
        vm.st.heap[a.addr] = self.found
        self.foundat = a
    def pre(self, vm, c, node, depth, fr):
        n, at = as_base(c)
        i, x, r = bvar("i", Int), bvar("x", V), self.rank
        out = [self.g.N(node), depth == n + 1 + self.off, n >= 0]
        if not (z3.is_int_value(n) and n.as_long() == 0): out.append(ForAll([i], Implies(And(i >= 0, i < n), r(toV(at(i))) < r(node))))
        if self.visited is not None: out.append(ForAll([x], Implies(vm.st.heap[self.visited.addr].mem(x), r(x) < r(node))))
        return And(out)
    def prove(self, vm, f, env, path):
        """The body of the search, from every state that satisfies the precondition; recursive calls by contract."""
        def go():
            n, at = fresh("n", Int), freshf("on", Int, V)
            node, depth, k0, vis = fresh("node", V), fresh("depth", Int), fresh("count", Int), freshf("visited", V, Bool)
            c0 = ListC(n=n, at=lambda i: at(i))
            p = vm.alloc(c0)
            v0 = SetC(lambda x: vis(toV(x)))
            if self.visited is not None: vm.st.heap[self.visited.addr] = v0
            a = self.found.ghost
            vm.st.heap[a.addr] = Rec(vm.st.heap[a.addr].cls, {"count": k0})
            save = self.ctx, self.mark, self.path
            self.kept = []
            try:
                vals = dict(env)
                vals.update({self.role["node"]: node, self.role["depth"]: depth, self.role["path"]: p})
                if self.role["end"]: vals[self.role["end"]] = self.end
                vm.assume(self.pre(vm, c0, node, depth, None))
                self.ctx, self.mark, self.path = (f, p, node, c0), vm.naddr, p.addr
                r = vm.inline(f, [vals[x.arg] for x in f.d.node.args.args], {})
                if r is not None: raise Unsupported("the search returns something")
                for ad, x in self.kept:
                    if vm.st.heap.get(ad) is not None and vm.st.heap[ad] is not x: raise Unsupported("a path that was found is changed")
                self.restored(vm, p, c0, v0, "at the end of the search from a node")
                self.oblige(vm, "the search from a node finds q once when it continues the path to the end, and not otherwise", self.count(vm) == k0 + If(self.extends(c0, node), 1, 0))
            finally: self.ctx, self.mark, self.path = save
        run, marks = vm.run, vm.loopmarks
        while vm.run.parent is not None and vm.run is not self.root: vm.run = vm.run.parent
        vm.loopmarks = [vm.naddr]
        try: paths = vm.explore(go)
        finally: vm.run, vm.loopmarks = run, marks
        self.only(paths, "the search")
    path = root = None
    def only(self, paths, where, more=()):
        cells = {self.found.ghost.addr} | ({self.visited.addr} if self.visited is not None else set()) | set(more)
        for p in paths:
            if p.out[0] != "normal": raise ContractFailed("%s: %s %s" % (where, p.out[0], p.out[1]))
            for e in p.effects:
                if e.addr not in cells: raise Unsupported("%s changes something else: %s" % (where, e))
    def restored(self, vm, p, c0, v0, where):
        self.oblige(vm, "the path is restored " + where, same_list(vm.st.heap[p.addr], c0))
        x = fresh("x", V)
        if self.visited is not None: self.oblige(vm, "the visited nodes are restored " + where, vm.st.heap[self.visited.addr].mem(x) == v0.mem(x))
    # the loop over the children
    def for_rule(self, vm, it, body, names, node):
        if self.ctx is None or vm.curq() != self.ctx[0].d.qual: return False
        items, src = vm.items(it)
        if not any(i.binders for i in items): return False
        if len(items) != 1 or [b.sort() for b in items[0].binders] != [V]: raise Unsupported("the loop of the search")
        item, p, fid = items[0], self.ctx[1], vm.fnstack[-1][1][0]
        x = item.binders[0]
        if src is not None and src.addr in (p.addr, self.found.ghost.addr): raise Unsupported("iteration over the path")
        c1 = vm.st.heap[p.addr]
        v1 = vm.st.heap[self.visited.addr] if self.visited is not None else None
        val = lambda: item.value() if callable(item.value) and not isinstance(item.value, (FuncV, ClassV)) else item.value
        n0, at0 = as_base(self.ctx[3])
        node = self.ctx[2]
        n, along = n0 + 1, ListC(n=n0 + 1, at=lambda i: If(i < n0, toV(at0(i)), node))     # the path with the node itself
        hit = lambda x: self.extends(along, x)
        def go():
            fr = vm.st.frames[fid]
            for nm in names: fr[nm] = Poison("%s of an earlier iteration" % nm)
            k = fresh("count", Int)
            a = self.found.ghost
            vm.st.heap[a.addr] = Rec(vm.st.heap[a.addr].cls, {"count": k})
            try: body(val())
            except Cont: pass
            self.oblige(vm, "one iteration finds q once when it goes on to the child, and not otherwise", self.count(vm) == k + If(hit(x), 1, 0))
            self.restored(vm, p, c1, v1, "by an iteration")
        vm.loopmarks.append(vm.naddr)
        try: paths = vm.explore(go, item.cond)
        finally: vm.loopmarks.pop()
        self.only(paths, "the loop", [p.addr])
        # the sum over the iterations: q has one node after the path
        self.oblige(vm, "q goes on to one child at most", Implies(hit(x), x == self.q(n)))
        one = [(x, self.q(n))]
        self.setcount(vm, self.count(vm) + If(And(sub(item.cond, one), hit(self.q(n))), 1, 0))
        for nm in names: vm.st.frames[fid][nm] = Poison("%s set in a loop" % nm)
        return True

def validate_contract(vm, valid):
    """DAGraph.validate: errors exactly for an invalid graph (G05)."""
    def contract(vm, f, args, kw):
        n = z3.Int("nErrors")
        vm.assume(And(n >= 0, (n == 0) == valid))
        l = vm.alloc(ListC(n=n, at=lambda i: z3.Function("error", Int, V)(i)))
        return vm.alloc(Rec(vm.cls("graph.graph_validator", "GraphValidationErrors"), {"errors": Ref(l)}))
    vm.contracts["DAGraph.validate"] = contract

def prove_G06(P):
    P.trusted += TRUST
    P.functions |= {"DAGraph.get_all_paths", "DAGraph.get_all_paths._look_for_paths"}
    P.assumptions += ["a finite graph is acyclic exactly when its nodes can be ranked so that every edge goes to a higher rank"]
    for valid in (True, False):
        vm, g = new_vm(P)
        validate_contract(vm, z3.BoolVal(valid))
        C = Paths(P, g, vm)
        if valid: C.lemmas()
        C.root = vm.run
        def post(vm, out):
            if out[0] == "raise": return [("raises ValueError, for an invalid graph or an unknown node only", And(z3.BoolVal("ValueError" in out[1].names()), Or(z3.BoolVal(not valid), Not(g.N(C.start)), Not(g.N(C.end)))))] + unchanged(vm, g)
            if out[0] != "normal" or not valid: return [("ends as expected", F)]
            if not isinstance(out[1], Loc) or out[1].addr != C.foundat.addr: return [("returns the paths that were found", F)]
            want = C.extends(ListC(n=z3.IntVal(0), at=lambda i: smt.NONE), C.start)
            return [("the nodes are known", And(g.N(C.start), g.N(C.end))), ("every path is returned once, and nothing else", C.count(vm) == If(want, 1, 0))] + unchanged(vm, g)
        P.run("get_all_paths, %s graph" % ("valid" if valid else "invalid"), vm, lambda: vm.call(vm.getattr(g.g, "get_all_paths"), [C.start, C.end, C.max], {}), post)

def tasks_G06(): return [("get_all_paths", prove_G06)]
