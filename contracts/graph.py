"""Graph properties: spine_json_lib/graph/*.py"""
import ast, z3
from dv import smt, core
from dv.smt import V, R, Int, Bool, And, Or, Not, If, Implies, ForAll, Exists, fresh, freshf, bvar, lit, toV
from dv.core import *
from dv.interp import *
from dv.evalx import b2z
from dv.induct import Rules, Nested, list_mem, list_distinct, abstract_set, abstract_list, ContractFailed

TRUST = ["dict, set and list behave as documented (Python)", "the nodes of a graph are SpamNode objects made by its factory; subclasses of SpamNode override nothing"]

class G:
    """A symbolic graph satisfying the invariant of G01."""
    def __init__(self, vm, factory="graph.factories.DefaultNodeFactory", typed=False):
        self.vm = vm
        n = str(smt._n[0])
        self.N = z3.Function("inGraph", V, Bool)
        self.nd = z3.Function("nodeOf", V, R)
        self.idof = z3.Function("idOf", R, V)
        self.ch = z3.Function("hasChild", R, V, Bool)
        self.par = z3.Function("hasParent", R, V, Bool)
        self.type = z3.Function("typeOf", R, V)
        self.forb = z3.Function("forbidden", R, Int, V)
        self.forbn = z3.Function("nForbidden", R, Int)
        self.other = {f: z3.Function("node" + f, R, V) for f in ("_data", "public_id", "order", "state")}
        cls = vm.cls("graph.spamnode", "SpamNode")
        region = None
        ref = lambda k: Ref(Loc(self.region, (("r", self.nd(k)),), 0))
        def at(r):
            f = {"_id": self.idof(r), "_node_type": self.type(r), "_child_types_forbidden": ListC(n=self.forbn(r), at=lambda i: self.forb(r, i)),
                 "children": DictC({}, lambda k: self.ch(r, k), ref), "parents": DictC({}, lambda k: self.par(r, k), ref)}
            f.update({k: g(r) for k, g in self.other.items()})
            return Rec(cls, f)
        self.region = vm.alloc(MapC(at)).addr
        m, c = factory.rsplit(".", 1)
        fac = vm.alloc(Rec(vm.cls(m, c), {}))
        self.gen = z3.Int("generator")
        self.nodes = vm.alloc(DictC({}, lambda k: self.N(k), ref))
        self.g = vm.alloc(Rec(vm.cls("graph.dagraph", "DAGraph"), {"nodes_id_generator": self.gen, "nodes_counter": z3.Int("counter"),
                              "_nodes": Ref(self.nodes), "nodes_factory": Ref(fac)}))
        vm.assume(self.gen >= 0)
        k, c_ = z3.Consts("k c", V)
        r = z3.Const("r", R)
        nd, N, ch, par, idof = self.nd, self.N, self.ch, self.par, self.idof
        vm.assume(ForAll([k], Implies(N(k), And(idof(nd(k)) == k, smt.kind(k) == smt.K_STR)), [N(k)]))
        vm.assume(ForAll([k, c_], Implies(And(N(k), ch(nd(k), c_)), And(N(c_), par(nd(c_), k), c_ != k)), [ch(nd(k), c_)]))
        vm.assume(ForAll([k, c_], Implies(And(N(k), par(nd(k), c_)), And(N(c_), ch(nd(c_), k), c_ != k)), [par(nd(k), c_)]))
        vm.assume(ForAll([r], self.forbn(r) >= 0, [self.forbn(r)]))
    def inv_now(self, vm):
        """Goals: the invariant in the current state, for arbitrary k and c (called inside explore)."""
        k, c = fresh("anyk", V), fresh("anyc", V)
        nodes = vm.getattr(self.g, "_nodes")
        goals = []
        if not vm.choose(vm.contains(nodes, k)): return goals
        n = vm.getitem(nodes, k)
        goals.append(("nodes are filed under their own id", b2z(vm.eq(vm.getattr(n, "id"), k))))
        for mine, theirs in (("children", "parents"), ("parents", "children")):
            d = vm.getattr(n, mine)
            h = vm.contains(d, c)
            if vm.choose(h):
                inn = vm.contains(nodes, c)
                goals.append(("every neighbour is in the graph (%s)" % mine, b2z(inn)))
                goals.append(("no node is its own neighbour (%s)" % mine, c != k))
                if vm.choose(inn):
                    m = vm.getitem(nodes, c)
                    goals.append(("%s and %s agree" % (mine, theirs), b2z(vm.contains(vm.getattr(m, theirs), k))))
                    goals.append(("the %s entry is the node itself" % mine, b2z(vm.same(vm.getitem(d, c), m))))
        return goals
    def edges_now(self, vm, k, c):
        """(k in graph, c child of k) in the current state."""
        nodes = vm.getattr(self.g, "_nodes")
        if not vm.choose(vm.contains(nodes, k)): return F, F
        n = vm.getitem(nodes, k)
        return T, b2z(vm.contains(vm.getattr(n, "children"), c))
    def frame(self, vm, k, but=()):
        """Goals: node k keeps every attribute but its neighbours."""
        nodes = vm.getattr(self.g, "_nodes")
        n = vm.getitem(nodes, k)
        r = self.nd(k)
        out = [("the node stays the same object", b2z(vm.same(n, Loc(self.region, (("r", r),), 0))))]
        for f, want in [("_id", self.idof(r)), ("_node_type", self.type(r))] + [(f, g(r)) for f, g in self.other.items()]:
            out.append(("attribute %s unchanged" % f, b2z(vm.eq(vm.getattr(n, f), want))))
        return out

def new_vm(P, **kw):
    vm = P.vm()
    return vm, G(vm, **kw)

def idv(vm, name):
    k = z3.Const(name, V)
    vm.assume(smt.kind(k) == smt.K_STR)
    smt.STRFUNS.add(name)
    return k

class GenId(Rules):
    """while str(generator) in nodes: generator += 1"""
    def __init__(self, proof, g): super().__init__(proof, "generate_unique_id"); self.g = g
    def rule(self, vm, s):
        g = vm.g_ref
        cur = lambda: vm.number(vm.getattr(g, "nodes_id_generator"))
        start = cur()
        def step():
            x = fresh("g", Int)
            vm.setfield(g, "nodes_id_generator", x)
            vm.assume(x >= start)
            t = vm.tr(vm.ev(s.test))
            if vm.choose(t):
                vm.block(s.body)
                self.oblige(vm, "the counter only grows in %s" % vm.curq(), cur() >= start)
            return None
        vm.loopmarks.append(vm.naddr)
        try: paths = vm.explore(step)
        finally: vm.loopmarks.pop()
        for p in paths:
            if p.out[0] != "normal": raise Unsupported("loop left early")
            for e in p.effects:
                if not (e.addr == g.addr and e.path == (("f", "nodes_id_generator"),)): raise Unsupported("the loop changes something else: %s" % e)
        x = fresh("g", Int)
        vm.setfield(g, "nodes_id_generator", x)
        vm.assume(x >= start)
        if vm.choose(vm.tr(vm.ev(s.test))): raise Infeasible()
        return True

def arm(P, vm, g):
    vm.g_ref = g.g
    vm.while_rule = GenId(P, g).rule

ATTRS = ("_id", "_node_type")

def prove_G01(P):
    P.trusted += TRUST
    P.functions |= {"DAGraph.add_node", "DAGraph.add_edge", "DAGraph.remove_edge", "DAGraph.remove_node_by_id", "DAGraph.get_node", "DAGraph.generate_unique_id",
                    "SpamNode.__init__", "SpamNode._add_child", "SpamNode._add_parent", "DefaultNodeFactory.create_node", "DAGraph.__init__"}
    # the empty graph
    vm = P.vm()
    def empty(vm, out):
        if out[0] != "normal": return [("terminates normally", F)]
        return [("has no nodes", b2z(vm.isempty(vm.load(vm.getattr(out[1], "_nodes")))))]
    P.run("DAGraph()", vm, lambda: vm.construct(vm.cls("graph.dagraph", "DAGraph"), [], {}), empty)

    def op(name, call, expect, args):
        """expect(g, raised) -> (nodes after, edges after) as functions; None: raising must leave everything unchanged"""
        vm, g = new_vm(P)
        arm(P, vm, g)
        a = [idv(vm, x) for x in args]
        def post(vm, out):
            goals = g.inv_now(vm) if False else []
            k, c = fresh("somek", V), fresh("somec", V)
            wasN, wasE = g.N(k), And(g.N(k), g.ch(g.nd(k), c))
            if out[0] == "raise": wantN, wantE = wasN, wasE
            elif out[0] == "normal": wantN, wantE = expect(g, a, k, c, out[1], vm)
            else: return [("terminates", F)]
            n, e = g.edges_now(vm, k, c)
            goals += [("exactly the expected nodes", n == wantN), ("exactly the expected edges", e == wantE)]
            if z3.is_true(n) and vm.choose(g.N(k)): goals += g.frame(vm, k)
            return goals
        P.run(name + ", effect", vm, lambda: call(vm, g, a), post)
        P.run(name + ", invariant", vm, lambda: call(vm, g, a), lambda vm, out: g.inv_now(vm))
    m = lambda vm, g, n: vm.getattr(g.g, n)
    op("add_edge", lambda vm, g, a: vm.call(m(vm, g, "add_edge"), a, {}),
       lambda g, a, k, c, r, vm: (g.N(k), And(g.N(k), Or(g.ch(g.nd(k), c), And(k == a[0], c == a[1])))), ["p_id", "c_id"])
    op("remove_edge", lambda vm, g, a: vm.call(m(vm, g, "remove_edge"), a, {}),
       lambda g, a, k, c, r, vm: (g.N(k), And(g.N(k), g.ch(g.nd(k), c), Not(And(k == a[0], c == a[1])))), ["p_id", "c_id"])
    op("remove_node_by_id", lambda vm, g, a: vm.call(m(vm, g, "remove_node_by_id"), a, {}),
       lambda g, a, k, c, r, vm: (And(g.N(k), k != a[0]), And(g.N(k), k != a[0], c != a[0], g.ch(g.nd(k), c))), ["n_id"])
    op("add_node", lambda vm, g, a: vm.call(m(vm, g, "add_node"), [], {"node_id": a[0]}),
       lambda g, a, k, c, r, vm: (Or(g.N(k), k == a[0]), And(g.N(k), g.ch(g.nd(k), c))), ["n_id"])
    op("add_node without id", lambda vm, g, a: vm.call(m(vm, g, "add_node"), [], {}),
       lambda g, a, k, c, r, vm: (Or(g.N(k), k == toV(vm.getattr(r, "id"))), And(g.N(k), g.ch(g.nd(k), c))), [])
    op("get_node", lambda vm, g, a: vm.call(m(vm, g, "get_node"), a, {}),
       lambda g, a, k, c, r, vm: (g.N(k), And(g.N(k), g.ch(g.nd(k), c))), ["n_id"])

def prove_G02(P):
    P.trusted += TRUST
    P.functions |= {"DAGraph.generate_unique_id", "DAGraph.add_node", "DAGraph.get_node", "DAGraph.add_edge", "DAGraph.remove_edge", "DAGraph.remove_node_by_id",
                    "DAGraph.__init__", "SpamNode.__init__", "DefaultNodeFactory.create_node", "SpineNodeFactory.create_node"}
    vm = P.vm()
    def empty(vm, out):
        if out[0] != "normal": return [("terminates normally", F)]
        return [("the counter starts at 0 or more", vm.number(vm.getattr(out[1], "nodes_id_generator")) >= 0)]
    P.run("DAGraph()", vm, lambda: vm.construct(vm.cls("graph.dagraph", "DAGraph"), [], {}), empty)
    counter = lambda vm, g: vm.number(vm.getattr(g.g, "nodes_id_generator"))
    def is_fresh(vm, g, r):
        r = toV(r)
        x = smt.unstr(r)
        return [("a generated id is not the id of a node", Not(g.N(r))),
                ("a generated id was never generated before: it is str(n) with n above the counter", And(r == smt.strv(x), x > g.gen)),
                ("the counter covers every generated id", x <= counter(vm, g))]
    # generate_unique_id
    vm, g = new_vm(P); arm(P, vm, g)
    def post(vm, out):
        if out[0] != "normal": return [("terminates normally", F)]
        k, c = fresh("somek", V), fresh("somec", V)
        n, e = g.edges_now(vm, k, c)
        return is_fresh(vm, g, out[1]) + [("nodes unchanged", n == g.N(k)), ("edges unchanged", e == And(g.N(k), g.ch(g.nd(k), c)))]
    P.run("generate_unique_id()", vm, lambda: vm.call(vm.getattr(g.g, "generate_unique_id"), [], {}), post)
    # the other operations never lower the counter
    for name, n in (("add_edge", 2), ("remove_edge", 2), ("remove_node_by_id", 1), ("get_node", 1)):
        vm, g = new_vm(P); arm(P, vm, g)
        a = [idv(vm, "arg%d" % i) for i in range(n)]
        P.run(name, vm, lambda: vm.call(vm.getattr(g.g, name), a, {}), lambda vm, out: [("the counter does not go down", counter(vm, g) >= g.gen)])
    # add_node
    from_types = lambda vm: [("graph.factories.DefaultNodeFactory", None)] + [("deserializer.spine_nodes.SpineNodeFactory", t) for t in ("BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE")]
    for fac, t in from_types(None):
        for given in (True, False):
            vm, g = new_vm(P, factory=fac); arm(P, vm, g)
            kid = idv(vm, "n_id") if given else None
            data = fresh("data", V)
            kw = {"node_data": data}
            if given: kw["node_id"] = kid
            if t: kw["node_type"] = t
            def post(vm, out):
                k, c = fresh("somek", V), fresh("somec", V)
                was = g.N(kid) if given else F
                n, e = g.edges_now(vm, k, c)
                wasE = And(g.N(k), g.ch(g.nd(k), c))
                gl = [("the counter does not go down", counter(vm, g) >= g.gen)]
                if out[0] == "raise":
                    return gl + [("raises ValueError only for an id in use", And(was, z3.BoolVal("ValueError" in out[1].names()))), ("nodes unchanged", n == g.N(k)), ("edges unchanged", e == wasE)]
                new = vm.getattr(out[1], "id")
                if given: gl += [("an id in use is rejected", Not(was)), ("the node has the given id", toV(new) == kid)]
                else: gl += is_fresh(vm, g, new)
                nodes = vm.getattr(g.g, "_nodes")
                gl += [("exactly that node is added", n == Or(g.N(k), k == toV(new))), ("it has no edges, the other edges stay", e == wasE),
                       ("it is filed under its id", b2z(vm.contains(nodes, new)))]
                got = vm.call(vm.getattr(g.g, "get_node"), [new], {})
                gl += [("it is found under its id", b2z(vm.same(got, out[1]))), ("it has no children", b2z(vm.isempty(vm.load(vm.getattr(got, "children"))))),
                       ("it has no parents", b2z(vm.isempty(vm.load(vm.getattr(got, "parents")))))]
                if z3.is_true(n) and vm.choose(g.N(k)): gl += g.frame(vm, k)
                return gl
            P.run("add_node(%s), %s%s" % ("id" if given else "", fac.split(".")[-1], " " + t if t else ""), vm, lambda: vm.call(vm.getattr(g.g, "add_node"), [], dict(kw)), post)
    # an id that is not a string
    vm, g = new_vm(P); arm(P, vm, g)
    def post(vm, out):
        k, c = fresh("somek", V), fresh("somec", V)
        n, e = g.edges_now(vm, k, c)
        return [("raises TypeError", z3.BoolVal(out[0] == "raise" and "TypeError" in out[1].names())), ("nodes unchanged", n == g.N(k)), ("edges unchanged", e == And(g.N(k), g.ch(g.nd(k), c)))]
    P.run("add_node(not a string)", vm, lambda: vm.call(vm.getattr(g.g, "add_node"), [], {"node_id": z3.Int("number")}), post)

class GraphWalk(Nested):
    """Functions nested in a method of DAGraph, called with a node of the graph."""
    def __init__(self, P, g, vm, name):
        super().__init__(P, name)
        self.g, self.base, self.root, self.cur = g, vm.naddr, vm.run, None
    def arg(self, vm, f, env):
        for v in env.values():
            if isinstance(v, Loc) and v.addr == self.g.region or isinstance(v, Loc) and vm.canon(v)[0].addr == self.g.region:
                l, c = vm.canon(v)
                return self.key_of(vm, l)
        raise Unsupported("call without a node")
    def key_of(self, vm, l):
        r = l.path[0][1]
        if z3.is_app(r) and r.decl().eq(self.g.nd): return r.arg(0)
        return self.g.idof(r)
    def bindkey(self, vm, f):
        k = fresh("node", V)
        args = []
        for x in f.d.node.args.args:
            args.append(Loc(self.g.region, (("r", self.g.nd(k)),), 0))
        if len(args) != 1: raise Unsupported("parameters of %s" % f.d.qual)
        return k, args

def only(S, kind):
    c = [v for v in S.values() if isinstance(v, kind)]
    if len(c) != 1: raise Unsupported("expected one local %s" % kind.__name__)
    return c[0]

class Collect(GraphWalk):
    """heads / tails: the set of visited nodes and the list of the result"""
    def __init__(self, P, g, vm, rel, name):
        super().__init__(P, g, vm, name)
        self.rel_ = rel
        self.bare = z3.Function("bare", V, Bool)
        k, c = z3.Consts("k c", V)
        vm.assume(ForAll([k], self.bare(k) == Not(Exists([c], rel(g.nd(k), c))), [self.bare(k)]))
    def role(self, vm, f): return "visit" if len(f.d.node.args.args) == 1 else None
    def inv(self, S):
        U, L = only(S, SetC), only(S, ListC)
        x = bvar("x", V)
        return And(list_distinct(None, L), ForAll([x], And(list_mem(None, L, x) == And(U.mem(x), self.g.N(x), self.bare(x)), Implies(U.mem(x), self.g.N(x)))))
    def rel(self, S0, S1):
        x = bvar("x", V)
        return ForAll([x], Implies(only(S0, SetC).mem(x), only(S1, SetC).mem(x)))
    def pre(self, vm, role, k, S): return self.g.N(k)
    def post(self, vm, role, k, S0, S1): return only(S1, SetC).mem(k)
    def each(self, S, binders): return only(S, SetC).mem(binders[0]) if binders[0].sort() == V else T

def members_exactly(vm, l, want):
    """Goals: the list has exactly the wanted elements, each once."""
    c = vm.load(l)
    if not isinstance(c, ListC): raise Unsupported("not a list: %r" % c)
    x = fresh("x", V)
    m = list_mem(vm, c, x)
    return [("every one of them is listed", Implies(want(x), m)), ("nothing else is listed", Implies(m, want(x))), ("each is listed once", list_distinct(vm, c))]

def unchanged(vm, g):
    k, c = fresh("somek", V), fresh("somec", V)
    n, e = g.edges_now(vm, k, c)
    gl = [("nodes unchanged", n == g.N(k)), ("edges unchanged", e == And(g.N(k), g.ch(g.nd(k), c)))]
    if z3.is_true(n) and vm.choose(g.N(k)): gl += g.frame(vm, k)
    return gl

def prove_G03(P):
    P.trusted += TRUST
    P.functions |= {"DAGraph.get_heads_id", "DAGraph.get_tails_id", "DAGraph.__get_nodes", "DAGraph.__get_nodes.visit"}
    for meth, what in (("get_heads_id", "hasParent"), ("get_tails_id", "hasChild")):
        vm, g = new_vm(P)
        rel = g.par if what == "hasParent" else g.ch
        C = Collect(P, g, vm, rel, meth)
        vm.for_rule, vm.nested_contract = C.for_rule, C.nested
        def post(vm, out):
            if out[0] != "normal": return [("terminates normally", F)]
            return members_exactly(vm, out[1], lambda x: And(g.N(x), C.bare(x))) + unchanged(vm, g)
        P.run(meth, vm, lambda: vm.call(vm.getattr(g.g, meth), [], {}), post)

def heads_contract(P, vm, g, tag="heads"):
    """get_heads_id by contract (proved by heads_proof): exactly the nodes without parents, each once; nothing changes."""
    bare = z3.Function("noParents", V, Bool)
    k, c = z3.Consts("k c", V)
    vm.assume(ForAll([k], bare(k) == Not(Exists([c], g.par(g.nd(k), c))), [bare(k)]))
    g.noparents = bare
    def contract(vm, f, args, kw):
        x = bvar("head", V)
        l = ListC([Seg([x], And(g.N(x), bare(x)), x)], ordered=False)
        return vm.alloc(l)
    vm.contracts["DAGraph.get_heads_id"] = contract

def heads_proof(P):
    vm, g = new_vm(P)
    C = Collect(P, g, vm, g.par, "get_heads_id")
    vm.for_rule, vm.nested_contract = C.for_rule, C.nested
    def post(vm, out):
        if out[0] != "normal": return [("terminates normally", F)]
        return members_exactly(vm, out[1], lambda x: And(g.N(x), C.bare(x))) + unchanged(vm, g)
    P.run("get_heads_id", vm, lambda: vm.call(vm.getattr(g.g, "get_heads_id"), [], {}), post)

class OrdC(ListC):
    """A list without repetitions, its elements sorted by ord."""
    def __init__(self, f, ord_):
        k = bvar("k", V)
        super().__init__([Seg([k], f(k), k)], ordered=False)
        self.f, self.ord = f, ord_

def uses_attr(f, a): return any(isinstance(x, ast.Attribute) and x.attr == a for x in ast.walk(f.d.node))

class Order(GraphWalk):
    def __init__(self, P, g, vm):
        super().__init__(P, g, vm, "order of execution")
        self.rank = z3.Function("rank", V, Int)
        k, c = z3.Consts("k c", V)
        r = self.rank
        vm.assume(ForAll([k], r(k) >= 0, [r(k)]))
        vm.assume(ForAll([k, c], Implies(And(g.N(k), g.par(g.nd(k), c)), r(c) < r(k)), [g.par(g.nd(k), c)]))
        vm.assume(ForAll([k, c], Implies(And(g.N(k), g.ch(g.nd(k), c)), r(k) < r(c)), [g.ch(g.nd(k), c)]))
        self.names = {}
    def role(self, vm, f):
        r = "visit" if uses_attr(f, "parents") else "expand" if uses_attr(f, "children") else None
        if r: self.note(r, f)
        return r
    def note(self, r, f):
        s = {x.func.value.id for x in ast.walk(f.d.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "add" and isinstance(x.func.value, ast.Name)}
        if len(s) == 1: self.names[r] = s.pop()
    def sets(self, vm, fid):
        for v in vm.st.frames[fid].values():
            if isinstance(v, FuncV) and v.frames[:1] == (fid,): self.role(vm, v)
    def for_rule(self, vm, it, body, names, node):
        fid = self.home(vm)
        if fid is not None: self.sets(vm, fid)
        old, self.cur = self.cur, "visit" if any(isinstance(v, FuncV) and v.frames[:1] == (fid,) and v.d.qual == vm.curq() and uses_attr(v, "parents") for v in (vm.st.frames.get(fid) or {}).values()) else "expand"
        try: return super().for_rule(vm, it, body, names, node)
        finally: self.cur = old
    def nested(self, vm, f, args, kw):
        self.sets(vm, f.frames[0])
        return super().nested(vm, f, args, kw)
    def last_home(self, vm):
        c = [fid for fid, fr in vm.st.frames.items() if any(isinstance(v, FuncV) and v.frames[:1] == (fid,) for v in fr.values())]
        return c[-1] if c else None
    def U(self, S, r="visit"):
        if r not in self.names or not isinstance(S.get(self.names[r]), SetC): raise Unsupported("no set of the nodes handled by %s" % r)
        return S[self.names[r]].mem
    def X(self, S): return self.U(S, "expand")
    def L(self, S): return only(S, ListC)
    def new_list(self, vm, n): return OrdC(freshf(n, V, Bool), freshf("position_" + n, V, Int))
    def ordered(self, L):
        """Every element has all its parents before it."""
        g, out, segs = self.g, [], L.segs
        p = bvar("p", V)
        for i, s in enumerate(segs):
            e = toV(s.elem)
            before = [list_mem(None, ListC(segs[:i]), p)] if i else []
            if s.binders:
                if len(s.binders) != 1: raise Unsupported("order of the list")
                o = self.ords.get(s.binders[0].get_id())
                if o is None: raise Unsupported("order of the list is not known")
                b = s.binders[0]
                out.append(ForAll([b, p], Implies(And(s.cond, g.par(g.nd(e), p)), Or(before + [And(z3.substitute(s.cond, (b, p)), o(p) < o(e))]))))
            else: out.append(Implies(s.cond, ForAll([p], Implies(g.par(g.nd(e), p), Or(before) if before else F))))
        return And(out)
    ords = {}                                       # binder of a part of a list -> its order
    def havoc(self, vm, fid=None):
        S = super().havoc(vm, fid)
        for v in S.values():
            if isinstance(v, OrdC): self.ords[v.segs[0].binders[0].get_id()] = v.ord
        return S
    def inv(self, S):
        U, X, L = self.U(S), self.X(S), self.L(S)
        x = bvar("x", V)
        m = list_mem(None, L, x)
        return And(list_distinct(None, L), self.ordered(L), ForAll([x], And(Implies(m, U(x)), Implies(U(x), self.g.N(x)), Implies(X(x), self.g.N(x)))))
    def rel(self, S0, S1):
        g = self.g
        U0, U1, X0, X1 = self.U(S0), self.U(S1), self.X(S0), self.X(S1)
        x, c = bvar("x", V), bvar("c", V)
        m0, m1 = list_mem(None, self.L(S0), x), list_mem(None, self.L(S1), x)
        return And(ForAll([x], And(Implies(U0(x), U1(x)), Implies(m0, m1), And(U0(x), Not(m0)) == And(U1(x), Not(m1)), Implies(X0(x), X1(x)), Implies(And(X1(x), Not(X0(x))), U1(x)))),
                   ForAll([x, c], Implies(And(X1(x), Not(X0(x)), g.ch(g.nd(x), c)), X1(c))))
    def pre(self, vm, role, k, S):
        x = bvar("x", V)
        m = list_mem(None, self.L(S), x)
        if role == "visit":
            return And(self.g.N(k), Not(self.U(S)(k)), ForAll([x], Implies(And(self.U(S)(x), Not(m)), self.rank(x) > self.rank(k))))
        return And(self.g.N(k), ForAll([x], Implies(self.U(S)(x), m)))
    def post(self, vm, role, k, S0, S1):
        return list_mem(None, self.L(S1), k) if role == "visit" else self.X(S1)(k)
    def each(self, S, binders):
        if binders[0].sort() != V: return T
        return (self.U(S) if self.cur == "visit" else self.X(S))(binders[0])

def prove_G04(P):
    P.trusted += TRUST
    P.assumptions += ["a finite graph is acyclic exactly when its nodes can be ranked so that every edge goes to a higher rank"]
    P.functions |= {"DAGraph.sequential_order_of_execution", "DAGraph.sequential_order_of_execution.visit", "DAGraph.sequential_order_of_execution.expand",
                    "DAGraph.get_heads_id", "DAGraph.__get_nodes", "DAGraph.__get_nodes.visit", "DAGraph.get_node"}
    heads_proof(P)
    vm, g = new_vm(P)
    heads_contract(P, vm, g)
    C = Order(P, g, vm)
    vm.for_rule, vm.nested_contract = C.for_rule, C.nested
    def post(vm, out):
        if out[0] != "normal": return [("terminates normally", F)]
        c = vm.load(out[1])
        x, y = fresh("x", V), fresh("y", V)
        done = lambda k: list_mem(vm, c, k)
        # every node is listed: induction over the rank
        fid = C.last_home(vm)
        gl = []
        if fid is not None:
            X = C.X(C.get(vm, fid))
            j = bvar("j", V)
            ih = ForAll([j], Implies(And(g.N(j), C.rank(j) < C.rank(x)), X(j)))
            gl = [("every node is expanded, by induction over the rank: if all nodes of lower rank are, so is the node", Implies(And(ih, g.N(x)), X(x)))]
            hyp = ForAll([j], Implies(g.N(j), X(j)))
        else: hyp = T
        return gl + [("every node is listed", Implies(And(hyp, g.N(x)), done(x))),
                ("nothing else is listed", Implies(done(x), g.N(x))), ("every node is listed once", list_distinct(vm, c)), ("every node comes after its parents", C.ordered(c))] + unchanged(vm, g)
    P.run("sequential_order_of_execution", vm, lambda: vm.call(vm.getattr(g.g, "sequential_order_of_execution"), [], {}), post)

def length(c):
    ba = as_base(c)
    if ba is None: raise Unsupported("length of the list")
    return ba[0]
def same_list(a, b):
    (n, x), (m, y) = as_base(a), as_base(b)
    i = bvar("i", Int)
    if z3.is_int_value(n) and n.as_long() == 0: return n == m
    return And(n == m, ForAll([i], Implies(And(i >= 0, i < n), toV(x(i)) == toV(y(i)))))
def in_list(c, v):
    n, at = as_base(c)
    if z3.is_int_value(n) and n.as_long() == 0: return F
    i = bvar("i", Int)
    return Exists([i], And(i >= 0, i < n, toV(at(i)) == v))
def any_list(vm, name):
    n, at = fresh("n_" + name, Int), freshf("at_" + name, Int, V)
    return ListC(n=n, at=lambda i: at(i))

class Cycles(GraphWalk):
    """The depth first search of get_circular_dependencies: visited nodes, the path to the current node, what was found."""
    def __init__(self, P, g, vm, name):
        super().__init__(P, g, vm, name)
    def role(self, vm, f):
        if not uses_attr(f, "children"): return None
        self.body = {x.id for x in ast.walk(f.d.node) if isinstance(x, ast.Name)}
        return "visit"
    def ready(self, vm):
        fid = self.home(vm)
        if fid is None: return
        fr = vm.st.frames[fid]
        for v in list(fr.values()):
            if isinstance(v, FuncV) and v.frames[:1] == (fid,): self.role(vm, v)
        if "$finished" not in fr: fr["$finished"] = vm.alloc(ListC([]))
    def for_rule(self, vm, it, body, names, node):
        fid = self.home(vm)
        self.ready(vm)
        old, self.cur = self.cur, "visit" if any(isinstance(v, FuncV) and v.d.qual == vm.curq() for v in (vm.st.frames.get(fid) or {}).values()) else "top"
        try: return super().for_rule(vm, it, body, names, node)
        finally: self.cur = old
    def new_list(self, vm, n): return OrdC(freshf("finished", V, Bool), freshf("when", V, Int)) if n == "$finished" else any_list(vm, n)
    ords = {}
    def havoc(self, vm, fid=None):
        S = super().havoc(vm, fid)
        for n, v in S.items():
            if isinstance(v, OrdC): self.ords[v.segs[0].binders[0].get_id()] = v.ord
            elif isinstance(v, ListC): vm.assume(v.n >= 0)
        return S
    body = frozenset()
    def parts(self, S):
        ls = [n for n, v in S.items() if isinstance(v, ListC) and n != "$finished"]
        p = [n for n in ls if n in self.body]; c = [n for n in ls if n not in self.body]
        if len(p) != 1 or len(c) != 1: raise Unsupported("the lists of the search")
        return only(S, SetC).mem, S[p[0]], S[c[0]], S["$finished"]
    def result(self, vm, role):
        if vm.choose(fresh("found", Bool)):
            l = any_list(vm, "found")
            vm.assume(l.n > 0)
            return vm.alloc(l)
        return vm.alloc(ListC([]))

class CyclesNone(Cycles):
    """Acyclic graph: nothing is ever found."""
    def __init__(self, P, g, vm):
        super().__init__(P, g, vm, "circular references, acyclic graph")
        self.rank = z3.Function("rank", V, Int)
        k, c = z3.Consts("k c", V)
        vm.assume(ForAll([k, c], Implies(And(g.N(k), g.ch(g.nd(k), c)), self.rank(k) < self.rank(c)), [g.ch(g.nd(k), c)]))
    def result(self, vm, role): return vm.alloc(ListC([]))
    def inv(self, S): return length(self.parts(S)[2]) == 0
    def rel(self, S0, S1): return same_list(self.parts(S0)[1], self.parts(S1)[1])
    def pre(self, vm, role, k, S):
        n, at = as_base(self.parts(S)[1])
        i = bvar("i", Int)
        return And(self.g.N(k), ForAll([i], Implies(And(i >= 0, i < n), self.rank(toV(at(i))) < self.rank(k))))
    def post(self, vm, role, k, S0, S1, r=None): return b2z(vm.isempty(vm.load(r)))

class CyclesAll(Cycles):
    """Any graph: when nothing is found, the order in which the nodes were finished ranks them."""
    def __init__(self, P, g, vm): super().__init__(P, g, vm, "circular references, any graph")
    def clean(self, S):
        U, Pt, C, Fi = self.parts(S)
        g = self.g
        x, c, i, j = bvar("x", V), bvar("c", V), bvar("i", Int), bvar("j", Int)
        n, at = as_base(Pt)
        f = lambda v: list_mem(None, Fi, v)
        onpath = in_list(Pt, x)
        out = [ForAll([x], And(Implies(U(x), And(g.N(x), Or(f(x), onpath))), Implies(onpath, U(x)), Implies(f(x), And(U(x), Not(onpath))))),
               list_distinct(None, Fi), self.ranked(Fi)]
        if not (z3.is_int_value(n) and n.as_long() == 0):
            out.append(ForAll([i, j], Implies(And(i >= 0, i < j, j < n), toV(at(i)) != toV(at(j)))))
        return And(out)
    def ranked(self, L):
        """The children of a finished node were finished before it."""
        g, out, segs = self.g, [], L.segs
        c = bvar("c", V)
        for i, s in enumerate(segs):
            e = toV(s.elem)
            before = [list_mem(None, ListC(segs[:i]), c)] if i else []
            if s.binders:
                o, b = self.ords.get(s.binders[0].get_id()), s.binders[0]
                if o is None: raise Unsupported("order of the list is not known")
                out.append(ForAll([b, c], Implies(And(s.cond, g.ch(g.nd(e), c)), Or(before + [And(z3.substitute(s.cond, (b, c)), o(c) < o(e))]))))
            else: out.append(Implies(s.cond, ForAll([c], Implies(g.ch(g.nd(e), c), Or(before) if before else F))))
        return And(out)
    def inv(self, S): return Or(length(self.parts(S)[2]) > 0, self.clean(S))
    def grows(self, S0, S1):
        (U0, P0, C0, F0), (U1, P1, C1, F1) = self.parts(S0), self.parts(S1)
        x = bvar("x", V)
        return And(same_list(P0, P1), ForAll([x], And(Implies(U0(x), U1(x)), Implies(list_mem(None, F0, x), list_mem(None, F1, x)))))
    def rel(self, S0, S1):
        (U0, P0, C0, F0), (U1, P1, C1, F1) = self.parts(S0), self.parts(S1)
        c = length(C0) == length(C1) if self.cur == "visit" else length(C0) <= length(C1)
        return And(c, length(P0) <= length(P1), Implies(length(C1) == 0, self.grows(S0, S1)))
    def empty(self, r): return b2z(self.vm_.isempty(self.vm_.load(r)))
    def keeps(self, role, S0, S1, r=None):
        (U0, P0, C0, F0), (U1, P1, C1, F1) = self.parts(S0), self.parts(S1)
        return And(length(C0) == length(C1), length(P0) <= length(P1), Implies(And(length(C0) == 0, self.empty(r)), And(self.clean(S1), self.grows(S0, S1))))
    def pre(self, vm, role, k, S): self.vm_ = vm; return self.g.N(k)
    def post(self, vm, role, k, S0, S1, r=None):
        (U0, P0, C0, F0), (U1, P1, C1, F1) = self.parts(S0), self.parts(S1)
        return Implies(And(length(C0) == 0, self.empty(r)), Or(list_mem(None, F1, k), in_list(P0, k)))
    def each(self, S, binders):
        U, Pt, C, Fi = self.parts(S)
        if binders[0].sort() != V: return T
        return Implies(length(C) == 0, list_mem(None, Fi, binders[0]))
    def finish(self, vm, role, k, r):
        """Ghost: the node is finished when nothing was found below it."""
        fid = [f for f, fr in vm.st.frames.items() if "$finished" in fr][-1]
        S = self.get(vm, fid)
        U, Pt, C, Fi = self.parts(S)
        a = vm.st.frames[fid]["$finished"].addr
        cond = And(length(C) == 0, self.empty(r), Not(list_mem(None, Fi, k)), Not(in_list(Pt, k)))
        vm.st.heap[a] = ListC(Fi.segs + [Seg([], cond, k)], ordered=False)

def prove_G05(P):
    P.trusted += TRUST
    P.assumptions += ["a finite graph is acyclic exactly when its nodes can be ranked so that every edge goes to a higher rank"]
    P.functions |= {"GraphValidator.validate", "GraphValidator.get_circular_dependencies", "GraphValidator.get_circular_dependencies.visit", "GraphValidator.get_unconnected_nodes",
                    "GraphValidationErrors.add_error", "DAGraph.validate", "DAGraph.get_heads_id", "DAGraph.__get_nodes", "DAGraph.__get_nodes.visit", "DAGraph.get_node"}
    heads_proof(P)
    q = "GraphValidator.get_circular_dependencies"
    def search(vm, g):
        cls = vm.cls("graph.graph_validator", "GraphValidator")
        return vm.call(vm.getattr(cls, "get_circular_dependencies"), [], {"graph": g.g})
    vm, g = new_vm(P)
    C = CyclesNone(P, g, vm)
    vm.for_rule, vm.nested_contract = C.for_rule, C.nested
    P.run(C.name, vm, lambda: search(vm, g), lambda vm, out: [("reports nothing", b2z(vm.isempty(vm.load(out[1]))) if out[0] == "normal" else F)] + unchanged(vm, g))
    vm, g = new_vm(P)
    C2 = CyclesAll(P, g, vm)
    C2.vm_ = vm
    vm.for_rule, vm.nested_contract = C2.for_rule, C2.nested
    def post(vm, out):
        if out[0] != "normal": return [("terminates normally", F)]
        nothing = b2z(vm.isempty(vm.load(out[1])))
        fid = [f for f, fr in vm.st.frames.items() if "$finished" in fr]
        if not fid: raise Unsupported("no search")
        Fi = C2.parts(C2.get(vm, fid[-1]))[3]
        x = fresh("x", V)
        return [("when nothing is reported, every node was finished", Implies(And(nothing, g.N(x)), list_mem(None, Fi, x))),
                ("when nothing is reported, every node was finished after its children", Implies(nothing, C2.ranked(Fi)))] + unchanged(vm, g)
    P.run(C2.name, vm, lambda: search(vm, g), post)
    # validate
    vm, g = new_vm(P)
    heads_contract(P, vm, g)
    cyc = z3.Bool("cyclic")
    def contract(vm, f, args, kw):
        if not vm.choose(cyc): return vm.alloc(ListC([]))
        l = any_list(vm, "cycle")
        vm.assume(l.n > 0)
        return vm.alloc(l)
    vm.contracts[q] = contract
    wrong = lambda x: And(g.N(x), g.noparents(x), toV(g.type(g.nd(x))) != lit("INPUT_ROOT_NODE_TYPE"))
    k = bvar("k", V)
    some = Exists([k], wrong(k))
    def call():
        vm.choose(cyc); vm.choose(some)
        return vm.call(vm.getattr(g.g, "validate"), [], {})
    def post(vm, out):
        if out[0] != "normal": return [("terminates normally", F)]
        errs = vm.getattr(out[1], "errors")
        c = vm.load(errs)
        found = {"CIRCULAR_REFS": F, "UNCONNECTED_NODES": F}
        lists = {}
        other = F
        for s in c.segs:
            if s.binders: raise Unsupported("errors added in a loop")
            d = vm.load(vm.value(s.elem, errs))
            for key, (pr, v) in d.entries.items():
                if key in found:
                    found[key] = Or(found[key], And(s.cond, pr)); lists.setdefault(key, []).append((And(s.cond, pr), vm.value(v, errs)))
                else: other = Or(other, And(s.cond, pr))
        gl = [("circular references are reported exactly when there is a cycle", found["CIRCULAR_REFS"] == cyc),
              ("unconnected nodes are reported exactly when there are some", found["UNCONNECTED_NODES"] == some), ("nothing else is reported", Not(other))]
        for cond, l in lists.get("UNCONNECTED_NODES", []):
            gl += [(n, Implies(cond, f)) for n, f in members_exactly(vm, l, wrong)]
        return gl + unchanged(vm, g)
    P.run("validate", vm, call, post)

class Pruned:
    """A graph some of whose nodes (set D) were removed, its methods by the contracts proved in G01 and G03."""
    def __init__(self, P, vm, g):
        self.g = g
        self.D = vm.alloc(SetC(lambda x: F))
        self.graph = vm.alloc(Rec(vm.cls("graph.dagraph", "DAGraph"), {}))
        self.cont = vm.alloc(Rec(vm.cls("spine_graph_container", "SpineGraphContainer"), {"graph": Ref(self.graph)}))
        def here(vm, x):
            r = And(g.N(x), Not(vm.contains(self.D, x)))
            return r
        def border(rel):
            def contract(vm, f, args, kw):
                x, p = bvar("n", V), bvar("p", V)
                vm.log_read(self.D, True)
                d = vm.st.heap[self.D.addr].mem
                l = ListC([Seg([x], And(g.N(x), Not(d(x)), Not(Exists([p], And(rel(g.nd(x), p), Not(d(p)))))), x)], ordered=False)
                return vm.alloc(l)
            return contract
        vm.contracts["DAGraph.get_heads_id"] = border(g.par)
        vm.contracts["DAGraph.get_tails_id"] = border(g.ch)
        def get_node(vm, f, args, kw):
            x = args[0] if args else list(kw.values())[0]
            x = toV(x)
            if vm.choose(here(vm, x)): return Loc(g.region, (("r", g.nd(x)),), 0)
            return None
        def remove(vm, f, args, kw):
            x = toV(args[0] if args else list(kw.values())[0])
            if not vm.choose(here(vm, x)): vm.throw("ValueError")
            vm.set_add(self.D, x)
            return Loc(g.region, (("r", g.nd(x)),), 0)
        vm.contracts["DAGraph.get_node"] = get_node
        vm.contracts["DAGraph.remove_node_by_id"] = remove
        self.base = z3.Function("baseId", V, V, V)
        self.gid = z3.Function("graphId", V, V, V)
        smt.STRFUNS.add("baseId")
        k = z3.Const("k", V)
        vm.assume(ForAll([k], Implies(g.N(k), self.gid(g.type(g.nd(k)), self.base(g.type(g.nd(k)), k)) == k), [g.N(k)]))
        def to_base(vm, f, args, kw):
            env = vm.bindargs(f, args, kw)
            return self.base(toV(env["node_type_name"]), toV(env["graph_id"]))
        vm.contracts["SpineGraphParser._to_base_id"] = to_base

class Prune(Rules):
    """while border: remove every node of border; border = what is at the border now"""
    def __init__(self, P, pr, t, rel, name):
        super().__init__(P, name)
        self.pr, self.t, self.rel_ = pr, t, rel
    def wanted(self, vm, x):
        """x is at the border and of the kind, now."""
        g, d, p = self.pr.g, vm.st.heap[self.pr.D.addr].mem, bvar("p", V)
        return And(g.N(x), Not(d(x)), g.type(g.nd(x)) == self.t, Not(Exists([p], And(self.rel_(g.nd(x), p), Not(d(p))))))
    def check(self, vm, border, removed, when):
        x, k = fresh("x", V), bvar("k", V)
        g, d = self.pr.g, vm.st.heap[self.pr.D.addr].mem
        b, r = vm.load(border), vm.load(removed)
        if not isinstance(b, ListC) or not isinstance(r, ListC): raise Unsupported("the lists of the loop")
        self.oblige(vm, "the list holds exactly the border nodes of the kind, each once (%s)" % when, And(list_mem(vm, b, x) == self.wanted(vm, x), list_distinct(vm, b)))
        self.oblige(vm, "only nodes of the kind were removed (%s)" % when, Implies(d(x), And(g.N(x), g.type(g.nd(x)) == self.t)))
        self.oblige(vm, "the result holds exactly the names of the removed nodes, each once (%s)" % when,
                    And(list_mem(vm, r, x) == Exists([k], And(d(k), x == self.pr.base(self.t, k))), list_distinct(vm, r)))
    def any(self, vm):
        D = freshf("removed", V, Bool)
        k = z3.Const("k", V)
        g = self.pr.g
        vm.st.heap[self.pr.D.addr] = SetC(lambda x: D(toV(x)))
        vm.log_write(self.pr.D, "slot")
        vm.assume(ForAll([k], Implies(D(k), And(g.N(k), g.type(g.nd(k)) == self.t)), [D(k)]))
        x, y = bvar("k", V), bvar("k", V)
        B = freshf("border", V, Bool)
        vm.assume(ForAll([x], B(x) == self.wanted(vm, x)))
        border = vm.alloc(ListC([Seg([x], B(x), x)], ordered=False))
        removed = vm.alloc(ListC([Seg([y], D(y), self.pr.base(self.t, y))], ordered=False))
        return border, removed
    def rule(self, vm, s):
        fr = vm.frame()
        if not isinstance(s.test, ast.Name): raise Unsupported("while loop with another test")
        b = s.test.id
        stored = {x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
                 {x.func.value.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in ("append", "extend")}
        lists = [n for n in stored if n != b and isinstance(fr.get(n), Loc) and isinstance(vm.load(fr[n]), ListC)]
        if len(lists) != 1: raise Unsupported("the lists of the while loop")
        r = lists[0]
        self.check(vm, fr[b], fr[r], "before")
        def step():
            fr = vm.frame()
            for n in stored: fr.pop(n, None)
            fr[b], fr[r] = self.any(vm)
            if not vm.choose(vm.tr(vm.ev(s.test))): return
            vm.block(s.body)
            fr = vm.frame()
            self.check(vm, fr[b], fr[r], "after one round")
        mark = vm.naddr
        vm.loopmarks.append(mark)
        try: paths = vm.explore(step)
        finally: vm.loopmarks.pop()
        for p in paths:
            if p.out[0] != "normal": raise Unsupported("while loop left early")
            for e in p.effects:
                if e.addr not in (self.pr.D.addr, fr[r].addr): raise Unsupported("the loop changes something else: %s" % e)
        fr = vm.frame()
        for n in stored: fr.pop(n, None)
        fr[b], fr[r] = self.any(vm)
        if vm.choose(vm.tr(vm.ev(s.test))): raise Infeasible()
        return True

def prove_M03(P):
    P.trusted += TRUST
    P.assumptions += ["contract of _to_base_id: the inverse of _to_graph_id on the ids of the nodes of the kind (proved in M01; ids are made by _to_graph_id)"]
    P.functions |= {"SpineGraphContainer.remove_heads_of_type", "SpineGraphContainer.remove_leafs_of_type", "SpineGraphContainer.get_heads_with_type", "SpineGraphContainer.get_leafs_of_type",
                    "DAGraph.get_heads_id", "DAGraph.get_tails_id", "DAGraph.__get_nodes", "DAGraph.remove_node_by_id", "DAGraph.get_node"}
    # the contracts of the graph used below
    borders_proof(P)
    removal_proof(P)
    for meth, what in (("remove_heads_of_type", 0), ("remove_leafs_of_type", 1)):
        vm, g = new_vm(P)
        pr = Pruned(P, vm, g)
        t = z3.Const("kind_of_nodes", V)
        smt.STRFUNS.add("kind_of_nodes")
        vm.assume(smt.kind(t) == smt.K_STR)
        smt.STRFUNS.add("typeOf")
        rel = g.ch if what else g.par
        W = Prune(P, pr, t, rel, meth)
        vm.while_rule = W.rule
        def post(vm, out):
            if out[0] != "normal": return [("terminates normally", F)]
            x, k, p = fresh("x", V), bvar("k", V), bvar("p", V)
            d = vm.st.heap[pr.D.addr].mem
            r = vm.load(out[1])
            return [("no %s of the kind is left" % ("leaf" if what else "head"), Not(W.wanted(vm, x))), ("only nodes of the kind were removed", Implies(d(x), And(g.N(x), g.type(g.nd(x)) == t))),
                    ("the result holds exactly the names of the removed nodes", list_mem(vm, r, x) == Exists([k], And(d(k), x == pr.base(t, k)))),
                    ("each once", list_distinct(vm, r))]
        P.run(meth, vm, lambda: vm.call(vm.getattr(pr.cont, meth), [t], {}), post)

def borders_proof(P):
    for meth, what in (("get_heads_id", "hasParent"), ("get_tails_id", "hasChild")):
        vm, g = new_vm(P)
        rel = g.par if what == "hasParent" else g.ch
        C = Collect(P, g, vm, rel, meth)
        vm.for_rule, vm.nested_contract = C.for_rule, C.nested
        def post(vm, out):
            if out[0] != "normal": return [("terminates normally", F)]
            return members_exactly(vm, out[1], lambda x: And(g.N(x), C.bare(x))) + unchanged(vm, g)
        P.run(meth, vm, lambda: vm.call(vm.getattr(g.g, meth), [], {}), post)

def removal_proof(P):
    vm, g = new_vm(P)
    a = idv(vm, "n_id")
    def post(vm, out):
        k, c = fresh("somek", V), fresh("somec", V)
        wasN, wasE = g.N(k), And(g.N(k), g.ch(g.nd(k), c))
        gl = []
        if out[0] == "raise": gl = [("raises ValueError for an unknown node only", And(Not(g.N(a)), z3.BoolVal("ValueError" in out[1].names())))]
        elif out[0] == "normal":
            gl = [("removes a node of the graph", g.N(a)), ("returns the removed node", b2z(vm.same(out[1], Loc(g.region, (("r", g.nd(a)),), 0))))]
            wasN, wasE = And(wasN, k != a), And(wasE, k != a, c != a)
        n, e = g.edges_now(vm, k, c)
        gl += [("exactly the expected nodes", n == wasN), ("exactly the expected edges", e == wasE)]
        if z3.is_true(n) and vm.choose(g.N(k)): gl += g.frame(vm, k)
        return gl
    P.run("remove_node_by_id, effect", vm, lambda: vm.call(vm.getattr(g.g, "remove_node_by_id"), [a], {}), post)
    P.run("remove_node_by_id, invariant", vm, lambda: vm.call(vm.getattr(g.g, "remove_node_by_id"), [a], {}), lambda vm, out: g.inv_now(vm))
    vm, g = new_vm(P)
    a = idv(vm, "n_id")
    P.run("get_node", vm, lambda: vm.call(vm.getattr(g.g, "get_node"), [a], {}),
          lambda vm, out: [("returns the node with the id, or None", And(g.N(a), b2z(vm.same(out[1], Loc(g.region, (("r", g.nd(a)),), 0)))) if isinstance(out[1], Loc) else And(Not(g.N(a)), b2z(vm.same(out[1], None)))
                            if out[0] == "normal" else F)] + unchanged(vm, g))
