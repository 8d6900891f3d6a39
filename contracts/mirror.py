"""The skeleton graph mirrors the document and converts back unchanged (M02): spine_json_lib/deserializer/spine_nodes.py.
The methods of the graph go by the contracts proved in G01 and G02, graph ids by those of M01."""
import ast
from contracts.data import *
from contracts.graph import TRUST as GRAPH_TRUST
from dv.interp import Brk, Cont, Infeasible, EnumV, FuncV
from dv.induct import ContractFailed

NODES = "deserializer.spine_nodes"
KINDS_OF = ("BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE")
LISTS = {"BONE": "bones", "SLOT": "slots", "IK": "ik"}
# which nodes may hang from which (those the property asks for)
HANGS = {"BONE": ("BONE", "SLOT", "IK"), "SLOT": ("ATTACHMENT",), "ATTACHMENT": ("IMAGE",), "IK": ("BONE",), "IMAGE": ()}

class Ids:
    """Graph ids: of a kind and a name, and back (M01)."""
    def __init__(self, vm):
        self.vm = vm
        self.gid, self.typ, self.base = z3.Function("graphId", V, V, V), z3.Function("kindOf", V, V), z3.Function("baseOf", V, V)
        self.pair, self.fst, self.snd = z3.Function("edge", V, V, V), z3.Function("from", V, V), z3.Function("to", V, V)
        smt.STRFUNS.add("graphId")
        a, b = bvar("a", V), bvar("b", V)
        g = self.gid(a, b)
        vm.assume(ForAll([a, b], And(smt.kind(g) == smt.K_STR, self.typ(g) == a, self.base(g) == b), [g]))
        p = self.pair(a, b)
        vm.assume(ForAll([a, b], And(self.fst(p) == a, self.snd(p) == b), [p]))
        vm.contracts["SpineGraphParser._to_graph_id"] = self.to_graph
    def of(self, kind, name): return self.gid(lit(kind), toV(name))
    def to_graph(self, vm, f, args, kw):
        env = vm.bindargs(f, args, kw)
        t = env["node_type_name"]
        if not isinstance(t, str) or t not in KINDS_OF: raise Unsupported("graph id of another kind")
        return self.of(t, env["node_base_id"])

class Mirror(World):
    """Any valid skeleton document and the graph made from it."""
    def __init__(self, P, slots=True, ik=True):
        self.memo = {}
        World.__init__(self, P, always=ROOT, strings=["bones.item.name", "slots.item.name", "slots.item.bone", "ik.item.name", "doc.bones.item.name", "doc.slots.item.name", "doc.slots.item.bone", "doc.ik.item.name", "name", "bone"])
        vm = self.vm
        self.ids = Ids(vm)
        d = self.sym.obj(TOP, "doc")
        d.entries["slots"], d.entries["ik"] = (z3.BoolVal(slots), d.entries["slots"][1]), (z3.BoolVal(ik), d.entries["ik"][1])
        ik = d.entries["ik"]
        nb, ab = z3.Function("ik.bones.len", Int, Int), z3.Function("ik.bones.item", Int, Int, V)
        def constraint(i):
            c = ik[1].at(i)
            return DictC(dict(c.entries, name=(T, c.entries["name"][1]), bones=(c.entries["bones"][0], ListC(n=nb(i), at=lambda j: ab(i, j)))))
        i, j, k = bvar("i", Int), bvar("j", Int), bvar("k", V)
        vm.assume(ForAll([i], nb(i) >= 0))
        vm.assume(ForAll([i, j], smt.kind(ab(i, j)) == smt.K_STR))
        d.entries["ik"] = (ik[0], ListC(n=ik[1].n, at=constraint))
        self.doc0 = d
        self.doc = vm.alloc(d)
        self.lists = {t: d.entries[LISTS[t]] for t in LISTS}
        self.index = {t: z3.Function("index.of." + LISTS[t], V, Int) for t in LISTS}
        self.skins = d.entries["skins"][1]
        for t in LISTS:
            vm.assume(ForAll([i], Implies(self.inr(t, i), And(smt.kind(self.name(t, i)) == smt.K_STR, self.index[t](self.name(t, i)) == i))))      # distinct names
        par = lambda i: self.item("BONE", i).get("parent")
        has = lambda i: self.item("BONE", i).has("parent")
        vm.assume(ForAll([i], Implies(self.inr("BONE", i), And(has(i) == (i > 0), Implies(i > 0, self.earlier(par(i), i))))))       # parents come first; one root
        vm.assume(ForAll([i], Implies(self.inr("SLOT", i), self.earlier(self.item("SLOT", i).get("bone"), self.count("BONE")))))
        s = bvar("s", V)
        vm.assume(ForAll([i, s, k], Implies(self.there(i, s, k), smt.kind(k) == smt.K_STR)))
    def item(self, t, i):
        """Element i (contents are immutable: made once for each place)."""
        m = self.memo
        x = i if isinstance(i, z3.ExprRef) else z3.IntVal(i)
        if (t, x.get_id()) not in m: m[t, x.get_id()] = (x, self.lists[t][1].at(i))
        return m[t, x.get_id()][1]
    def name(self, t, i): return toV(self.item(t, i).get("name"))
    def count(self, t):
        p, c = self.lists[t]
        return c.n if z3.is_true(p) else z3.IntVal(0)
    def inr(self, t, i): return And(i >= 0, i < self.count(t))
    def earlier(self, x, i):
        j = self.index["BONE"](toV(x))
        return And(j >= 0, j < i, j < self.count("BONE"), self.name("BONE", j) == toV(x))
    def attachments(self, i): return self.skins.at(i).entries["attachments"]
    def there(self, i, s, k):
        p, a = self.attachments(i)
        return And(i >= 0, i < self.skins.n, p, a.has(s), a.get(s).has(k))
    def image(self, i, s, k):
        a = self.attachments(i)[1].get(s).get(k)
        f = lambda n: smt.ite(a.has(n), a.get(n), None)
        p, n = toV(f("path")), toV(f("name"))
        return smt.ite(truth(p), p, smt.ite(truth(n), n, k))
    # what the loading of an element adds: nodes and edges as predicates
    def adds(self, level, ctx, b):
        """(node x is added, edge p -> c is added) by one round of the loop over `level` with binders b, in the rounds ctx of the loops around it."""
        I = self.ids
        if level == "BONE":
            i = b[0]
            return (lambda x: x == I.of("BONE", self.name("BONE", i))), \
                   (lambda p, c: And(i > 0, p == I.of("BONE", self.item("BONE", i).get("parent")), c == I.of("BONE", self.name("BONE", i))))
        if level == "IK":
            return (lambda x: x == I.of("IK", self.name("IK", b[0]))), (lambda p, c: F)
        if level == "ATTACHMENT":
            (s,), (i,), k = ctx["SLOT"], ctx["SKIN"], b[0]
            n = self.name("SLOT", s)
            att, img = I.of("ATTACHMENT", k), I.of("IMAGE", self.image(i, n, k))
            return (lambda x: Or(x == att, x == img)), (lambda p, c: Or(And(p == I.of("SLOT", n), c == att), And(p == att, c == img)))
        if level == "SKIN":
            k = bvar("k", V)
            c = self.there(b[0], self.name("SLOT", ctx["SLOT"][0]), k)
            N, E = self.adds("ATTACHMENT", dict(ctx, SKIN=b), [k])
            return (lambda x: Exists([k], And(c, N(x)))), (lambda p, q: Exists([k], And(c, E(p, q))))
        if level == "SLOT":
            i = bvar("skin", Int)
            n = self.name("SLOT", b[0])
            N, E = self.adds("SKIN", dict(ctx, SLOT=b), [i])
            r = And(i >= 0, i < self.skins.n)
            return (lambda x: Or(x == I.of("SLOT", n), Exists([i], And(r, N(x))))), \
                   (lambda p, c: Or(And(p == I.of("BONE", self.item("SLOT", b[0]).get("bone")), c == I.of("SLOT", n)), Exists([i], And(r, E(p, c)))))
    def level(self, path, ctx):
        """Which part of the document a loop goes over."""
        key = lambda s: s[1] if s[0] == "k" else None
        if len(path) == 1:
            for t, a in LISTS.items():
                if key(path[0]) == a: return t
            if key(path[0]) == "skins" and "SLOT" in ctx: return "SKIN"
        if len(path) == 4 and key(path[0]) == "skins" and key(path[2]) == "attachments" and "SKIN" in ctx: return "ATTACHMENT"
        return None

class Building:
    """The graph under construction: its nodes and edges as sets; the methods of DAGraph by contract."""
    def __init__(self, P, W):
        self.P, self.W, vm = P, W, W.vm
        self.N, self.E = vm.alloc(SetC(lambda x: F)), vm.alloc(SetC(lambda x: F))
        self.G = vm.cls("graph.dagraph", "DAGraph")
        self.graph = None
        self.ctx = {}
        c = vm.contracts
        c["DAGraph"] = self.create
        c["DAGraph.add_node"], c["DAGraph.get_node"], c["DAGraph.add_edge"] = self.add_node, self.get_node, self.add_edge
        vm.for_rule = self.for_rule
        self.labels = set()
    def oblige(self, vm, label, f):
        if isinstance(f, bool): f = z3.BoolVal(f)
        if not self.P.goal(label, vm.run.pc(), f): raise ContractFailed(label)
    def has(self, vm, x):
        vm.log_read(self.N, True)
        return vm.st.heap[self.N.addr].mem(toV(x))
    def create(self, vm, cls, args, kw):
        if self.graph is not None: raise Unsupported("a second graph")
        a = list(args) + list(kw.values())
        if len(a) != 1 or not isinstance(a[0], Loc) or vm.load(a[0]).cls.name != "SpineNodeFactory": raise Unsupported("another factory of nodes")
        self.factory = a[0]
        self.graph = vm.alloc(Rec(cls, {}))
        return self.graph
    def bind(self, f, args, kw):
        env = self.W.args(f, args, kw)
        if not (isinstance(env["self"], Loc) and self.graph is not None and self.W.vm.canon(env["self"])[0].addr == self.graph.addr): raise Unsupported("another graph")
        return env
    def node(self, vm, x):
        r = vm.alloc(Rec(vm.cls("graph.spamnode", "SpamNode"), {"_id": x}))
        vm.readonly.add(r.addr)
        return r
    def text(self, x):
        if x is None or not isinstance(x, (str, z3.ExprRef)) or not self.W.vm.entails(smt.kind(toV(x)) == smt.K_STR): raise Unsupported("an id that may not be a text")
        return toV(x)
    def get_node(self, vm, f, args, kw):
        x = self.text(self.bind(f, args, kw)["node_id"])
        return self.node(vm, x) if vm.choose(self.has(vm, x)) else None
    def add_node(self, vm, f, args, kw):
        W, env = self.W, self.bind(f, args, kw)
        x, t = self.text(env["node_id"]), env["node_type"]
        if not isinstance(t, str) or t not in KINDS_OF: raise Unsupported("node of another kind")
        self.oblige(vm, "a node is new (%s)" % t, Not(self.has(vm, x)))
        self.oblige(vm, "the id of a node is of its kind (%s)" % t, W.ids.typ(x) == lit(t))
        # what the factory makes
        o = vm.call(vm.getattr(self.factory, "create_node"), [], {"node_type": t, "node_id": x, "order": fresh("order", V), "node_data": env["node_data"], "public_id": env.get("public_id")})
        if not isinstance(o, Loc) or vm.load(o).cls.name != "SpamNode": raise ContractFailed("the factory makes no node (%s)" % t)
        self.oblige(vm, "the node has its id (%s)" % t, vm.eq(vm.getattr(o, "id"), x))
        self.oblige(vm, "the node has its kind (%s)" % t, vm.eq(vm.getattr(o, "node_type"), t))
        forb = vm.load(vm.getattr(o, "_child_types_forbidden"))
        u = forb.units() if isinstance(forb, ListC) else None
        if u is None: raise Unsupported("forbidden kinds of children")
        self.oblige(vm, "the node may have the children it needs (%s)" % t, z3.BoolVal(not set(HANGS[t]) & set(u)))
        data = vm.getattr(o, "_data")
        if t in LISTS:
            if t not in self.ctx: raise Unsupported("a node of kind %s outside the loop over them" % t)
            i = self.ctx[t][0]
            self.oblige(vm, "a node is filed under the id of the element (%s)" % t, x == W.ids.of(t, W.name(t, i)))
            c = vm.load(data) if isinstance(data, Loc) else None
            if not isinstance(c, DictC) or not c.pure() or set(c.entries) != {"idx", "data"}: raise Unsupported("the data of a node")
            A = Agree(vm)
            self.oblige(vm, "a node holds the place of its element (%s)" % t, vm.eq(c.get("idx"), i))
            self.oblige(vm, "a node holds the data of its element (%s)" % t, A.f(c.get("data"), W.item(t, i)))
        vm.set_add(self.N, x)
        return o
    def add_edge(self, vm, f, args, kw):
        W, env = self.W, self.bind(f, args, kw)
        p, c = self.text(env["parent_id"]), self.text(env["child_id"])
        self.oblige(vm, "an edge is between nodes of the graph", And(self.has(vm, p), self.has(vm, c)))
        ty = W.ids.typ
        self.oblige(vm, "an edge is of a kind that may be", Or([And(ty(p) == lit(a), Or([ty(c) == lit(b) for b in bs])) for a, bs in HANGS.items() if bs]))
        self.oblige(vm, "an edge is between two nodes", p != c)
        if vm.choose(Or(ty(p) == lit("IK"), ty(c) == lit("IK"))): return None           # constraints may hang from and hold anything
        vm.set_add(self.E, W.ids.pair(p, c))
        return None
    # the loops over the document
    def for_rule(self, vm, it, body, names, node):
        if self.graph is None: return False
        items, src = vm.items(it)
        if src is None or src.addr != self.W.doc.addr: return False
        level = self.W.level(src.path, self.ctx)
        if level is None: return False
        its = [i for i in items if i.binders]
        if len(items) != len(its) or len(its) != 1 or len(its[0].binders) != 1: raise Unsupported("the loop over %s" % level)
        item = its[0]
        b = item.binders[0]
        N0, E0 = vm.st.heap[self.N.addr].mem, vm.st.heap[self.E.addr].mem
        I, ctx0 = self.W.ids, dict(self.ctx)
        t = fresh("round", Int)
        done0 = freshf("done", b.sort(), Bool) if b.sort() != Int else None
        done = (lambda y: y < t) if b.sort() == Int else (lambda y: done0(y))
        upto = (lambda y: y <= b) if b.sort() == Int else (lambda y: Or(done0(y), y == b))
        def state(done):
            y = bvar("done", b.sort())
            cond = sub(item.cond, [(b, y)])
            N, E = self.W.adds(level, ctx0, [y])
            return (lambda x: Or(N0(toV(x)), Exists([y], And(cond, done(y), N(toV(x)))))), (lambda e: Or(E0(toV(e)), Exists([y], And(cond, done(y), e == I.pair(I.fst(e), I.snd(e)), E(I.fst(e), I.snd(e))))))
        def put(s):
            vm.st.heap[self.N.addr], vm.st.heap[self.E.addr] = SetC(s[0]), SetC(s[1])
            vm.log_write(self.N, "slot"); vm.log_write(self.E, "slot")
        fid = vm.fnstack[-1][1][0]
        def go():
            fr = vm.st.frames[fid]
            for n in names: fr[n] = Poison("%s of an earlier iteration" % n)
            if b.sort() == Int: vm.assume(t == b)
            else: vm.assume(Not(done0(b)))
            put(state(done))
            self.ctx = dict(ctx0, **{level: [b]})
            try: body(item.value() if callable(item.value) and not isinstance(item.value, (FuncV, ClassV)) else item.value)
            except Cont: pass
            finally: self.ctx = ctx0
            want = state(upto)
            x, p, c = fresh("x", V), fresh("p", V), fresh("c", V)
            self.oblige(vm, "after a round of the loop over %s: exactly the nodes of its element are new" % level, vm.st.heap[self.N.addr].mem(x) == want[0](x))
            e = I.pair(p, c)
            self.oblige(vm, "after a round of the loop over %s: exactly the edges of its element are new" % level, vm.st.heap[self.E.addr].mem(e) == want[1](e))
        vm.loopmarks.append(vm.naddr)
        try: paths = vm.explore(go, item.cond)
        finally: vm.loopmarks.pop()
        for p in paths:
            if p.out[0] != "normal": raise ContractFailed("the loop over %s: %r" % (level, p.out))
            for e in p.effects:
                if e.addr not in (self.N.addr, self.E.addr): raise Unsupported("the loop over %s changes something else: %s" % (level, e))
        put(state(lambda y: T))
        for n in names: vm.st.frames[fid][n] = Poison("%s set in a loop" % n)
        return True

def prove_create(P, slots=True, ik=True):
    W = Mirror(P, slots, ik)
    vm = W.vm
    B = Building(P, W)
    C = vm.cls("spine_graph_container", "SpineGraphContainer")
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        if not isinstance(out[1], Loc) or B.graph is None or vm.canon(vm.getattr(out[1], "graph"))[0].addr != B.graph.addr: return [("holds the graph", F)]
        x, p, c = fresh("x", V), fresh("p", V), fresh("c", V)
        I, i, s, k = W.ids, bvar("i", Int), bvar("s", Int), bvar("k", V)
        a = lambda: [i, s, k]
        there = And(W.inr("SLOT", s), W.there(i, W.name("SLOT", s), k))
        N, E = vm.st.heap[B.N.addr].mem, vm.st.heap[B.E.addr].mem
        nodes = Or([Exists([i], And(W.inr(t, i), x == I.of(t, W.name(t, i)))) for t in LISTS] +
                   [Exists(a(), And(there, Or(x == I.of("ATTACHMENT", k), x == I.of("IMAGE", W.image(i, W.name("SLOT", s), k)))))])
        edges = Or(Exists([i], And(W.inr("BONE", i), W.item("BONE", i).has("parent"), p == I.of("BONE", W.item("BONE", i).get("parent")), c == I.of("BONE", W.name("BONE", i)))),
                   Exists([s], And(W.inr("SLOT", s), p == I.of("BONE", W.item("SLOT", s).get("bone")), c == I.of("SLOT", W.name("SLOT", s)))),
                   Exists(a(), And(there, p == I.of("SLOT", W.name("SLOT", s)), c == I.of("ATTACHMENT", k))),
                   Exists(a(), And(there, p == I.of("ATTACHMENT", k), c == I.of("IMAGE", W.image(i, W.name("SLOT", s), k)))))
        A = Agree(vm)
        return [("exactly the nodes of the document", N(x) == nodes), ("exactly the edges of the document", E(I.pair(p, c)) == edges),
                ("the document is as before", A.f(A.at(W.doc), W.doc0))]
    P.trusted += GRAPH_TRUST
    P.functions |= {"SpineGraphContainer.__init__", "SpineGraphParser.create_from_json_data", "SpineGraphParser.add_bone_to_graph", "SpineGraphParser.add_slot_to_graph",
                    "SpineGraphParser.add_skin_attachments_to_slot", "SpineGraphParser.add_ik_to_graph", "SpineNodeData.__init__", "SpineNodeFactory.create_node"}
    P.run("SpineGraphContainer(document)", vm, lambda: vm.construct(C, [W.doc], {}), post)
    note(P)

def note(P):
    P.note(P.last)

# ------------------------------------------------------------------------------------------- converting back
class Built:
    """The graph as prove_create leaves it: its nodes in any order, each with its kind and, for elements, place and data."""
    def __init__(self, P, W):
        self.P, self.W, vm = P, W, W.vm
        I = W.ids
        self.N = N = z3.Function("inGraph", V, Bool)
        k, i = bvar("k", V), bvar("i", Int)
        self.place = lambda t, k: W.index[t](I.base(k))
        for t in LISTS:
            vm.assume(ForAll([k], Implies(And(N(k), I.typ(k) == lit(t)), And(W.inr(t, self.place(t, k)), k == I.of(t, W.name(t, self.place(t, k))))), [N(k)]))
            vm.assume(ForAll([i], Implies(W.inr(t, i), N(I.of(t, W.name(t, i))))))
        vm.assume(ForAll([k], Implies(N(k), And(smt.kind(k) == smt.K_STR, Or([I.typ(k) == lit(t) for t in KINDS_OF]))), [N(k)]))
        other = z3.Function("other.data", V, V)
        made = {}
        def data(k):
            if k.get_id() not in made: made[k.get_id()] = (k, make(k))
            return made[k.get_id()][1]
        def make(k):
            if z3.is_app(k) and k.decl().eq(I.gid):
                for t in LISTS:
                    if k.arg(0).eq(lit(t)): return DictC({"idx": (T, self.place(t, k)), "data": (T, W.item(t, self.place(t, k)))})
            r = other(k)
            for t in LISTS: r = mk_ite(I.typ(k) == lit(t), DictC({"idx": (T, self.place(t, k)), "data": (T, W.item(t, self.place(t, k)))}), r)
            return r
        Node = vm.cls("graph.spamnode", "SpamNode")
        self.nodes = vm.alloc(DictC({}, lambda k: N(toV(k)), lambda k: Rec(Node, {"_id": toV(k), "_node_type": I.typ(toV(k)), "_data": data(toV(k))})))
        self.graph = vm.alloc(Rec(vm.cls("graph.dagraph", "DAGraph"), {"_nodes": Ref(self.nodes)}))
        def kind(vm, f, args, kw):
            t = toV(vm.load(vm.bindargs(f, args, kw)["self"]).fields["_node_type"])
            for x in KINDS_OF:
                if vm.choose(t == lit(x)): return x
            raise Infeasible()
        vm.contracts["SpamNode.node_type"] = kind
        vm.sorted_rule = self.sorted
        self.hyps, self.known = vm.run.pc(), set()
    def oblige(self, label, f, k, *others):
        """f for every k, from what the graph is alone; the same obligation on several paths is discharged once."""
        f = z3.substitute(f, *[(x, z3.Const("any%d" % n, x.sort())) for n, x in enumerate((k,) + others)])
        if (label, f.sexpr()) in self.known: return
        if not self.P.goal(label, self.hyps, f): raise ContractFailed(label)
        self.known.add((label, f.sexpr()))
    def sorted(self, vm, c, l, key):
        """sorted() of the data of the nodes of a kind, by keys that are the places 0, 1, ... : the list in that order."""
        W, I = self.W, self.W.ids
        segs = [s for s in c.segs]
        if len(segs) != 1 or len(segs[0].binders) != 1 or segs[0].binders[0].sort() != V or segs[0].carry: raise Unsupported("sorted of a collection of unknown order")
        s = segs[0]
        k = s.binders[0]
        def go():
            return vm.number(vm.call(key, [vm.elem_value(s.elem, l, None)], {})) if key is not None else vm.throw("TypeError")
        one = z3.Const("any0", V)
        for t in LISTS:
            if smt.check(self.hyps + [sub(s.cond, [(k, one)]), I.typ(one) != lit(t)], timeout=2000, opts=smt.EMATCH)[0] == z3.unsat: break
        else: raise Unsupported("sorted of nodes of several kinds")
        ps = vm.explore(go, s.cond)
        if not ps:                                       # the list is empty here
            r = vm.alloc(ListC())
            vm.readonly.add(r.addr)
            return r
        if len(ps) != 1 or ps[0].out[0] != "normal" or ps[0].effects: raise Unsupported("key of sorted")
        K = ps[0].out[1]
        i = fresh("i", Int)
        at = lambda i: [(k, I.of(t, W.name(t, i)))]
        self.oblige("sorted (%s): every key is the place of an element" % t, Implies(And([s.cond] + ps[0].conds + ps[0].facts), And(W.inr(t, K), k == I.of(t, W.name(t, K)))), k)
        self.oblige("sorted (%s): every element is there" % t, Implies(W.inr(t, i), sub(s.cond, at(i))), i)
        r = vm.alloc(ListC(n=W.count(t), at=lambda i: sub(s.elem, at(i))))
        vm.readonly.add(r.addr)
        return r

def prove_convert(P, slots=True, ik=True):
    W = Mirror(P, slots, ik)
    vm = W.vm
    B = Built(P, W)
    parser = vm.cls(NODES, "SpineGraphParser")
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        A = Agree(vm)
        c = A.at(out[1]) if isinstance(out[1], Loc) else None
        if not isinstance(c, DictC) or not c.pure(): return [("a document", F)]
        g = [("a document of bones, slots and constraints", z3.BoolVal(set(c.entries) == set(LISTS.values())))]
        for t, a in LISTS.items():
            now = A.deref(c.get(a))
            b = as_base(now) if isinstance(now, ListC) else None
            g.append(("%s are there" % a, c.has(a)))
            if b is None:
                k = bvar("k", V)
                g.append(("no %s" % a, And(Not(vm.nonempty(now)), W.count(t) == 0)))
                continue
            i = fresh("i", Int)
            vm.run.decide(W.inr(t, i))
            g += [("as many %s" % a, b[0] == W.count(t)), ("the %s in their order, unchanged" % a, A.f(b[1](i), W.item(t, i)))]
        return g
    P.functions |= {"SpineGraphParser.to_json_data"}
    P.run("to_json_data", vm, lambda: vm.call(vm.getattr(parser, "to_json_data"), [], {"graph": B.graph}), post)
    note(P)

def prove_delegate(P):
    """DAGraph.to_json_data(parser) is what the parser makes of the graph."""
    W = Mirror(P)
    vm = W.vm
    B = Built(P, W)
    parser = vm.cls(NODES, "SpineGraphParser")
    token = vm.alloc(DictC({}))
    def convert(vm, f, args, kw):
        env = W.args(f, args, kw)
        if not isinstance(env["graph"], Loc) or vm.canon(env["graph"])[0].addr != B.graph.addr: raise ContractFailed("another graph is converted")
        return token
    vm.contracts["SpineGraphParser.to_json_data"] = convert
    post = lambda vm, out: [("the document the parser makes of this graph", z3.BoolVal(out[0] == "normal" and isinstance(out[1], Loc) and vm.canon(out[1])[0].addr == token.addr))]
    P.functions |= {"DAGraph.to_json_data"}
    P.run("graph.to_json_data", vm, lambda: vm.call(vm.getattr(B.graph, "to_json_data"), [parser], {}), post)
    note(P)

def tasks_M02():
    B = (True, False)
    t = [("convert(slots=%s, ik=%s)" % (s, i), lambda P, s=s, i=i: prove_convert(P, s, i)) for s in B for i in B]
    t += [("create(slots=%s, ik=%s)" % (s, i), lambda P, s=s, i=i: prove_create(P, s, i)) for s in B for i in B]
    return t + [("delegate", prove_delegate)]
