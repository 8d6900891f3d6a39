"""Who owns what (S02): loading and exporting share no mutable part with the documents or the tables of the classes.
A value of a document that is no object of the skeleton (a list of numbers, say) is one term; `own` says which values were made by a copy."""
from contracts.data import *
from contracts.editor import ED, Ed
from dv.core import Poison

OWN = z3.Function("own", V, Int)
COPY = z3.Function("copyOf", V, V)
def atom(v): return And(smt.kind(v) >= smt.K_NONE, smt.kind(v) <= smt.K_STR)
def ours(v): return Or(atom(v), OWN(v) == 1)

def mapped(c, f):
    """The content with f on every value in it."""
    if isinstance(c, z3.ExprRef) and c.sort() == V: return f(c)
    if isinstance(c, Rec): return c if c.cls.name == "SpineVersion" else Rec(c.cls, {k: mapped(v, f) for k, v in c.fields.items()})
    if isinstance(c, DictC): return DictC({k: (p, mapped(v, f)) for k, (p, v) in c.entries.items()}, c.has_, (lambda k: mapped(c.get_(k), f)) if c.get_ else None, c.order)
    if isinstance(c, ListC):
        if c.is_base(): return ListC(n=c.n, at=lambda i: mapped(c.at(i), f), ordered=c.ordered)
        return ListC([Seg(s.binders, s.cond, mapped(s.elem, f), s.carry) for s in c.segs_], ordered=c.ordered)
    if isinstance(c, IteC): return mk_ite(c.c, mapped(c.a, f), mapped(c.b, f))
    if isinstance(c, tuple): return tuple(mapped(x, f) for x in c)
    if isinstance(c, MapC): raise Unsupported("copy of a region")
    return c

class Apart:
    """Formula: everything that can be reached from a content lies outside the given addresses, and its values satisfy `leaf`."""
    def __init__(self, vm, addrs=(), leaf=None):
        self.vm, self.addrs, self.leaf = vm, set(addrs) | set(vm.static), leaf or (lambda v: T)
        self.reached = set()
    def f(self, c, seen=()):
        if isinstance(c, Loc): c = Ref(c)
        if isinstance(c, Ref):
            l, x = self.vm.canon(c.loc)
            self.reached.add(l.addr)
            if l.addr in self.addrs: return F
            if isinstance(x, Rec) and x.cls.name == "SpineVersion": return T
            here = (l.addr, str(l.path))
            return T if here in seen else self.f(x, seen + (here,))
        go = lambda x: self.f(x, seen)
        if isinstance(c, Rec): return And([go(v) for v in c.fields.values()])
        if isinstance(c, tuple): return And([go(v) for v in c])
        if isinstance(c, IteC): return And(Implies(c.c, go(c.a)), Implies(Not(c.c), go(c.b)))
        if isinstance(c, DictC):
            out = [Implies(p, go(v)) for p, v in c.entries.values() if not z3.is_false(p)]
            if c.has_ is not None:
                k = bvar("k", V)
                out.append(ForAll([k], Implies(c.has_(k), go(c.get_(k)))))
            return And(out)
        if isinstance(c, ListC):
            out = []
            for s in c.segs:
                if s.carry: raise Unsupported("what a list holds")
                s = s.inst()
                b = Implies(s.cond, go(s.elem))
                out.append(ForAll(s.binders, b) if s.binders else b)
            return And(out)
        if isinstance(c, (MapC, Poison)): raise Unsupported("what can be reached from it")
        if isinstance(c, z3.ExprRef) and c.sort() == V: return self.leaf(c)
        return T                                   # numbers, texts, sets (of hashable values), nothing

class Owned(World):
    """A World in which deep copies give values of their own."""
    def __init__(self, P, **kw):
        World.__init__(self, P, always=ROOT, **kw)
        owning(self)
def owning(W):
    vm = W.vm
    v = bvar("v", V)
    vm.assume(ForAll([v], And(Implies(atom(v), COPY(v) == v), smt.kind(COPY(v)) == smt.kind(v), Implies(Not(atom(v)), OWN(COPY(v)) == 1)), [COPY(v)]))
    vm.copied = lambda c: mapped(c, COPY)
    W.opaque_traverse()
    old = vm.contracts["SpineData.traverse_spine_data"]
    def contract(vm, f, args, kw):
        r = old(vm, f, args, kw)
        return COPY(r) if isinstance(r, z3.ExprRef) else r
    vm.contracts["SpineData.traverse_spine_data"] = contract
def own_export(W):
    W.per_object("SpineData.to_spine_data_ignoring_default_values", lambda kind, c, new: mapped(W.spec.export(kind, c, new), COPY), False)

def same(vm, loc, c): return Agree(vm).f(vm.st.heap[loc.addr], c)

def prove_traverse(P):
    """The copy of a JSON value: of its own, whatever function is applied to the objects."""
    for case in ("scalar", "list", "dict"):
        W = Owned(P)
        vm = W.vm
        v = z3.Const("v", V)
        if case == "scalar":
            vm.assume(atom(v))
            o, c = v, v
        else:
            n, at, has, val = z3.Int("n"), z3.Function("elem", Int, V), z3.Function("has", V, Bool), z3.Function("val", V, V)
            vm.assume(n >= 0)
            c = ListC(n=n, at=lambda i: at(i)) if case == "list" else DictC({}, lambda k: has(k), lambda k: val(k), order=("d",))
            o = vm.alloc(c)
        def post(vm, out):
            if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
            x = [("of its own", Apart(vm, [o.addr] if isinstance(o, Loc) else [], ours).f(out[1]))]
            return x + ([("the value is unchanged", same(vm, o, c))] if isinstance(o, Loc) else [])
        P.functions.add("SpineData.traverse_spine_data")
        g = W.fn("to_spine_data_ignoring_default_values")
        P.run("traverse_spine_data on a %s" % case, vm, lambda: vm.inline(W.fn("traverse_spine_data"), [o, g], {"version": W.version}), post)

def prove_constructor(P, kind):
    """An object holds parts of its document or of its own, none of the tables of the classes; the whole skeleton holds only parts of its own."""
    W = Owned(P)
    vm = W.vm
    W.constructors(kinds_of(kind))
    c = W.sym.obj(kind, "d")
    if kind == TOP: c = DictC(dict(c.entries, skeleton=(T, z3.Const("skeleton", V))))
    d = vm.alloc(c)
    def post(vm, out):
        if out[0] != "normal": return [("accepts a supported document, not %r" % (out[1],), F)]
        g = [("nothing of the tables of the classes", Apart(vm).f(out[1])), ("the document is unchanged", same(vm, d, c))]
        if kind == TOP: g.append(("nothing of the document", Apart(vm, [d.addr], ours).f(out[1])))
        return g
    P.functions.add(kind + ".__init__")
    P.run("%s(document)" % kind, vm, lambda: vm.construct(vm.cls(MODULE[kind], kind), [d], {}), post)

def prove_fill(P, kind):
    """Filling in defaults puts copies of them into an object."""
    W = Owned(P)
    vm = W.vm
    o = vm.alloc(any_object(W, kind))
    fn = "set_default_values_from_version"
    if KINDS[kind]["kids"]: W.per_object("SpineData." + fn, W.spec.filled, True)
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        return [("nothing of the tables of the classes", Apart(vm).f(vm.canon(o)[1]))]
    P.functions.add("SpineData." + fn)
    call(P, W, fn, kind, o, post)

def call(P, W, fn, kind, o, post):
    f = W.fn(fn)
    args = {"obj": o, "version": W.version}
    P.run("%s on %s" % (fn, kind), W.vm, lambda: W.vm.inline(f, [args[a.arg] for a in f.d.node.args.args], {}), post)

def prove_export(P, kind):
    """The document of an object is one of its own."""
    W = Owned(P)
    vm = W.vm
    rec = any_object(W, kind)
    if kind == "Skin38" and isinstance(rec.fields["attachments"], IteC): rec = Rec(rec.cls, dict(rec.fields, attachments=rec.fields["attachments"].a))
    o = vm.alloc(rec)
    fn = "to_spine_data_ignoring_default_values"
    if KINDS[kind]["kids"]: own_export(W)
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        A = Apart(vm, [o.addr], ours)
        return [("of its own", A.f(out[1])), ("the object is unchanged", same(vm, o, rec)), ("and keeps nothing of it", Apart(vm, A.reached).f(vm.canon(o)[1]))]
    P.functions.add("SpineData." + fn)
    call(P, W, fn, kind, o, post)

def prove_load(P):
    """JsonSpineAnimationData(document)."""
    W = Owned(P)
    vm, spec = W.vm, W.spec
    vm.assume(And(OWN(smt.EMPTYL) == 1, OWN(smt.EMPTYD) == 1))           # defaults are copies (prove_fill)
    doc, head = top_document(W)
    d = vm.alloc(doc)
    inner = W.constructor(TOP)
    def make(vm, cls, args, kw):
        r = inner(vm, cls, args, kw)
        if isinstance(r, Loc): vm.st.heap[r.addr] = mapped(vm.st.heap[r.addr], COPY)      # prove_constructor
        return r
    vm.contracts[TOP] = make
    def version(vm, cls, args, kw):
        x = (list(args) + list(kw.values()))[0]
        if not isinstance(x, z3.ExprRef) or not vm.entails(Implies(smt.kind(z3.Const("header.spine", V)) == smt.K_STR, x == z3.Const("header.spine", V))): raise Unsupported("a version of something else than the header")
        return W.version
    vm.contracts["SpineVersion"] = version
    W.per_object("SpineData.set_default_values_from_version", spec.filled, True)
    def post(vm, out):
        if out[0] != "normal": return [("loads, not %r" % (out[1],), F)]
        c = Agree(vm).at(out[1])
        if not isinstance(c, Rec): return [("an object", F)]
        return [("%s: nothing of the document or the tables" % a, Apart(vm, [d.addr], ours).f(v)) for a, v in c.fields.items()] + [("the document is unchanged", same(vm, d, doc))]
    P.functions |= {"JsonSpineAnimationData.__init__", "JsonSpineAnimationData.load_data", "SpineData.set_default_values"}
    P.run("JsonSpineAnimationData(document)", vm, lambda: vm.construct(vm.cls(MODULE[TOP], "JsonSpineAnimationData"), [d], {}), post)

def prove_whole_export(P):
    W = Owned(P)
    vm = W.vm
    _, head = top_document(W)
    own_export(W)
    j = json_data(W, head, any_object(W, TOP))
    o = vm.alloc(j)
    def post(vm, out):
        if out[0] != "normal": return [("exports, not %r" % (out[1],), F)]
        A = Apart(vm, [o.addr], ours)
        return [("of its own", A.f(out[1])), ("nothing changes", same(vm, o, j)), ("and nothing of it is kept", Apart(vm, A.reached).f(vm.canon(o)[1]))]
    P.functions |= {"JsonSpineAnimationData.to_json_data", "SpineData.to_json"}
    P.run("JsonSpineAnimationData.to_json_data", vm, lambda: vm.inline(vm.fn(MODULE[TOP], "JsonSpineAnimationData.to_json_data"), [o], {}), post)

# ------------------------------------------------------------------------------------------- the editor
class OwnedEd(Ed):
    """An editor; exports are documents of their own, a graph may keep the document it is made from."""
    def __init__(self, P):
        Ed.__init__(self, P)
        owning(self)
        vm = self.vm
        self.contract_export()
        def graph(vm, cls, args, kw): return vm.alloc(Rec(cls, {"_made_from": Ref((list(args) + list(kw.values()))[0])}))
        vm.contracts["SpineGraphContainer"] = graph
        vm.contracts["SpineAnimationEditor.get_images_references"] = lambda vm, f, args, kw: vm.alloc(DictC({}, self.refs0.has_, self.refs0.get_, order=("refs",)))
    def whole_export(self, data): return mapped(Ed.whole_export(self, data), COPY)
    def mine(self): return [self.ed.addr, self.ad.addr, self.data.addr, self.refs.addr] + [g.addr for g in self.graphs]
    def apart(self, vm, doc):
        """Goals: the document is one of its own, and the editor keeps nothing of it."""
        A = Apart(vm, self.mine(), ours)
        return [("of its own", A.f(doc)), ("the editor keeps nothing of it", Apart(vm, A.reached).f(vm.canon(self.ed)[1]))]

def prove_editor(P):
    W = OwnedEd(P)
    vm = W.vm
    doc = DictC({}, z3.Function("doc.has", V, Bool), z3.Function("doc.at", V, V))
    d = vm.alloc(doc)
    vm.contracts["JsonSpineAnimationData"] = lambda vm, cls, args, kw: W.ad                # prove_load
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        return [("nothing of the document", Apart(vm, [d.addr]).f(out[1])), ("the document is unchanged", same(vm, d, doc))]
    P.functions.add("SpineAnimationEditor.__init__")
    P.run("SpineAnimationEditor(document)", vm, lambda: vm.construct(vm.cls(ED, "SpineAnimationEditor"), [d], {}), post)
    W = OwnedEd(P)
    vm = W.vm
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        return W.apart(vm, out[1])
    P.functions.add("SpineAnimationEditor.to_json_data")
    P.run("to_json_data", vm, lambda: vm.inline(vm.fn(ED, "SpineAnimationEditor.to_json_data"), [W.ed], {}), post)

def prove_erase(P):
    for safe in (True, False):
        W = OwnedEd(P)
        vm = W.vm
        n, at, i = z3.Int("n"), z3.Function("name", Int, V), bvar("i", Int)
        vm.assume(And(n >= 0, ForAll([i], Implies(And(i >= 0, i < n), smt.kind(at(i)) == smt.K_STR))))
        names = vm.alloc(ListC(n=n, at=lambda i: at(i)))
        vm.contracts["SpineAnimationEditor._erase_raw_animations_data"] = lambda vm, f, args, kw: None
        vm.contracts["SpineAnimationEditor.clean_animation"] = lambda vm, f, args, kw: (vm.alloc(ListC([])), vm.alloc(SetC(lambda x: F)))
        def post(vm, out):
            if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
            return W.apart(vm, out[1].vals[0])
        P.functions.add("SpineAnimationEditor.erase_animations")
        P.run("erase_animations, is_safe_mode=%s" % safe, vm, lambda: vm.inline(vm.fn(ED, "SpineAnimationEditor.erase_animations"), [W.ed, names, z3.Bool("strict"), safe], {}), post)

def note(P): P.note(P.last)
def tasks_S02():
    f = lambda g, k: (lambda P: (g(P, k), note(P)))
    t = [("%s of %s" % (g.__name__[6:], k), f(g, k)) for g in (prove_constructor, prove_fill, prove_export) for k in KINDS]
    return t + [(g.__name__[6:], lambda P, g=g: (g(P), note(P))) for g in (prove_traverse, prove_load, prove_whole_export, prove_editor, prove_erase)]
