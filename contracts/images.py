"""Image references (E06) and what erasing skins does with them."""
from contracts.data import *
from contracts.editor import *
from contracts.editor import Ed, ED, field_of, meshes, increasing, list_members, ids_list, same_order
from dv.core import Seg, SetC, NOTHING
from contracts.editor import DAG
from dv.smt import Real

class Images(Ed):
    """A loaded editor; custom scales of slots and joining paths go by contract."""
    def __init__(self, P, **kw):
        Ed.__init__(self, P, **kw)
        vm = self.vm
        skins = self.data0.fields["skins"]
        self.skins = skins
        self.folder = z3.Const("folder", V)
        self.join, self.scale = z3.Function("join", V, V, V), z3.Function("slot.scale", V, Real)
        vm.assume(self.new)
        k = bvar("k", V)
        vm.assume(ForAll([k], Implies(self.refs0.has(k), smt.kind(k) == smt.K_STR)))              # names of images are texts
        vm.contracts["os.path.join"] = lambda vm, f, args, kw: self.join(toV(args[0]), toV(args[1]))
        vm.contracts["SpineAnimationData.get_slot"] = self.get_slot
        vm.contracts["SpineAnimationData.get_slot_custom_scale"] = self.get_scale
    def att(self, i): return self.skins.at(i).fields["attachments"]
    def there(self, i, s, k): return And(i >= 0, i < self.skins.n, self.att(i).has(s), self.att(i).get(s).has(k))
    def image_of(self, c, k):
        p, n = field_of(c, "path"), field_of(c, "name")
        return smt.ite(truth(p), p, smt.ite(truth(n), n, k))
    def uses(self, i, s, k):
        """Formula: the attachment at (skin, slot, key) uses an image."""
        return And(self.there(i, s, k), Not(meshes(self, self.att(i).get(s).get(k), "SkinPath")))
    def image(self, i, s, k): return self.image_of(self.att(i).get(s).get(k), k)
    def used(self, x):
        i, s, k = bvar("i", Int), bvar("s", V), bvar("k", V)
        return Exists([i, s, k], And(self.uses(i, s, k), self.image(i, s, k) == toV(x)))
    def get_slot(self, vm, f, args, kw):
        env = self.args(f, args, kw)
        return vm.alloc(Rec(vm.cls("data.data_types.slot", "Slot"), {"_name": toV(env["slot_id"])}))
    def get_scale(self, vm, f, args, kw):
        env = self.args(f, args, kw)
        return self.scale(vm.load(env["slot"]).fields["_name"])

def prove_get_images(P):
    W = Images(P)
    vm = W.vm
    f = vm.fn(ED, "SpineAnimationEditor.get_images_references")
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        c = vm.pick(vm.canon(out[1])[1])
        if not isinstance(c, DictC): return [("a dict", F)]
        x = fresh("x", V)
        folder = smt.ite(W.header.has("images"), W.header.get("images"), lit("./images/"))
        e = c.get(x)
        i, s, k = bvar("i", Int), bvar("s", V), bvar("k", V)
        scaled = e.has("scale")
        g = [("exactly the images used by attachments", c.has(x) == W.used(x)),
             ("an entry has a path and possibly a scale", z3.BoolVal(isinstance(e, DictC) and e.has_ is None and set(e.entries) <= {"path", "scale"})),
             ("every entry has a path", Implies(c.has(x), e.has("path"))),
             ("the path is the image under the images folder", Implies(c.has(x), toV(e.get("path")) == W.join(folder, x))),
             ("the scale is that of the slot of an attachment with the image, when it is not 1", Implies(c.has(x), Exists([i, s, k], And(W.uses(i, s, k), W.image(i, s, k) == x, scaled == (W.scale(s) != 1), Implies(scaled, vm.number(e.get("scale")) == W.scale(s))))))]
        return g + W.unchanged()
    P.functions.add("SpineAnimationEditor.get_images_references")
    P.run("get_images_references", vm, lambda: vm.inline(f, [W.ed], {}), post)
    note(P)

def refs_now(vm, W):
    A = Agree(vm)
    return A.deref(A.at(W.ed).fields["images_references"])

def refs_goals(vm, W, keep, label="references"):
    """The references are those of before that are kept, unchanged and in their order."""
    A = Agree(vm)
    c = refs_now(vm, W)
    if not isinstance(c, DictC): return [("%s: a dict" % label, F)]
    x = fresh("x", V)
    return [("%s: exactly those kept" % label, c.has(x) == And(W.refs0.has(x), keep(x))), ("%s: unchanged" % label, Implies(c.has(x), A.f(c.get(x), W.refs0.get(x)))),
            ("%s: in their order" % label, z3.BoolVal(same_order(c.order, W.refs0.order)))]

def prove_clean_images(P):
    for ids_as in ("list", "set"):
        W = Images(P)
        vm = W.vm
        if ids_as == "set":
            S = z3.Function("ids.has", V, Bool)
            gone, ids = (lambda k: S(toV(k))), vm.alloc(SetC(lambda k: S(toV(k))))
        else: ids, gone = ids_list(vm, "ids")
        f = vm.fn(ED, "SpineAnimationEditor._clean_images_references")
        def post(vm, out):
            if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
            return refs_goals(vm, W, lambda x: Not(gone(x))) + W.unchanged()
        P.functions.add("SpineAnimationEditor._clean_images_references")
        P.run("_clean_images_references, a %s" % ids_as, vm, lambda: vm.inline(f, [W.ed, ids], {}), post)
    note(P)

def images_contract(W, used=None):
    """get_images_references, as prove_get_images has it."""
    u = used or W.used
    def contract(vm, f, args, kw):
        vm.log_read(W.data, True)
        e = freshf("image.entry", V, V)
        return vm.alloc(DictC({}, lambda k: u(k), lambda k: DictC({"path": (T, e(k))})))
    W.vm.contracts["SpineAnimationEditor.get_images_references"] = contract

def prove_clean_unused(P):
    W = Images(P)
    vm = W.vm
    U = z3.Function("image.used", V, Bool)
    used = lambda x: U(toV(x))
    k = bvar("k", V)
    vm.assume(ForAll([k], Implies(U(k), smt.kind(k) == smt.K_STR)))
    images_contract(W, used)
    f = vm.fn(ED, "SpineAnimationEditor._clean_unused_images_references")
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        return refs_goals(vm, W, used) + W.unchanged()
    P.functions.add("SpineAnimationEditor._clean_unused_images_references")
    P.run("_clean_unused_images_references", vm, lambda: vm.inline(f, [W.ed], {}), post)
    note(P)

def prove_init(P):
    """The editor of a document has the references of its skeleton."""
    W = Images(P)
    vm = W.vm
    images_contract(W)
    W.contract_export()
    W.contract_graph()
    doc = vm.alloc(DictC({}, lambda k: z3.Function("doc.has", V, Bool)(k), lambda k: z3.Function("doc.at", V, V)(k)))
    made = []
    def load(vm, cls, args, kw):
        made.append((list(args) + list(kw.values()))[0])
        return W.ad
    vm.contracts["JsonSpineAnimationData"] = load
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        A = Agree(vm)
        e = A.at(out[1])
        c = A.deref(e.fields["images_references"])
        x = fresh("x", V)
        g = e.fields["spine_graph"]
        return [("loads the document, once", z3.BoolVal(len(made) == 1 and isinstance(made[0], Loc) and vm.canon(made[0])[0].addr == doc.addr)),
                ("the references are exactly the images used", c.has(x) == W.used(x)),
                ("the graph is one of its own", z3.BoolVal(isinstance(g, Ref) and len(W.graphs) == 2 and g.loc.addr == W.graphs[1].addr)),
                ("the data is what was loaded", z3.BoolVal(isinstance(e.fields["spine_anim_data"], Ref) and e.fields["spine_anim_data"].loc.addr == W.ad.addr))] + W.unchanged()
    P.functions.add("SpineAnimationEditor.__init__")
    P.run("SpineAnimationEditor(document)", vm, lambda: vm.construct(vm.cls(ED, "SpineAnimationEditor"), [doc], {}), post)
    note(P)

# ------------------------------------------------------------------------------------------- erase_skins
class Erasing(Ed):
    """An editor whose skins are known by name and by the images they use; removing a skin, cleaning, exporting and the graph go by contract.
    gh holds which names have been erased, now which images are used by what is left."""
    def __init__(self, P):
        Ed.__init__(self, P)
        vm = self.vm
        self.isskin, self.UB, self.UP = z3.Function("is.skin", V, Bool), z3.Function("skin.uses", V, V, Bool), z3.Function("skin.path", V, V, Bool)
        self.IMG = z3.Function("graph.id.IMAGE", V, V)
        self.gh, self.left = vm.alloc(SetC(lambda x: F)), vm.alloc(SetC(lambda x: T))
        k, x = bvar("k", V), bvar("x", V)
        vm.assume(ForAll([k, x], Implies(self.UB(k, x), And(self.isskin(k), smt.kind(x) == smt.K_STR))))
        vm.assume(ForAll([x], Implies(self.refs0.has(x), smt.kind(x) == smt.K_STR)))
        # the references list the images used (the invariant of the editor)
        vm.assume(ForAll([x], self.refs0.has(x) == Exists([k], self.UB(k, x)), [self.refs0.has(x)]))
        vm.assume(ForAll([k, x], Implies(self.UB(k, x), self.refs0.has(x)), [self.UB(k, x)]))
        c = vm.contracts
        c["SpineAnimationData.remove_skin"] = self.remove_skin
        c["SpineAnimationEditor.clean_animation"] = self.clean
        c["JsonSpineAnimationData.to_json_data"] = self.export
        c["SpineGraphContainer"] = self.graph
        c["SpineGraphParser._to_graph_id"] = self.graph_id
        c["DAGraph.get_node"] = self.get_node
        c["SpineAnimationEditor.get_images_references"] = self.images
        self.nodecls, self.D = vm.cls("graph.spamnode", "SpamNode"), vm.cls(DAG, "DAGraph")
        self.cleans = 0
    def used(self, erased, left, x):
        k = bvar("k", V)
        return And(left(x), Exists([k], And(self.UB(k, x), Not(erased(k)))))
    def state(self):
        e, l = self.vm.st.heap[self.gh.addr].mem, self.vm.st.heap[self.left.addr].mem
        return e, l
    def used_now(self):
        e, l = self.state()
        return lambda x: self.used(e, l, toV(x))
    def skins_now(self):
        vm = self.vm
        vm.setfield(self.data, "skins", vm.alloc(ListC([Seg([bvar("i", Int)], F, NOTHING)])) if False else vm.alloc(DictC({"_": (T, fresh("skins", V))})))
    def deforms(self):
        """Other deforms, everything else in the animations as before."""
        vm = self.vm
        an, h = self.data0.fields["animations"], freshf("deform", V, V)
        vm.setfield(self.data, "animations", vm.alloc(DictC({}, an.has, lambda k: Rec(an.get(k).cls, dict(an.get(k).fields, deform=DictC({"_": (T, h(k))}))), an.order)))
    def remove_skin(self, vm, f, args, kw):
        """prove_remove_skin."""
        env = self.args(f, args, kw)
        if vm.canon(env["self"])[0].addr != self.data.addr: raise Unsupported("another skeleton")
        nm = toV(env["skin_name"])
        e, l = self.state()
        vm.log_read(self.gh, True)
        if not vm.choose(And(self.isskin(nm), Not(e(nm)))): raise PyExc(vm.cls("data.spine_exceptions", "SpineJsonEditorError"))
        vm.modify(self.gh, lambda _: SetC(lambda x: Or(x == nm, e(x))), "slot")
        self.skins_now()
        self.deforms()
        M, H1, H2, val = freshf("removed", V, Bool), freshf("removed.slot", V, Bool), freshf("removed.key", V, V, Bool), freshf("removed.image", V, V, V)
        x, s = bvar("x", V), bvar("s", V)
        vm.assume(ForAll([x], Implies(M(x), self.UB(nm, x))))
        vm.assume(ForAll([s, x], Implies(And(H1(s), H2(s, x)), self.UB(nm, val(s, x)))))
        return (vm.alloc(ListC([Seg([x], M(x), x)], ordered=False)), vm.alloc(DictC({}, lambda s: H1(toV(s)), lambda s: DictC({}, lambda k: H2(toV(s), toV(k)), lambda k: val(toV(s), toV(k))))))
    def clean(self, vm, f, args, kw):
        """prove_clean: bones, constraints, events stay; slots are a part of the slots; no image comes into use; the references are the images used."""
        self.cleans += 1
        d = vm.load(self.data).fields
        slots = Agree(vm).deref(d["slots"])
        m, e, r = increasing(vm, slots.n, lambda i: z3.Function("slot.stays%d" % self.cleans, Int, Bool)(i), "cleaned")
        vm.setfield(self.data, "slots", vm.alloc(ListC(n=m, at=lambda j: slots.at(e(j)))))
        self.skins_now()
        x = bvar("x", V)
        _, l = self.state()
        L = freshf("left", V, Bool)
        vm.modify(self.left, lambda _: SetC(lambda y: And(l(y), L(y))), "slot")
        u, p = self.used_now(), freshf("image.path", V, V)
        refs = refs_now(vm, self)
        k = fresh("x", V)
        if not vm.entails(Implies(u(k), refs.has(k)), 5000): raise Unsupported("references without an image in use")
        vm.setfield(self.ed, "images_references", vm.alloc(DictC({}, lambda y: u(y), lambda y: DictC({"path": (T, p(y))}), order=("cleaned",))))
        return (vm.alloc(ListC([])), vm.alloc(SetC(lambda x: F)))
    def export(self, vm, f, args, kw):
        """S01: a document of the state."""
        if vm.canon(self.args(f, args, kw)["self"])[0].addr != self.ad.addr: raise Unsupported("export of another skeleton")
        e, l = self.state()
        return vm.alloc(Rec(self.D, {"erased": SetC(e), "left": SetC(l)}))
    def graph(self, vm, cls, args, kw):
        """M02: the graph of a document has an image node for every image of the attachments in it."""
        c = vm.load((list(args) + list(kw.values()))[0])
        g = vm.alloc(Rec(self.D, dict(c.fields)))
        return vm.alloc(Rec(cls, {"graph": Ref(g)}))
    def graph_id(self, vm, f, args, kw):
        env = self.args(f, args, kw)
        if env["node_type_name"] != "IMAGE": raise Unsupported("another node than an image")
        return self.IMG(toV(env["node_base_id"]))
    def get_node(self, vm, f, args, kw):
        env = self.args(f, args, kw)
        i = list(env.values())[1]
        c = vm.load(env["self"]).fields
        if not (isinstance(i, z3.ExprRef) and i.decl().eq(self.IMG)): raise Unsupported("node %s" % i)
        x, k = i.arg(0), bvar("k", V)
        e, l = c["erased"].mem, c["left"].mem
        there = Or(self.used(e, l, x), Exists([k], And(self.UP(k, x), Not(e(k)))))
        if vm.choose(there): return vm.alloc(Rec(self.nodecls, {}))
        return None
    def images(self, vm, f, args, kw):
        u, p = self.used_now(), freshf("image.entry", V, V)
        return vm.alloc(DictC({}, lambda k: u(k), lambda k: DictC({"path": (T, p(k))})))

class SkinsLoop:
    """The loop over the names of skins: what has been collected are images used by the skins erased so far."""
    def __init__(self, P, W, n, at, names):
        self.P, self.W, self.n, self.at, self.names = P, W, n, at, names
        W.vm.for_rule = self.for_rule
    def oblige(self, vm, label, f):
        if not self.P.goal(label, vm.run.pc(), f): raise Unsupported("%s does not hold" % label)
    def before(self, t):
        u = bvar("u", Int)
        return lambda x: Exists([u], And(u >= 0, u < t, self.at(u) == toV(x)))
    def havoc(self, vm, ls, ds, t):
        W = self.W
        vm.st.heap[W.gh.addr] = SetC(self.before(t))
        W.skins_now()
        W.deforms()
        x, s, k, u = bvar("x", V), bvar("s", V), bvar("k", V), bvar("u", Int)
        for l in ls:
            M, w = freshf("collected", V, Bool), freshf("collected.of", V, Int)
            vm.st.heap[l.addr] = ListC([Seg([x], M(x), x)], ordered=False)
            vm.assume(ForAll([x], Implies(M(x), And(w(x) >= 0, w(x) < t, W.UB(self.at(w(x)), x)))))
        for d in ds:
            h1, h2, h3, v = freshf("by.skin", V, Bool), freshf("by.slot", V, V, Bool), freshf("by.key", V, V, V, Bool), freshf("by.image", V, V, V, V)
            w = freshf("by.skin.of", V, Int)
            vm.st.heap[d.addr] = DictC({}, lambda a: h1(toV(a)), lambda a: DictC({}, lambda b: h2(toV(a), toV(b)), lambda b: DictC({}, lambda c: h3(toV(a), toV(b), toV(c)), lambda c: v(toV(a), toV(b), toV(c)))))
            vm.assume(ForAll([x], Implies(h1(x), And(w(x) >= 0, w(x) < t, self.at(w(x)) == x))))
            vm.assume(ForAll([x, s, k], Implies(And(h1(x), h2(x, s), h3(x, s, k)), W.UB(x, v(x, s, k)))))
    def check(self, vm, ls, ds, t, where):
        W, u = self.W, bvar("u", Int)
        x, s, k = fresh("x", V), fresh("s", V), fresh("k", V)
        for l in ls:
            c = vm.pick(vm.canon(l)[1])
            self.oblige(vm, "%s: what is collected is used by an erased skin" % where, Implies(list_members(c, x), Exists([u], And(u >= 0, u < t, W.UB(self.at(u), x)))))
        A = Agree(vm)
        for d in ds:
            c = A.deref(vm.pick(vm.canon(d)[1]))
            h = c.has(x)
            if z3.is_false(h): continue
            self.oblige(vm, "%s: collected for erased skins" % where, Implies(h, self.before(t)(x)))
            def go(c, hs, vs):
                c = A.deref(c)
                if isinstance(c, IteC): go(c.a, hs + [c.c], vs); go(c.b, hs + [Not(c.c)], vs); return
                if not vs: self.oblige(vm, "%s: what is collected for a skin is used by it" % where, Implies(And(hs), W.UB(x, toV(c)))); return
                if not isinstance(c, DictC): raise Unsupported("something else is collected")
                go(c.get(vs[0]), hs + [c.has(vs[0])], vs[1:])
            go(c, [], [x, s, k])
        c = vm.st.heap[W.gh.addr]
        self.oblige(vm, "%s: exactly the named skins are erased" % where, c.mem(x) == self.before(t)(x))
    def for_rule(self, vm, it, body, names, node):
        if not isinstance(it, Loc) or vm.canon(it)[0].addr != self.names.addr: return False
        fr = vm.frame()
        fid = vm.fnstack[-1][1][0]
        ls, ds = [], []
        for x, v in fr.items():
            if isinstance(v, Loc) and not v.path and v.addr > self.W.left.addr and v.addr != self.names.addr:
                c = vm.st.heap[v.addr]
                if isinstance(c, ListC) and v.addr not in [l.addr for l in ls]: ls.append(v)
                elif isinstance(c, DictC) and v.addr not in [l.addr for l in ds]: ds.append(v)
        self.check(vm, ls, ds, z3.IntVal(0), "before the first skin")
        allowed = {l.addr for l in ls + ds} | {self.W.gh.addr, self.W.data.addr}
        def step(t):
            self.havoc(vm, ls, ds, t)
            for x in names:
                if not (x in fr and isinstance(fr[x], Loc)): vm.frame()[x] = Poison("%s of an earlier iteration" % x)
            body(self.at(t))
        def go():
            t = fresh("t", Int)
            vm.assume(And(t >= 0, t < self.n))
            step(t)
            self.check(vm, ls, ds, t + 1, "after one skin")
        vm.loopmarks.append(vm.naddr)
        try: ps = vm.explore(go)
        finally: vm.loopmarks.pop()
        for p in ps:
            if p.out[0] not in ("normal", "raise"): raise Unsupported("the loop ends otherwise")
            for e in p.effects:
                if e.addr not in allowed: raise Unsupported("the loop changes something else: %s" % e)
                if e.addr == self.W.data.addr and (not e.path or e.path[0][1] not in ("skins", "animations")): raise Unsupported("the loop changes something else: %s" % e)
        if vm.choose(fresh("one.raises", Bool)):
            t = fresh("t", Int)
            vm.assume(And(t >= 0, t < self.n))
            step(t)
            raise Infeasible()
        self.havoc(vm, ls, ds, self.n)
        for x in names:
            if not (x in fr and isinstance(fr[x], Loc)): fr[x] = Poison("%s set in a loop" % x)
        return True

def prove_erase_skins(P, safe):
    W = Erasing(P)
    vm = W.vm
    n, at = z3.Int("n"), z3.Function("erase", Int, V)
    i = bvar("i", Int)
    vm.assume(And(n >= 0, ForAll([i], Implies(And(i >= 0, i < n), smt.kind(at(i)) == smt.K_STR))))
    names = vm.alloc(ListC(n=n, at=lambda i: at(i)))
    L = SkinsLoop(P, W, n, at, names)
    f = vm.fn(ED, "SpineAnimationEditor.erase_skins")
    kept = ["bones", "ik", "transform", "path", "events"]
    d0 = W.data0.fields
    def frame(A, label):
        d = A.at(W.data).fields
        return [("%s: %s unchanged" % (label, a), A.f(d[a], d0[a])) for a in kept] + [("%s: header unchanged" % label, A.f(A.at(W.ad).fields["skeleton"], W.header))]
    def post(vm, out):
        A = Agree(vm)
        if out[0] == "raise":
            return [("raises only SpineJsonEditorError", z3.BoolVal(getattr(out[1].cls, "name", "") == "SpineJsonEditorError"))] + frame(A, "unknown skin")
        g = frame(A, "after")
        named = L.before(n)
        x, k = fresh("x", V), bvar("k", V)
        g.append(("every name was a skin", ForAll([i], Implies(And(i >= 0, i < n), W.isskin(at(i))))) if False else ("exactly the named skins are gone", vm.st.heap[W.gh.addr].mem(x) == named(x)))
        removed, reported = out[1]
        c = vm.pick(vm.canon(reported)[1])
        u = bvar("u", Int)
        g += [("an image reported as removed was used by an erased skin", Implies(list_members(c, x), Exists([u], And(u >= 0, u < n, W.UB(at(u), x))))),
              ("an image reported as removed is used by no skin that stays", Implies(list_members(c, x), Not(W.used_now()(x))))]
        r = refs_now(vm, W)
        g.append(("the references are exactly the images used", r.has(x) == W.used_now()(x)))
        slots = A.deref(A.at(W.data).fields["slots"])
        if safe: g.append(("slots unchanged", A.f(slots, d0["slots"])))
        else: g += part_slots(A, vm, slots, d0["slots"])
        return g
    P.functions.add("SpineAnimationEditor.erase_skins")
    P.run("erase_skins, is_safe_mode=%s" % safe, vm, lambda: vm.inline(f, [W.ed, names, safe], {}), post)
    note(P)

def part_slots(A, vm, now, old):
    """The slots are some of the old ones, in their order, unchanged."""
    c = as_base(now)
    if c is None: return [("a list of slots", F)]
    j, k, i = fresh("j", Int), fresh("k", Int), bvar("i", Int)
    return [("each slot is one of the old slots, unchanged", Implies(And(j >= 0, j < c[0]), Exists([i], And(i >= 0, i < old.n, A.f(c[1](j), old.at(i))))))]

def tasks_E06():
    from contracts.editor import prove_remove_skin, prove_clean, prove_erase_animations
    return [("get_images_references", prove_get_images), ("_clean_images_references", prove_clean_images), ("_clean_unused_images_references", prove_clean_unused),
            ("SpineAnimationEditor", prove_init), ("remove_skin", prove_remove_skin), ("clean_animation", prove_clean), ("erase_animations", prove_erase_animations),
            ("erase_skins, safe", lambda P: prove_erase_skins(P, True)), ("erase_skins", lambda P: prove_erase_skins(P, False))]
