"""The editor: operations on a loaded skeleton."""
import z3
from dv import smt
from dv.smt import V, R, Int, Bool, Real, And, Or, Not, If, Implies, Exists, ForAll, lit, toV, bvar, fresh, freshf, pyeq, truth
from dv.core import *
from dv.interp import PyExc, T, F
from dv.builtins_ import ExcType
from dv.evalx import b2z
from contracts.data import *

ED = "spine_animation_editor"

class Ed(World):
    """A loaded editor: any skeleton data, image references and graph."""
    def __init__(self, P, filled=False, **kw):
        World.__init__(self, P, always=ROOT + [("Skin38", "attachments")], **kw)
        vm = self.vm
        self.header = DictC({}, lambda k: self.sym.f("header.has", [k], Bool), lambda k: self.sym.f("header.at", [k], V), order=("header",))
        self.data0 = any_object(self, TOP, "d")
        if filled: self.data0 = self.spec.filled(TOP, self.data0, self.new)
        self.data = vm.alloc(self.data0)
        self.ad0 = Rec(vm.cls(MODULE[TOP], "JsonSpineAnimationData"), {"skeleton": self.header, "spine_version": Ref(self.version), "data": Ref(self.data)})
        self.ad = vm.alloc(self.ad0)
        self.refs0 = DictC({}, lambda k: self.sym.f("refs.has", [k], Bool), lambda k: DictC({"path": (T, self.sym.f("refs.path", [k], V)), "scale": (self.sym.f("refs.scaled", [k], Bool), self.sym.f("refs.scale", [k], V))}), order=("refs",))
        self.refs = vm.alloc(self.refs0)
        self.graphs = [vm.alloc(Rec(self.graphcls(), {}))]
        self.ed0 = Rec(vm.cls(ED, "SpineAnimationEditor"), {"spine_anim_data": Ref(self.ad), "images_references": Ref(self.refs), "spine_graph": Ref(self.graphs[0])})
        self.ed = vm.alloc(self.ed0)
        self.exported = []
    def graphcls(self): return self.vm.cls("spine_graph_container", "SpineGraphContainer")
    def contract_export(self):
        """JsonSpineAnimationData.to_json_data: the exported document, a new object (S01)."""
        def contract(vm, f, args, kw):
            o = vm.canon(self.args(f, args, kw)["self"])[0]
            if o.addr != self.ad.addr: raise Unsupported("export of another skeleton")
            vm.log_read(Loc(self.data.addr), True)
            r = vm.alloc(self.whole_export(vm.load(self.data)))
            return r
        self.vm.contracts["JsonSpineAnimationData.to_json_data"] = contract
    def whole_export(self, data):
        e = self.spec.export(TOP, Agree(self.vm).at(Loc(self.data.addr)), self.new)
        return DictC(dict(e.entries, skeleton=(T, self.header)))
    def contract_graph(self):
        """SpineGraphContainer(document): a new graph, made from the document alone (M02); its argument is not kept by anyone else."""
        def contract(vm, cls, args, kw):
            l = (list(args) + list(kw.values()))[0]
            g = vm.alloc(Rec(cls, {}))
            self.graphs.append(g)
            return g
        self.vm.contracts["SpineGraphContainer"] = contract
    def unchanged(self, skip=()):
        """Goals: the skeleton data, the header and the references are as before, apart from the named attributes of the data."""
        A = Agree(self.vm)
        d = A.at(self.data)
        out = [("data: %s unchanged" % a, A.f(d.fields[a], self.data0.fields[a])) for a in self.data0.fields if a not in skip]
        out.append(("header unchanged", A.f(A.at(self.ad).fields["skeleton"], self.header)))
        return out

# ------------------------------------------------------------------------------------------- E07
NOSCALE = ["noScale", "noScaleOrReflection", "onlyTranslation"]
def prove_scale(P):
    W = Ed(P)
    vm, sym = W.vm, W.sym
    bones = W.data0.fields["bones"]
    i, j, i0 = bvar("i", Int), bvar("j", Int), z3.Int("root")
    name = lambda i: toV(bones.at(i).fields["name"])
    num = smt.num
    vm.assume(And(i0 >= 0, i0 < bones.n, name(i0) == lit("root")))
    vm.assume(ForAll([i], Implies(And(i >= 0, i < bones.n), And(smt.kind(name(i)) == smt.K_STR, Implies(name(i) == lit("root"), i == i0)))))
    vm.assume(ForAll([i], Implies(And(i >= 0, i < bones.n), And(smt.is_num(toV(bones.at(i).fields["scaleX"])), smt.is_num(toV(bones.at(i).fields["scaleY"])),
                                                              Or([smt.kind(toV(bones.at(i).fields["transform"])) == k for k in (smt.K_STR, smt.K_NONE)])))))
    sx, sy = z3.Consts("scaleX scaleY", V)
    vm.assume(And(smt.is_num(sx), smt.is_num(sy)))
    W.contract_export(); W.contract_graph()
    f = vm.fn(ED, "SpineAnimationEditor.scale_animation")
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        A = Agree(vm)
        now = A.deref(A.at(W.data).fields["bones"])
        if not isinstance(now, ListC) or as_base(now) is None: return [("a list of bones", F)]
        n, at = as_base(now)
        g = [("as many bones", n == bones.n)]
        k = fresh("k", Int)
        vm.run.decide(And(k >= 0, k < bones.n))
        old, new = bones.at(k).fields, A.deref(at(k)).fields
        hit = Or([k == i0] + [toV(old["transform"]) == lit(t) for t in NOSCALE])
        for a, s in (("scaleX", sx), ("scaleY", sy)):
            g += [("%s of the root and of every bone that does not inherit scale is multiplied once" % a, Implies(hit, And(smt.is_num(toV(new[a])), num(toV(new[a])) == num(toV(old[a])) * num(s)))),
                  ("%s of every other bone stays" % a, Implies(Not(hit), toV(new[a]) == toV(old[a])))]
        for a in old:
            if a not in ("scaleX", "scaleY"): g.append(("bone %s stays" % a, A.f(new[a], old[a])))
        return g + W.unchanged(["bones"])
    P.functions |= {"SpineAnimationEditor.scale_animation", "Bone.scale", "SpineAnimationData.get_bone"}
    P.run("scale_animation", vm, lambda: vm.inline(f, [W.ed, sx, sy], {}), post)
    note(P)

def prove_scale_products(P):
    """Scaling by a and then by b is scaling by a*b (as the contract says); the bones that scale are the same after scaling."""
    a, b, s = z3.Reals("a b s")
    P.goal("scaling twice equals scaling by the products", [], (s * a) * b == s * (a * b))
    P.goal("scaling by 1 changes nothing", [], s * 1 == s)

def tasks_E07():
    return [("scale_animation", prove_scale), ("products", prove_scale_products)]

# ------------------------------------------------------------------------------------------- E01
def prove_erase_raw(P):
    """_erase_raw_animations_data: exactly the named animations go."""
    for strict in (True, False):
        W = Ed(P)
        vm, sym = W.vm, W.sym
        n, at = z3.Int("n"), z3.Function("name", Int, V)
        i, j = bvar("i", Int), bvar("j", Int)
        vm.assume(And(n >= 0, ForAll([i], Implies(And(i >= 0, i < n), smt.kind(at(i)) == smt.K_STR))))
        vm.assume(ForAll([i, j], Implies(And(i >= 0, i < n, j >= 0, j < n, i != j), at(i) != at(j))))
        names = vm.alloc(ListC(n=n, at=lambda i: at(i)))
        anims = W.data0.fields["animations"]
        f = vm.fn(ED, "SpineAnimationEditor._erase_raw_animations_data")
        named = lambda k: Exists([i], And(i >= 0, i < n, at(i) == k))
        unknown = Exists([i], And(i >= 0, i < n, Not(anims.has(at(i)))))
        def post(vm, out):
            A = Agree(vm)
            now = A.deref(A.at(W.data).fields["animations"])
            g = []
            if out[0] == "raise":
                nm = getattr(out[1].cls, "name", "")
                g += [("raises only ValueError, not %s" % nm, z3.BoolVal(nm == "ValueError" and strict)), ("raises only for an unknown name", unknown)]
            elif strict: g.append(("an unknown name is reported", Not(unknown)))
            if not isinstance(now, DictC): return [("the animations are a dict", F)]
            k = fresh("k", V)
            g.append(("exactly the named animations are gone", now.has(k) == And(anims.has(k), Not(named(k)))))
            g.append(("the other animations are as before", Implies(now.has(k), A.f(now.get(k), anims.get(k)))))
            g.append(("the animations that stay keep their order", z3.BoolVal(same_order(now.order, anims.order))))
            return g + W.unchanged(["animations"])
        P.functions.add("SpineAnimationEditor._erase_raw_animations_data")
        P.run("_erase_raw_animations_data, strict_mode=%s" % strict, vm, lambda: vm.inline(f, [W.ed, names, strict], {}), post)
    note(P)

def same_order(a, b):
    return a is not None and b is not None and repr(a) == repr(b)

class Unknown:
    """A part of the state the contract says nothing about."""
def havoc_clean(W, after):
    """clean_animation, as prove_clean has it: bones, constraints and events stay, the slots are some of the slots in their order, the animations keep their
    names and order, the references are the images used, none of which was unused before."""
    U0, U1 = z3.Function("image.used", V, Bool), z3.Function("image.used.after", V, Bool)
    x = bvar("x", V)
    W.vm.assume(ForAll([x], W.refs0.has(x) == U0(x), [W.refs0.has(x)]))
    W.used_after = U1
    def contract(vm, f, args, kw):
        after.append(1)
        A = Agree(vm)
        if not vm.entails(And(A.f(A.at(W.data).fields["skins"], W.data0.fields["skins"]), A.f(A.at(W.ed).fields["images_references"], W.refs0))): raise Unsupported("cleaning with other references than the images used")
        d = vm.load(W.data)
        h = Sym(vm)
        s = any_object(World_like(W, h), TOP, "cleaned%d" % len(after))
        an, slots = d.fields["animations"], A.at(W.data).fields["slots"]
        m, e, r = increasing(vm, slots.n, lambda i: z3.Function("slot.stays%d" % len(after), Int, Bool)(i), "cleaned")
        fields = dict(d.fields, skins=s.fields["skins"], slots=ListC(n=m, at=lambda j: slots.at(e(j))), animations=DictC({}, an.has, s.fields["animations"].get, an.order))
        vm.st.heap = dict(vm.st.heap)
        vm.st.heap[W.data.addr] = Rec(d.cls, fields)
        W.vm.assume(ForAll([x], Implies(U1(x), U0(x)), [U1(x)]))
        p = freshf("image.path", V, V)
        vm.setfield(W.ed, "images_references", vm.alloc(DictC({}, lambda y: U1(toV(y)), lambda y: DictC({"path": (T, p(toV(y)))}), order=("cleaned",))))
        W.stays = (m, e)
        return (vm.alloc(ListC([])), vm.alloc(SetC(lambda x: F)))
    W.vm.contracts["SpineAnimationEditor.clean_animation"] = contract

class World_like:
    def __init__(self, W, sym): self.vm, self.spec, self.sym = W.vm, W.spec, sym

def erased(W, names, strict, vm):
    """Contract of _erase_raw_animations_data."""
    n, at = names
    i = bvar("i", Int)
    named = lambda k: Exists([i], And(i >= 0, i < n, at(i) == toV(k)))
    def contract(vm, f, args, kw):
        env = W.args(f, args, kw)
        st = env["strict_mode"]
        st = b2z(vm.tr(st))
        d = vm.load(W.data)
        an = d.fields["animations"]
        new = DictC({}, lambda k: And(an.has(k), Not(named(k))), an.get, an.order)
        vm.st.heap = dict(vm.st.heap)
        vm.st.heap[W.data.addr] = Rec(d.cls, dict(d.fields, animations=new))
        if vm.choose(And(st, Exists([i], And(i >= 0, i < n, Not(an.has(at(i))))))): raise PyExc(ExcType("ValueError"))
        return None
    W.vm.contracts["SpineAnimationEditor._erase_raw_animations_data"] = contract
    return named

def prove_erase_animations(P):
    for safe in (True, False):
        W = Ed(P)
        vm, sym = W.vm, W.sym
        n, at = z3.Int("n"), z3.Function("name", Int, V)
        i = bvar("i", Int)
        vm.assume(And(n >= 0, ForAll([i], Implies(And(i >= 0, i < n), smt.kind(at(i)) == smt.K_STR))))
        names = vm.alloc(ListC(n=n, at=lambda i: at(i)))
        anims = W.data0.fields["animations"]
        strict = z3.Bool("strict")
        named = erased(W, (n, at), strict, vm)
        cleaned = []
        havoc_clean(W, cleaned)
        W.contract_export()
        unknown = Exists([i], And(i >= 0, i < n, Not(anims.has(at(i)))))
        f = vm.fn(ED, "SpineAnimationEditor.erase_animations")
        def post(vm, out):
            A = Agree(vm)
            now = A.deref(A.at(W.data).fields["animations"])
            if out[0] == "raise":
                nm = getattr(out[1].cls, "name", "")
                return [("raises only ValueError, not %s" % nm, z3.BoolVal(nm == "ValueError")), ("raises only in strict mode for an unknown name", And(strict, unknown))]
            k = fresh("k", V)
            g = [("an unknown name is reported in strict mode", Not(And(strict, unknown))),
                 ("exactly the named animations are gone", now.has(k) == And(anims.has(k), Not(named(k)))),
                 ("the animations that stay keep their order", z3.BoolVal(same_order(now.order, anims.order)))]
            if safe:
                g += [("the other animations are as before", Implies(now.has(k), A.f(now.get(k), anims.get(k))))] + W.unchanged(["animations"])
                g += [("image references unchanged", A.f(A.at(W.ed).fields["images_references"], W.refs0))]
                e = A.at(W.ed).fields["spine_graph"]
                g += [("the graph stays", z3.BoolVal(isinstance(e, Ref) and e.loc.addr == W.graphs[0].addr))]
            else:
                g += W.unchanged(["animations", "skins", "slots"])
                m, e = W.stays
                c = A.deref(A.at(W.data).fields["slots"])
                b = as_base(c)
                j, l = fresh("j", Int), fresh("l", Int)
                old = W.data0.fields["slots"]
                g += [("the slots are those cleaning leaves", b[0] == m), ("unchanged", Implies(And(j >= 0, j < m), A.f(b[1](j), old.at(e(j))))),
                      ("which are slots of before, in their order", Implies(And(j >= 0, j < l, l < m), And(e(j) >= 0, e(j) < e(l), e(l) < old.n)))]
                r, x = A.deref(A.at(W.ed).fields["images_references"]), fresh("x", V)
                g.append(("the references are exactly the images used", r.has(x) == W.used_after(x)))
                g.append(("cleaned once", z3.BoolVal(len(cleaned) >= 1)))
            return g
        P.functions.add("SpineAnimationEditor.erase_animations")
        P.run("erase_animations, is_safe_mode=%s" % safe, vm, lambda: vm.inline(f, [W.ed, names, strict, safe], {}), post)
    for what in ("a text", "None", "a number", "a dict", "a tuple", "a set"):
        W = Ed(P)
        vm = W.vm
        erased(W, (z3.IntVal(0), lambda i: lit("")), z3.BoolVal(True), vm)
        havoc_clean(W, [])
        W.contract_export()
        v = z3.Const("v", V)
        if what in ("a text", "None", "a number"):
            vm.assume({"a text": smt.kind(v) == smt.K_STR, "None": v == smt.NONE, "a number": smt.is_num(v)}[what])
            x = v
        else: x = vm.alloc(DictC({}, lambda k: z3.Function("h", V, Bool)(k), lambda k: k)) if what == "a dict" else (v, v) if what == "a tuple" else vm.alloc(SetC(lambda k: z3.Function("h", V, Bool)(k)))
        f = vm.fn(ED, "SpineAnimationEditor.erase_animations")
        def post(vm, out):
            A = Agree(vm)
            return [("raises TypeError", z3.BoolVal(out[0] == "raise" and getattr(out[1].cls, "name", "") == "TypeError"))] + W.unchanged() + [("image references unchanged", A.f(A.at(W.ed).fields["images_references"], W.refs0))]
        for safe in (True, False):
            P.run("erase_animations of %s, is_safe_mode=%s" % (what, safe), vm, lambda: vm.inline(f, [W.ed, x, True, safe], {}), post)
    note(P)

def tasks_E01():
    return [("_erase_raw_animations_data", prove_erase_raw), ("erase_animations", prove_erase_animations)]

# ------------------------------------------------------------------------------------------- E04
def ids_list(vm, name, cls=True):
    """A list of names."""
    n, at = z3.Int(name + ".n"), z3.Function(name + ".at", Int, V)
    i = bvar("i", Int)
    vm.assume(And(n >= 0, ForAll([i], Implies(And(i >= 0, i < n), smt.kind(at(i)) == smt.K_STR))))
    mem = lambda k: Exists([i], And(i >= 0, i < n, at(i) == toV(k)))
    return vm.alloc(ListC(n=n, at=lambda i: at(i))), mem

def only(c, keep):
    """A dict content without the keys that are not kept."""
    return DictC({}, lambda k: And(c.has(k), keep(toV(k))), c.get, c.order)

def data_goals(W, want, label, skip=()):
    """Goals: the skeleton data is now as wanted, attribute by attribute, and the header is unchanged."""
    A = Agree(W.vm)
    d = A.at(W.data)
    out = []
    for a in W.data0.fields:
        if a in skip: continue
        x, y = A.deref(d.fields[a]), want.get(a, W.data0.fields[a])
        out += part_goals(W, A, x, y, "%s: %s" % (label, a))
    out.append((label + ": header", A.f(A.at(W.ad).fields["skeleton"], W.header)))
    return out

def part_goals(W, A, x, y, label, same=False):
    """x is y, taken apart into goals for any one element."""
    x, y = A.deref(x), A.deref(y)
    if isinstance(x, Loc): x = A.at(x)
    if x is y: return [(label, T)]
    if isinstance(x, ListC) and isinstance(y, ListC) and as_base(x) and as_base(y):
        (n, a), (m, b) = as_base(x), as_base(y)
        i = fresh("i", Int)
        h = And(i >= 0, i < m)
        return [(label + ": as many", n == m)] + [(l, Implies(h, g)) for l, g in part_goals(W, A, a(i), b(i), label + "[i]", same)]
    if isinstance(x, DictC) and isinstance(y, DictC) and (x.has_ is not None or y.has_ is not None):
        k = fresh("k", V)
        h = y.has(k)
        return [(label + ": the same names", x.has(k) == h)] + [(l, Implies(h, g)) for l, g in part_goals(W, A, x.get(k), y.get(k), label + "[k]", same)]
    if isinstance(x, Rec) and isinstance(y, Rec) and x.cls is y.cls and set(x.fields) == set(y.fields):
        out = []
        for f in y.fields: out += part_goals(W, A, x.fields[f], y.fields[f], "%s.%s" % (label, f), same)
        return out
    if same and not isinstance(x, STRUCT) and not isinstance(y, STRUCT): return [(label, same_value(toV(x), toV(y)))]
    return [(label, A.f(x, y))]

def without_slots_in_skins(skins, gone):
    return ListC(n=skins.n, at=lambda i: Rec(skins.at(i).cls, dict(skins.at(i).fields, attachments=only(skins.at(i).fields["attachments"], lambda k: Not(gone(k))))))

def prove_slots_in_skins(P):
    W = Ed(P)
    vm = W.vm
    ids, gone = ids_list(vm, "ids")
    f = vm.fn(ED, "SpineAnimationEditor._clean_slots_in_skins")
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        return data_goals(W, {"skins": without_slots_in_skins(W.data0.fields["skins"], gone)}, "after")
    P.functions.add("SpineAnimationEditor._clean_slots_in_skins")
    P.run("_clean_slots_in_skins", vm, lambda: vm.inline(f, [W.ed, ids], {}), post)
    note(P)

def without_slots_in_animation(an, gone):
    """Slot and deform timelines of the slots that are gone."""
    f = an.fields
    deform = DictC({}, f["deform"].has, lambda k: only(f["deform"].get(k), lambda s: Not(gone(s))), f["deform"].order)
    return dict(f, slots=only(f["slots"], lambda k: Not(gone(k))), deform=deform)

def prove_slots_in_animations(P):
    W = Ed(P)
    vm = W.vm
    ids, gone = ids_list(vm, "ids")
    f = vm.fn(ED, "SpineAnimationEditor._clean_slots_in_animations")
    an = W.data0.fields["animations"]
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        want = DictC({}, an.has, lambda k: Rec(an.get(k).cls, without_slots_in_animation(an.get(k), gone)), an.order)
        return data_goals(W, {"animations": want}, "after")
    P.functions |= {"SpineAnimationEditor._clean_slots_in_animations", "Animation.remove_deforms_using_slots"}
    P.run("_clean_slots_in_animations", vm, lambda: vm.inline(f, [W.ed, ids], {}), post)
    note(P)

def prove_attachments_in_slots(P):
    W = Ed(P)
    vm = W.vm
    ids, gone = ids_list(vm, "ids")
    f = vm.fn(ED, "SpineAnimationEditor._clean_attachments_in_slots")
    slots = W.data0.fields["slots"]
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        at = lambda i: toV(slots.at(i).fields["attachment"])
        want = ListC(n=slots.n, at=lambda i: Rec(slots.at(i).cls, dict(slots.at(i).fields, attachment=smt.ite(gone(at(i)), None, at(i)))))
        return data_goals(W, {"slots": want}, "after")
    P.functions.add("SpineAnimationEditor._clean_attachments_in_slots")
    P.run("_clean_attachments_in_slots", vm, lambda: vm.inline(f, [W.ed, ids], {}), post)
    note(P)

def skin_names(W):
    """Skins have distinct names."""
    skins = W.data0.fields["skins"]
    i, j = bvar("i", Int), bvar("j", Int)
    nm = lambda i: toV(skins.at(i).fields["name"])
    W.vm.assume(ForAll([i], Implies(And(i >= 0, i < skins.n), smt.kind(nm(i)) == smt.K_STR)))
    W.vm.assume(ForAll([i, j], Implies(And(i >= 0, i < skins.n, j >= 0, j < skins.n, i != j), nm(i) != nm(j))))
    return lambda k: Exists([i], And(i >= 0, i < skins.n, nm(i) == toV(k)))

def prove_attachments_in_skins(P):
    W = Ed(P)
    vm = W.vm
    ids, gone = ids_list(vm, "ids")
    isskin = skin_names(W)
    f = vm.fn(ED, "SpineAnimationEditor._clean_attachments_in_skins")
    skins, an = W.data0.fields["skins"], W.data0.fields["animations"]
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        def skin(s):
            a = s.fields["attachments"]
            return Rec(s.cls, dict(s.fields, attachments=DictC({}, a.has, lambda k: only(a.get(k), lambda x: Not(gone(x))), a.order)))
        def anim(x):
            d = x.fields["deform"]
            return Rec(x.cls, dict(x.fields, deform=DictC({}, d.has, lambda s: DictC({}, d.get(s).has, lambda k: only(d.get(s).get(k), lambda y: Not(And(isskin(s), gone(y)))), d.get(s).order), d.order)))
        return data_goals(W, {"skins": ListC(n=skins.n, at=lambda i: skin(skins.at(i))), "animations": DictC({}, an.has, lambda k: anim(an.get(k)), an.order)}, "after")
    P.functions |= {"SpineAnimationEditor._clean_attachments_in_skins", "Animation.remove_deforms_with_attachments_on_skin"}
    P.run("_clean_attachments_in_skins", vm, lambda: vm.inline(f, [W.ed, ids], {}), post)
    note(P)

class Draws:
    """Contract of DrawOrderTimeline.remove_offsets_with_ids(slots_ids, original_slots), proved in prove_E02: the offsets become new ones,
    which depend on the old ones, the removed slots and the setup order only and name no removed slot; the time stays.
    Here the keyframe is one of an animation of the skeleton and has its offsets of the beginning; other uses are not accepted."""
    def __init__(self, W, gone, ids=None, slots=None):
        self.W, self.gone, self.ids, self.slots, self.calls = W, gone, ids, slots, 0
        self.N, self.S, self.O = z3.Function("draw.n", V, Int, Int), z3.Function("draw.slot", V, Int, Int, V), z3.Function("draw.offset", V, Int, Int, V)
        k, i, j = bvar("k", V), bvar("i", Int), bvar("j", Int)
        W.vm.assume(ForAll([k, i], self.N(k, i) >= 0))
        W.vm.assume(ForAll([k, i, j], Implies(And(j >= 0, j < self.N(k, i)), Not(gone(self.S(k, i, j)))), [self.S(k, i, j)]))
        W.vm.contracts["DrawOrderTimeline.remove_offsets_with_ids"] = self.contract
        self.cls = W.vm.cls("data.data_types.draworder", "DrawOrderTimelineOffset")
    def offsets(self, k, i):
        return ListC(n=self.N(k, i), at=lambda j: Rec(self.cls, {"slot": self.S(k, i, j), "offset": self.O(k, i, j)}))
    def contract(self, vm, f, args, kw):
        env = self.W.args(f, args, kw)
        l, c = vm.canon(env["self"])
        p = l.path
        if l.addr != self.W.data.addr or [s[0] for s in p] != ["f", "k", "f", "i"] or p[0][1] != "animations" or p[2][1] != "drawOrder": raise Unsupported("draw order keyframe elsewhere")
        k, i = toV(p[1][1]), p[3][1]
        A = Agree(vm)
        vm.log_read(l, True)
        old = self.W.data0.fields["animations"].get(k).fields["drawOrder"].at(i)
        if not vm.entails(A.f(A.at(l), old)): raise Unsupported("draw order keyframe changed before")
        self.check(vm, env)
        self.calls += 1
        vm.setfield(l, "offsets", vm.alloc(self.offsets(k, i)))
        return None
    def check(self, vm, env):
        """The arguments are the removed slots and the slots of the setup pose."""
        A = Agree(vm)
        for a, want in (("slots_ids", self.ids), ("original_slots", self.slots)):
            if want is None: continue
            l = env[a]
            if not isinstance(l, Loc): raise Unsupported("%s is not a list" % a)
            vm.log_read(vm.canon(l)[0], True)
            if not vm.entails(want(vm, A.at(l))): raise Unsupported("%s are others" % a)
    def animation(self, k, x):
        d = x.fields["drawOrder"]
        return Rec(x.cls, dict(x.fields, drawOrder=ListC(n=d.n, at=lambda i: Rec(d.at(i).cls, dict(d.at(i).fields, offsets=self.offsets(k, i))))))

def members_are(mem):
    def f(vm, c):
        if not isinstance(c, ListC): return F
        k = fresh("k", V)
        return list_members(c, k) == mem(k)
    return f
def list_members(c, k): return Or([Exists(s.binders, And(s.cond, toV(s.elem) == k)) for s in c.segs])

def any_slots(W, name="original"):
    """A list of slots."""
    n = z3.Int(name + ".n")
    W.vm.assume(n >= 0)
    return ListC(n=n, at=lambda i: W.sym_obj_at("Slot", name, i))

def prove_draw_order(P):
    W = Ed(P)
    vm = W.vm
    ids, gone = ids_list(vm, "ids")
    slots = vm.alloc(W.data0.fields["slots"])
    D = Draws(W, gone, members_are(gone), lambda vm, c: Agree(vm).f(c, W.data0.fields["slots"]))
    f = vm.fn(ED, "SpineAnimationEditor._clean_draw_order_refs")
    an = W.data0.fields["animations"]
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        return data_goals(W, {"animations": DictC({}, an.has, lambda k: D.animation(k, an.get(k)), an.order)}, "after")
    P.functions |= {"SpineAnimationEditor._clean_draw_order_refs", "Animation.remove_draw_order_with_ids"}
    P.run("_clean_draw_order_refs", vm, lambda: vm.inline(f, [W.ed, ids, slots], {}), post)
    note(P)

# ------------------------------------------------------------------------------------------- E04, E08: clean_animation as a composition
GRAPH, DAG, NODES = "spine_graph_container", "graph.dagraph", "deserializer.spine_nodes"

def increasing(vm, n, keep, name):
    """The increasing enumeration of {i < n : keep(i)}: its length and the function; its inverse on the kept ones."""
    m, e, r = fresh(name + ".n", Int), freshf(name + ".e", Int, Int), freshf(name + ".rank", Int, Int)
    i, j = bvar("i", Int), bvar("j", Int)
    vm.assume(And(m >= 0, m <= n))
    vm.assume(ForAll([j], Implies(And(j >= 0, j < m), And(e(j) >= 0, e(j) < n, keep(e(j)), r(e(j)) == j)), [e(j)]))
    vm.assume(ForAll([i], Implies(And(i >= 0, i < n, keep(i)), And(r(i) >= 0, r(i) < m, e(r(i)) == i)), [r(i)]))
    vm.assume(ForAll([i, j], Implies(And(i >= 0, i < j, j < m), e(i) < e(j)), [z3.MultiPattern(e(i), e(j))]))
    return m, e, r

class Valid:
    """What makes a loaded skeleton valid, for the operations below."""
    def __init__(self, W):
        vm, d = W.vm, W.data0.fields
        i, j, k, s = bvar("i", Int), bvar("j", Int), bvar("k", V), bvar("s", V)
        for a, req in (("bones", ["name"]), ("slots", ["name", "bone"]), ("ik", ["name"]), ("skins", ["name"])):
            c = d[a]
            for f in req: vm.assume(ForAll([i], Implies(And(i >= 0, i < c.n), smt.kind(toV(c.at(i).fields[f])) == smt.K_STR)))
            nm = lambda i: toV(c.at(i).fields["name"])
            vm.assume(ForAll([i, j], Implies(And(i >= 0, i < c.n, j >= 0, j < c.n, i != j), nm(i) != nm(j))))
        vm.assume(d["bones"].n > 0)
        slots, skins = d["slots"], d["skins"]
        self.slot = z3.Function("slot.of", V, Int)                # the slot with a name
        sname = lambda i: toV(slots.at(i).fields["name"])
        self.isslot = lambda x: And(self.slot(toV(x)) >= 0, self.slot(toV(x)) < slots.n, sname(self.slot(toV(x))) == toV(x))
        vm.assume(ForAll([i], Implies(And(i >= 0, i < slots.n), self.slot(sname(i)) == i)))
        att = lambda i: skins.at(i).fields["attachments"]
        # every entry of a skin belongs to a slot
        vm.assume(ForAll([i, s], Implies(And(i >= 0, i < skins.n, att(i).has(s)), And(smt.kind(s) == smt.K_STR, self.isslot(s)))))
        vm.assume(ForAll([i, s, k], Implies(And(i >= 0, i < skins.n, att(i).has(s), att(i).get(s).has(k)), smt.kind(k) == smt.K_STR)))
        self.isatt = lambda x: Exists([i, s], And(i >= 0, i < skins.n, att(i).has(s), att(i).get(s).has(toV(x))))

def set_has(vm, v, k):
    """Formula: k is an element of the list, set or view v."""
    A = Agree(vm)
    c = A.at(v)
    if isinstance(c, SetC): return c.mem(k)
    if isinstance(c, ListC): return list_members(c, k)
    raise Unsupported("a collection of names")

class GraphState:
    """The graph container as far as clean_animation uses it: what converts back, which slots and attachments are left (M02, M03)."""
    def __init__(self, W):
        self.W, vm = W, W.vm
        self.D = vm.cls(DAG, "DAGraph")
        new = W.new
        e = W.spec.export(TOP, W.data0, new)
        self.json = {a: e.get(a) for a in ("bones", "slots", "ik")}
        V0 = W.valid
        self.g = vm.alloc(Rec(self.D, {"_bones": self.json["bones"], "_slots": self.json["slots"], "_ik": self.json["ik"],
                                       "_gone": SetC(lambda x: F), "_noatt": SetC(lambda x: F)}))
        vm.st.heap[W.graphs[0].addr] = Rec(W.graphcls(), {"graph": Ref(self.g)})
        c = vm.contracts
        c["SpineGraphContainer.remove_slots"] = self.remove_slots
        c["SpineGraphContainer.remove_attachments"] = self.remove_attachments
        c["SpineGraphContainer.remove_leafs_of_type"] = self.leafs
        c["SpineGraphContainer.remove_heads_of_type"] = self.heads
        c["DAGraph.to_json_data"] = self.convert
    def of(self, env):
        vm = self.W.vm
        l, c = vm.canon(env["self"])
        if l.addr == self.g.addr: return self.g
        if isinstance(c, Rec) and "graph" in c.fields: return vm.canon(c.fields["graph"].loc)[0]
        raise Unsupported("another graph")
    def put(self, l, **kw):
        vm = self.W.vm
        c = vm.load(l)
        vm.modify(l, lambda c: Rec(c.cls, dict(c.fields, **kw)), "slot")
    def need(self, f, what):
        if not self.W.vm.entails(f, 10000): raise Unsupported(what)
    def remove_slots(self, vm, f, args, kw):
        env = self.W.args(f, args, kw)
        l = self.of(env)
        gone = vm.load(l).fields["_gone"]
        A = Agree(vm)
        c, k = A.at(env["slots_ids"]), bvar("k", V)
        if not isinstance(c, ListC): raise Unsupported("slots to remove")
        self.need(ForAll([k], Implies(list_members(c, k), And(self.W.valid.isslot(k), Not(gone.mem(k))))), "remove_slots of something that is no slot of the graph")
        self.once(c)
        self.put(l, _gone=SetC(lambda x: Or(gone.mem(x), list_members(c, toV(x)))))
        return Poison("removed nodes")
    def once(self, c):
        from dv.induct import list_distinct
        self.need(list_distinct(self.W.vm, c), "a name twice in a list of nodes to remove")
    def remove_attachments(self, vm, f, args, kw):
        env = self.W.args(f, args, kw)
        l = self.of(env)
        no = vm.load(l).fields["_noatt"]
        c, k = Agree(vm).at(env["attachment_ids"]), bvar("k", V)
        if not isinstance(c, ListC): raise Unsupported("attachments to remove")
        self.need(ForAll([k], Implies(list_members(c, k), And(self.W.valid.isatt(k), Not(no.mem(k))))), "remove_attachments of something that is no attachment of the graph")
        self.once(c)
        self.put(l, _noatt=SetC(lambda x: Or(no.mem(x), list_members(c, toV(x)))))
        return Poison("removed nodes")
    def names(self, what, may):
        from dv.induct import abstract_list
        l = abstract_list(what)
        k = bvar("k", V)
        self.W.vm.assume(ForAll([k], Implies(list_members(l, k), may(k))))
        return l
    def removal(self, env):
        vm = self.W.vm
        t = env["type_name"]
        if not isinstance(t, str): raise Unsupported("type of nodes")
        l = self.of(env)
        c = vm.load(l)
        if t == "SLOT":
            # only slots without any attachment that is left are leaves
            skins, no = self.W.data0.fields["skins"], c.fields["_noatt"]
            i, a = bvar("i", Int), bvar("a", V)
            att = lambda i: skins.at(i).fields["attachments"]
            self.bare = lambda k: ForAll([i, a], Implies(And(i >= 0, i < skins.n, att(i).has(k), att(i).get(k).has(a)), no.mem(a)))
            r = self.names("leaf_slots", lambda k: And(self.W.valid.isslot(k), Not(c.fields["_gone"].mem(k)), self.bare(k)))
            self.put(l, _gone=SetC(lambda x: Or(c.fields["_gone"].mem(x), list_members(r, toV(x)))))
        elif t in ("ATTACHMENT", "IMAGE"):
            # an image that is a head is used by nothing that is left (M02, M03)
            U1 = z3.Function("image.used.after", V, Bool)
            r = self.names("gone_" + t, lambda k: And(smt.kind(k) == smt.K_STR, Not(U1(k))) if t == "IMAGE" else smt.kind(k) == smt.K_STR)
            if t == "IMAGE" and (self.W.clean.gone is None or self.W.clean.noatt is None): raise Unsupported("images removed before what uses them")
            if t == "ATTACHMENT": self.put(l, _noatt=SetC(lambda x: Or(c.fields["_noatt"].mem(x), list_members(r, toV(x)))))
        else: raise Unsupported("removal of %s nodes" % t)
        return vm.alloc(r)
    def leafs(self, vm, f, args, kw): return self.removal(self.W.args(f, args, kw))
    def heads(self, vm, f, args, kw):
        env = self.W.args(f, args, kw)
        if env["type_name"] == "SLOT": raise Unsupported("removal of slots that are heads")
        return self.removal(env)
    def convert(self, vm, f, args, kw):
        env = self.W.args(f, args, kw)
        l = self.of(env)
        c = vm.load(l).fields
        s = c["_slots"]
        gone = c["_gone"]
        keep = lambda i: Not(gone.mem(toV(s.at(i).get("name"))))
        m, e, r = increasing(vm, s.n, keep, "stay")
        self.last = (m, e, r)
        return vm.alloc(DictC({"bones": (T, c["_bones"]), "slots": (T, ListC(n=m, at=lambda j: s.at(e(j)))), "ik": (T, c["_ik"])}))

class Clean:
    """Everything clean_animation calls, by contract."""
    def __init__(self, P):
        self.W = W = Ed(P, filled=True)
        vm = W.vm
        self.valid = W.valid = Valid(W)
        self.G = GraphState(W)
        W.clean = self
        W.constructors(["Bone", "Slot", "Ik"])
        vm.contracts["SpineAnimationData.get_unused_slots_and_attachments"] = self.unused
        vm.contracts["SpineData.set_default_values"] = self.fill
        vm.contracts["SpineAnimationEditor.remove_slots"] = self.remove_slots
        vm.contracts["SpineAnimationEditor.remove_attachments"] = self.remove_attachments
        vm.contracts["SpineAnimationEditor.get_images_references"] = self.images
        # U0, U1: the images used before and after; nothing comes into use
        self.U0, self.U1 = U0, U1 = z3.Function("image.used", V, Bool), z3.Function("image.used.after", V, Bool)
        x = bvar("x", V)
        vm.assume(ForAll([x], Implies(U1(x), And(U0(x), smt.kind(x) == smt.K_STR)), [U1(x)]))
        vm.assume(ForAll([x], And(W.refs0.has(x) == U0(x), Implies(U0(x), smt.kind(x) == smt.K_STR)), [U0(x)]))
        vm.assume(ForAll([x], And(W.refs0.has(x) == U0(x)), [W.refs0.has(x)]))
        self.gone = self.noatt = None
    def images(self, vm, f, args, kw):
        """The images used by what is left (E06)."""
        u = self.U1 if self.gone is not None and self.noatt is not None else self.U0
        if (self.gone is None) != (self.noatt is None): raise Unsupported("image references in between")
        p = freshf("image.path", V, V)
        return vm.alloc(DictC({}, lambda k: u(toV(k)), lambda k: DictC({"path": (T, p(toV(k)))})))
    def unused(self, vm, f, args, kw):
        """Invisible slots and unused attachments (E03): names of slots; attachments of some skin, none of them the setup attachment of a slot that is visible."""
        S, A = z3.Function("invisible", V, Bool), z3.Function("unused", V, Bool)
        k, i = bvar("k", V), bvar("i", Int)
        vm.assume(ForAll([k], Implies(S(k), self.valid.isslot(k))))
        vm.assume(ForAll([k], Implies(A(k), And(smt.kind(k) == smt.K_STR, self.valid.isatt(k)))))
        slots = self.W.data0.fields["slots"]
        vm.assume(ForAll([i], Implies(And(i >= 0, i < slots.n, Not(S(toV(slots.at(i).fields["name"])))), Not(A(toV(slots.at(i).fields["attachment"]))))))
        self.S, self.A = S, A
        vm.log_read(self.W.data, True)
        A_ = Agree(vm)
        now = A_.at(self.W.data)
        for a in ("slots", "animations", "skins"):
            if not vm.entails(A_.f(now.fields[a], self.W.data0.fields[a])): raise Unsupported("unused slots of another state")
        return (vm.alloc(SetC(lambda x: S(toV(x)))), vm.alloc(SetC(lambda x: A(toV(x)))))
    def fill(self, vm, f, args, kw):
        env = self.W.args(f, args, kw)
        if vm.canon(env["self"])[0].addr != self.W.data.addr: raise Unsupported("defaults of another object")
        self.W.is_new(env["version"])
        A = Agree(vm)
        d = self.by_value(A, A.at(self.W.data))
        vm.modify(self.W.data, lambda _: self.W.spec.filled(TOP, d, self.W.new), "slot")
    def by_value(self, A, rec):
        return Rec(rec.cls, {a: value_of(A, v) for a, v in rec.fields.items()})
    def remove_slots(self, vm, f, args, kw):
        env = self.W.args(f, args, kw)
        W, A = self.W, Agree(vm)
        ids = A.at(env["slots_ids"])
        if not isinstance(ids, ListC): raise Unsupported("slots to remove")
        gone = lambda k: list_members(ids, toV(k))
        if self.gone is not None: raise Unsupported("slots removed twice")
        self.gone = gone
        orig = A.at(env["original_slots"])
        if not vm.entails(A.f(orig, W.data0.fields["slots"])): raise Unsupported("original_slots are not the slots before")
        d = self.by_value(A, A.at(W.data))
        an = d.fields["animations"]
        k, i, j = bvar("k", V), bvar("i", Int), bvar("j", Int)
        self.draws = D = Draws.__new__(Draws)
        D.W, D.gone = W, gone
        D.N, D.S, D.O = z3.Function("draw.n", V, Int, Int), z3.Function("draw.slot", V, Int, Int, V), z3.Function("draw.offset", V, Int, Int, V)
        D.cls = vm.cls("data.data_types.draworder", "DrawOrderTimelineOffset")
        vm.assume(ForAll([k, i], D.N(k, i) >= 0))
        vm.assume(ForAll([k, i, j], Implies(And(j >= 0, j < D.N(k, i)), Not(gone(D.S(k, i, j)))), [D.S(k, i, j)]))
        def anim(k):
            x = an.get(k)
            return D.animation(k, Rec(x.cls, without_slots_in_animation(x, gone)))
        new = dict(d.fields, skins=without_slots_in_skins(d.fields["skins"], gone), animations=DictC({}, an.has, anim, an.order))
        vm.modify(W.data, lambda _: Rec(d.cls, new), "slot")
    def remove_attachments(self, vm, f, args, kw):
        env = self.W.args(f, args, kw)
        W, A = self.W, Agree(vm)
        ids = A.at(env["attachments_ids"])
        gone = (lambda k: list_members(ids, toV(k))) if isinstance(ids, ListC) else (lambda k: ids.mem(toV(k)))
        if self.noatt is not None: raise Unsupported("attachments removed twice")
        self.noatt = gone
        d = self.by_value(A, A.at(W.data))
        vm.modify(W.data, lambda _: Rec(d.cls, dict(d.fields, **without_attachments(W, d, gone))), "slot")
    def isskin(self, k):
        skins = self.W.data0.fields["skins"]
        i = bvar("i", Int)
        return Exists([i], And(i >= 0, i < skins.n, toV(skins.at(i).fields["name"]) == toV(k)))

    def left_bare(self, k):
        """Formula: every attachment of the slot k is removed."""
        skins = self.W.data0.fields["skins"]
        i, a = bvar("i", Int), bvar("a", V)
        att = lambda i: skins.at(i).fields["attachments"]
        return ForAll([i, a], Implies(And(i >= 0, i < skins.n, att(i).has(k), att(i).get(k).has(a)), self.A(a)))

def without_attachments(W, d, gone):
    skins, an, slots = d.fields["skins"], d.fields["animations"], d.fields["slots"]
    i = bvar("i", Int)
    isskin = lambda k: Exists([i], And(i >= 0, i < skins.n, toV(skins.at(i).fields["name"]) == toV(k)))
    def skin(s):
        a = s.fields["attachments"]
        return Rec(s.cls, dict(s.fields, attachments=DictC({}, a.has, lambda k: only(a.get(k), lambda x: Not(gone(x))), a.order)))
    def anim(x):
        c = x.fields["deform"]
        return Rec(x.cls, dict(x.fields, deform=DictC({}, c.has, lambda s: DictC({}, c.get(s).has, lambda k: only(c.get(s).get(k), lambda y: Not(And(isskin(s), gone(y)))), c.get(s).order), c.order)))
    def slot(x):
        a = toV(x.fields["attachment"])
        return Rec(x.cls, dict(x.fields, attachment=smt.ite(gone(a), None, a)))
    return {"skins": ListC(n=skins.n, at=lambda i: skin(skins.at(i))), "animations": DictC({}, an.has, lambda k: anim(an.get(k)), an.order),
            "slots": ListC(n=slots.n, at=lambda i: slot(slots.at(i)))}

def value_of(A, c):
    """The content with its references followed."""
    c = A.deref(c)
    if isinstance(c, Loc): c = A.at(c)
    if isinstance(c, Rec): return Rec(c.cls, {k: value_of(A, v) for k, v in c.fields.items()})
    if isinstance(c, IteC): return mk_ite(c.c, value_of(A, c.a), value_of(A, c.b))
    if isinstance(c, DictC): return DictC({k: (p, value_of(A, v)) for k, (p, v) in c.entries.items()}, c.has_, (lambda x: value_of(A, c.get_(x))) if c.get_ else None, c.order)
    if isinstance(c, ListC):
        b = as_base(c)
        if b is None: raise Unsupported("a filtered list")
        return ListC(n=b[0], at=lambda i: value_of(A, b[1](i)), ordered=c.ordered)
    return c

def prove_clean(P):
    C = Clean(P)
    W, vm = C.W, C.W.vm
    d0 = W.data0.fields
    f = vm.fn(ED, "SpineAnimationEditor.clean_animation")
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        if C.gone is None or C.noatt is None: return [("slots and attachments are removed", F)]
        A = Agree(vm)
        g = []
        k = fresh("k", V)
        gs = vm.load(C.G.g).fields
        g += [("what is removed from the skeleton is what is removed from the graph", C.gone(k) == gs["_gone"].mem(k)),
              ("the attachments removed are the unused ones", C.noatt(k) == C.A(k)),
              ("slots that no animation may show are removed", Implies(C.S(k), C.gone(k))),
              ("another slot is removed only when it has no attachment left", Implies(And(C.gone(k), Not(C.S(k))), And(C.valid.isslot(k), C.left_bare(k))))]
        m, e, r = C.G.last
        now = A.at(W.data).fields
        want = dict(d0)
        d1 = Rec(W.data0.cls, d0)
        an = d0["animations"]
        def anim(k):
            x = an.get(k)
            return C.draws.animation(k, Rec(x.cls, without_slots_in_animation(x, C.gone)))
        want = Rec(d1.cls, dict(d0, slots=ListC(n=m, at=lambda j: d0["slots"].at(e(j))), skins=without_slots_in_skins(d0["skins"], C.gone), animations=DictC({}, an.has, anim, an.order)))
        want = dict(want.fields, **without_attachments(W, want, C.noatt))
        # the setup attachments of the slots that stay are none of the removed ones
        want["slots"] = ListC(n=m, at=lambda j: d0["slots"].at(e(j)))
        for a in d0:
            g += part_goals(W, A, now[a], want[a], "after: " + a, same=a in ("bones", "slots", "ik"))
        g.append(("header unchanged", A.f(A.at(W.ad).fields["skeleton"], W.header)))
        refs, x = A.deref(A.at(W.ed).fields["images_references"]), fresh("x", V)
        g.append(("the references are exactly the images used", refs.has(x) == C.U1(x)))
        return g
    P.functions.add("SpineAnimationEditor.clean_animation")
    P.run("clean_animation", vm, lambda: vm.inline(f, [W.ed], {}), post)
    note(P)

def prove_remove_slots(P):
    """remove_slots, with everything below it executed, except for the draw order arithmetic."""
    W = Ed(P)
    vm = W.vm
    ids, gone = ids_list(vm, "ids")
    slots = vm.alloc(W.data0.fields["slots"])
    D = Draws(W, gone, members_are(gone), lambda vm, c: Agree(vm).f(c, W.data0.fields["slots"]))
    f = vm.fn(ED, "SpineAnimationEditor.remove_slots")
    d = W.data0.fields
    an = d["animations"]
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        def anim(k):
            x = an.get(k)
            return D.animation(k, Rec(x.cls, without_slots_in_animation(x, gone)))
        return data_goals(W, {"skins": without_slots_in_skins(d["skins"], gone), "animations": DictC({}, an.has, anim, an.order)}, "after")
    P.functions |= {"SpineAnimationEditor.remove_slots", "SpineAnimationEditor._clean_slots_in_skins", "SpineAnimationEditor._clean_slots_in_animations",
                    "SpineAnimationEditor._clean_draw_order_refs", "Animation.remove_deforms_using_slots", "Animation.remove_draw_order_with_ids"}
    P.run("remove_slots", vm, lambda: vm.inline(f, [W.ed, ids, slots], {}), post)
    note(P)

def prove_remove_attachments(P, ids_as="list"):
    W = Ed(P)
    vm = W.vm
    if ids_as == "set":
        S = z3.Function("ids.has", V, Bool)
        gone, ids = (lambda k: S(toV(k))), vm.alloc(SetC(lambda k: S(toV(k))))
    else: ids, gone = ids_list(vm, "ids")
    skin_names(W)
    f = vm.fn(ED, "SpineAnimationEditor.remove_attachments")
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        return data_goals(W, without_attachments(W, W.data0, gone), "after")
    P.functions |= {"SpineAnimationEditor.remove_attachments", "SpineAnimationEditor._clean_attachments_in_skins", "SpineAnimationEditor._clean_attachments_in_slots",
                    "Animation.remove_deforms_with_attachments_on_skin"}
    P.run("remove_attachments", vm, lambda: vm.inline(f, [W.ed, ids], {}), post)
    note(P)

def tasks_E04():
    from contracts import draworder
    return [("_clean_slots_in_skins", prove_slots_in_skins), ("_clean_slots_in_animations", prove_slots_in_animations),
            ("_clean_attachments_in_slots", prove_attachments_in_slots), ("_clean_attachments_in_skins", prove_attachments_in_skins),
            ("_clean_draw_order_refs", prove_draw_order), ("remove_offsets_with_ids", draworder.prove_offsets),
            ("remove_slots", prove_remove_slots), ("remove_attachments", prove_remove_attachments),
            ("remove_attachments, of a set", lambda P: prove_remove_attachments(P, "set")), ("clean_animation", prove_clean)]

def tasks_E02():
    from contracts import draworder as d
    return [("_reorder_slots_with_offset", d.prove_reorder), ("remove_offsets_with_ids", d.prove_remove_offsets),
            ("remove_offsets_with_ids, of a set", lambda P: d.prove_remove_offsets(P, "set")), ("counting", d.prove_counting), ("one order", d.prove_one_order),
            ("_clean_draw_order_refs", prove_draw_order), ("remove_slots", prove_remove_slots), ("clean_animation", prove_clean)]

def tasks_E08():
    from contracts import images as m
    return [("clean_animation", prove_clean), ("erase_animations", prove_erase_animations), ("_erase_raw_animations_data", prove_erase_raw), ("remove_skin", prove_remove_skin),
            ("erase_skins, safe", lambda P: m.prove_erase_skins(P, True)), ("erase_skins", lambda P: m.prove_erase_skins(P, False))]

def tasks_E05():
    from contracts import images as m
    return [("remove_skin", prove_remove_skin), ("erase_skins, safe", lambda P: m.prove_erase_skins(P, True)), ("erase_skins", lambda P: m.prove_erase_skins(P, False))]

# ------------------------------------------------------------------------------------------- E05: erasing a skin
def meshes(W, c, cls):
    """Formula: the attachment is an object of the class."""
    if isinstance(c, IteC): return If(c.c, meshes(W, c.a, cls), meshes(W, c.b, cls))
    return z3.BoolVal(isinstance(c, Rec) and c.cls.name == cls)
def field_of(c, a):
    if isinstance(c, IteC): return smt.ite(c.c, field_of(c.a, a), field_of(c.b, a))
    return toV(c.fields[a]) if isinstance(c, Rec) and a in c.fields else smt.NONE

def image_of(c, k):
    p, n = field_of(c, "path"), field_of(c, "name")
    return smt.ite(truth(p), p, smt.ite(truth(n), n, k))

def prove_remove_skin(P):
    W = Ed(P)
    vm = W.vm
    d = W.data0.fields
    name = z3.Const("erased", V)
    vm.assume(smt.kind(name) == smt.K_STR)
    skins = d["skins"]
    i, j, k, s = bvar("i", Int), bvar("j", Int), bvar("k", V), bvar("s", V)
    nm = lambda i: toV(skins.at(i).fields["name"])
    att = lambda i: skins.at(i).fields["attachments"]
    there = Exists([i], And(i >= 0, i < skins.n, nm(i) == name))
    E = z3.Int("place")
    vm.assume(Implies(there, And(E >= 0, E < skins.n, nm(E) == name)))
    vm.assume(ForAll([i, j], Implies(And(i >= 0, i < skins.n, j >= 0, j < skins.n, i != j), nm(i) != nm(j))))
    # a linked mesh of the erased skin has its mesh there
    def linked(i, s, k):
        a = att(i).get(s).get(k)
        sk = field_of(a, "skin")
        return And(att(i).has(s), att(i).get(s).has(k), meshes(W, a, "SkinLinkedMesh"), smt.ite(truth(sk), sk, lit("default")) == name)
    def parent(i, s, k):
        p = field_of(att(i).get(s).get(k), "parent")
        return smt.ite(truth(p), p, k)
    vm.assume(ForAll([i, s, k], Implies(And(i >= 0, i < skins.n, nm(i) != name, linked(i, s, k), there),
              And(att(E).has(s), att(E).get(s).has(parent(i, s, k)), meshes(W, att(E).get(s).get(parent(i, s, k)), "SkinMesh")))))
    f = vm.fn("data.spine_anim_data", "SpineAnimationData.remove_skin")
    def post(vm, out):
        if out[0] == "raise":
            return [("raises only SpineJsonEditorError", z3.BoolVal(getattr(out[1].cls, "name", "") == "SpineJsonEditorError")), ("raises only when there is no such skin", Not(there))] + W.unchanged()
        x = bvar("x", Int)
        A = Agree(vm)
        now = A.at(W.data).fields
        n, e, r = vm.enumeration(skins.n, nm(x) != name, x)
        c = A.deref(now["skins"])
        b = vm.enumerated(c) if isinstance(c, ListC) else None
        if b is None: return [("a list of skins", F)]
        g = [("an unknown skin is reported", there), ("the other skins stay", b[0] == n)]
        q, s, k = fresh("q", Int), fresh("s", V), fresh("k", V)
        i = e(q)
        here = And(q >= 0, q < n)
        got = A.deref(b[1](q))
        if not isinstance(got, Rec): return [("skins", F)]
        old = skins.at(i)
        for a in old.fields:
            if a != "attachments": g.append(("the skins that stay keep their %s and order" % a, Implies(here, A.f(got.fields[a], old.fields[a]))))
        x, y = A.deref(got.fields["attachments"]), old.fields["attachments"]
        x1, y1 = (lambda: A.deref(x.get(s))), (lambda: y.get(s))
        g += [("the skins that stay have the same slots", Implies(here, x.has(s) == y.has(s))), ("in the same order", z3.BoolVal(same_order(x.order, y.order))),
              ("slots keep their attachments", Implies(And(here, y.has(s)), x1().has(k) == y1().has(k))), ("attachments keep their order", z3.BoolVal(same_order(x1().order, y1().order)))]
        has = And(here, y.has(s), y1().has(k))
        z, z0 = A.deref(x1().get(k)), y1().get(k)
        g.append(("other attachments are unchanged", Implies(And(has, Not(linked(i, s, k))), A.f(z, z0))))
        m = att(E).get(s).get(parent(i, s, k))
        g.append(("a linked mesh of the erased skin becomes a mesh", Implies(And(has, linked(i, s, k)), meshes(W, z, "SkinMesh"))))
        for a in KINDS["SkinMesh"]["fields"]:
            own = a in ("name", "path", "width", "height", "color")
            g.append(("its %s is %s" % (a, "its own" if own else "the mesh's"), Implies(And(has, linked(i, s, k)), field_of(z, a) == field_of(z0 if own else m, a))))
        # images: those that stay use the same one; what is reported was used by the erased skin
        g.append(("attachments use the same images as before", Implies(has, And(meshes(W, z, "SkinPath") == meshes(W, z0, "SkinPath"), image_of(z, k) == image_of(z0, k)))))
        lst, dct = out[1]
        s_, k_ = bvar("s", V), bvar("k", V)
        usedby = lambda v: Exists([s_, k_], And(att(E).has(s_), att(E).get(s_).has(k_), Not(meshes(W, att(E).get(s_).get(k_), "SkinPath")), image_of(att(E).get(s_).get(k_), k_) == v))
        c = A.deref(vm.canon(lst)[1])
        w = fresh("w", V)
        for q_ in c.segs:
            inst = q_.inst()
            g.append(("an image reported was used by the erased skin", Implies(inst.cond, usedby(toV(inst.elem)))))
        c = A.deref(vm.canon(dct)[1])
        if z3.is_false(c.has(s)): pass
        else:
            c2 = A.deref(c.get(s))
            parts = [(T, c2)] if isinstance(c2, DictC) else [(c2.c, A.deref(c2.a)), (Not(c2.c), A.deref(c2.b))]
            for h, c3 in parts:
                if isinstance(c3, DictC) and not z3.is_false(c3.has(k)): g.append(("an image reported for an attachment was used by the erased skin", Implies(And(h, c.has(s), c3.has(k)), usedby(toV(c3.get(k))))))
        an = d["animations"]
        def anim(t):
            o = an.get(t)
            return Rec(o.cls, dict(o.fields, deform=only(o.fields["deform"], lambda u: u != name)))
        g += data_goals(W, {"animations": DictC({}, an.has, anim, an.order)}, "after", skip=["skins"])
        return g
    P.functions |= {"SpineAnimationData.remove_skin", "SpineAnimationData.get_skin"}
    P.run("remove_skin", vm, lambda: vm.inline(f, [W.data, name], {}), post)
    note(P)
