"""Which slots and attachments cleaning may remove (E03)."""
from contracts.data import *
from contracts.editor import *
from contracts.editor import Ed, Valid, list_members, any_slots
from dv.core import Seg, SetC, NOTHING
from dv.strs import HEX

HIDING = lambda n: Or(n == smt.NONE, n == lit("None"))

class Showing:
    """The definition: which slots an animation may show, and what it uses in them."""
    def __init__(self, P):
        self.W = W = Ed(P, filled=True)
        self.vm = vm = W.vm
        self.valid = W.valid = Valid(W)
        self.slots, self.anims, self.skins = W.data0.fields["slots"], W.data0.fields["animations"], W.data0.fields["skins"]
        i, k, s = bvar("i", Int), bvar("k", V), bvar("s", V)
        # colours are hexadecimal texts
        self.ishex = z3.Function("is.hexadecimal", V, Bool)
        vm.hexok = self.ishex
        vm.assume(ForAll([i], Implies(And(i >= 0, i < self.slots.n, self.col(i) != smt.NONE), self.ishex(self.col(i)))))
        # slots have names, timelines belong to slots
        vm.assume(ForAll([i], Implies(And(i >= 0, i < self.slots.n), self.name(i) != lit(""))))
        vm.assume(ForAll([k, s], Implies(And(self.anims.has(k), self.tl(k).has(s)), self.valid.isslot(s))))
    def name(self, i): return toV(self.slots.at(i).fields["name"])
    def att(self, i): return toV(self.slots.at(i).fields["attachment"])
    def col(self, i): return toV(self.slots.at(i).fields["color"])
    def isslot(self, i): return And(i >= 0, i < self.slots.n)
    def zero(self, i): return And(self.col(i) != smt.NONE, HEX(self.col(i)) % 256 == 0)
    def bare(self, i): return And([toV(self.slots.at(i).fields[a]) == smt.NONE for a in ("attachment", "dark", "blend", "color")])
    def tl(self, k): return self.anims.get(k).fields["slots"]
    def timeline(self, k, i): return self.tl(k).get(self.name(i))
    def keys(self, k, i): return self.timeline(k, i).fields["attachment"]
    def colours(self, k, i):
        t = self.timeline(k, i)
        return Or(t.fields["color"].n > 0, t.fields["twoColor"].n > 0)
    def hides(self, k, i):
        """Nothing but a single keyframe at the beginning, which hides."""
        c = self.keys(k, i)
        f = c.at(z3.IntVal(0)).fields
        return And(Not(self.colours(k, i)), c.n == 1, HIDING(toV(f["name"])), pyeq(toV(f["time"]), lit(0)))
    def keyed(self, k, i, x):
        j = bvar("j", Int)
        c = self.keys(k, i)
        n = lambda j: toV(c.at(j).fields["name"])
        return Exists([j], And(j >= 0, j < c.n, Not(HIDING(n(j))), n(j) == x))
    def something(self, k, i):
        j = bvar("j", Int)
        c = self.keys(k, i)
        return Or(self.att(i) != smt.NONE, Exists([j], And(j >= 0, j < c.n, Not(HIDING(toV(c.at(j).fields["name"]))))))
    def moves(self, k, i): return self.tl(k).has(self.name(i))
    def shows(self, k, i):
        """Formula: animation k may show the slot i."""
        return If(self.moves(k, i), And(Not(self.hides(k, i)), Implies(self.zero(i), self.colours(k, i)), Implies(self.bare(i), self.something(k, i))),
                  And(Not(self.zero(i)), Not(self.bare(i))))
    def uses(self, k, i, x):
        """Formula: animation k uses the attachment x (a text) in the slot i."""
        return And(self.shows(k, i), Or(x == self.att(i), And(self.moves(k, i), self.keyed(k, i, x))))
    # the parts of the computation
    def names_of(self, cond):
        i = bvar("i", Int)
        return self.vm.alloc(ListC([Seg([i], And(self.isslot(i), cond(i)), self.name(i))]))
    def is_names_of(self, out, cond, what):
        vm = self.vm
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        c = vm.pick(vm.canon(out[1])[1])
        if not isinstance(c, ListC): return [("a list", F)]
        x, i = fresh("x", V), bvar("i", Int)
        return [(what, list_members(c, x) == Exists([i], And(self.isslot(i), cond(i), self.name(i) == x)))] + self.W.unchanged()

def prove_alpha(P):
    S = Showing(P)
    f = S.vm.fn("data.spine_anim_data", "SpineAnimationData.get_slots_with_alpha_zero")
    P.functions.add("SpineAnimationData.get_slots_with_alpha_zero")
    P.run("get_slots_with_alpha_zero", S.vm, lambda: S.vm.inline(f, [S.W.data], {}), lambda vm, out: S.is_names_of(out, S.zero, "exactly the slots with a transparent colour"))
    note(P)

def prove_bare(P):
    S = Showing(P)
    f = S.vm.fn("data.spine_anim_data", "SpineAnimationData.get_slots_not_visible_in_setup_pose")
    P.functions.add("SpineAnimationData.get_slots_not_visible_in_setup_pose")
    P.run("get_slots_not_visible_in_setup_pose", S.vm, lambda: S.vm.inline(f, [S.W.data], {}), lambda vm, out: S.is_names_of(out, S.bare, "exactly the slots with nothing to show"))
    note(P)

def prove_visible(P):
    S = Showing(P)
    vm, W = S.vm, S.W
    k = z3.Const("animation", V)
    vm.assume(S.anims.has(k))
    i = bvar("i", Int)
    plain = lambda x: Exists([i], And(S.isslot(i), Not(S.zero(i)), Not(S.bare(i)), S.name(i) == toV(x)))
    args = [W.data, W.data.step(("f", "animations")).step(("k", k)).step(("f", "slots")), vm.alloc(SetC(plain)), S.names_of(S.zero), S.names_of(S.bare)]
    f = vm.fn("data.spine_anim_data", "SpineAnimationData.get_visible_slots_and_attachments")
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        A = Agree(vm)
        shown, used = [A.deref(vm.canon(x)[1]) for x in out[1]]
        if not isinstance(shown, SetC) or not isinstance(used, DictC): return [("a set and a dict", F)]
        j, x, s = fresh("j", Int), fresh("x", V), fresh("s", V)
        u = A.deref(used.get(S.name(j)))
        if not isinstance(u, SetC): return [("sets of attachments", F)]
        text = smt.kind(x) == smt.K_STR
        return [("a slot is visible exactly when the animation may show it", Implies(S.isslot(j), shown.mem(S.name(j)) == S.shows(k, j))),
                ("only slots are visible", Implies(shown.mem(s), S.valid.isslot(s))), ("attachments used in slots", Implies(used.has(s), S.valid.isslot(s))),
                ("the attachments used in a slot that is shown", Implies(And(S.isslot(j), S.shows(k, j), text), And(used.has(S.name(j)), u.mem(x) == S.uses(k, j, x)))),
                ("none of the others", Implies(And(S.isslot(j), Not(S.shows(k, j)), used.has(S.name(j))), Not(u.mem(x))))] + W.unchanged()
    P.functions |= {"SpineAnimationData.get_visible_slots_and_attachments", "SlotTimeline.is_empty", "SlotTimeline.has_color", "SlotTimeline.get_used_attachments", "SlotKeyframe.is_empty"}
    P.run("get_visible_slots_and_attachments", vm, lambda: vm.inline(f, args, {}), post)
    note(P)

class Parts(Showing):
    """The three parts above, by contract."""
    def __init__(self, P):
        Showing.__init__(self, P)
        c = self.vm.contracts
        c["SpineAnimationData.get_slots_with_alpha_zero"] = lambda vm, f, args, kw: self.part(args, kw, f, self.zero)
        c["SpineAnimationData.get_slots_not_visible_in_setup_pose"] = lambda vm, f, args, kw: self.part(args, kw, f, self.bare)
        c["SpineAnimationData.get_visible_slots_and_attachments"] = self.visible
        i, k, s, x = bvar("i", Int), bvar("k", V), bvar("s", V), bvar("x", V)
        # shown: what an animation may show; usedin: what it uses there
        self.shown = z3.Function("shown", V, Int, Bool)
        self.usedin = z3.Function("used.in", V, Int, V, Bool)
        self.Z, self.B = z3.Function("transparent", Int, Bool), z3.Function("bare", Int, Bool)
        vm = self.vm
        self.slot = self.valid.slot
        vm.assume(ForAll([k, i], Implies(And(self.isslot(i), smt.kind(self.att(i)) == smt.K_STR), self.usedin(k, i, self.att(i)))))      # by the definition of uses
    def zero(self, i): return z3.Function("transparent", Int, Bool)(i)
    def bare(self, i): return z3.Function("bare", Int, Bool)(i)
    def part(self, args, kw, f, cond):
        vm = self.vm
        if vm.canon(self.W.args(f, args, kw)["self"])[0].addr != self.W.data.addr: raise Unsupported("another skeleton")
        vm.log_read(self.W.data.step(("f", "slots")), True)
        return self.names_of(cond)
    def same(self, l, cond, what):
        """l holds exactly the names of the slots with the property."""
        vm, i, x = self.vm, bvar("i", Int), fresh("x", V)
        c = vm.pick(vm.canon(l)[1])
        m = list_members(c, x) if isinstance(c, ListC) else c.mem(x)
        if not vm.entails(m == Exists([i], And(self.isslot(i), cond(i), self.name(i) == x)), 5000): raise Unsupported("another set of slots: %s" % what)
    def visible(self, vm, f, args, kw):
        env = self.W.args(f, args, kw)
        if vm.canon(env["self"])[0].addr != self.W.data.addr: raise Unsupported("another skeleton")
        l = vm.canon(env["anim_slots"])[0]
        if l.addr != self.W.data.addr or len(l.path) != 3 or l.path[0] != ("f", "animations") or l.path[2] != ("f", "slots"): raise Unsupported("timelines of something else")
        k = toV(l.path[1][1])
        self.same(env["visible_slots"], lambda i: And(Not(self.zero(i)), Not(self.bare(i))), "visible_slots")
        self.same(env["alpha_zero_slots"], self.zero, "alpha_zero_slots")
        self.same(env["no_attachment_slots"], self.bare, "no_attachment_slots")
        vm.log_read(self.W.data, True)
        has = freshf("has.used", V, V, Bool)
        i, s, x, a = bvar("i", Int), bvar("s", V), bvar("x", V), bvar("a", V)
        vm.assume(ForAll([s], Implies(has(k, s), self.valid.isslot(s))))
        vm.assume(ForAll([i], Implies(And(self.isslot(i), self.shown(k, i)), has(k, self.name(i)))))
        other = freshf("used.other", V, V, V, Bool)                       # members that are no texts
        return (vm.alloc(SetC(lambda x: And(self.valid.isslot(x), self.shown(k, self.slot(toV(x)))))),
                vm.alloc(DictC({}, lambda s: has(k, toV(s)), lambda s: SetC(lambda x: And(self.shown(k, self.slot(toV(s))), If(smt.kind(toV(x)) == smt.K_STR, self.usedin(k, self.slot(toV(s)), toV(x)), other(k, toV(s), toV(x))))))))

def prove_unused(P):
    S = Parts(P)
    vm, W = S.vm, S.W
    f = vm.fn("data.spine_anim_data", "SpineAnimationData.get_unused_slots_and_attachments")
    k, i, j, s, x = bvar("k", V), bvar("i", Int), bvar("j", Int), bvar("s", V), bvar("x", V)
    shown = lambda i: Exists([k], And(S.anims.has(k), S.shown(k, i)))
    used = lambda x: Exists([k, i], And(S.anims.has(k), S.isslot(i), S.shown(k, i), S.usedin(k, i, x)))
    sk = lambda j: S.skins.at(j).fields["attachments"]
    there = lambda j, s, x: And(j >= 0, j < S.skins.n, sk(j).has(s), sk(j).get(s).has(x))
    from contracts.editor import meshes
    ismesh = lambda j, s, x: meshes(W, sk(j).get(s).get(x), "SkinMesh")
    keeps = lambda x: Exists([j, s], And(there(j, s, x), ismesh(j, s, x), shown(S.slot(s))))
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        A = Agree(vm)
        gone, unused = [A.deref(vm.canon(x)[1]) for x in out[1]]
        if not isinstance(gone, SetC) or not isinstance(unused, SetC): return [("two sets", F)]
        q, y = fresh("q", Int), fresh("y", V)
        return [("a slot may be removed exactly when no animation may show it", Implies(S.isslot(q), gone.mem(S.name(q)) == Not(shown(q)))),
                ("only slots are removed", Implies(gone.mem(y), S.valid.isslot(y))),
                ("attachments removed are in some skin", Implies(unused.mem(y), Exists([j, s], there(j, s, y)))),
                ("no attachment that is used is removed", Implies(unused.mem(y), Not(used(y)))),
                ("no mesh of a slot that stays is removed", Implies(unused.mem(y), Not(keeps(y)))),
                ("nor the setup attachment of a slot that stays", Implies(And(S.isslot(q), shown(q)), Not(unused.mem(S.att(q))))),
                ("every other attachment is removed", Implies(And(Exists([j, s], there(j, s, y)), Not(used(y)), Not(keeps(y))), unused.mem(y)))] + W.unchanged()
    P.functions.add("SpineAnimationData.get_unused_slots_and_attachments")
    P.run("get_unused_slots_and_attachments", vm, lambda: vm.inline(f, [W.data], {}), post)
    note(P)

def tasks_E03():
    from contracts.editor import prove_clean, prove_remove_attachments, prove_remove_slots
    return [("get_slots_with_alpha_zero", prove_alpha), ("get_slots_not_visible_in_setup_pose", prove_bare), ("get_visible_slots_and_attachments", prove_visible),
            ("get_unused_slots_and_attachments", prove_unused), ("clean_animation", prove_clean)]
