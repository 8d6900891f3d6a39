"""Custom scales (E09): the product of the scale tags in the names of a slot, of its bone and of that bone's ancestors below the root.
Reading the tags of a name goes by contract (T01)."""
import ast
from contracts.data import *
from contracts.editor import Ed, ED, note
from dv.induct import Rules
from dv.interp import Brk, Cont, Infeasible
from dv.smt import Real

AD = "data.spine_anim_data"

class Scales(Ed):
    """Any skeleton with distinct bone names in which every bone but the root has its parent among the bones."""
    def __init__(self, P, **kw):
        Ed.__init__(self, P, **kw)
        vm = self.vm
        self.bones, self.slots = self.data0.fields["bones"], self.data0.fields["slots"]
        self.n = self.bones.n
        self.name = lambda i: toV(self.bones.at(i).fields["name"])
        self.parent = lambda i: toV(self.bones.at(i).fields["parent"])
        self.tagged, self.tagval = z3.Function("tagged", V, Bool), z3.Function("tag.value", V, V)
        self.prod, self.of = z3.Function("product", V, Real), z3.Function("bone.of", V, Int)
        i, j, k = bvar("i", Int), bvar("j", Int), bvar("k", V)
        inr = lambda i: And(i >= 0, i < self.n)
        vm.assume(ForAll([k], Implies(self.tagged(k), smt.is_num(self.tagval(k)))))
        vm.assume(ForAll([i], Implies(inr(i), And(smt.kind(self.name(i)) == smt.K_STR, self.of(self.name(i)) == i))))          # distinct names
        self.root = lambda x: x == lit("root")
        self.parents_in = And(inr(self.of(self.parent(i))), self.name(self.of(self.parent(i))) == self.parent(i))
        vm.assume(ForAll([i], Implies(And(inr(i), Not(self.root(self.name(i)))), self.parents_in)))
        # the specification: the product of the tags from a bone up to, but not including, the root
        vm.assume(ForAll([i], Implies(inr(i), self.prod(self.name(i)) == If(self.root(self.name(i)), z3.RealVal(1), self.tag(self.name(i)) * self.prod(self.parent(i))))))
        self.contract_tags()
    def tag(self, x): return If(self.tagged(x), smt.num(self.tagval(x)), z3.RealVal(1))
    def is_bone(self, x): return And(self.of(x) >= 0, self.of(x) < self.n, self.name(self.of(x)) == x)
    def contract_tags(self):
        """get_tags_from_name of a name with valid tags: at most its scale, a number (T01)."""
        def contract(vm, f, args, kw):
            x = toV(list(self.args(f, args, kw).values())[0])
            return vm.alloc(DictC({"scale": (self.tagged(x), self.tagval(x))}))
        self.vm.contracts["get_tags_from_name"] = contract
    def at(self, i): return Loc(self.data.addr, (("f", "bones"), ("i", i)), self.vm.stamp if hasattr(self.vm, "stamp") else 0)
    def contract_bone(self):
        """get_bone_custom_scale_recursive(bone) is the product of the bone."""
        def contract(vm, f, args, kw):
            env = self.args(f, args, kw)
            b = [v for k, v in env.items() if k != "self"][0]
            if not isinstance(b, Loc): raise Unsupported("scale of something else than a bone")
            x = toV(vm.load(b).fields["name"])
            if not vm.entails(self.is_bone(x)): raise Unsupported("scale of a bone that may not be one of the skeleton")
            r = fresh("scale", V)
            vm.assume(And(smt.is_num(r), smt.num(r) == self.prod(x)))
            return r
        self.vm.contracts["SpineAnimationData.get_bone_custom_scale_recursive"] = contract

class Walk(Rules):
    """The loop up the bones: what was multiplied so far times the product of the bone it is at stays the same."""
    def __init__(self, P, W):
        super().__init__(P, "walk to the root")
        self.W = W
    def rule(self, vm, s):
        W, fr = self.W, vm.frame()
        isbone = lambda v: isinstance(v, Loc) and isinstance(vm.pick(vm.canon(v)[1]), Rec) and vm.pick(vm.canon(v)[1]).cls.name == "Bone"
        stored = sorted({x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        carried = [n for n in stored if n in fr]
        cur = [n for n in carried if isbone(fr[n])]
        num = [n for n in carried if not isinstance(fr[n], Loc)]
        if len(cur) != 1 or len(num) != 1 or len(carried) != 2: raise Unsupported("the variables of the loop")
        cur, num = cur[0], num[0]
        name = lambda: toV(vm.load(vm.frame()[cur]).fields["name"])
        value = lambda: vm.number(vm.frame()[num])
        total = value() * W.prod(name())
        self.oblige(vm, "starts at a bone of the skeleton", W.is_bone(name()))
        def havoc():
            fr = vm.frame()
            for n in stored: fr.pop(n, None)
            i, r = fresh("bone", Int), fresh("so_far", V)
            fr[cur], fr[num] = W.at(i), r
            vm.assume(And(i >= 0, i < W.n, smt.is_num(r), smt.num(r) * W.prod(W.name(i)) == total))
        def step(last):
            """One round from any state of the invariant.  last: only the rounds that end the loop."""
            havoc()
            if not vm.choose(vm.tr(vm.ev(s.test))): return
            try: vm.block(s.body)
            except Brk: return
            except Cont: pass
            if last: raise Infeasible()
            y = name()
            self.oblige(vm, "goes on to a bone of the skeleton", W.is_bone(y))
            self.oblige(vm, "what was multiplied times what is left stays the same", value() * W.prod(y) == total)
        vm.loopmarks.append(vm.naddr)
        try: paths = vm.explore(lambda: step(False))
        finally: vm.loopmarks.pop()
        for p in paths:
            if p.out[0] not in ("normal", "return"): raise Unsupported("the loop raises")
            if p.effects: raise Unsupported("the loop changes something: %s" % p.effects[0])
        step(True)
        for n in stored:
            if n not in (cur, num): vm.frame()[n] = Poison("%s set in a loop" % n)
        return True

def prove_bone_scale(P):
    W = Scales(P)
    vm = W.vm
    W.contract_bone()
    vm.while_rule = Walk(P, W).rule
    i = z3.Int("bone")
    vm.assume(And(i >= 0, i < W.n))
    f = vm.fn(AD, "SpineAnimationData.get_bone_custom_scale_recursive")
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        return [("the product of the tags from the bone to the root", vm.number(out[1]) == W.prod(W.name(i)))] + W.unchanged()
    P.functions |= {"SpineAnimationData.get_bone_custom_scale_recursive", "SpineAnimationData.get_bone", "Bone.get_scale_in_name"}
    P.run("get_bone_custom_scale_recursive", vm, lambda: vm.inline(f, [W.data, W.at(i)], {}), post)
    note(P)

def prove_slot_scale(P):
    W = Scales(P)
    vm = W.vm
    W.contract_bone()
    s = z3.Int("slot")
    slot = W.slots.at(s).fields
    vm.assume(And(s >= 0, s < W.slots.n, W.is_bone(toV(slot["bone"]))))
    f = vm.fn(AD, "SpineAnimationData.get_slot_custom_scale")
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        return [("the tag of the slot times the product of its bone", vm.number(out[1]) == W.tag(toV(slot["name"])) * W.prod(toV(slot["bone"])))] + W.unchanged()
    P.functions |= {"SpineAnimationData.get_slot_custom_scale", "SpineAnimationData.get_bone", "Slot.get_scale_in_name"}
    P.run("get_slot_custom_scale", vm, lambda: vm.inline(f, [W.data, Loc(W.data.addr, (("f", "slots"), ("i", s)), 0)], {}), post)
    note(P)

def prove_get_slot(P):
    """The slot of a name; images take their scale from it."""
    W = Scales(P)
    vm = W.vm
    i, x = bvar("i", Int), z3.Const("wanted", V)
    slots = W.slots
    nm = lambda i: toV(slots.at(i).fields["name"])
    f = vm.fn(AD, "SpineAnimationData.get_slot")
    vm.assume(smt.kind(x) == smt.K_STR)
    there = lambda i: And(i >= 0, i < slots.n, nm(i) == x)
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        if out[1] is None: return [("None only when no slot has the name", Not(Exists([i], there(i))))] + W.unchanged()
        if not isinstance(out[1], Loc): return [("a slot", F)]
        l = vm.canon(out[1])[0]
        if l.addr != W.data.addr or len(l.path) != 2 or l.path[0] != ("f", "slots"): return [("a slot of the skeleton", F)]
        return [("the slot has the name", there(l.path[1][1]))] + W.unchanged()
    P.functions.add("SpineAnimationData.get_slot")
    P.run("get_slot", vm, lambda: vm.inline(f, [W.data, x], {}), post)
    note(P)

def tasks_E09():
    from contracts.images import prove_get_images
    return [("get_bone_custom_scale_recursive", prove_bone_scale), ("get_slot_custom_scale", prove_slot_scale), ("get_slot", prove_get_slot), ("get_images_references", prove_get_images)]
