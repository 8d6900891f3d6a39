"""The skeleton data: kinds of objects, symbolic documents, and the contracts of the functions of SpineData.
The attributes, required attributes and defaults of every kind are those of rt/schema.py, not those of the source."""
import z3
from dv import smt
from dv.smt import V, R, Int, Bool, Real, And, Or, Not, If, Implies, Exists, ForAll, lit, toV, bvar, fresh, pyeq, truth
from dv.core import *
from dv.interp import PyExc, T, F
from dv.evalx import b2z
from rt.schema import KINDS, ATTACHMENTS, defaults

LEAVES = [k for k in KINDS if not KINDS[k]["kids"]]
MODULE = {"SpineAnimationData": "data.spine_anim_data"}
for k_ in ("Bone", "BoneTranslateAndShearKeyframe", "BoneRotateAndScaleKeyframe", "BoneTimeline"): MODULE[k_] = "data.data_types.bone"
for k_ in ("Slot", "SlotKeyframe", "SlotTimeline"): MODULE[k_] = "data.data_types.slot"
for k_ in ("Skin38", "SkinAttachment", "SkinMesh", "SkinPath", "SkinLinkedMesh", "SkinBoundingBox", "SkinPoint", "SkinClipping"): MODULE[k_] = "data.data_types.skin"
for k_ in ("Events", "EventTimeline"): MODULE[k_] = "data.data_types.events"
for k_ in ("Ik", "IkTimeline"): MODULE[k_] = "data.data_types.ik"
for k_ in ("Path", "PathTimeline"): MODULE[k_] = "data.data_types.path"
for k_ in ("Transform", "TransformTimeline"): MODULE[k_] = "data.data_types.transform"
for k_ in ("DrawOrderTimeline", "DrawOrderTimelineOffset"): MODULE[k_] = "data.data_types.draworder"
MODULE["Deform"], MODULE["Animation"] = "data.data_types.deform", "data.data_types.animation"

JSON = {"EMPTYL": smt.EMPTYL, "EMPTYD": smt.EMPTYD}
def jval(x):
    """A JSON default value as a scalar content."""
    if x == [] and isinstance(x, list): return smt.EMPTYL
    if x == {} and isinstance(x, dict): return smt.EMPTYD
    return lit(x)

# ------------------------------------------------------------------------------------------- symbolic documents
class Sym:
    """Unknown documents: every attribute of every object may be there or not, with any value; collections of any size."""
    def __init__(self, vm, always=(), strings=()):
        self.vm, self.fs, self.always, self.strings = vm, {}, set(always), set(strings)
    def f(self, name, args, sort):
        if not args:
            c = z3.Const(name, sort)
            if sort == V and name.split(".", 1)[-1] in self.strings: smt.STRFUNS.add(name)
            return c
        k = (name, tuple(str(a.sort()) for a in args), sort)
        if k not in self.fs:
            self.fs[k] = z3.Function(name, *([a.sort() for a in args] + [sort]))
            xs = [bvar("q", a.sort()) for a in args]
            if sort == V and name.split(".")[-1] in self.strings:
                smt.STRFUNS.add(name)
                self.vm.assume(ForAll(xs, smt.kind(self.fs[k](*xs)) == smt.K_STR))
            if sort == Int: self.vm.assume(ForAll(xs, self.fs[k](*xs) >= 0))
        return self.fs[k](*args)
    def obj(self, kind, name, args=(), extra=False):
        """A document of this kind; extra: it may also have any other keys."""
        e = {}
        args = list(args)
        for a in KINDS[kind]["fields"]:
            n = "%s.%s" % (name, a)
            req = a in KINDS[kind]["req"] and not extra or (kind, a) in self.always
            p = T if req else self.f(n + ".there", args, Bool)
            if a in KINDS[kind]["kids"]: v = self.shape(KINDS[kind]["kids"][a], n, args)
            else: v = self.f(n, args, V)
            e[a] = (p, v)
        if not extra: return DictC(e)
        M = lambda k: self.f(name + ".other", args + [k], Bool)
        return DictC(e, M, lambda k: self.f(name + ".otherv", args + [k], V))
    def shape(self, s, name, args):
        if s[0] == "list":
            n = self.f(name + ".len", args, Int)
            if not args: self.vm.assume(n >= 0)
            return ListC(n=n, at=lambda i: self.shape(s[1], name + ".item", args + [i if isinstance(i, z3.ExprRef) else z3.IntVal(i)]))
        if s[0] == "dict":
            return DictC({}, lambda k: self.f(name + ".has", args + [toV(k)], Bool), lambda k: self.shape(s[1], name + ".at", args + [toV(k)]), order=("doc", name) + tuple(args))
        if s[0] == "attachment": return self.attachment(name, args)
        return self.obj(s[1], name, args)
    def attachment(self, name, args):
        """An attachment of some type: only the attributes of its type are there."""
        kinds = ["SkinAttachment", "SkinPath", "SkinMesh", "SkinLinkedMesh"]
        p1, p2 = self.f(name + ".type.there", args, Bool), self.f(name + ".type2", args, Int)
        w = {"SkinAttachment": Not(p1), "SkinPath": And(p1, p2 == 0), "SkinMesh": And(p1, p2 == 1), "SkinLinkedMesh": And(p1, p2 >= 2)}
        e = {"type": (p1, smt.ite(p2 == 0, lit("path"), smt.ite(p2 == 1, lit("mesh"), lit("linkedmesh"))))}
        for a in sorted({a for k in kinds for a in KINDS[k]["fields"]}):
            if a == "type": continue
            has = Or([w[k] for k in kinds if a in KINDS[k]["fields"]])
            e[a] = (And(has, self.f("%s.%s.there" % (name, a), args, Bool)), self.f("%s.%s" % (name, a), args, V))
        return DictC(e)

# ------------------------------------------------------------------------------------------- the specification
ABSENT = {("DrawOrderTimeline", "time"): 0}     # what an absent attribute is loaded as, when not None

class Spec:
    """What loading, filling in defaults, exporting and cleaning make of an object, by its kind."""
    def __init__(self, vm):
        self.vm = vm
    def c(self, kind): return self.vm.cls(MODULE[kind], kind)
    def kids(self, s, c, f):
        """f on every object of a container of shape s."""
        if isinstance(c, IteC): return mk_ite(c.c, self.kids(s, c.a, f), self.kids(s, c.b, f))
        if not isinstance(c, STRUCT): return c
        if s[0] == "list":
            return ListC(n=c.n, at=lambda i: self.kids(s[1], c.at(i), f), ordered=c.ordered)
        if s[0] == "dict":
            if c.pure() and not c.entries: return DictC()
            return DictC({}, c.has, lambda k: self.kids(s[1], c.get(k), f), c.order)
        if s[0] == "attachment":
            if isinstance(c, Rec): return f(c.cls.name, c)
            t = lambda x: And(c.has("type"), c.get("type") == lit(x))
            w = {k: t(x) for x, k in ATTACHMENTS.items() if x}
            r = f("SkinAttachment", c)
            for k in ("SkinPath", "SkinMesh", "SkinLinkedMesh"): r = mk_ite(w[k], f(k, c), r)
            return r
        return f(s[1], c)
    def empty(self, s): return ListC([]) if s[0] == "list" else DictC()
    def build(self, kind, d):
        """The object loaded from document d."""
        out = {}
        for a in KINDS[kind]["fields"]:
            p = d.has(a)
            if a in KINDS[kind]["kids"]:
                s = KINDS[kind]["kids"][a]
                there = self.kids(s, d.get(a), self.build)
                if kind == "Skin38": out[a] = mk_ite(p, there, None)
                elif isinstance(there, ListC): out[a] = there if z3.is_true(p) else ListC(n=If(p, there.n, z3.IntVal(0)), at=there.at)
                else: out[a] = there if z3.is_true(p) else DictC({}, lambda k, there=there, p=p: And(p, there.has(k)), there.get, there.order)
            else:
                none = ABSENT.get((kind, a))
                out[a] = d.get(a) if z3.is_true(p) else smt.ite(p, d.get(a), none) if not z3.is_false(p) else lit(none)
        return Rec(self.c(kind), out)
    def filled(self, kind, r, new):
        """The object with the declared defaults in place of None."""
        out = {}
        for a, v in r.fields.items():
            o, n = defaults(kind, False), defaults(kind, True)
            if a in KINDS[kind]["kids"]:
                s = KINDS[kind]["kids"][a]
                if isinstance(v, IteC): v = mk_ite(v.c, self.kids(s, v.a, lambda k, x: self.filled(k, x, new)), DictC() if a in n else v.b)
                elif v is None: v = DictC() if a in n else None
                else: v = self.kids(s, v, lambda k, x: self.filled(k, x, new))
                out[a] = v
            else:
                dn = jval(n[a]) if a in n else smt.NONE
                do = jval(o[a]) if a in o else smt.NONE
                out[a] = smt.ite(toV(v) == smt.NONE, smt.ite(new, dn, do), v)
        return Rec(r.cls, out)
    def export(self, kind, r, new):
        """The document exported from an object."""
        e = {}
        for a, v in r.fields.items():
            o, n = defaults(kind, False), defaults(kind, True)
            if a in KINDS[kind]["kids"]:
                s = KINDS[kind]["kids"][a]
                assert (a in o) == (a in n)
                if v is None: continue
                if isinstance(v, IteC): v = v.a
                x = self.kids(s, v, lambda k, y: self.export(k, y, new))
                e[a] = (b2z(self.vm.nonempty(v)) if a in n else T, x)
            else:
                def keep(d):
                    if a not in d: return v != smt.NONE
                    if d[a] is None: return T
                    return And(v != smt.NONE, Not(pyeq(v, jval(d[a]))))
                v = toV(v)
                e[a] = (If(new, keep(n), keep(o)), v)
        return DictC(e)
    def cleaned(self, kind, r, new):
        out = {}
        for a, v in r.fields.items():
            if a in KINDS[kind]["unsup"]: out[a] = smt.ite(new, v, None)
            elif a in KINDS[kind]["kids"]: out[a] = self.kids(KINDS[kind]["kids"][a], v, lambda k, x: self.cleaned(k, x, new))
            else: out[a] = v
        return Rec(r.cls, out)

# ------------------------------------------------------------------------------------------- equality of contents
class Agree:
    """Goals saying that two contents are the same; heap references are followed in the given states."""
    def __init__(self, vm, heap=None):
        self.vm, self.heap, self.n = vm, heap if heap is not None else vm.st.heap, 0
    def deref(self, c):
        while isinstance(c, Ref): c = self.at(c.loc)
        return c
    def at(self, loc):
        c = self.deref(self.heap[loc.addr])
        for s in loc.path:
            c = self.deref(self.walk(c, s))
        return c
    def walk(self, c, s):
        if isinstance(c, IteC): return mk_ite(c.c, self.walk(self.deref(c.a), s), self.walk(self.deref(c.b), s))
        return self.vm.step(c, s)
    def f(self, a, b):
        """Formula: a and b are the same data."""
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, Loc): a = self.at(a)
        if isinstance(b, Loc): b = self.at(b)
        if a is b: return T
        if isinstance(a, IteC): return And(Implies(a.c, self.f(a.a, b)), Implies(Not(a.c), self.f(a.b, b)))
        if isinstance(b, IteC): return And(Implies(b.c, self.f(a, b.a)), Implies(Not(b.c), self.f(a, b.b)))
        sc = lambda x: not isinstance(x, STRUCT) and x is not NOTHING
        if sc(a) and sc(b):
            x, y = toV(a), toV(b)
            return T if x.eq(y) else x == y
        if sc(a): a, b = b, a
        if sc(b):
            e = self.vm.isempty(a)
            if isinstance(a, ListC): return And(toV(b) == smt.EMPTYL, b2z(e))
            if isinstance(a, DictC): return And(toV(b) == smt.EMPTYD, b2z(e))
            return F
        if isinstance(a, Rec) and isinstance(b, Rec):
            if a.cls is not b.cls or set(a.fields) != set(b.fields): return F
            return And([self.f(a.fields[k], b.fields[k]) for k in a.fields])
        if isinstance(a, ListC) and isinstance(b, ListC):
            x, y = as_base(a), as_base(b)
            if x is None or y is None: raise Unsupported("comparison of filtered lists")
            i = bvar("i", Int)
            return And(x[0] == y[0], ForAll([i], Implies(And(i >= 0, i < y[0]), self.f(x[1](i), y[1](i)))))
        if isinstance(a, DictC) and isinstance(b, DictC):
            out = []
            keys = list(a.entries) + [k for k in b.entries if k not in a.entries]
            for k in keys:
                p, q = a.has(k), b.has(k)
                if not z3.is_false(p) or not z3.is_false(q): out.append(T if p.eq(q) else p == q)
                if not z3.is_false(p) and not z3.is_false(q): out.append(Implies(q, self.f(a.get(k), b.get(k))))
            if a.has_ is not None or b.has_ is not None:
                k = bvar("k", V)
                h = b.has(k)
                out.append(ForAll([k], And(a.has(k) == h, Implies(h, self.f(a.get(k), b.get(k))))))
            return And(out)
        if a is NOTHING or b is NOTHING: return F
        return F

# ------------------------------------------------------------------------------------------- contracts
BASE = "data.data_types.base_type"
TRUST = ["dict, list, isinstance, issubclass, copy.deepcopy and attribute access behave as documented (Python)",
         "numbers are mathematical (int as integers, float as reals); 'is' between strings is taken as =="]
ASSUME = ["JSON values other than skeleton objects (numbers, texts, lists of numbers) are opaque values with == an equivalence on them"]

class World:
    """A machine with an unknown document of a version and the contracts of the data classes."""
    def __init__(self, P, **kw):
        self.P, self.vm = P, P.vm()
        self.spec, self.sym = Spec(self.vm), Sym(self.vm, **kw)
        self.major, self.minor, self.patch = z3.Ints("major minor patch")
        self.new = Or(self.major > 3, And(self.major == 3, Or(self.minor > 8, And(self.minor == 8, self.patch >= 0))))
        self.vm.assume(And(self.major >= 0, self.minor >= 0, self.patch >= 0))
        vm = self.vm
        v = Rec(vm.cls("data.spine_version_type", "SpineVersion"), {"version": z3.Const("version", V), "major": self.major, "minor": self.minor, "patch": self.patch, "_int_version": z3.Int("intversion")})
        self.version = vm.alloc(v)
        smt.STRFUNS.add("version")
        self.calls = {}
    def args(self, f, args, kw):
        env = self.vm.bindargs(f, args, kw)
        for v in env.values():
            if isinstance(v, Loc): self.vm.stale_check(self.vm.canon(v)[0])
        return env
    def kind(self, loc):
        c = self.vm.pick(self.vm.canon(loc)[1])
        return c.cls.name if isinstance(c, Rec) else None, c
    def is_new(self, v):
        """The version argument of a contracted function is the version of the document."""
        if not (isinstance(v, Loc) and self.vm.canon(v)[0].addr == self.version.addr and not self.vm.canon(v)[0].path): raise Unsupported("another version")
        return self.new
    def constructors(self, kinds):
        for k in kinds: self.vm.contracts[k] = self.constructor(k)
    def constructor(self, kind):
        def contract(vm, cls, args, kw):
            l = (list(args) + list(kw.values()) + [None])[0]
            if not isinstance(l, Loc): return NotImplemented
            vm.log_read(vm.canon(l)[0], True)
            c = vm.pick(vm.canon(l)[1])
            if not isinstance(c, DictC): return NotImplemented
            if c.has_ is not None: return NotImplemented
            for a, (p, _) in c.entries.items():
                if a not in KINDS[kind]["fields"] and (kind, a) != (TOP, "skeleton") and not vm.entails(Not(p)): raise Unsupported("%s with %s" % (kind, a))
            for a in KINDS[kind]["req"]:
                if not vm.entails(c.has(a)): raise Unsupported("%s without %s" % (kind, a))
            return vm.alloc(self.spec.build(kind, c))
        return contract
    def per_object(self, qual, make, update):
        """The function of SpineData on one object: what it makes of it."""
        skip = [True]
        def contract(vm, f, args, kw):
            env = self.args(f, args, kw)
            kind, c = self.kind(env["obj"])
            if kind not in KINDS: return NotImplemented
            new = self.is_new(env["version"])
            if update:
                l = vm.canon(env["obj"])[0]
                vm.log_read(l, True)
                vm.modify(l, lambda _: make(kind, c, new), "slot")
                return None
            vm.log_read(vm.canon(env["obj"])[0], True)
            return vm.alloc(make(kind, c, new))
        self.vm.contracts[qual] = contract
    def opaque_traverse(self):
        """Traversing a JSON value that holds no skeleton object copies it."""
        def contract(vm, f, args, kw):
            o = self.args(f, args, kw)["obj"]
            if isinstance(o, z3.ExprRef) and o.sort() == V: return o
            return NotImplemented
        self.vm.contracts["SpineData.traverse_spine_data"] = contract
    def fn(self, name): return self.vm.fn(BASE, "SpineData." + name)

def kinds_of(kind):
    """The kinds of the objects directly inside."""
    out = []
    def go(s):
        if s[0] in ("list", "dict"): go(s[1])
        elif s[0] == "attachment": out.extend(["SkinAttachment", "SkinPath", "SkinMesh", "SkinLinkedMesh", "SkinBoundingBox", "SkinPoint", "SkinClipping"])
        else: out.append(s[1])
    for s in KINDS[kind]["kids"].values(): go(s)
    return out

def by_field(W, got, want, label):
    """Goals field by field."""
    A = Agree(W.vm)
    got = A.deref(got)
    if isinstance(got, Loc): got = A.at(got)
    if not isinstance(got, Rec) or got.cls is not want.cls: return [("%s: an object of the class" % label, F)]
    out = [("%s: exactly the declared attributes" % label, z3.BoolVal(set(got.fields) == set(want.fields)))]
    for a in want.fields:
        if a in got.fields: out.append(("%s: %s" % (label, a), A.f(got.fields[a], want.fields[a])))
    return out

ROOT = [("SpineAnimationData", "bones"), ("SpineAnimationData", "skins")]
def prove_constructor(P, kind):
    W = World(P, always=ROOT)
    vm = W.vm
    W.constructors(kinds_of(kind))
    d = W.sym.obj(kind, "d")
    if kind == "SpineAnimationData": d = DictC(dict(d.entries, skeleton=(T, z3.Const("skeleton", V))))
    d = vm.alloc(d)
    doc = vm.load(d, log=False)
    def post(vm, out):
        if out[0] != "normal": return [("accepts a supported document, not %r" % (out[1],), F)]
        return by_field(W, out[1], W.spec.build(kind, doc), "loads") + [("the document is unchanged", Agree(vm).f(vm.st.heap[d.addr], doc))]
    P.functions.add(kind + ".__init__")
    P.run("%s(document)" % kind, vm, lambda: vm.construct(vm.cls(MODULE[kind], kind), [d], {}) if False else build_top(vm, kind, d), post)

def build_top(vm, kind, d):
    """The constructor's own body (its contract is for callers)."""
    return vm.construct(vm.cls(MODULE[kind], kind), [d], {})

def any_object(W, kind, name="o"):
    """Any object of the kind, as loading makes it."""
    return W.spec.build(kind, W.sym.obj(kind, name))

PER = {"set_default_values_from_version": ("filled", True), "to_spine_data_ignoring_default_values": ("export", False), "remove_unsupported_attributes": ("cleaned", True)}
def prove_per_object(P, kind, fname):
    W = World(P, always=ROOT)
    vm, spec = W.vm, W.spec
    what, update = PER[fname]
    make = getattr(spec, what)
    rec = any_object(W, kind)
    if kind == "Skin38" and what != "filled":
        rec = Rec(rec.cls, dict(rec.fields, attachments=rec.fields["attachments"].a if isinstance(rec.fields["attachments"], IteC) else rec.fields["attachments"]))
    o = vm.alloc(rec)
    W.opaque_traverse()
    f = W.fn(fname)
    if KINDS[kind]["kids"]: W.per_object("SpineData." + fname, make, update)
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        want = make(kind, rec, W.new)
        if update: return by_field(W, o, want, "effect")
        A = Agree(vm)
        got = A.at(out[1]) if isinstance(out[1], Loc) else None
        if not isinstance(got, DictC) or got.has_ is not None: return [("result: a document", F)]
        res = [("result: only declared attributes", z3.BoolVal(set(got.entries) <= set(want.entries)))]
        for a in want.entries:
            if a in got.entries:
                p, q = got.has(a), want.has(a)
                res += [("result: %s is there when it should be" % a, p == q), ("result: %s" % a, Implies(q, A.f(got.get(a), want.get(a))))]
            else: res.append(("result: %s is left out" % a, Not(want.has(a))))
        return res + by_field(W, o, rec, "object unchanged")
    P.functions.add("SpineData." + fname)
    args = {"obj": o, "version": W.version}
    names = [x.arg for x in f.d.node.args.args]
    P.run("%s on %s" % (fname, kind), vm, lambda: vm.inline(f, [args[n] for n in names], {}), post)


def prove_traverse(P):
    """Traversing a JSON value without skeleton objects gives an equal value, for every function of an object."""
    for case in ("scalar", "list", "dict"):
        W = World(P)
        vm = W.vm
        v = z3.Const("v", V)
        if case == "scalar":
            vm.assume(And(smt.kind(v) >= smt.K_NONE, smt.kind(v) <= smt.K_STR))
            o, c = v, v
        else:
            n, at, has = z3.Int("n"), z3.Function("elem", Int, V), z3.Function("has", V, Bool)
            val = z3.Function("val", V, V)
            vm.assume(n >= 0)
            c = ListC(n=n, at=lambda i: at(i)) if case == "list" else DictC({}, lambda k: has(k), lambda k: val(k), order=("d",))
            o = vm.alloc(c)
        f = W.fn("traverse_spine_data")
        W.opaque_traverse()
        def post(vm, out):
            if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
            A = Agree(vm)
            g = [("an equal value", A.f(out[1], c))]
            if case != "scalar": g += [("a new object", z3.BoolVal(isinstance(out[1], Loc) and vm.canon(out[1])[0].addr != o.addr)), ("the value is unchanged", A.f(vm.st.heap[o.addr], c))]
            return g
        P.functions.add("SpineData.traverse_spine_data")
        g = W.fn("set_default_values_from_version")
        P.run("traverse_spine_data on a %s" % case, vm, lambda: vm.inline(f, [o, g], {"version": W.version}), post)

TOP = "SpineAnimationData"
def top_document(W):
    """A document with the header."""
    d = W.sym.obj(TOP, "d")
    hs, hv = z3.Function("header.has", V, Bool), z3.Function("header.at", V, V)
    head = DictC({"spine": (T, z3.Const("header.spine", V))}, lambda k: hs(k), lambda k: hv(k), order=("header",))
    smt.STRFUNS.add("header.spine")
    return DictC(dict(d.entries, skeleton=(T, head))), head

def json_data(W, head, data):
    """The JsonSpineAnimationData of a header and an object."""
    return Rec(W.vm.cls(MODULE[TOP], "JsonSpineAnimationData"), {"skeleton": head, "spine_version": Ref(W.version), "data": data})

def version_contract(W):
    def contract(vm, cls, args, kw):
        v = (list(args) + list(kw.values()))[0]
        if not (isinstance(v, z3.ExprRef) and v.eq(z3.Const("header.spine", V))): raise Unsupported("a version of something else than the header")
        return W.version
    W.vm.contracts["SpineVersion"] = contract

def prove_load(P):
    W = World(P, always=ROOT)
    vm, spec = W.vm, W.spec
    doc, head = top_document(W)
    d = vm.alloc(doc)
    W.constructors([TOP])
    version_contract(W)
    W.opaque_traverse()
    W.per_object("SpineData.set_default_values_from_version", spec.filled, True)
    C = vm.cls(MODULE[TOP], "JsonSpineAnimationData")
    def post(vm, out):
        if out[0] != "normal": return [("loads, not %r" % (out[1],), F)]
        A = Agree(vm)
        c = A.at(out[1])
        if not isinstance(c, Rec): return [("an editor document", F)]
        if not {"skeleton", "spine_version", "data"} <= set(c.fields): return [("the header, the version and the data are kept", F)]
        g = [
             ("the header is that of the document", A.f(c.fields["skeleton"], head)),
             ("the version is that of the header", z3.BoolVal(isinstance(c.fields["spine_version"], Ref) and c.fields["spine_version"].loc.addr == W.version.addr)),
             ("the caller's document is unchanged", A.f(vm.st.heap[d.addr], doc))]
        return g + by_field(W, c.fields["data"], spec.filled(TOP, spec.build(TOP, DictC({k: v for k, v in doc.entries.items() if k != "skeleton"})), W.new), "data")
    P.functions |= {"JsonSpineAnimationData.__init__", "JsonSpineAnimationData.load_data", "SpineData.set_default_values"}
    P.run("JsonSpineAnimationData(document)", vm, lambda: vm.construct(C, [d], {}), post)

def prove_export(P):
    W = World(P, always=ROOT)
    vm, spec = W.vm, W.spec
    doc, head = top_document(W)
    data = any_object(W, TOP)
    j = json_data(W, head, data)
    o = vm.alloc(j)
    W.opaque_traverse()
    W.per_object("SpineData.to_spine_data_ignoring_default_values", spec.export, False)
    f = vm.fn(MODULE[TOP], "JsonSpineAnimationData.to_json_data")
    def post(vm, out):
        if out[0] != "normal": return [("exports, not %r" % (out[1],), F)]
        A = Agree(vm)
        want = spec.export(TOP, data, W.new)
        want = DictC(dict(want.entries, skeleton=(T, head)))
        return [("the header and the exported data", A.f(out[1], want)), ("nothing changes", A.f(vm.st.heap[o.addr], j))]
    P.functions |= {"JsonSpineAnimationData.to_json_data", "SpineData.to_json"}
    P.run("JsonSpineAnimationData.to_json_data", vm, lambda: vm.inline(f, [o], {}), post)

# ------------------------------------------------------------------------------------------- loading and exporting
def composition_goals(W, s, a, b, name, hyps, out):
    """Goals saying that documents a and b of shape s have the same effective content."""
    spec, vm = W.spec, W.vm
    if s[0] == "list":
        i = fresh("i", Int)
        out.append((name + ": as many", hyps, a.n == b.n))
        composition_goals(W, s[1], a.at(i), b.at(i), name + "[i]", hyps + [i >= 0, i < a.n], out)
    elif s[0] == "dict":
        k = fresh("k", V)
        out.append((name + ": the same names", hyps, a.has(k) == b.has(k)))
        composition_goals(W, s[1], a.get(k), b.get(k), name + "[k]", hyps + [a.has(k)], out)
    elif s[0] == "attachment":
        t = lambda x: And(a.has("type"), a.get("type") == lit(x))
        w = {k: t(x) for x, k in ATTACHMENTS.items() if x}
        first = [("SkinAttachment", Not(Or(list(w.values()))))] + [(k, w[k]) for k in ("SkinPath", "SkinMesh", "SkinLinkedMesh")]
        for k, g in first:
            pick = b
            while isinstance(pick, IteC):          # the document of the kind that applies
                r, _ = smt.check(vm.run.pc() + hyps + [g, pick.c], timeout=5000)
                pick = pick.b if r == z3.unsat else pick.a
            composition_goals(W, ("obj", k), a, pick, name + "<%s>" % k, hyps + [g], out)
    else:
        kind = s[1]
        for f in KINDS[kind]["fields"]:
            kids = KINDS[kind]["kids"].get(f)
            nm = "%s.%s" % (name, f)
            if kids:
                x, y = collection(kids, a, f), collection(kids, b, f)
                composition_goals(W, kids, x, y, nm, hyps, out)
            else:
                out.append((nm, hyps, same_value(effective(W, kind, f, a), effective(W, kind, f, b))))
        out.append((name + ": no other attribute", hyps, And([z3.BoolVal(b.has_ is None)] + [Not(b.has(f)) for f in b.entries if f not in KINDS[kind]["fields"]])))

def same_value(x, y): return Or(x == y, pyeq(x, y))

def effective(W, kind, f, c):
    o, n = defaults(kind, False), defaults(kind, True)
    d = smt.ite(W.new, jval(n[f]) if f in n else smt.NONE, jval(o[f]) if f in o else smt.NONE)
    return smt.ite(And(c.has(f), toV(c.get(f)) != smt.NONE), toV(c.get(f)), d) if not z3.is_false(c.has(f)) else toV(d)

def collection(s, c, f):
    """The collection in an attribute, empty when absent."""
    p, v = c.has(f), c.get(f)
    if z3.is_false(p) or v is None: return ListC(n=z3.IntVal(0), at=lambda i: NOTHING) if s[0] == "list" else DictC({}, lambda k: F, lambda k: NOTHING)
    if s[0] == "list":
        b = as_base(v)
        return ListC(n=If(p, b[0], z3.IntVal(0)), at=b[1])
    return DictC({}, lambda k: And(p, v.has(k)), v.get)

def prove_roundtrip(P, a):
    """export(fill(load(d))) has the same effective content as d, and a second round changes nothing (attribute a of the skeleton)."""
    W = World(P, always=ROOT)
    spec, vm = W.spec, W.vm
    doc = W.sym.obj(TOP, "d")
    vm.assume(And(W.new, doc.get("bones").n > 0))
    round_ = lambda d: spec.export(TOP, spec.filled(TOP, spec.build(TOP, d), W.new), W.new)
    e = round_(doc)
    out = []
    s = KINDS[TOP]["kids"][a]
    composition_goals(W, s, collection(s, doc, a), collection(s, e, a), "exported document: " + a, [], out)
    out.append(("exported document: only declared attributes", [], z3.BoolVal(set(e.entries) <= set(KINDS[TOP]["fields"]))))
    if (TOP, a) in ROOT: out.append(("exported document: %s is there" % a, [], e.has(a)))
    e2 = round_(e)
    same_goals(W, s, collection(s, e, a), collection(s, e2, a), "exported again: " + a, [], out)
    out.append(("exported again: %s is there or not as before" % a, [], e.has(a) == e2.has(a)))
    for nm, h, g in out: P.goal(nm, vm.run.pc() + h, g)

def same_goals(W, s, a, b, name, hyps, out):
    """Goals saying that two documents of shape s are the same."""
    if s[0] == "list":
        i = fresh("i", Int)
        out.append((name + ": as many", hyps, a.n == b.n))
        same_goals(W, s[1], a.at(i), b.at(i), name + "[i]", hyps + [i >= 0, i < a.n], out)
    elif s[0] == "dict":
        k = fresh("k", V)
        out.append((name + ": the same names", hyps, a.has(k) == b.has(k)))
        same_goals(W, s[1], a.get(k), b.get(k), name + "[k]", hyps + [a.has(k)], out)
    else:
        if s[0] == "attachment" and (isinstance(a, IteC) or isinstance(b, IteC)):
            c = a.c if isinstance(a, IteC) else b.c
            for x, h in ((True, c), (False, Not(c))):
                r, _ = smt.check(W.vm.run.pc() + hyps + [h], timeout=3000)
                if r != z3.unsat: same_goals(W, s, narrow(W, a, hyps + [h]), narrow(W, b, hyps + [h]), name + ("<1>" if x else "<2>"), hyps + [h], out)
            return
        kinds = [s[1]] if s[0] == "obj" else ["SkinAttachment", "SkinPath", "SkinMesh", "SkinLinkedMesh"]
        for f in sorted({f for k in kinds for f in KINDS[k]["fields"]}):
            p, q = a.has(f), b.has(f)
            out.append(("%s.%s: there or not as before" % (name, f), hyps, p == q))
            kids = KINDS[kinds[0]]["kids"].get(f)
            if kids: same_goals(W, kids, collection(kids, a, f), collection(kids, b, f), "%s.%s" % (name, f), hyps + [q], out)
            elif not z3.is_false(q) and not z3.is_false(p): out.append(("%s.%s: the same" % (name, f), hyps + [q], toV(a.get(f)) == toV(b.get(f))))

def narrow(W, c, hyps):
    """The branch of a conditional content that applies."""
    while isinstance(c, IteC):
        r, _ = smt.check(W.vm.run.pc() + hyps + [Not(c.c)], timeout=3000)
        if r == z3.unsat: c = c.a; continue
        r, _ = smt.check(W.vm.run.pc() + hyps + [c.c], timeout=3000)
        if r == z3.unsat: c = c.b; continue
        break
    return c

def note(P):
    P.trusted += [x for x in TRUST if x not in P.trusted]
    P.assumptions += [x for x in ASSUME if x not in P.assumptions]

def per_object_tasks(f):
    return [("%s on %s" % (f, k), lambda P, k=k: (prove_per_object(P, k, f), note(P))) for k in KINDS]

def tasks_S01():
    return [("%s(document)" % k, lambda P, k=k: (prove_constructor(P, k), note(P))) for k in KINDS] + \
           per_object_tasks("set_default_values_from_version") + per_object_tasks("to_spine_data_ignoring_default_values") + \
           [("traverse", prove_traverse), ("load", prove_load), ("export", prove_export)] + \
           [("round trip of %s" % a, lambda P, a=a: prove_roundtrip(P, a)) for a in KINDS[TOP]["fields"]]

# ------------------------------------------------------------------------------------------- rejected documents
BADF = {}
def bad_opaque(kind):
    if kind not in BADF: BADF[kind] = z3.Function("bad_" + kind, V, Bool)
    return BADF[kind]

def bad(kind, c):
    """Formula: the document c of an object of this kind has an unsupported attribute or lacks a required one, somewhere."""
    if not isinstance(c, DictC): return bad_opaque(kind)(toV(c))
    fields = KINDS[kind]["fields"]
    out = [p for a, (p, _) in c.entries.items() if a not in fields]
    if c.has_ is not None:
        k = bvar("k", V)
        out.append(Exists([k], And([c.has_(k)] + [k != lit(a) for a in list(fields) + [e for e in c.entries if e not in fields]])))
    out += [Not(c.has(a)) for a in KINDS[kind]["req"]]
    for a, s in KINDS[kind]["kids"].items(): out.append(And(c.has(a), bad_in(s, c.get(a))))
    return Or(out)

def bad_in(s, c):
    if s[0] == "list":
        i = bvar("i", Int)
        return Exists([i], And(i >= 0, i < c.n, bad_in(s[1], c.at(i))))
    if s[0] == "dict":
        k = bvar("k", V)
        return Exists([k], And(c.has(k), bad_in(s[1], c.get(k))))
    if s[0] == "attachment":
        t = lambda x: And(c.has("type"), c.get("type") == lit(x))
        w = {k: t(x) for x, k in ATTACHMENTS.items() if x}
        return Or([And(g, bad(k, c)) for k, g in w.items()] + [And(Not(Or(list(w.values()))), bad("SkinAttachment", c))])
    return bad(s[1], c)

def raw_shape(sym, s, name, args):
    """A document part of this shape whose objects are unknown."""
    if s[0] == "list": return ListC(n=sym.f(name + ".len", args, Int), at=lambda i: raw_shape(sym, s[1], name + ".item", args + [i if isinstance(i, z3.ExprRef) else z3.IntVal(i)]))
    if s[0] == "dict": return DictC({}, lambda k: sym.f(name + ".has", args + [toV(k)], Bool), lambda k: raw_shape(sym, s[1], name + ".at", args + [toV(k)]), order=("doc", name) + tuple(args))
    if s[0] == "attachment":
        e = {"type": (sym.f(name + ".type.there", args, Bool), sym.f(name + ".type", args, V))}
        return DictC(e, lambda k: sym.f(name + ".other", args + [k], Bool), lambda k: sym.f(name + ".otherv", args + [k], V))
    return sym.f(name, args, V)

def raw_object(sym, kind, name):
    """Any JSON object where an object of this kind is expected: any attributes, supported or not."""
    e = {}
    for a in KINDS[kind]["fields"]:
        n = "%s.%s" % (name, a)
        p = T if (kind, a) in sym.always else sym.f(n + ".there", [], Bool)
        e[a] = (p, raw_shape(sym, KINDS[kind]["kids"][a], n, []) if a in KINDS[kind]["kids"] else sym.f(n, [], V))
    return DictC(e, lambda k: sym.f(name + ".other", [k], Bool), lambda k: sym.f(name + ".otherv", [k], V))

def rejecting_constructor(W, kind):
    """The constructor raises SpineParsingException exactly for bad documents."""
    def contract(vm, cls, args, kw):
        l = (list(args) + list(kw.values()) + [None])[0]
        c = l
        if isinstance(l, Loc):
            vm.log_read(vm.canon(l)[0], True)
            c = vm.pick(vm.canon(l)[1])
        if vm.choose(bad(kind, c)): raise PyExc(vm.cls("data.spine_exceptions", "SpineParsingException"))
        return vm.alloc(Rec(cls, {}))
    return contract

def prove_rejects(P, kind):
    W = World(P, always=ROOT)
    vm = W.vm
    for k in kinds_of(kind): vm.contracts[k] = rejecting_constructor(W, k)
    doc = raw_object(W.sym, kind, "d")
    if kind == "Skin38":
        i, k = bvar("q", V), bvar("q", V)
        att = doc.get("attachments")
        a = att.get(i).get(k)
        types = [lit(x) for x in ATTACHMENTS if x]
        vm.assume(ForAll([i, k], Implies(a.has("type"), Or([a.get("type") == t for t in types]))))
    want = bad(kind, doc)
    full = DictC(dict(doc.entries, skeleton=(T, z3.Const("skeleton", V))), doc.has_, doc.get_) if kind == TOP else doc
    if kind == TOP: vm.assume(Not(doc.has_(lit("skeleton"))))
    d = vm.alloc(full)
    def post(vm, out):
        if out[0] == "raise":
            e = out[1].cls
            return [("raises SpineParsingException, not %s" % getattr(e, "name", e), z3.BoolVal(getattr(e, "name", "") == "SpineParsingException")),
                    ("raises only for an unsupported or missing attribute", want)]
        return [("accepts only supported documents with the required attributes", Not(want))]
    P.functions |= {kind + ".__init__", "SpineData.__init__"}
    P.run("%s(any document)" % kind, vm, lambda: vm.construct(vm.cls(MODULE[kind], kind), [d], {}), post)

def tasks_S03():
    return [("%s(any document)" % k, lambda P, k=k: (prove_rejects(P, k), note(P))) for k in KINDS]

def prove_clean_top(P):
    """clean_unsupported_attributes of the whole skeleton."""
    W = World(P, always=ROOT)
    vm, spec = W.vm, W.spec
    W.opaque_traverse()
    W.per_object("SpineData.remove_unsupported_attributes", spec.cleaned, True)
    data = any_object(W, TOP)
    o = vm.alloc(data)
    f = W.fn("clean_unsupported_attributes")
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        return by_field(W, o, spec.cleaned(TOP, data, W.new), "skeleton")
    P.functions.add("SpineData.clean_unsupported_attributes")
    P.run("clean_unsupported_attributes of a skeleton", vm, lambda: vm.call(vm.getattr(o, "clean_unsupported_attributes"), [W.version], {}), post)

def tasks_S04():
    return per_object_tasks("remove_unsupported_attributes") + [("traverse", prove_traverse), ("clean_unsupported_attributes", lambda P: (prove_clean_top(P), note(P)))]
