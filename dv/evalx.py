"""Expressions, statements, calls and the library functions the program uses."""
import ast, z3
from dv.interp import *
from dv.interp import Interp as Base

def is_scalar(x): return isinstance(x, SCALAR)
ADD = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.BitOr: "|", ast.BitAnd: "&", ast.Mod: "%", ast.FloorDiv: "//"}
fmt = {}
TEXT = ("startswith", "endswith", "strip", "lstrip", "rstrip", "lower", "upper", "replace", "title", "capitalize", "casefold", "removeprefix", "removesuffix")
def fmtfun(tmpl, n):
    k = (tmpl, n)
    if k not in fmt:
        fmt[k] = z3.Function("format_%r_%d" % (tmpl, n), *([V] * (n + 1)))
        smt.STRFUNS.add(fmt[k].name())
    return fmt[k]

class ExcVal:
    def __init__(self, cls, args): self.cls, self.args = cls, args

class EvalMixin:
    # ---------------------------------------------------------------------------------- names
    def frame(self): return self.st.frames[self.fnstack[-1][1][0]]
    def lookup(self, name):
        mod, frames, cls = self.fnstack[-1]
        for f in frames:
            d = self.st.frames.get(f)
            if d is not None and name in d:
                v = d[name]
                if isinstance(v, LazyGlobal): v = self.cls_attr(v, None)
                if isinstance(v, Carried): return self.carried(f, name, v)
                if isinstance(v, Poison): raise Unsupported("variable %s: %s" % (name, v.why))
                return v
        if name in mod.env: return self.glob(mod, name)
        if name in NAMES: return NAMES[name]
        raise Unsupported("name %s" % name)
    def carried(self, f, name, v):
        raise Unsupported("variable %s carries a value from one iteration to the next" % name)
    def setvar(self, name, value):
        self.frame()[name] = value

    # ---------------------------------------------------------------------------------- truth and equality
    def tr(self, x):
        if isinstance(x, bool): return x
        if is_scalar(x): return truth(x) if isinstance(x, z3.ExprRef) else bool(x)
        if isinstance(x, tuple): return len(x) > 0
        if isinstance(x, Loc):
            l, c = self.canon(x)
            self.log_read(l, True)
            if isinstance(c, Rec):
                for d in ("__bool__", "__len__"):
                    if c.cls.find(d)[0] is not None: return self.tr(self.call(self.bind(c.cls.find(d)[0], x, c.cls), [], {}))
            return self.nonempty(c)
        if isinstance(x, View): return self.tr(x.obj)
        return True
    def nonempty(self, c):
        if isinstance(c, IteC): return If(c.c, b2z(self.nonempty(c.a)), b2z(self.nonempty(c.b)))
        if isinstance(c, Ref): return self.nonempty(self.canon(c.loc)[1])
        if isinstance(c, ListC):
            if c.is_base(): return c.n > 0
            return Or([Exists(s.binders, s.cond) for s in c.segs_]) if c.segs_ else False
        if isinstance(c, DictC):
            parts = [p for p, _ in c.entries.values()]
            if c.has_ is not None:
                k = bvar("k", V)
                parts.append(Exists([k], And([c.has_(k)] + [k != lit(e) for e in c.entries])))
            return Or(parts) if parts else False
        if isinstance(c, SetC):
            k = bvar("k", V)
            b = c.mem(k)
            return False if z3.is_false(b) else Exists([k], b)
        if isinstance(c, Rec): return True
        if is_scalar(c): return self.tr(c)
        raise Unsupported("truth of %r" % c)
    def isempty(self, c):
        n = self.nonempty(c)
        return (not n) if isinstance(n, bool) else Not(n)
    def eq(self, a, b):
        if isinstance(a, (Meth, View)) or isinstance(b, (Meth, View)): raise Unsupported("== on %r" % a)
        if is_scalar(a) and is_scalar(b):
            r = pyeq(a, b)
            return True if z3.is_true(r) else False if z3.is_false(r) else r
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return And([b2z(self.eq(x, y)) for x, y in zip(a, b)])
        if isinstance(a, Loc) or isinstance(b, Loc):
            if not isinstance(a, Loc): a, b = b, a
            ca = self.load(a)
            if isinstance(ca, Rec):
                m, _ = ca.cls.find("__eq__")
                if m is not None: return self.call(self.bind(m, a, ca.cls), [b], {})
                return self.same(a, b)
            if isinstance(b, Loc):
                cb = self.load(b)
                if isinstance(cb, Rec): return False
                self.log_read(self.canon(a)[0], True); self.log_read(self.canon(b)[0], True)
                for x, y in ((ca, cb), (cb, ca)):
                    if (isinstance(x, ListC) and x.units() == [] and isinstance(y, ListC)) or (isinstance(x, DictC) and x.pure() and not x.entries and isinstance(y, DictC)):
                        return self.isempty(y)
                if isinstance(ca, ListC) and isinstance(cb, ListC) and ca.units() is not None and cb.units() is not None:
                    u, w = ca.units(), cb.units()
                    return len(u) == len(w) and And([b2z(self.eq(self.value(x, a), self.value(y, b))) for x, y in zip(u, w)])
                if isinstance(ca, (ListC, DictC)) != isinstance(cb, (ListC, DictC)) or type(ca) is not type(cb): return False
                raise Unsupported("== of containers")
            if isinstance(b, z3.ExprRef) and b.sort() == V:
                if isinstance(ca, ListC) and ca.units() == []: return b == smt.EMPTYL
                if isinstance(ca, DictC) and ca.pure() and not ca.entries: return b == smt.EMPTYD
                if smt.known_str(b): return False
                raise Unsupported("== of an opaque value and a container")
            return False
        if isinstance(a, EnumV) and isinstance(b, EnumV): return a.cls is b.cls and a.name == b.name
        if type(a) is not type(b): return False
        return a is b
    def same(self, a, b):
        """is"""
        if isinstance(a, Loc) and isinstance(b, Loc):
            x, y = self.canon(a)[0], self.canon(b)[0]
            r = loc_eq(x, y)
            return True if z3.is_true(r) else False if z3.is_false(r) else r
        if isinstance(a, Loc) or isinstance(b, Loc):
            return False
        if is_scalar(a) and is_scalar(b):
            for x, y in ((a, b), (b, a)):
                if x is None or isinstance(x, bool):
                    if not isinstance(y, z3.ExprRef): return x is y
                    if y.sort() == V: return y == lit(x)
                    if y.sort() == Bool and isinstance(x, bool): return y if x else Not(y)
                    return False
            if (isinstance(a, str) or smt.known_str(a)) or (isinstance(b, str) or smt.known_str(b)): return self.eq(a, b)
            raise Unsupported("is on %s, %s" % (a, b))
        return self.eq(a, b)
    def contains(self, c, x):
        if isinstance(c, View):
            if c.kind == "keys": return self.contains(c.obj, x)
            raise Unsupported("in a view")
        if isinstance(c, ObjDict):
            fs = self.load(c.loc).fields
            if isinstance(x, z3.ExprRef): return Or([keq(x, f) for f in fs]) if x.sort() == V else False
            return isinstance(x, str) and x in fs
        if isinstance(c, tuple): return Or([b2z(self.eq(x, y)) for y in c])
        if isinstance(c, Loc):
            l, cc = self.canon(c)
            cc = self.pick(cc)
            if isinstance(cc, DictC):
                if isinstance(x, (Loc, tuple)): raise Unsupported("odd key")
                self.log_read(l.step(("k", x)), False)
                r = cc.has(x)
                return r
            if isinstance(cc, SetC):
                self.log_read(l.step(("k", toV(x))), False)
                return cc.mem(toV(x))
            self.log_read(l, True)
            if isinstance(cc, ListC): return self.list_has(cc, x, l)
        if is_scalar(c) and isinstance(c, str) and isinstance(x, str): return x in c
        raise Unsupported("in %r" % (c,))
    def list_has(self, cc, x, l):
        if cc.members is not None and isinstance(x, z3.ExprRef) and x.sort() == V: return cc.members(x)
        out = []
        for s in cc.segs:
            out.append(Exists(s.binders, And(s.cond, b2z(self.eq(self.value(s.elem, l), x)))))
        return Or(out) if out else False

    # ---------------------------------------------------------------------------------- expressions
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None: raise Unsupported("expression %s" % type(n).__name__)
        return m(n)
    def e_Constant(self, n): return n.value
    def e_Name(self, n): return self.lookup(n.id)
    def e_Tuple(self, n): return tuple(self.elements(n))
    def e_List(self, n):
        return self.new_list(self.elements(n))
    def elements(self, n):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred): out += self.spread(self.ev(x.value))
            else: out.append(self.ev(x))
        return out
    def new_list(self, vals):
        l = self.alloc(ListC([]))
        self.st.heap[l.addr] = ListC([Seg([], T, self.embed(v)) for v in vals])
        return l
    def e_Dict(self, n):
        l = self.alloc(DictC())
        for k, v in zip(n.keys, n.values):
            self.dict_put(l, self.ev(k), self.ev(v))
        return l
    def e_Set(self, n):
        vals = [self.ev(x) for x in n.elts]
        return self.new_set(vals)
    def new_set(self, vals):
        vs = [toV(v) for v in vals]
        return self.alloc(SetC(lambda x: Or([keq(x, v) for v in vs])))
    def e_JoinedStr(self, n):
        if all(isinstance(x, ast.Constant) and "{" not in x.value and "}" not in x.value or isinstance(x, ast.FormattedValue) and x.conversion == -1 and x.format_spec is None for x in n.values):
            args = [self.ev(x.value) for x in n.values if isinstance(x, ast.FormattedValue)]
            if all(is_scalar(x) for x in args): return self.strformat("".join(x.value if isinstance(x, ast.Constant) else "{}" for x in n.values), args)
            c = fresh("fstring", V)
            self.assume(smt.kind(c) == smt.K_STR)
            return c
        for x in n.values:
            if isinstance(x, ast.FormattedValue): self.ev(x.value)
        c = fresh("fstring", V)
        self.assume(smt.kind(c) == smt.K_STR)
        return c
    def e_Lambda(self, n):
        mod, frames, cls = self.fnstack[-1]
        f = ast.FunctionDef(name="<lambda>", args=n.args, body=[ast.copy_location(ast.Return(value=n.body), n)], decorator_list=[])
        return FuncV(FuncDef(f, mod, cls, self.curq() + ".<lambda>"), frames)
    def curq(self):
        return getattr(self, "qstack", ["?"])[-1]
    def e_IfExp(self, n):
        return self.branch(self.tr(self.ev(n.test)), lambda: self.ev(n.body), lambda: self.ev(n.orelse))
    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            t = self.tr(self.ev(n.operand))
            return (not t) if isinstance(t, bool) else Not(t)
        v = self.ev(n.operand)
        if isinstance(n.op, ast.USub):
            if isinstance(v, z3.ExprRef): return -self.number(v)
            return -v
        raise Unsupported("unary operator")
    def e_BoolOp(self, n):
        def go(vals):
            a = self.ev(vals[0])
            if len(vals) == 1: return a
            t = self.tr(a)
            if isinstance(n.op, ast.Or):
                if isinstance(a, Loc) and isinstance(vals[1], ast.Dict) and not vals[1].keys and isinstance(self.load(a), DictC): return a
                if isinstance(t, bool): return a if t else go(vals[1:])
                return self.branch(t, lambda: a, lambda: go(vals[1:]))
            if isinstance(t, bool): return go(vals[1:]) if t else a
            return self.branch(t, lambda: go(vals[1:]), lambda: a)
        return go(n.values)
    def e_Compare(self, n):
        left = self.ev(n.left)
        def go(left, ops, rest):
            right = self.ev(rest[0])
            r = self.cmp(ops[0], left, right)
            if len(ops) == 1: return r
            return self.branch(self.tr(r), lambda: go(right, ops[1:], rest[1:]), lambda: r)
        return go(left, n.ops, n.comparators)
    def neg(self, r): return (not r) if isinstance(r, bool) else Not(r)
    def cmp(self, op, a, b):
        if isinstance(op, ast.Is): return self.same(a, b)
        if isinstance(op, ast.IsNot): return self.neg(self.same(a, b))
        if isinstance(op, ast.In): return self.contains(b, a)
        if isinstance(op, ast.NotIn): return self.neg(self.tr(self.contains(b, a)))
        if isinstance(op, ast.Eq): return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            if isinstance(a, Loc):
                c = self.load(a)
                if isinstance(c, Rec):
                    m, _ = c.cls.find("__ne__")
                    if m is not None: return self.call(self.bind(m, a, c.cls), [b], {})
            return self.neg(self.tr(self.eq(a, b)))
        if isinstance(a, Loc):
            c = self.load(a)
            if isinstance(c, Rec):
                nm = {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}[type(op)]
                m, _ = c.cls.find(nm)
                if m is not None: return self.call(self.bind(m, a, c.cls), [b], {})
            raise Unsupported("ordering of objects")
        if isinstance(a, tuple) and isinstance(b, tuple):
            lt, eqs = [], T
            for x, y in zip(a, b):
                lt.append(And(eqs, b2z(self.cmp(ast.Lt(), x, y))))
                eqs = And(eqs, b2z(self.eq(x, y)))
            L = Or(lt)
            if len(a) != len(b): raise Unsupported("tuples of different length")
            return {ast.Lt: L, ast.LtE: Or(L, eqs), ast.Gt: And(Not(L), Not(eqs)), ast.GtE: Not(L)}[type(op)]
        if isinstance(a, SCALAR) and isinstance(b, SCALAR):
            if not isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef):
                try:
                    return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
                except TypeError:
                    self.throw("TypeError")
            x, y = self.number(a), self.number(b)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
        self.throw("TypeError")
    def number(self, v):
        """The numeric value; TypeError when there is none."""
        if isinstance(v, bool): return z3.IntVal(int(v))
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, float): return z3.RealVal(repr(v))
        if isinstance(v, z3.ExprRef):
            if v.sort() in (Int, Real): return v
            if v.sort() == Bool: return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if v.sort() == V:
                if not self.choose(smt.is_num(v)): self.throw("TypeError")
                return smt.num(v)
        self.throw("TypeError")
    def throw(self, name): raise PyExc(ExcType(name))
    def e_BinOp(self, n):
        return self.binop(n.op, self.ev(n.left), self.ev(n.right))
    def binop(self, op, a, b):
        s = ADD.get(type(op))
        if isinstance(a, View): a = self.materialize(a, "set")
        if isinstance(b, View): b = self.materialize(b, "set")
        if isinstance(a, Loc) and isinstance(b, Loc):
            ca, cb = self.load(a, True), self.load(b, True)
            if isinstance(ca, SetC) and isinstance(cb, SetC):
                f = {"|": lambda x: Or(ca.mem(x), cb.mem(x)), "&": lambda x: And(ca.mem(x), cb.mem(x)), "-": lambda x: And(ca.mem(x), Not(cb.mem(x)))}.get(s)
                if f is None: self.throw("TypeError")
                return self.alloc(SetC(f))
            if isinstance(ca, ListC) and isinstance(cb, ListC) and s == "+":
                sa, sb = self.shared(ca, self.canon(a)[0]), self.shared(cb, self.canon(b)[0])
                return self.alloc(ListC([x.inst() for x in sa.segs] + [x.inst() for x in sb.segs], ordered=ca.ordered and cb.ordered))
            self.throw("TypeError")
        if isinstance(a, SCALAR) and isinstance(b, SCALAR):
            if not isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef):
                try:
                    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "|": lambda: a | b, "&": lambda: a & b, "%": lambda: a % b}[s]()
                except TypeError: self.throw("TypeError")
            if s == "+" and any(isinstance(x, z3.ExprRef) and x.sort() == Str for x in (a, b)):
                return z3.Concat(*[x if isinstance(x, z3.ExprRef) else z3.StringVal(x) for x in (a, b)])
            if s == "+" and (smt.known_str(a) or smt.known_str(b)):
                f = fmtfun("+", 2)
                return f(toV(a), toV(b))
            if s == "&" and isinstance(b, int) and not isinstance(b, bool) and b > 0 and b & (b + 1) == 0:
                x = self.number(a)
                if x.sort() != Int: self.throw("TypeError")
                return x % (b + 1)                      # the low bits, also of a negative number
            if s in ("%", "*") and any(isinstance(x, str) or smt.known_str(x) or isinstance(x, z3.ExprRef) and x.sort() == Str for x in ((a, b) if s == "*" else (a,))): raise Unsupported("operator %s of a text" % s)
            x, y = self.number(a), self.number(b)
            if s in ("%", "//") and isinstance(b, int) and not isinstance(b, bool) and b > 0 and x.sort() == Int:
                return x % y if s == "%" else x / y        # towards minus infinity, as Python does
            if s is not None and s in "+-*": return {"+": x + y, "-": x - y, "*": x * y}[s]
            if s == "/":
                if not self.choose(y != 0): self.throw("ZeroDivisionError")
                return z3.ToReal(x) / y if x.sort() == Int else x / y
        raise Unsupported("operator %s" % type(op).__name__)
    def e_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr)
    def mangle(self, a):
        cls = self.fnstack[-1][2] if self.fnstack else None
        if a.startswith("__") and not a.endswith("__") and cls is not None:
            return "_%s%s" % (cls.name.lstrip("_"), a)
        return a
    def class_attr(self, cls, a, after=None):
        v, c = cls.find(a, after)
        if v is None and a.startswith("_"):
            for k in cls.mro():
                p = "_%s__" % k.name.lstrip("_")
                if a.startswith(p) and "__" + a[len(p):] in k.attrs:
                    return k.attrs["__" + a[len(p):]], k
        return v, c
    def getattr(self, o, a, default=Ellipsis):
        a = self.mangle(a)
        if isinstance(o, Loc):
            l, c = self.canon(o)
            if isinstance(c, IteC) and rec_has(c, a):
                self.log_read(l.step(("f", a)), False)
                return self.value(rec_get(c, a), l.step(("f", a)))
            c = self.pick(c)
            if isinstance(c, Rec):
                if a == "__dict__": return ObjDict(l)
                if a == "__class__": return c.cls
                if a in c.fields:
                    self.log_read(l.step(("f", a)), False)
                    self.stale_check(l)
                    return self.value(c.fields[a], l.step(("f", a)))
                if a in ("__setattr__", "__getattribute__"): return Meth(o, a)
                v, owner = self.class_attr(c.cls, a)
                if v is not None: return self.bind(v, o, c.cls)
                if default is not Ellipsis: return default
                self.throw("AttributeError")
            return Meth(o, a)
        if isinstance(o, ClassV):
            if a == "__name__": return o.name
            if o.is_enum and a in o.members: return o.members[a]
            v, owner = self.class_attr(o, a)
            if v is None: 
                if default is not Ellipsis: return default
                self.throw("AttributeError")
            return self.bind(v, None, o)
        if isinstance(o, EnumV):
            if a == "name": return o.name
            if a == "value": return o.value
        if isinstance(o, ModuleV):
            if a in o.env: return self.glob(o, a)
            return Builtin("%s.%s" % (o.name, a))
        if isinstance(o, Builtin): return Builtin("%s.%s" % (o.name, a))
        if isinstance(o, NTVal): return o.vals[o.cls.fields.index(a)]
        if isinstance(o, SuperV):
            v, owner = o.cls[0].find(a, o.cls[1]) if o.cls[1] in o.cls[0].mro() else (None, None)
            if v is None: return Builtin("object." + a)
            return self.bind(v, o.obj, o.cls[0])
        if o is None:
            if default is not Ellipsis: return default
            self.throw("AttributeError")
        if isinstance(o, z3.ExprRef) and o.sort() == V:
            if not smt.known_str(o):
                if self.choose(o == smt.NONE): 
                    if default is not Ellipsis: return default
                    self.throw("AttributeError")
            return Meth(o, a)
        return Meth(o, a)
    def bind(self, v, obj, cls):
        v = self.cls_attr(v, cls)
        if isinstance(v, PropV): return self.call(FuncV(v.f.d, v.f.frames, obj, cls), [], {})
        if isinstance(v, StaticV): return FuncV(v.f.d, v.f.frames, None, cls)
        if isinstance(v, ClsMethV): return FuncV(v.f.d, v.f.frames, cls, cls)
        if isinstance(v, FuncV): return FuncV(v.d, v.frames, obj, cls) if obj is not None else v
        return v
    def e_Subscript(self, n):
        o = self.ev(n.value)
        if isinstance(n.slice, ast.Slice):
            g = lambda x: None if x is None else self.ev(x)
            return self.slice(o, g(n.slice.lower), g(n.slice.upper), g(n.slice.step))
        return self.getitem(o, self.ev(n.slice))
    def getitem(self, o, k):
        if isinstance(o, tuple) and isinstance(k, int): return o[k]
        if isinstance(o, NTVal) and isinstance(k, int): return o.vals[k]
        if isinstance(o, ClassV) and o.is_enum:
            if isinstance(k, str):
                if k not in o.members: self.throw("KeyError")
                return o.members[k]
            for m in o.members.values():
                if self.choose(b2z(self.eq(k, m.name))): return m
            self.throw("KeyError")
        if isinstance(o, Loc):
            l, c = self.canon(o)
            c = self.pick(c)
            if isinstance(c, DictC):
                if isinstance(k, (Loc, tuple)): raise Unsupported("odd key")
                self.log_read(l.step(("k", k)), False)
                self.stale_check(l)
                if not self.choose(c.has(k)): self.throw("KeyError")
                return self.value(c.get(k), l.step(("k", k)))
            if isinstance(c, ListC):
                u = c.units()
                if u is not None and isinstance(k, int):
                    if not -len(u) <= k < len(u): self.throw("IndexError")
                    k = k % len(u)
                    self.log_read(l.step(("i", k)), False)
                    return self.value(u[k], l.step(("i", k)))
                if c.is_base():
                    i = self.number(k)
                    if isinstance(k, int) and k < 0: i = c.n + k
                    if not self.choose(And(i >= 0, i < c.n)): self.throw("IndexError")
                    self.log_read(l.step(("i", i)), False)
                    return self.value(c.at(i), l.step(("i", i)))
        raise Unsupported("index into %r" % (o,))
    def slice(self, o, a, b, st):
        if isinstance(o, Loc):
            c = self.load(o, True)
            if isinstance(c, ListC) and a is None and b is None and st is None:
                return self.alloc(self.shared(c, self.canon(o)[0]))
        if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (a, b, st)): return o[a:b:st]
        if isinstance(o, z3.ExprRef) and o.sort() == Str and st is None:
            n = z3.Length(o)
            def norm(x, d):
                if x is None: return d
                x = self.number(x)
                if z3.is_int_value(z3.simplify(x)):
                    v = z3.simplify(x).as_long()
                    return z3.If(n + v < 0, z3.IntVal(0), n + v) if v < 0 else z3.If(n < v, n, z3.IntVal(v))
                return z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x), z3.If(n < x, n, x))
            i, j = norm(a, z3.IntVal(0)), norm(b, n)
            return z3.If(j > i, z3.SubString(o, i, j - i), z3.StringVal(""))
        raise Unsupported("slice")
    def e_ListComp(self, n): return self.comp(n, "list")
    def e_GeneratorExp(self, n): return self.comp(n, "list")
    def e_SetComp(self, n): return self.comp(n, "set")
    def e_DictComp(self, n): return self.comp(n, "dict")
    def comp(self, n, kind):
        fr = self.frame()
        saved = dict(fr)
        tmp = "<comp%d>" % n.lineno
        res = self.alloc({"list": ListC([]), "set": SetC(lambda x: F), "dict": DictC()}[kind])
        fr[tmp] = res
        names = [x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)]
        def inner(gs):
            if not gs:
                if kind == "list": self.list_append(res, self.ev(n.elt))
                elif kind == "set": self.set_add(res, self.ev(n.elt))
                else:
                    k = self.ev(n.key)
                    self.dict_put(res, k, self.ev(n.value))
                return
            g = gs[0]
            it = self.ev(g.iter)
            def body(v):
                self.assign(g.target, v)
                def conds(cs):
                    if not cs: return inner(gs[1:])
                    self.branch(self.tr(self.ev(cs[0])), lambda: conds(cs[1:]), lambda: None)
                conds(g.ifs)
            self.loop(it, body, names, g)
        inner(n.generators)
        fr = self.frame()
        for x in names + [tmp]:
            if x in saved: fr[x] = saved[x]
            else: fr.pop(x, None)
        return res

    # ---------------------------------------------------------------------------------- containers
    def list_append(self, loc, rv):
        loc, c = self.canon(loc)
        c = self.pick(c)
        e = self.embed(rv, loc.step(("i", "new")))
        self.log_write(loc, "append")
        self.st.heap[loc.addr] = self.update(self.st.heap[loc.addr], list(loc.path), lambda c: self.appended(self.pick(c), [Seg([], T, e)]))
    def appended(self, c, segs):
        return ListC((c.segs_ if not c.is_base() else c.segs) + segs, ordered=c.ordered)
    def list_extend(self, loc, other):
        if isinstance(other, Loc) and isinstance(self.load(other), ListC):
            c = self.load(other, True)
            loc, _ = self.canon(loc)
            segs = [Seg(s.binders, s.cond, self.close(s.elem, self.loopmarks[-1]) if self.loopmarks and loc.addr <= self.loopmarks[-1] else s.elem, s.carry) for s in [x.inst() for x in c.segs]]
            self.log_write(loc, "append")
            self.st.heap[loc.addr] = self.update(self.st.heap[loc.addr], list(loc.path), lambda d: ListC(self.pick(d).segs + segs, ordered=c.ordered and self.pick(d).ordered))
            return
        self.loop(other, lambda v: self.list_append(loc, v), [], None)
    def shared(self, c, l):
        """Content of a shallow copy: the same elements.  (Elements of filtered lists are never changed.)"""
        ref = lambda v, s: Ref(l.step(s)) if isinstance(v, STRUCT) and not isinstance(v, Ref) else v
        if isinstance(c, DictC):
            return DictC({k: (p, ref(v, ("k", k))) for k, (p, v) in c.entries.items()}, c.has_, (lambda k: ref(c.get_(k), ("k", k))) if c.get_ else None, c.order)
        if c.is_base(): return ListC(n=c.n, at=lambda i: ref(c.at(i), ("i", i)), ordered=c.ordered)
        if c.units() is not None: return ListC([Seg([], T, ref(x, ("i", i))) for i, x in enumerate(c.units())], ordered=c.ordered)
        return ListC([s.inst() for s in c.segs_], ordered=c.ordered)
    def set_add(self, loc, x, on=True):
        loc, c = self.canon(loc)
        v = toV(x)
        self.log_write(loc.step(("k", v)), "slot")
        def f(c):
            c = self.pick(c)
            return SetC((lambda y: Or(keq(y, v), c.mem(y))) if on else (lambda y: And(Not(keq(y, v)), c.mem(y))))
        self.st.heap[loc.addr] = self.update(self.st.heap[loc.addr], list(loc.path), f)
    def materialize(self, it, kind):
        """list(it), set(it)"""
        if isinstance(it, View) and it.kind == "keys" and kind == "set": it = it.obj
        if isinstance(it, Loc):
            c = self.load(it, True)
            if isinstance(c, DictC) and kind == "set": return self.alloc(SetC(lambda x: c.has(x)))
            if isinstance(c, SetC) and kind == "set": return self.alloc(SetC(c.mem))
            if isinstance(c, ListC) and kind == "list": return self.alloc(self.shared(c, self.canon(it)[0]))
            if isinstance(c, ListC) and kind == "set":
                segs = [s for s in c.segs]
                return self.alloc(SetC(lambda x: Or([Exists(s.binders, And(s.cond, keq(toV(s.elem), x))) for s in segs])))
        res = self.alloc({"list": ListC([]), "set": SetC(lambda x: F)}[kind])
        self.loop(it, lambda v: self.list_append(res, v) if kind == "list" else self.set_add(res, v), [], None)
        return res
    def length(self, x):
        if isinstance(x, (str, tuple)): return len(x)
        if isinstance(x, z3.ExprRef) and x.sort() == Str: return z3.Length(x)
        if isinstance(x, View): return self.length(x.obj)
        if isinstance(x, Loc):
            c = self.load(x, True)
            if isinstance(c, ListC):
                if c.is_base(): return c.n
                u = c.units()
                if u is not None: return len(u)
                total = z3.IntVal(0)
                for s in c.segs_:
                    L = fresh("count", Int)
                    self.assume(L >= 0)
                    self.assume((L == 0) == Not(Exists(s.binders, s.cond)))
                    if not s.binders: self.assume(L <= 1)
                    if len(s.binders) == 1 and s.binders[0].sort() == Int:
                        # number of i in [0,n) with a condition: n exactly when every i has it
                        cs = conjuncts(s.cond)
                        rng = [k for k in cs if z3.is_lt(k) and k.arg(0).eq(s.binders[0]) and not occurs(k.arg(1), s.binders[0])]
                        low = [k for k in cs if z3.is_ge(k) and k.arg(0).eq(s.binders[0]) and z3.is_int_value(k.arg(1)) and k.arg(1).as_long() == 0]
                        if rng and low:
                            rest = And([k for k in cs if not any(k.eq(q) for q in (rng[0], low[0]))])
                            self.assume(L <= rng[0].arg(1))
                            self.assume((L == rng[0].arg(1)) == ForAll(s.binders, Implies(And(low[0], rng[0]), rest)))
                    total = total + L
                return z3.simplify(total)
            if isinstance(c, (DictC, SetC)):
                if isinstance(c, DictC) and c.pure() and all(z3.is_true(p) for p, _ in c.entries.values()): return len(c.entries)
                L = fresh("size", Int)
                ne = b2z(self.nonempty(c))
                self.assume(And(L >= 0, (L > 0) == ne))
                self.sizes = getattr(self, "sizes", []) + [(L, c)]
                if isinstance(c, DictC) or isinstance(c, SetC):
                    m = c.has if isinstance(c, DictC) else c.mem
                    x, y = bvar("k", V), bvar("k", V)
                    self.assume((L > 1) == Exists([x, y], And(m(x), m(y), x != y)))
                return L
        if x is None: self.throw("TypeError")
        raise Unsupported("len of %r" % (x,))

    # ---------------------------------------------------------------------------------- calls
    def e_Call(self, n):
        void, self.void = self.void is n, None
        f = self.ev(n.func)
        if isinstance(f, Builtin) and f.name == "next" and n.args and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords: return self.first(n)
        if isinstance(f, Meth) and f.name in ("union", "update") and len(n.args) == 1 and isinstance(n.args[0], ast.Starred) and isinstance(f.obj, Loc) and isinstance(self.load(f.obj), SetC):
            res = f.obj if f.name == "update" else self.alloc(SetC(self.load(f.obj, True).mem))
            r = self.inline(FuncV(FuncDef(self.UNION, self.fnstack[-1][0], None, "set.union"), []), [res, self.ev(n.args[0].value)], {})
            return r if f.name == "union" else None
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred): args += self.spread(self.ev(a.value))
            else: args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                c = self.load(d)
                if not (isinstance(c, DictC) and c.pure()): raise Unsupported("** of a symbolic dict")
                for kk, (p, v) in c.entries.items(): kw[kk] = self.value(v, d.step(("k", kk)))
            else: kw[k.arg] = self.ev(k.value)
        self.void = void and isinstance(f, Meth) or None
        return self.call(f, args, kw)
    def spread(self, v):
        """*v of a collection of known length"""
        if isinstance(v, (tuple, str)): return list(v)
        items, l = self.items(v)
        if any(i.binders or not z3.is_true(i.cond) for i in items): raise Unsupported("starred collection of unknown length")
        return [i.value() if callable(i.value) and not isinstance(i.value, (FuncV, ClassV)) else i.value for i in items]
    def first(self, n):
        """next(generator[, default]): the loop of the generator, left at its first element."""
        g = n.args[0]
        body = [ast.Return(value=g.elt)]
        for c in reversed(g.generators):
            for t in reversed(c.ifs): body = [ast.If(test=t, body=body, orelse=[])]
            body = [ast.For(target=c.target, iter=c.iter, body=body, orelse=[])]
        if len(n.args) > 1: body.append(ast.Return(value=ast.Name(id="<default>", ctx=ast.Load())))
        else: body.append(ast.Raise(exc=ast.Name(id="StopIteration", ctx=ast.Load()), cause=None))
        args = [self.ev(x) for x in n.args[1:]]
        a = ast.arguments(posonlyargs=[], args=[ast.arg(arg="<default>")][:len(args)], kwonlyargs=[], kw_defaults=[], defaults=[])
        f = ast.FunctionDef(name="<next>", args=a, body=body, decorator_list=[])
        ast.copy_location(f, n)
        ast.fix_missing_locations(f)
        mod, frames, cls = self.fnstack[-1]
        return self.inline(FuncV(FuncDef(f, mod, cls, self.curq() + ".<next>"), frames), args, {})
    nested_contract = None
    for_rule = None
    with_rule = None                                # (vm, context manager) -> value bound, what leaving does
    while_rule = None
    def call(self, f, args, kw):
        if isinstance(f, FuncV):
            q = f.d.qual
            if self.nested_contract is not None and f.frames and not q.endswith("<lambda>"):
                self.contracted.add(q)
                r = self.nested_contract(self, f, args, kw)
                if r is not NotImplemented: return r
            if q in self.contracts:
                self.contracted.add(q)
                r = self.contracts[q](self, f, args, kw)
                if r is not NotImplemented: return r
            return self.inline(f, args, kw)
        if isinstance(f, ClassV): return self.construct(f, args, kw)
        if isinstance(f, ExcType): return ExcVal(f, tuple(args))
        if isinstance(f, Builtin): return self.builtin(f.name, args, kw)
        if isinstance(f, Meth): return self.method(f.obj, f.name, args, kw)
        if isinstance(f, NTCls):
            return NTVal(f, tuple(args) + tuple(kw[x] for x in f.fields[len(args):]))
        raise Unsupported("call of %r" % (f,))
    def bindargs(self, f, args, kw):
        a = f.d.node.args
        names = [x.arg for x in a.args]
        if a.posonlyargs: raise Unsupported("positional-only parameters")
        vals = ([f.bound] if f.bound is not None else []) + list(args)
        env = {}
        kw = dict(kw)
        if len(vals) > len(names) and not a.vararg: self.throw("TypeError")
        for nme, v in zip(names, vals): env[nme] = v
        if a.vararg: env[a.vararg.arg] = tuple(vals[len(names):])
        for nme in names[len(vals):]:
            if nme in kw: env[nme] = kw.pop(nme)
        ds = a.defaults
        for nme, d in zip(names[len(names) - len(ds):], ds):
            if nme not in env: env[nme] = self.default(d, f)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw: env[x.arg] = kw.pop(x.arg)
            elif d is not None: env[x.arg] = self.default(d, f)
        if a.kwarg:
            l = self.alloc(DictC())
            for k, v in kw.items(): self.dict_put(l, k, v)
            env[a.kwarg.arg] = l
        elif kw: self.throw("TypeError")
        for nme in names:
            if nme not in env: self.throw("TypeError")
        return env
    def default(self, d, f):
        if isinstance(d, ast.Constant): return d.value
        if isinstance(d, ast.Name) and d.id in f.d.module.env: return self.glob(f.d.module, d.id)
        if isinstance(d, (ast.UnaryOp,)): return ast.literal_eval(d)
        raise Unsupported("default argument")
    nframe = 0
    def inline(self, f, args, kw):
        self.inlined.add(f.d.qual)
        if self.depth > 60: raise Unsupported("recursion without a contract: %s" % f.d.qual)
        env = self.bindargs(f, args, kw)
        Interp_nf = EvalMixin
        Interp_nf.nframe += 1
        fid = Interp_nf.nframe
        body = f.d.node.body
        def go():
            self.st.frames[fid] = dict(env)
            self.block(body)
        self.fnstack.append((f.d.module, (fid,) + tuple(f.frames), f.d.cls))
        self.qstack = getattr(self, "qstack", ["?"]) + [f.d.qual]
        self.depth += 1
        try:
            ps = self.explore(go)
            for p in ps:
                if p.out[0] == "normal": p.out = ("return", None)
            p = self.merge(ps, ("return",))
            if p.out[0] == "raise": raise p.out[1]
            if p.out[0] != "return": raise Unsupported("loose break")
            return p.out[1]
        finally:
            self.depth -= 1
            self.qstack = self.qstack[:-1]
            self.fnstack.pop()
    def construct(self, cls, args, kw):
        if any(n in EXC for n in cls.exc_names()): return ExcVal(cls, tuple(args) + tuple(kw.values()))
        if cls.is_enum:
            for m in cls.members.values():
                if m.value == args[0]: return m
            self.throw("ValueError")
        if cls.name in self.contracts:
            r = self.contracts[cls.name](self, cls, args, kw)
            if r is not NotImplemented:
                self.contracted.add(cls.name)
                return r
        nw, owner = cls.find("__new__")
        if nw is not None:
            o = self.call(FuncV(nw.d, nw.frames, cls, cls), args, kw)
        else:
            o = self.alloc(Rec(cls, {}))
        init, owner = cls.find("__init__")
        if init is not None: self.call(FuncV(init.d, init.frames, o, cls), args, kw)
        return o
    def isinst(self, x, t):
        """Formula or bool."""
        if isinstance(t, tuple): return Or([b2z(self.isinst(x, y)) for y in t])
        if isinstance(x, Loc):
            l, c = self.canon(x)
            return self.isinst_c(c, t)
        if isinstance(t, ClassV):
            return isinstance(x, EnumV) and x.cls is t
        if isinstance(x, tuple): return isinstance(t, Builtin) and t.name == "tuple"
        if is_scalar(x) and isinstance(t, Builtin):
            tn = t.name
            if x is None: return False
            if not isinstance(x, z3.ExprRef):
                return isinstance(x, {"str": str, "int": int, "float": float, "bool": bool, "dict": dict, "list": list, "tuple": tuple}[tn])
            s = x.sort()
            if s == Str: return tn == "str"
            if s == Bool: return tn in ("bool", "int")
            if s == Int: return tn == "int"
            if s == Real: return tn == "float"
            if smt.known_str(x): return tn == "str"
            k = smt.kind(x)
            return {"str": k == smt.K_STR, "int": Or(k == smt.K_INT, k == smt.K_BOOL), "float": k == smt.K_REAL, "bool": k == smt.K_BOOL,
                    "dict": k == smt.K_DICT, "list": k == smt.K_LIST, "tuple": F}[tn]
        if isinstance(x, View): return False
        return False
    def isinst_c(self, c, t):
        if isinstance(c, IteC): return If(c.c, b2z(self.isinst_c(c.a, t)), b2z(self.isinst_c(c.b, t)))
        if isinstance(c, Ref): return self.isinst_c(self.canon(c.loc)[1], t)
        if isinstance(t, tuple): return Or([b2z(self.isinst_c(c, y)) for y in t])
        if isinstance(c, Rec): return isinstance(t, ClassV) and c.cls.subclass_of(t) or isinstance(t, Builtin) and t.name == "object"
        if isinstance(t, ClassV): return False
        if isinstance(c, DictC): return t.name == "dict"
        if isinstance(c, ListC): return t.name == "list"
        if isinstance(c, SetC): return t.name in ("set", "frozenset")
        if is_scalar(c): return self.isinst(c, t)
        return False
    def typeof(self, x):
        if isinstance(x, Loc):
            c = self.load(x)
            if isinstance(c, Rec): return c.cls
            return {DictC: NAMES["dict"], ListC: NAMES["list"], SetC: NAMES["set"]}[type(c)]
        if x is None: return Builtin("NoneType")
        if isinstance(x, EnumV): return x.cls
        if isinstance(x, str): return NAMES["str"]
        if isinstance(x, bool): return NAMES["bool"]
        if isinstance(x, int): return NAMES["int"]
        if isinstance(x, z3.ExprRef):
            if x.sort() == V and self.choose(x == smt.NONE): return Builtin("NoneType")
            return Builtin("scalar type")
        return Builtin("type")
    def builtin(self, n, args, kw):
        if n in self.contracts: return self.contracts[n](self, None, args, kw)
        a = args
        if n == "len": return self.length(a[0])
        if n == "isinstance":
            r = self.isinst(a[0], a[1])
            return True if r is not False and not isinstance(r, bool) and z3.is_true(r) else False if not isinstance(r, bool) and z3.is_false(r) else r
        if n == "type": return self.typeof(a[0])
        if n == "issubclass":
            ts = a[1] if isinstance(a[1], tuple) else (a[1],)
            if isinstance(a[0], ClassV): return any(isinstance(t, ClassV) and a[0].subclass_of(t) for t in ts)
            return any(isinstance(t, Builtin) and isinstance(a[0], Builtin) and t.name == a[0].name for t in ts)
        if n in ("list", "tuple") and n == "list":
            return self.new_list([]) if not a else self.materialize(a[0], "list")
        if n in ("set", "frozenset"):
            return self.alloc(SetC(lambda x: F)) if not a else self.materialize(a[0], "set")
        if n == "dict":
            if not a: return self.alloc(DictC())
            c = self.load(a[0], True)
            if isinstance(c, DictC): return self.alloc(self.shared(c, self.canon(a[0])[0]))
            raise Unsupported("dict()")
        if n == "collections.OrderedDict":
            if not a: return self.alloc(DictC())
            c = self.load(a[0], True)
            if isinstance(c, DictC): return self.alloc(self.shared(c, self.canon(a[0])[0]))
            raise Unsupported("OrderedDict()")
        if n == "str": return self.to_str(a[0])
        if n == "int": return self.to_int(a)
        if n == "float": return self.to_float(a[0])
        if n == "bool": return self.tr(a[0])
        if n in ("enumerate", "reversed"): return View(n, a[0], a[1] if len(a) > 1 else kw.get("start", 0))
        if n == "range": return View("range", tuple(a))
        if n == "print": return None
        if n == "getattr": return self.getattr(a[0], self.constname(a[1]), *([a[2]] if len(a) > 2 else []))
        if n == "hasattr":
            if isinstance(a[0], Loc):
                l, c = self.canon(a[0])
                return self.has_c(c, self.constname(a[1]))
            raise Unsupported("hasattr")
        if n == "setattr": self.setfield(a[0], self.constname(a[1]), a[2]); return None
        if n == "filter":
            res = self.alloc(ListC([]))
            self.loop(a[1], lambda v: self.branch(self.tr(self.call(a[0], [v], {})), lambda: self.list_append(res, v), lambda: None), [], None)
            return res
        if n == "map":
            res = self.alloc(ListC([]))
            self.loop(a[1], lambda v: self.list_append(res, self.call(a[0], [v], {})), [], None)
            return res
        if n in ("any", "all"):
            c = self.load(a[0], True)
            ps = [Exists(s.binders, And(s.cond, b2z(self.tr(s.elem)) if n == "any" else Not(b2z(self.tr(s.elem))))) for s in c.segs]
            return Or(ps) if n == "any" else Not(Or(ps))
        if n in ("sorted",): return self.sorted(a, kw)
        if n == "functools.reduce": return self.reduce(a)
        if n in ("copy.deepcopy", "copy.copy"):
            if isinstance(a[0], Loc):
                l, c = self.canon(a[0])
                self.log_read(l, True)
                if n == "copy.deepcopy": c = self.copied(self.snapshot(c))
                elif isinstance(c, IteC): raise Unsupported("copy.copy")
                elif isinstance(c, (ListC, DictC, Rec)): c = self.shallow(c, l)
                return self.alloc(c)
            return self.copied(a[0]) if n == "copy.deepcopy" else a[0]
        if n == "super":
            mod, frames, cls = self.fnstack[-1]
            if a:
                o = a[1]
                k = o if isinstance(o, ClassV) else self.load(o).cls
                return SuperV((k, a[0]), o)
            slf = list(self.frame().values())[0]
            return SuperV((self.load(slf).cls, cls), slf)
        if n == "object.__new__": return self.alloc(Rec(a[0], {}))
        if n == "object.__init__": return None
        if n == "collections.namedtuple":
            return NTCls(a[0], a[1].replace(",", " ").split() if isinstance(a[1], str) else None)
        if n in ("typing.TypeVar",): return None
        if n == "round" and len(a) in (1, 2) and not kw:
            x = self.number(a[0])
            x = z3.ToReal(x) if x.sort() == Int else x
            d = [toV(y) for y in a[1:] if is_scalar(y)]
            v = z3.Function("round%d" % len(d), *([z3.RealSort()] + [V] * len(d) + [V]))(x, *d)    # some number: nothing else is known of it
            self.assume(smt.is_num(v))
            return v
        if n in ("min", "max") and len(a) == 2:
            x, y = self.number(a[0]), self.number(a[1])
            return If(x <= y, x, y) if n == "min" else If(x >= y, x, y)
        h = getattr(self, "lib_" + n.replace(".", "_"), None)
        if h: return h(a, kw)
        raise Unsupported("library function %s" % n)
    def constname(self, s):
        if not isinstance(s, str): raise Unsupported("attribute name is not constant")
        return s
    def has_c(self, c, a):
        if isinstance(c, IteC): return If(c.c, b2z(self.has_c(c.a, a)), b2z(self.has_c(c.b, a)))
        if isinstance(c, Rec): return a in c.fields or self.class_attr(c.cls, a)[0] is not None
        return False
    def shallow(self, c, l):
        if isinstance(c, Rec): return Rec(c.cls, {k: Ref(l.step(("f", k))) if isinstance(v, STRUCT) and not isinstance(v, Ref) else v for k, v in c.fields.items()})
        raise Unsupported("shallow copy")
    def to_str(self, x):
        if isinstance(x, z3.ExprRef):
            if x.sort() == Int: return smt.strv(x)
            if x.sort() == Str or smt.known_str(x): return x
            if x.sort() == V: return fmtfun("str", 1)(x)
        if isinstance(x, (str, int)) and not isinstance(x, bool): return str(x)
        if isinstance(x, EnumV): return "%s.%s" % (x.cls.name, x.name)
        raise Unsupported("str()")
    def to_int(self, a):
        raise Unsupported("int()")
    def to_float(self, x):
        raise Unsupported("float()")
    def enumerated(self, c):
        """A list as (length, element at an index): also of those made by one loop over a range with a condition.  None when unknown."""
        b = as_base(c)
        if b is not None: return b
        if len(c.segs_) != 1 or c.segs_[0].carry or not c.ordered: return None
        s = c.segs_[0]
        if len(s.binders) != 1 or s.binders[0].sort() != Int: return None
        b, lo, hi, rest = s.binders[0], False, None, []
        for k in flat_and(s.cond):
            if z3.is_ge(k) and k.arg(0).eq(b) and z3.is_int_value(k.arg(1)) and k.arg(1).as_long() == 0: lo = True
            elif z3.is_lt(k) and k.arg(0).eq(b) and not occurs(k.arg(1), b) and hi is None: hi = k.arg(1)
            else: rest.append(k)
        if not lo or hi is None: return None
        m, e, r = self.enumeration(hi, And(rest), b)
        return m, (lambda j: sub(s.elem, [(b, e(j))]))
    def enumeration(self, n, cond, b):
        """The increasing enumeration of {b in [0, n) : cond}: length, element at an index, index of an element."""
        key = And(b < n, cond)
        x = z3.Int("enumerated!")
        key = z3.simplify(z3.substitute(key, (b, x)))
        cache = self.__dict__.setdefault("enums", {})
        if key.get_id() not in cache:
            fixed = {f.get_id() for f in self.run.pc()}
            for m, e, r, facts, other in list(cache.values()):            # another description of the same set
                if all(f.get_id() in fixed for f in facts) and smt.proves(self.run.pc(), Implies(x >= 0, key == other), 1000): return m, e, r
            ctx = smt.CTX[:]
            if not any(occurs(key, c) for c in ctx): smt.CTX.clear()
            try: m, e, r = fresh("enum.n", Int), freshf("enum.e", Int, Int), freshf("enum.rank", Int, Int)
            finally: smt.CTX[:] = ctx
            i, j = bvar("i", Int), bvar("j", Int)
            keep = lambda i: z3.substitute(cond, (b, i))
            inr = lambda i: And(i >= 0, i < n, keep(i))
            atoms, todo, seen = [], [cond], set()
            while todo:                                   # predicates of the condition, as triggers
                a = todo.pop()
                if a.get_id() in seen or z3.is_quantifier(a): continue
                seen.add(a.get_id())
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.sort() == Bool and a.num_args() and occurs(a, b): atoms.append(a)
                todo.extend(a.children())
            facts = [And(m >= 0, m <= If(n >= 0, n, z3.IntVal(0))),
                     ForAll([j], Implies(And(j >= 0, j < m), And(inr(e(j)), r(e(j)) == j)), [e(j)]),
                     ForAll([i], Implies(inr(i), And(r(i) >= 0, r(i) < m, e(r(i)) == i)), [r(i)] + [z3.substitute(a, (b, i)) for a in atoms[:2]]),
                     ForAll([i, j], Implies(And(i >= 0, i < j, j < m), e(i) < e(j)), [z3.MultiPattern(e(i), e(j))])]
            cache[key.get_id()] = (m, e, r, facts, key)
        m, e, r, facts, _ = cache[key.get_id()]
        have = {f.get_id() for f in self.run.pc()}
        for f in facts:
            if f.get_id() not in have: self.assume(f)
        return m, e, r
    list_hook = None
    def list_op(self, op, loc, c, i, x=None):
        """pop(i) and insert(i, x) of a list with a known enumeration."""
        b = self.enumerated(c)
        if b is None: raise Unsupported("%s of a list of unknown order" % op)
        n, at = b
        l, _ = self.canon(loc)
        self.log_read(l, True)
        i = raw = self.number(i)
        if i.sort() != Int: self.throw("TypeError")
        if op == "pop":
            i = z3.simplify(If(i < 0, n + i, i))
            if not self.choose(And(i >= 0, i < n)): self.throw("IndexError")
            v = at(i)
            new = ListC(n=z3.simplify(n - 1), at=lambda j: mk_ite(j < i, at(j), at(j + 1)), ordered=c.ordered)
            ret = v if not isinstance(v, STRUCT) else v.loc if isinstance(v, Ref) else self.alloc(v)
        else:
            i = If(i < 0, If(n + i < 0, z3.IntVal(0), n + i), If(i > n, n, i))
            e = self.embed(x, l.step(("i", "new")))
            new = ListC(n=z3.simplify(n + 1), at=lambda j: mk_ite(j < i, at(j), mk_ite(j == i, e, at(j - 1))), ordered=c.ordered)
            v, ret = e, None
        if self.list_hook is not None: self.list_hook(op, c, new, raw, v)
        if isinstance(c, ListC) and any(isinstance(at(bvar("i", Int)), t) for t in (Rec, DictC, ListC, SetC)): self.replaced(l.step(("i", None)), at(bvar("i", Int)))
        self.modify(loc, lambda _: new, "slot")
        return ret
    def list_index(self, l, c, x):
        b = self.enumerated(c)
        if b is None: raise Unsupported("index in a list of unknown order")
        n, at = b
        self.log_read(l, True)
        j = bvar("j", Int)
        same = lambda j: b2z(self.eq(self.value(at(j), l), x))
        if not self.choose(b2z(self.list_has(c, x, l))): self.throw("ValueError")
        J = fresh("index", Int)
        self.assume(And(J >= 0, J < n, same(J)))
        self.assume(ForAll([j], Implies(And(j >= 0, j < J), Not(same(j)))))
        return J
    def copied(self, c): return c      # what a deep copy makes of the values in a content (contracts/owner.py)
    sorted_rule = None                 # contract of sorted for lists of no known order
    def sorted(self, a, kw):
        """A stable sort by numeric keys."""
        if kw.get("reverse") not in (None, False) or len(a) != 1: raise Unsupported("sorted")
        x = a[0]
        if not isinstance(x, Loc): raise Unsupported("sorted")
        l, c = self.canon(x)
        c = self.pick(c)
        self.log_read(l, True)
        b = self.enumerated(c) if isinstance(c, ListC) else None
        if b is None and isinstance(c, ListC) and self.sorted_rule is not None: return self.sorted_rule(self, c, l, kw.get("key"))
        if b is None: raise Unsupported("sorted of a collection of unknown order")
        n, at = b
        j, i = bvar("j", Int), bvar("i", Int)
        copy = self.alloc(ListC(n=n, at=at))
        self.readonly.add(copy.addr)
        if not l.path: self.readonly.add(l.addr)
        elif isinstance(at(j), STRUCT): raise Unsupported("sorted of objects inside another one")
        key = kw.get("key")
        smt.CTX.append(j)
        try: ps = self.explore(lambda: self.number(self.call(key, [self.value(at(j), copy.step(("i", j)))], {}) if key is not None else self.value(at(j), copy.step(("i", j)))), And(j >= 0, j < n))
        finally: smt.CTX.pop()
        if len(ps) != 1 or ps[0].out[0] != "normal" or ps[0].effects: raise Unsupported("key of sorted")
        p = ps[0]
        if p.facts: self.assume(ForAll([j], Implies(And(j >= 0, j < n), And(p.facts))))
        K = lambda t: z3.substitute(p.out[1], (j, t))
        f, g = freshf("sorted.at", Int, Int), freshf("sorted.pos", Int, Int)
        rng = lambda t: And(t >= 0, t < n)
        self.assume(ForAll([j], Implies(rng(j), And(rng(f(j)), g(f(j)) == j)), [f(j)]))
        trig, todo = [], [p.out[1]]
        while todo and not trig:
            a = todo.pop()
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(y.eq(j) for y in a.children()): trig.append(a)
            elif not z3.is_quantifier(a): todo.extend(a.children())
        self.assume(ForAll([j], Implies(rng(j), And(rng(g(j)), f(g(j)) == j)), [g(j)] + trig))
        self.assume(ForAll([i, j], Implies(And(i >= 0, i < j, j < n), Or(K(f(i)) < K(f(j)), And(K(f(i)) == K(f(j)), f(i) < f(j)))), [z3.MultiPattern(f(i), f(j))]))
        new = ListC(n=n, at=lambda t: at(f(t)))
        new.perm = (f, g, K)
        r = self.alloc(new)
        self.readonly.add(r.addr)
        return r
    REDUCE = ast.parse("def reduce(function, iterable, initial):\n    result = initial\n    for element in iterable:\n        result = function(result, element)\n    return result").body[0]
    UNION = ast.parse("def union(result, others):\n    for other in others:\n        for element in other:\n            result.add(element)\n    return result").body[0]
    def reduce(self, a):
        """functools.reduce with an initial value, as its documentation spells it out."""
        if len(a) != 3: raise Unsupported("reduce without an initial value")
        return self.inline(FuncV(FuncDef(self.REDUCE, self.fnstack[-1][0], None, "functools.reduce"), []), a, {})
    def strformat(self, tmpl, args):
        if all(isinstance(x, (str, int)) and not isinstance(x, bool) for x in args): return tmpl.format(*args)
        if any(isinstance(x, z3.ExprRef) and x.sort() == Str for x in args):
            parts, i = [], 0
            for j, p in enumerate(tmpl.split("{}")):
                if j: parts.append(args[i] if isinstance(args[i], z3.ExprRef) else z3.StringVal(str(args[i]))); i += 1
                if p: parts.append(z3.StringVal(p))
            return z3.Concat(*parts) if len(parts) > 1 else parts[0]
        vs = []
        for x in args:
            if is_scalar(x): vs.append(toV(x))
            else: vs.append(fresh("shown", V))
        return fmtfun(tmpl, len(vs))(*vs)
    def method(self, o, m, a, kw):
        if isinstance(o, (ObjDict,)):
            if m in ("items", "keys", "values"): return View(m, o)
        if isinstance(o, Loc):
            l, c = self.canon(o)
            c = self.pick(c)
            if isinstance(c, Rec):
                if m == "__setattr__": self.setfield(o, self.constname(a[0]), a[1]); return None
                if m == "__getattribute__": return self.getattr(o, self.constname(a[0]))
            if isinstance(c, DictC):
                if m in ("items", "keys", "values"): return View(m, o)
                if m == "get":
                    k, d = a[0], (a[1] if len(a) > 1 else kw.get("default"))
                    if k is None: return d
                    self.log_read(l.step(("k", k)), False)
                    self.stale_check(l)
                    h = c.has(k)
                    if z3.is_false(h): return d
                    g = lambda: self.value(self.known(c, k, h), l.step(("k", k)))
                    if isinstance(d, Loc) and not z3.is_true(h):
                        cd, cv = self.load(d), c.get(k)
                        if isinstance(cd, (ListC, DictC)) and b2z(self.isempty(cd)) is not None and is_empty_lit(cd) and isinstance(cv, type(cd)) and not self.loopmarks_conflict():
                            return self.alloc(mk_ite(h, self.byref(cv, l.step(("k", k))), cd))
                    return self.branch(h, g, lambda: d)
                if m == "setdefault":
                    k = a[0]
                    d = a[1] if len(a) > 1 else None
                    if isinstance(d, Loc) and not d.path and self.loopmarks and l.addr <= self.loopmarks[-1] < d.addr and isinstance(k, (str, z3.ExprRef)):
                        cd = self.st.heap[d.addr]
                        if isinstance(cd, (DictC, ListC)) and is_empty_lit(cd):
                            self.stale_check(l)
                            self.make_present(l, k, cd)
                            self.st.heap[d.addr] = NOTHING                 # may or may not be what is now in the dict
                            return self.getitem(o, k)
                    self.log_read(l.step(("k", k)), False)
                    def put(): self.dict_put(o, k, a[1] if len(a) > 1 else None)
                    self.branch(c.has(k), lambda: None, put)
                    return self.getitem(o, k)
                if m == "pop":
                    k = a[0]
                    self.log_read(l.step(("k", k)), False)
                    void, self.void = self.void is True, None
                    def there():
                        v = self.getitem(o, k)
                        if void: v = None                          # the value is not used
                        elif isinstance(v, Loc) and v.addr == l.addr:  # it is an object of its own from now on
                            _, x = self.canon(v)
                            self.log_read(v, True)
                            v = self.alloc(x)
                        self.dict_del(o, k)
                        return v
                    def absent():
                        if len(a) > 1: return a[1]
                        self.throw("KeyError")
                    return self.branch(c.has(k), there, absent)
                if m == "copy": return self.alloc(self.shared(c, l))
                if m == "clear":
                    self.modify(o, lambda c: DictC(), "slot"); return None
                if m == "update":
                    src = a[0]
                    self.loop(View("items", src), lambda v: self.dict_put(o, v[0], v[1]), [], None)
                    return None
            if isinstance(c, ListC):
                if m == "append": self.list_append(o, a[0]); return None
                if m == "extend": self.list_extend(o, a[0]); return None
                if m == "copy": return self.slice(o, None, None, None)
                if m == "index" and len(a) == 1: return self.list_index(l, c, a[0])
                if m == "insert": return self.list_op("insert", o, c, a[0], a[1])
                if m == "remove":
                    ba, x = as_base(c), toV(a[0])
                    i = bvar("i", Int)
                    if ba is None or c.units() is not None or not self.entails(And(ba[0] > 0, toV(ba[1](ba[0] - 1)) == x)) or not self.entails(ForAll([i], Implies(And(i >= 0, i < ba[0] - 1), toV(ba[1](i)) != x))):
                        raise Unsupported("remove from a list")
                    n = z3.simplify(ba[0] - 1)                    # its last element, and there is no other
                    self.modify(o, lambda c: ListC(n=n, at=ba[1], ordered=c.ordered), "slot"); return None
                if m == "pop" and a: return self.list_op("pop", o, c, a[0])
                if m == "pop" and not a:
                    u = c.units()
                    if u: 
                        self.modify(o, lambda c: ListC([Seg([], T, x) for x in u[:-1]]), "slot")
                        return self.value(u[-1], l)
                    ba = as_base(c)
                    if ba is not None:
                        self.log_read(l, True)
                        if not self.choose(ba[0] > 0): self.throw("IndexError")
                        n = z3.simplify(ba[0] - 1)
                        v = ba[1](n)
                        self.modify(o, lambda c: ListC(n=n, at=ba[1], ordered=c.ordered), "slot")
                        if isinstance(v, STRUCT): raise Unsupported("pop of an object")
                        return v
            if isinstance(c, SetC):
                if m == "add": self.set_add(o, a[0]); return None
                if m == "discard": self.set_add(o, a[0], False); return None
                if m == "remove":
                    if not self.choose(c.mem(toV(a[0]))): self.throw("KeyError")
                    self.set_add(o, a[0], False); return None
                if m in ("difference", "union", "intersection"):
                    x = self.materialize(a[0], "set") if not isinstance(a[0], Loc) or not isinstance(self.load(a[0]), SetC) else a[0]
                    return self.binop({"difference": ast.Sub(), "union": ast.BitOr(), "intersection": ast.BitAnd()}[m], o, x)
                if m == "update":
                    x = self.load(self.materialize(a[0], "set"))
                    old = c
                    self.modify(o, lambda c: SetC(lambda y: Or(old.mem(y), x.mem(y))), "slot"); return None
        if isinstance(o, str) and m == "format": return self.strformat(o, a)
        if isinstance(o, str) and all(isinstance(x, str) for x in a) and not kw and m in ("split", "strip", "lower", "startswith", "endswith", "join", "rstrip", "upper"):
            r = getattr(o, m)(*a)
            return self.new_list(r) if isinstance(r, list) else r
        if isinstance(o, z3.ExprRef) and o.sort() == Str:
            s = lambda x: x if isinstance(x, z3.ExprRef) else z3.StringVal(x)
            if m == "endswith": return z3.SuffixOf(s(a[0]), o)
            if m == "startswith": return z3.PrefixOf(s(a[0]), o)
            h = getattr(self, "str_" + m, None)
            if h: return h(o, a, kw)
        if isinstance(o, z3.ExprRef) and o.sort() == V and smt.known_str(o):
            h = getattr(self, "vstr_" + m, None)
            if h: return h(o, a, kw)
        if isinstance(o, (z3.ExprRef, str)) and (isinstance(o, str) or o.sort() == V) and m in TEXT and not kw and all(isinstance(x, str) or isinstance(x, z3.ExprRef) and x.sort() == V for x in a):
            for x in [o] + list(a):                        # some function of the texts: nothing else is known of it
                if not smt.known_str(x) and not self.choose(smt.kind(toV(x)) == smt.K_STR): self.throw("AttributeError" if x is o else "TypeError")
            if m in ("startswith", "endswith"): return z3.Function("str.%s%d" % (m, len(a)), *([V] * (1 + len(a)) + [Bool]))(*[toV(x) for x in [o] + list(a)])
            return fmtfun("." + m, 1 + len(a))(*[toV(x) for x in [o] + list(a)])
        raise Unsupported("method %s of %r" % (m, o))
    def known(self, c, k, h):
        return c.get(k)
    def loopmarks_conflict(self): return False
    def byref(self, cv, l):
        return cv

    # ---------------------------------------------------------------------------------- statements
    def block(self, body):
        for s in body: self.stmt(s)
    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise Unsupported("statement %s" % type(s).__name__)
        m(s)
    def s_Pass(self, s): pass
    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant): return
        self.void = s.value
        self.ev(s.value)
        self.void = None
    void = None
    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets: self.assign(t, v)
    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.ev(s.value))
    def assign(self, t, v):
        if isinstance(t, ast.Name): self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals): self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            a = self.mangle(t.attr)
            self.setfield(o, a, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.ev(t.slice), v)
        else: raise Unsupported("assignment target")
    def setitem(self, o, k, v):
        if isinstance(o, Loc):
            c = self.load(o)
            if isinstance(c, DictC): return self.dict_put(o, k, v)
            if isinstance(c, ListC):
                l, c = self.canon(o)
                if c.is_base():
                    i = self.number(k)
                    if not self.choose(And(i >= 0, i < c.n)): self.throw("IndexError")
                    e = self.embed(v, l.step(("i", i)))
                    self.replaced(l.step(("i", i)), c.at(i))
                    self.log_write(l.step(("i", i)), "slot")
                    self.st.heap[l.addr] = self.update(self.st.heap[l.addr], list(l.path) + [("i", i)], lambda _: e)
                    return
        raise Unsupported("item assignment")
    def unpack(self, v, n):
        if isinstance(v, tuple): vals = list(v)
        elif isinstance(v, NTVal): vals = list(v.vals)
        elif isinstance(v, Loc):
            c = self.load(v, True)
            u = c.units() if isinstance(c, ListC) else None
            if u is None: raise Unsupported("unpacking")
            vals = [self.value(x, v) for x in u]
        else: raise Unsupported("unpacking")
        if len(vals) != n: self.throw("ValueError")
        return vals
    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name): cur = self.lookup(t.id); put = lambda v: self.setvar(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value); a = self.mangle(t.attr)
            cur = self.getattr(o, a); put = lambda v: self.setfield(o, a, v)
        else:
            o, k = self.ev(t.value), self.ev(t.slice)
            cur = self.getitem(o, k); put = lambda v: self.setitem(o, k, v)
        rhs = self.ev(s.value)
        if isinstance(cur, Loc):
            c = self.load(cur)
            if isinstance(c, ListC) and isinstance(s.op, ast.Add):
                self.list_extend(cur, rhs)
                return
        put(self.binop(s.op, cur, rhs))
    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o, k = self.ev(t.value), self.ev(t.slice)
                l, c = self.canon(o)
                c = self.pick(c)
                if not isinstance(c, DictC): raise Unsupported("del of a list item")
                self.log_read(l.step(("k", k)), False)
                if not self.choose(c.has(k)): self.throw("KeyError")
                self.dict_del(o, k)
            elif isinstance(t, ast.Name): self.frame().pop(t.id, None)
            else: raise Unsupported("del")
    def s_If(self, s):
        t = self.tr(self.ev(s.test))
        self.branch(t, lambda: self.block(s.body), lambda: self.block(s.orelse))
    def s_Return(self, s): raise Ret(None if s.value is None else self.ev(s.value))
    def s_Break(self, s): raise Brk()
    def s_Continue(self, s): raise Cont()
    def s_Raise(self, s):
        e = self.ev(s.exc)
        if isinstance(e, ExcVal): raise PyExc(e.cls, e.args)
        if isinstance(e, (ExcType, ClassV)): raise PyExc(e)
        raise Unsupported("raise")
    def s_Assert(self, s):
        if not self.choose(self.tr(self.ev(s.test))): self.throw("AssertionError")
    def s_FunctionDef(self, s):
        mod, frames, cls = self.fnstack[-1]
        self.setvar(s.name, FuncV(FuncDef(s, mod, cls, self.curq() + "." + s.name), frames))
    def s_For(self, s):
        it = self.iterable(s.iter)
        names = sorted({x.id for y in [s.target] + s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        def body(v):
            self.assign(s.target, v)
            self.block(s.body)
        try:
            if not (self.for_rule is not None and self.for_rule(self, it, body, names, s)): self.loop(it, body, names, s)
        except Brk: return
        if s.orelse: self.block(s.orelse)
    def iterable(self, n):
        """What a loop goes over: list(d.items()) as what d holds when the loop begins."""
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            f = self.ev(n.func)
            if isinstance(f, Builtin) and f.name in ("list", "tuple"):
                x = self.ev(n.args[0])
                if isinstance(x, View) and x.kind in ("items", "values"): return View("snapshot", x)
                return self.call(f, [x], {})
        return self.ev(n)
    def s_While(self, s):
        if s.orelse: raise Unsupported("while-else")
        if self.while_rule is not None and self.while_rule(self, s): return
        n = 0
        while True:
            t = self.tr(self.ev(s.test))
            if not self.choose(t): return
            n += 1
            if n > 8: raise Unsupported("while loop without an invariant in %s" % self.curq())
            try: self.block(s.body)
            except Brk: return
            except Cont: pass
    def s_Try(self, s):
        ps = self.explore(lambda: self.block(s.body))
        p = self.merge(ps, leave=False)
        run = self.run
        run.noside += 1
        try:
            try: self.outcome(p)
            except PyExc as e:
                for h in s.handlers:
                    ts = [None] if h.type is None else (list(self.ev(h.type)) if isinstance(h.type, ast.Tuple) else [self.ev(h.type)])
                    if any(t is None or t.name in e.names() for t in ts):
                        if h.name: self.setvar(h.name, ExcVal(e.cls, e.args_))
                        self.block(h.body)
                        return
                raise
            self.block(s.orelse)
        finally:
            run.noside -= 1
            if s.finalbody: self.block(s.finalbody)
    def s_With(self, s, rest=0):
        if rest == len(s.items): return self.block(s.body)
        i = s.items[rest]
        v = self.ev(i.context_expr)
        if self.with_rule is None: raise Unsupported("with")
        x, leave = self.with_rule(self, v)
        def inner():
            if i.optional_vars is not None: self.assign(i.optional_vars, x)
            self.s_With(s, rest + 1)
        p = self.merge(self.explore(inner), leave=False)
        run = self.run
        run.noside += 1
        try:
            try: return self.outcome(p)
            finally: leave()
        finally: run.noside -= 1
    def s_Global(self, s): raise Unsupported("global")
    def s_Nonlocal(self, s):
        raise Unsupported("nonlocal")
    def s_Import(self, s): pass

def b2z(x):
    if isinstance(x, bool): return T if x else F
    return x
def conjuncts(f):
    if z3.is_and(f): return [y for x in f.children() for y in conjuncts(x)]
    return [f]
def is_empty_lit(c):
    return isinstance(c, ListC) and c.units() == [] or isinstance(c, DictC) and c.pure() and not c.entries
def rec_has(c, a):
    if isinstance(c, IteC): return rec_has(c.a, a) and rec_has(c.b, a)
    return isinstance(c, Rec) and a in c.fields
def rec_get(c, a):
    if isinstance(c, IteC): return mk_ite(c.c, rec_get(c.a, a), rec_get(c.b, a))
    return c.fields[a]
