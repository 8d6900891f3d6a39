"""Strings in the solver's theory (sort Str): regular expressions, splitting, int()."""
import re, z3
try: import re._parser as sre
except ImportError: import sre_parse as sre
from dv import smt
from dv.smt import V, Int, Bool, Str, And, Or, Not, If
from dv.core import *
from dv.interp import *
from dv.evalx import fmtfun

class RegexV:
    def __init__(self, pattern): self.pattern = pattern
class MatchV: pass

SPACES = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f"         # what \\s and strip() take as spaces (ASCII)
ALL = z3.AllChar(z3.ReSort(z3.StringSort()))
def uni(rs):
    return rs[0] if len(rs) == 1 else z3.Union(*rs)
def cls(items):
    neg, rs = False, []
    for op, av in items:
        op = str(op)
        if op == "NEGATE": neg = True
        elif op == "LITERAL": rs.append(z3.Re(chr(av)))
        elif op == "RANGE": rs.append(z3.Range(chr(av[0]), chr(av[1])))
        elif op == "CATEGORY": rs.append(category(av))
        else: raise Unsupported("regex class %s" % op)
    r = uni(rs)
    return z3.Intersect(z3.Complement(r), ALL) if neg else r
def category(av):
    a = str(av)
    d = z3.Range("0", "9")
    w = z3.Union(d, z3.Range("a", "z"), z3.Range("A", "Z"), z3.Re("_"))
    s = uni([z3.Re(c) for c in SPACES])
    for n, r in (("DIGIT", d), ("WORD", w), ("SPACE", s)):
        if a == "CATEGORY_" + n: return r
        if a == "CATEGORY_NOT_" + n: return z3.Intersect(z3.Complement(r), ALL)
    raise Unsupported("regex category")
def to_re(p):
    """(regex, anchored at the end).  ASCII."""
    out = []
    for op, av in p:
        op = str(op)
        if op == "LITERAL": out.append(z3.Re(chr(av)))
        elif op == "NOT_LITERAL": out.append(z3.Intersect(z3.Complement(z3.Re(chr(av))), ALL))
        elif op == "ANY": out.append(z3.Intersect(z3.Complement(z3.Re("\n")), ALL))
        elif op == "IN": out.append(cls(av))
        elif op in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            r = to_re(sub)
            if str(hi) == "MAXREPEAT": out.append(z3.Plus(r) if lo == 1 else z3.Star(r) if lo == 0 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            else: out.append(z3.Loop(r, lo, hi))
        elif op == "SUBPATTERN": out.append(to_re(av[3]))
        elif op == "BRANCH": out.append(uni([to_re(x) for x in av[1]]))
        elif op == "AT" and str(av) in ("AT_BEGINNING", "AT_BEGINNING_STRING") and not out: pass
        else: raise Unsupported("regex %s" % op)
    if not out: return z3.Re("")
    return out[0] if len(out) == 1 else z3.Concat(*out)
def regex(pattern, full=False):
    p = list(sre.parse(pattern))
    end = False
    if p and str(p[-1][0]) == "AT" and str(p[-1][1]) in ("AT_END", "AT_END_STRING"): end = str(p[-1][1]); p = p[:-1]
    r = to_re(p)
    if end == "AT_END": return z3.Concat(r, z3.Option(z3.Re("\n"))) if not full else r
    if end or full: return r
    return z3.Concat(r, z3.Full(z3.ReSort(z3.StringSort())))

DIGITS = z3.Plus(z3.Range("0", "9"))
SPACE = uni([z3.Re(c) for c in SPACES])
WS = z3.Star(SPACE)
NONSPACE = z3.Intersect(z3.Complement(SPACE), ALL)
ANYTEXT = z3.Full(z3.ReSort(z3.StringSort()))
STARTS, ENDS = z3.Concat(NONSPACE, ANYTEXT), z3.Concat(ANYTEXT, NONSPACE)
INTLIKE = z3.Concat(WS, z3.Option(z3.Union(z3.Re("+"), z3.Re("-"))), DIGITS, z3.Star(z3.Concat(z3.Re("_"), DIGITS)), WS)
def word(w): return z3.Concat(*[z3.Union(z3.Re(c), z3.Re(c.upper())) for c in w])
DEC = z3.Concat(DIGITS, z3.Star(z3.Concat(z3.Re("_"), DIGITS)))
SIGN = z3.Option(z3.Union(z3.Re("+"), z3.Re("-")))
POINT = z3.Union(DEC, z3.Concat(DEC, z3.Re(".")), z3.Concat(z3.Re("."), DEC), z3.Concat(DEC, z3.Re("."), DEC))
FLOATLIKE = z3.Concat(WS, SIGN, z3.Union(z3.Concat(POINT, z3.Option(z3.Concat(z3.Union(z3.Re("e"), z3.Re("E")), SIGN, DEC))), word("inf"), word("infinity"), word("nan")), WS)
FLOATOF = z3.Function("float_of", Str, V)
HEX = z3.Function("hexadecimal", V, Int)
INTOF = z3.Function("int_of", Str, Int)

def atoms(t):
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT): return [y for x in t.children() for y in atoms(x)]
    return [t]

class StrMixin:
    rest_atoms = ()
    regex_rule = None                  # contract of the other methods of a compiled pattern
    def zs(self, x): return x if isinstance(x, z3.ExprRef) else z3.StringVal(x)
    def lib_re_compile(self, a, kw): return RegexV(a[0])
    def lib_re_match(self, a, kw, full=False):
        p = a[0].pattern if isinstance(a[0], RegexV) else a[0]
        if isinstance(a[1], str): return MatchV() if (re.fullmatch if full else re.match)(p, a[1]) else None
        if not (isinstance(a[1], z3.ExprRef) and a[1].sort() == Str): raise Unsupported("re.match")
        return MatchV() if self.choose(z3.InRe(a[1], regex(p, full))) else None
    def lib_re_fullmatch(self, a, kw): return self.lib_re_match(a, kw, True)
    def method(self, o, m, a, kw):
        if isinstance(o, RegexV):
            if m in ("match", "fullmatch"): return self.lib_re_match([o] + a, kw, m == "fullmatch")
            if self.regex_rule is not None: return self.regex_rule(self, o.pattern, m, a, kw)
            h = getattr(self, "regex_" + m, None)
            if h: return h(o, a, kw)
            raise Unsupported("regex method %s" % m)
        if m == "get" and a and isinstance(a[0], z3.ExprRef) and a[0].sort() == Str and self.entries(o) is not None:
            if not self.choose(self.contains(o, a[0])): return a[1] if len(a) > 1 else None
            a = [self.literal(a[0], self.entries(o))] + a[1:]
        return super().method(o, m, a, kw)
    def str_split(self, o, a, kw):
        sep = a[0] if a else kw.get("sep")
        if not isinstance(sep, str) or len(a) > 1 or "maxsplit" in kw: raise Unsupported("split")
        parts, cur, more = [], [], None
        for t in atoms(o):
            if z3.is_string_value(t):
                bits = t.as_string().split(sep)
                for n, b in enumerate(bits):
                    if n: parts.append(cur); cur = []
                    if b: cur.append(z3.StringVal(b))
            elif self.entails(Not(z3.Contains(t, z3.StringVal(sep)))): cur.append(t)
            elif any(t.eq(r) for r in self.rest_atoms): more = fresh("parts", Int); cur.append(t)
            else: raise Unsupported("split of a text of unknown shape")
        parts.append(cur)
        vals = [z3.Concat(*p) if len(p) > 1 else p[0] if p else z3.StringVal("") for p in parts]
        if more is None: return self.new_list(vals)
        self.assume(more >= len(vals))
        f = freshf("part", Int, Str)
        return self.alloc(ListC(n=more, at=lambda i: f(i)))
    def str_partition(self, o, a, kw):
        u = self.load(self.str_split(o, a, {})).units()
        if u is None: raise Unsupported("partition")
        if len(u) == 1: return (u[0], z3.StringVal(""), z3.StringVal(""))
        sep, rest = z3.StringVal(a[0]), [u[1]]
        for x in u[2:]: rest += [sep, x]
        return (u[0], sep, z3.Concat(*rest) if len(rest) > 1 else rest[0])
    def str_strip(self, o, a, kw, left=True, right=True):
        if a or kw: raise Unsupported("strip of other characters")
        ts = [t for t in atoms(o)]
        def trim(ts, edge, cut):
            """ts without the spaces it starts with (edge: texts starting with something else; cut: strips a literal)."""
            while ts:
                t = ts[0]
                if z3.is_string_value(t):
                    r = cut(t.as_string(), SPACES)
                    if r: return [z3.StringVal(r)] + ts[1:]
                elif self.entails(z3.InRe(t, WS)): pass
                elif self.entails(z3.InRe(t, edge)): return ts
                elif self.entails(Or(t == "", z3.InRe(t, edge))):
                    if not self.choose(t == ""): return ts
                else: raise Unsupported("strip of a text of unknown shape")
                ts = ts[1:]
            return ts
        if left: ts = trim(ts, STARTS, str.lstrip)
        if right: ts = trim(ts[::-1], ENDS, str.rstrip)[::-1]
        return z3.Concat(*ts) if len(ts) > 1 else ts[0] if ts else z3.StringVal("")
    def str_lstrip(self, o, a, kw): return self.str_strip(o, a, kw, right=False)
    def str_rstrip(self, o, a, kw): return self.str_strip(o, a, kw, left=False)
    def slice(self, o, a, b, st):
        if isinstance(o, z3.ExprRef) and o.sort() == Str and st is None and (a is None or isinstance(a, int) and a >= 0) and (b is None or isinstance(b, int) and b < 0):
            ts, k = atoms(o), a or 0
            while k and ts and z3.is_string_value(ts[0]):
                t = ts[0].as_string()
                k, ts = (0, [z3.StringVal(t[k:])] + ts[1:]) if len(t) > k else (k - len(t), ts[1:])
            m = -(b or 0)
            while m and ts and z3.is_string_value(ts[-1]):
                t = ts[-1].as_string()
                m, ts = (0, ts[:-1] + [z3.StringVal(t[:-m])]) if len(t) > m else (m - len(t), ts[:-1])
            if not k and not m:
                ts = [t for t in ts if not (z3.is_string_value(t) and t.as_string() == "")]
                return z3.Concat(*ts) if len(ts) > 1 else ts[0] if ts else z3.StringVal("")
        return super().slice(o, a, b, st)
    # texts as keys: the literal they are known to equal
    def literal(self, k, cands):
        if not (isinstance(k, z3.ExprRef) and k.sort() == Str): return k
        if z3.is_string_value(k): return k.as_string()
        for c in cands:
            if isinstance(c, str) and self.entails(k == z3.StringVal(c)): return c
        raise Unsupported("a text as a key")
    def entries(self, o):
        """The keys of a dictionary that has no unknown ones."""
        c = self.pick(self.canon(o)[1]) if isinstance(o, Loc) else None
        return c.entries if isinstance(c, DictC) and c.pure() else None
    def contains(self, c, x):
        if isinstance(x, z3.ExprRef) and x.sort() == Str:
            o = c.obj if isinstance(c, View) and c.kind == "keys" else c
            if isinstance(o, (tuple, list)) and all(isinstance(y, str) for y in o): ks = {y: (T, None) for y in o}
            else: ks = self.entries(o)
            if ks is not None:
                if isinstance(o, Loc): self.log_read(self.canon(o)[0], True)
                self.litkeys |= {y for y in ks if isinstance(y, str)}
                return Or([And(p, x == z3.StringVal(y)) for y, (p, _) in ks.items() if isinstance(y, str)]) if ks else F
        return super().contains(c, x)
    litkeys = set()
    def getitem(self, o, k):
        if isinstance(k, z3.ExprRef) and k.sort() == Str and self.entries(o) is not None:
            t = self.contains(o, k)
            if not self.choose(t): self.throw("KeyError")
            k = self.literal(k, self.entries(o))
        return super().getitem(o, k)
    def dict_put(self, o, k, v):
        if isinstance(k, z3.ExprRef) and k.sort() == Str: k = self.literal(k, sorted(self.litkeys | set(self.entries(o) or ())))
        return super().dict_put(o, k, v)
    def to_str(self, x):
        return super().to_str(x)
    def to_float(self, x):
        if isinstance(x, (int, float)): return float(x)
        if isinstance(x, str):
            try: return float(x)
            except ValueError: self.throw("ValueError")
        if isinstance(x, z3.ExprRef) and x.sort() == Str:
            try: x = self.str_strip(x, [], {})                # float ignores the spaces around
            except Unsupported: pass
            if not self.choose(z3.InRe(x, FLOATLIKE)): self.throw("ValueError")
            self.assume(smt.kind(FLOATOF(x)) == smt.K_REAL)
            return FLOATOF(x)
        raise Unsupported("float()")
    def str_count(self, o, a, kw):
        l = self.str_split(o, a, {})
        return self.length(l) - 1
    def to_int(self, a):
        if len(a) != 1: return self.to_int_base(a)
        x = a[0]
        if isinstance(x, str):
            try: return int(x)
            except ValueError: self.throw("ValueError")
        if isinstance(x, bool) or isinstance(x, int): return int(x)
        if isinstance(x, z3.ExprRef):
            if x.sort() == Int: return x
            if x.sort() == Str:
                if z3.is_string_value(x): return self.to_int([x.as_string()])
                if self.choose(z3.InRe(x, DIGITS)):
                    self.assume(INTOF(x) >= 0)
                    return INTOF(x)
                if not self.choose(z3.InRe(x, INTLIKE)): self.throw("ValueError")
                return fresh("int_of_odd_text", Int)
        raise Unsupported("int()")
    def to_int_base(self, a):
        """int(text, 16): a number determined by the text, the prefix 0x apart.  That the text is hexadecimal is up to the caller's contract (hexok)."""
        x, b = a
        if b != 16: raise Unsupported("int() with base %s" % b)
        x = toV(x)
        if z3.is_app(x) and x.decl().eq(fmtfun("0x{}", 1)): x = x.arg(0)
        elif z3.is_app(x) and x.decl().eq(fmtfun("+", 2)) and x.arg(0).eq(lit("0x")): x = x.arg(1)
        if not (self.hexok is not None and self.entails(self.hexok(x))): raise Unsupported("int() of a text that may not be hexadecimal")
        return HEX(x)
    hexok = None
