"""Tags in names (T01): spine_json_lib/utils.py and what Bone and Slot make of the tags.
The grammar of a tag is this file's own; the pattern in the source has to accept exactly its words."""
import re, z3
from dv import smt
from dv.smt import V, Int, Bool, Str, And, Or, Not, If, Implies, fresh, lit, toV
from dv.core import *
from dv.interp import PyExc, T, F
from dv.evalx import b2z
from dv.strs import regex, sre, WS, SPACE, NONSPACE, ALL, FLOATLIKE, FLOATOF, uni

TRUST = ["findall of a pattern without groups returns its leftmost non-overlapping matches in order (Python); no two words of the grammar overlap (proved), so those are all the words of the grammar in the name",
         "str.strip, str.split, slices of texts and f-strings behave as documented (Python); texts are ASCII",
         "float(text) accepts exactly the decimal literals of Python's documentation (float_of gives its value), and raises ValueError on other texts"]

LETTER = z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Range("0", "9"), z3.Re("_"))
NAME = z3.Plus(z3.Union(LETTER, z3.Re("-")))
INNER = z3.Union(LETTER, z3.Re("."))                                   # of a value, apart from spaces
VALUE = z3.Union(INNER, z3.Concat(INNER, z3.Star(z3.Union(INNER, SPACE)), INNER))      # starts and ends with no space
OPEN, COLON, CLOSE = z3.Re("["), z3.Re(":"), z3.Re("]")
# the grammar of the statement: a name and a value with a colon between them, spaces around each
GRAMMAR = z3.Concat(OPEN, WS, NAME, WS, COLON, z3.Plus(z3.Union(INNER, SPACE)), CLOSE)
PARTS = z3.Union(z3.Concat(OPEN, WS, NAME, WS, COLON, WS, VALUE, WS, CLOSE), z3.Concat(OPEN, WS, NAME, WS, COLON, z3.Plus(SPACE), CLOSE))

class Found:
    """The words of the grammar in a name: none, one, or two and any others."""
    def __init__(self, P, vm, n, blank=False):
        self.P, self.vm, self.n, self.blank = P, vm, n, blank
        self.subject = z3.String("subject")
        self.names, self.values, self.words = [], [], []
        for i in range(n):
            w1, w2, w3, w4, nm, v = [z3.String("%s_%d" % (x, i)) for x in ("space1", "space2", "space3", "space4", "name", "value")]
            for w in (w1, w2, w3, w4): vm.assume(z3.InRe(w, WS))
            vm.assume(z3.InRe(nm, NAME))
            if blank: vm.assume(And(v == "", z3.Length(w3) > 0, w4 == ""))
            else: vm.assume(z3.InRe(v, VALUE))
            t = lambda x: z3.StringVal(x)
            self.words.append(z3.Concat(t("["), w1, nm, w2, t(":"), w3, *([] if blank else [v, w4]), t("]")))
            self.names.append(nm); self.values.append(t("") if blank else v)
        vm.regex_rule = self.findall
    def findall(self, vm, pattern, m, a, kw):
        if m != "findall" or len(a) != 1 or kw: raise Unsupported("regex method %s" % m)
        if not (isinstance(a[0], z3.ExprRef) and a[0].eq(self.subject)): raise Unsupported("search in another text")
        if sre.parse(pattern).state.groups != 1: raise Unsupported("findall of a pattern with groups")
        x = z3.String("word")
        if not self.P.goal("the pattern accepts exactly the words of the grammar", [], z3.InRe(x, regex(pattern, True)) == z3.InRe(x, GRAMMAR)):
            raise Unsupported("the pattern does not accept exactly the words of the grammar")
        segs = [Seg([], T, w) for w in self.words]
        if self.n == 2:
            i, more, f = smt.bvar("i", Int), z3.Int("further"), smt.freshf("further.word", Int, Str)
            segs.append(Seg([i], And(i >= 0, i < more), f(i)))
        return vm.alloc(ListC(segs))

def prove_grammar(P):
    P.trusted += TRUST
    x, y = z3.String("word"), z3.String("other")
    P.goal("a word of the grammar is a word in parts", [], z3.InRe(x, GRAMMAR) == z3.InRe(x, PARTS))
    inside = z3.Star(z3.Intersect(z3.Complement(z3.Union(OPEN, CLOSE)), ALL))
    P.goal("brackets only at the ends of a word: words do not overlap", [], Implies(z3.InRe(x, GRAMMAR), z3.InRe(x, z3.Concat(OPEN, inside, CLOSE))))

def outcomes(W, number, found):
    """Which outcome the statement asks for: (raises, there is a scale)."""
    if W.n == 0: return F, F
    if W.n == 2: return T, F
    bad = Or(W.names[0] != "scale", Not(z3.InRe(W.values[0], FLOATLIKE)))
    return bad, T

def prove_tags(P, n, blank):
    vm = P.vm()
    W = Found(P, vm, n, blank)
    f = vm.fn("utils", "get_tags_from_name")
    raises, scaled = outcomes(W, None, None)
    label = "get_tags_from_name, %s" % ["no tag", "one tag" + (" without a value" if blank else ""), "two tags or more"][n]
    def post(vm, out):
        if out[0] == "raise":
            return [("raises only ValueError, not %r" % (out[1],), z3.BoolVal(getattr(out[1].cls, "name", "") == "ValueError")), ("raises only for a tag twice, an unknown tag or a scale that is no number", raises)]
        if out[0] != "normal": return [("ends", F)]
        g = [("what is wrong is reported", Not(raises))]
        c = vm.pick(vm.canon(out[1])[1]) if isinstance(out[1], Loc) else None
        if not isinstance(c, DictC) or not c.pure(): return g + [("a dictionary", F)]
        g.append(("only the scale is there", z3.BoolVal(set(c.entries) <= {"scale"})))
        g.append(("the scale is there when tagged", c.has("scale") == scaled))
        if "scale" in c.entries and n: g.append(("the scale is the number in the tag", toV(c.get("scale")) == FLOATOF(W.values[0])))
        return g
    P.functions |= {"get_tags_from_name", "cast_element"}
    P.run(label, vm, lambda: vm.inline(f, [W.subject], {}), post)
    P.note(vm)

def prove_scale_in_name(P, kind, mod):
    vm = P.vm()
    name, tagged, value, bad = z3.Const("name", V), z3.Bool("tagged"), z3.Const("value", V), z3.Bool("wrong")
    vm.assume(smt.kind(value) == smt.K_REAL)
    def tags(vm, f, args, kw):
        env = vm.bindargs(f, args, kw)
        if not (len(env) == 1 and toV(list(env.values())[0]).eq(name)): raise Unsupported("tags of something else than the name")
        if vm.choose(bad): vm.throw("ValueError")
        return vm.alloc(DictC({"scale": (tagged, value)}))
    vm.contracts["get_tags_from_name"] = tags
    C = vm.cls(mod, kind)
    f = vm.fn(mod, kind + ".get_scale_in_name")
    o = vm.alloc(Rec(C, {"name": name}))
    def post(vm, out):
        if out[0] == "raise": return [("raises only what reading the tags raises", And(bad, z3.BoolVal(getattr(out[1].cls, "name", "") == "ValueError")))]
        r = toV(out[1])
        return [("what is wrong is reported", Not(bad)), ("the scale of the tag", Implies(tagged, r == value)), ("1 without a tag", Implies(Not(tagged), And(smt.is_num(r), smt.num(r) == 1)))]
    P.functions.add(kind + ".get_scale_in_name")
    P.run("%s.get_scale_in_name" % kind, vm, lambda: vm.inline(f, [o], {}), post)
    P.note(vm)

def tasks_T01():
    return [("grammar", prove_grammar)] + [("get_tags_from_name %d %s" % (n, b), lambda P, n=n, b=b: prove_tags(P, n, b)) for n, b in ((0, False), (1, False), (1, True), (2, False), (2, True))] + \
           [("%s.get_scale_in_name" % k, lambda P, k=k, m=m: prove_scale_in_name(P, k, m)) for k, m in (("Bone", "data.data_types.bone"), ("Slot", "data.data_types.slot"))]
