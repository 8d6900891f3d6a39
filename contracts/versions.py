"""V01, V02: spine_json_lib/data/spine_version_type.py"""
import ast, z3
from dv import smt
from dv.smt import V, Int, Bool, Str, And, Or, Not, If, Implies
from dv.core import *
from dv.interp import PyExc
from dv.strs import DIGITS, INTLIKE, INTOF

TRUST = ["int(text) of a text of ASCII digits is its number; of a text that is no integer literal it raises ValueError (Python)",
         "str.split(sep), re.match, tuple comparison and string formatting behave as documented (Python); strings are ASCII"]

def text(vm, name, n, digits=True):
    """A text of n parts separated by dots."""
    ps = [z3.String("%s_%d" % (name, i)) for i in range(n)]
    for p in ps:
        vm.assume(z3.InRe(p, DIGITS) if digits else Not(z3.Contains(p, z3.StringVal("."))))
    out = [ps[0]]
    for p in ps[1:]: out += [z3.StringVal("."), p]
    return (z3.Concat(*out) if len(out) > 1 else ps[0]), ps

def numbers(ps):
    return tuple(INTOF(p) for p in ps) + ((z3.IntVal(0),) if len(ps) == 2 else ())

def lexi(a, b):
    lt = Or(a[0] < b[0], And(a[0] == b[0], Or(a[1] < b[1], And(a[1] == b[1], a[2] < b[2]))))
    eq = And(*[x == y for x, y in zip(a, b)])
    return {"Lt": lt, "LtE": Or(lt, eq), "Gt": Not(Or(lt, eq)), "GtE": Not(lt), "Eq": eq, "NotEq": Not(eq)}

def prove_V01(P):
    P.functions |= {"SpineVersion.%s" % m for m in ("__eq__", "__ne__", "__lt__", "__gt__", "__le__", "__ge__", "__init__", "__force_cast_to_spine_version")}
    P.trusted += TRUST
    for na in (2, 3):
        for nb in (2, 3):
            for right in ("version", "text"):
                vm = P.vm()
                C = vm.cls("data.spine_version_type", "SpineVersion")
                sa, pa = text(vm, "a", na)
                sb, pb = text(vm, "b", nb)
                A, B = numbers(pa), numbers(pb)
                want = lexi(A, B)
                for op in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq"):
                    def call():
                        x = vm.construct(C, [sa], {})
                        y = vm.construct(C, [sb], {}) if right == "version" else sb
                        return vm.cmp(getattr(ast, op)(), x, y)
                    def post(vm, out):
                        if out[0] != "normal": return [("terminates normally, not %r" % (out[1],), z3.BoolVal(False))]
                        r = out[1]
                        r = z3.BoolVal(r) if isinstance(r, bool) else r
                        if not (isinstance(r, z3.ExprRef) and r.sort() == Bool): return [("is a truth value", z3.BoolVal(False))]
                        return [("result is the numeric order", r == want[op])]
                    P.run("%s of a %d-part version and a %d-part %s" % (op, na, nb, right), vm, call, post)
    # lemmas over the contracts
    x = [z3.Ints("x%d y%d z%d" % (i, i, i)) for i in range(3)]
    a, b, c = zip(*x)
    ab, bc, ac = lexi(a, b), lexi(b, c), lexi(a, c)
    P.goal("lemma: exactly one of <, ==, > holds", [], And(Or(ab["Lt"], ab["Eq"], ab["Gt"]), Not(And(ab["Lt"], ab["Eq"])), Not(And(ab["Lt"], ab["Gt"])), Not(And(ab["Eq"], ab["Gt"]))))
    P.goal("lemma: <=, >=, != agree", [], And(ab["LtE"] == Or(ab["Lt"], ab["Eq"]), ab["GtE"] == Or(ab["Gt"], ab["Eq"]), ab["NotEq"] == Not(ab["Eq"])))
    P.goal("lemma: transitive", [], And(Implies(And(ab["Lt"], bc["Lt"]), ac["Lt"]), Implies(And(ab["LtE"], bc["LtE"]), ac["LtE"])))

def prove_V02(P):
    P.functions |= {"SpineVersion.__init__", "SpineVersion.validate", "SpineVersion.split_version"}
    P.trusted += TRUST
    for n in (2, 3):
        vm = P.vm()
        C = vm.cls("data.spine_version_type", "SpineVersion")
        s, ps = text(vm, "s", n)
        def post(vm, out):
            if out[0] != "normal": return [("accepted, not %r" % (out[1],), z3.BoolVal(False))]
            v = out[1]
            want = numbers(ps)
            return [("major", vm.eq(vm.getattr(v, "major"), want[0])), ("minor", vm.eq(vm.getattr(v, "minor"), want[1])),
                    ("patch", vm.eq(vm.getattr(v, "patch"), want[2])), ("text", vm.eq(vm.getattr(v, "version"), s)),
                    ("str()", vm.eq(vm.call(vm.getattr(v, "__str__"), [], {}), s))]
        P.run("%d decimal parts are accepted exactly" % n, vm, lambda: vm.construct(C, [s], {}), post)
        for bad in range(n):
            vm2 = P.vm()
            C2 = vm2.cls("data.spine_version_type", "SpineVersion")
            s2, ps2 = text(vm2, "s", n, digits=False)
            vm2.assume(Not(z3.InRe(ps2[bad], INTLIKE)))
            P.run("%d parts, number %d no integer: ValueError" % (n, bad + 1), vm2, lambda: vm2.construct(C2, [s2], {}), value_error)
    for n in (1, 4):
        vm = P.vm()
        C = vm.cls("data.spine_version_type", "SpineVersion")
        if n == 1: s, ps = text(vm, "s", 1, digits=False)
        else:
            s, ps = text(vm, "s", 3, digits=False)
            rest = z3.String("rest")
            vm.rest_atoms = [rest]
            s = z3.Concat(s, z3.StringVal("."), rest)
        P.run("%s parts: ValueError" % ("one" if n == 1 else "four or more"), vm, lambda: vm.construct(C, [s], {}), value_error)

def value_error(vm, out):
    ok = out[0] == "raise" and isinstance(out[1], PyExc) and "ValueError" in out[1].names()
    return [("raises ValueError", z3.BoolVal(ok))]
