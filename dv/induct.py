"""Contracts of recursive functions and invariants of loops: the state they change is an abstract state S; a rule proves
the invariant for one generic step and continues with an arbitrary state that satisfies it."""
import ast, z3
from dv import smt
from dv.smt import V, Int, Bool, And, Or, Not, If, Implies, ForAll, Exists, fresh, freshf, bvar, toV
from dv.core import *
from dv.interp import *
from dv.evalx import b2z

class ContractFailed(Unsupported): pass

def list_mem(vm, c, x):
    """Formula: x is an element of the list (of scalars)."""
    return Or([Exists(s.binders, And(s.cond, b2z(smt.pyeq(s.elem, x)) if not isinstance(s.elem, STRUCT) else F)) for s in c.segs]) if c.segs else F
def list_distinct(vm, c):
    """Formula: no element occurs twice."""
    out, segs = [], c.segs
    for i, s in enumerate(segs):
        if s.binders:
            t = s.inst()
            out.append(ForAll(s.binders + t.binders, Implies(And(s.cond, t.cond, toV(s.elem) == toV(t.elem)), And([a == b for a, b in zip(s.binders, t.binders)]))))
        for t in segs[i + 1:]:
            t = t.inst()
            out.append(ForAll(s.binders + t.binders, Not(And(s.cond, t.cond, toV(s.elem) == toV(t.elem)))))
    return And(out)
def abstract_set(name):
    f = freshf(name, V, Bool)
    return SetC(lambda x: f(toV(x)))
def abstract_list(name):
    """A list without repetitions: its members, in some order."""
    f = freshf(name, V, Bool)
    k = bvar("k", V)
    return ListC([Seg([k], f(k), k)], ordered=False)

class Rules:
    """proof: Proof; get(vm) -> S; havoc(vm) -> S (fresh); cells(vm) -> addresses it may change"""
    def __init__(self, proof, name): self.proof, self.name = proof, name
    def oblige(self, vm, label, f):
        if isinstance(f, bool): f = z3.BoolVal(f)
        if not self.proof.goal("%s: %s" % (self.name, label), vm.run.pc(), f):
            raise ContractFailed("%s: %s" % (self.name, label))
    # to be given by a property
    def get(self, vm): raise NotImplementedError
    def havoc(self, vm): raise NotImplementedError
    def cells(self, vm): raise NotImplementedError
    def inv(self, S): return T
    def rel(self, S0, S1): return T
    def each(self, S, item): return T

    def only_cells(self, vm, paths, where):
        cells = self.cells(vm)
        for p in paths:
            for e in p.effects:
                if e.addr not in cells: raise Unsupported("%s changes something else: %s" % (where, e))
    def for_rule(self, vm, it, body, names, node):
        items, src = vm.items(it)
        if not any(i.binders for i in items): return False
        if src is not None and src.addr in self.cells(vm): raise Unsupported("iteration over a list the loop changes")
        for item in items:
            val = lambda: item.value() if callable(item.value) and not isinstance(item.value, (FuncV, ClassV)) else item.value
            if not item.binders:
                def one():
                    old = vm.iterated(src)
                    body(val())
                    if old is not None: vm.same_shape(old, vm.iterated(src), item.own)
                vm.branch(item.cond, one, lambda: None); continue
            S0 = self.get(vm)
            self.oblige(vm, "invariant holds before the loop in %s" % vm.curq(), self.inv(S0))
            fid = vm.fnstack[-1][1][0]
            shared = self.cells(vm)
            keep = [n for n in names if isinstance(vm.st.frames[fid].get(n), Loc) and vm.st.frames[fid][n].addr in shared]
            names = [n for n in names if n not in keep]
            kept = {n: vm.st.frames[fid][n] for n in keep}
            def check_kept():
                for n in keep:
                    if vm.st.frames[fid].get(n) is not kept[n]: raise Unsupported("variable %s rebound in a loop" % n)
            tau2 = [bvar("other", b.sort()) for b in item.binders]
            ren = list(zip(item.binders, tau2))
            def go():
                fr = vm.st.frames[fid]
                for n in names: fr[n] = Poison("%s of an earlier iteration" % n)
                S1 = self.havoc(vm)
                vm.assume(And(self.inv(S1), self.rel(S0, S1)))
                vm.assume(self.frame_facts(S1))
                try: body(val())
                except Cont: pass
                check_kept()
                S2 = self.get(vm)
                self.oblige(vm, "one iteration keeps the invariant in %s" % vm.curq(), self.inv(S2))
                self.oblige(vm, "one iteration only adds in %s" % vm.curq(), self.rel(S0, S2))
                self.oblige(vm, "one iteration does its part in %s" % vm.curq(), self.each(S2, item.binders))
                e1, e2 = sub(self.each(S1, item.binders), ren), sub(self.each(S2, item.binders), ren)
                self.oblige(vm, "one iteration keeps what earlier ones did in %s" % vm.curq(), Implies(And(sub(item.cond, ren), e1), e2))
            vm.loopmarks.append(vm.naddr)
            saved_mark = vm.naddr
            try: paths = vm.explore(go, item.cond)
            finally: vm.loopmarks.pop()
            self.only_cells(vm, paths, "the loop")
            vm.keeps_members(src, [p for p in paths if p.out[0] in ("normal", "continue")], item.own)
            self.log(vm)
            if any(p.out[0] != "normal" for p in paths) and vm.choose(fresh("left_early", Bool)):
                # some iteration leaves the loop; the ones before it kept the invariant
                m = [(b, fresh("x", b.sort())) for b in item.binders]
                vm.assume(sub(item.cond, m))
                S1 = self.havoc(vm)
                vm.assume(And(self.inv(S1), self.rel(S0, S1)))
                vm.assume(self.frame_facts(S1))
                for n in names: vm.st.frames[fid][n] = Poison("%s set in a loop" % n)
                try: body(vm.subst_val(val(), m))
                except Cont: pass
                raise Infeasible()
            S3 = self.havoc(vm)
            vm.assume(And(self.inv(S3), self.rel(S0, S3)))
            vm.assume(ForAll(item.binders, Implies(item.cond, self.each(S3, item.binders))))
            vm.assume(self.frame_facts(S3))
            for n in names: vm.st.frames[fid][n] = Poison("%s set in a loop" % n)
        return True
    def frame_facts(self, S): return T
    def log(self, vm):
        """The enclosing loops see the change."""
        for a in self.cells(vm):
            if vm.loopmarks and a <= vm.loopmarks[-1]: vm.run.effects.append(Effect([], T, a, (), "slot", None, None))

class Nested(Rules):
    """Contracts of functions nested in one function and sharing its local sets and lists.
    roles: name -> fn(vm, FuncV) -> bool; pre/post(vm, role, node_key, S0, S1)."""
    def __init__(self, proof, name):
        super().__init__(proof, name)
        self.proved, self.env = set(), None
    # where the shared variables live
    def home(self, vm):
        for fid in vm.fnstack[-1][1]:
            fr = vm.st.frames.get(fid)
            if fr is not None and any(isinstance(v, FuncV) and v.frames and v.frames[0] == fid for v in fr.values()): return fid
        return None
    def locals(self, vm, fid=None):
        fid = self.home(vm) if fid is None else fid
        out = {}
        for n, v in vm.st.frames[fid].items():
            if isinstance(v, Loc) and not v.path and v.addr > self.base:
                c = vm.st.heap.get(v.addr)
                if isinstance(c, (SetC, ListC, DictC)): out[n] = v.addr
        return out
    base = 0
    def cells(self, vm): return set(self.locals(vm).values())
    def get(self, vm, fid=None): return {n: vm.st.heap[a] for n, a in self.locals(vm, fid).items()}
    def havoc(self, vm, fid=None):
        for n, a in self.locals(vm, fid).items():
            c = vm.st.heap[a]
            if isinstance(c, SetC): vm.st.heap[a] = abstract_set(n)
            elif isinstance(c, ListC): vm.st.heap[a] = self.new_list(vm, n)
            else: raise Unsupported("shared dictionary")
        return self.get(vm, fid)
    def new_list(self, vm, n): return abstract_list(n)
    def log(self, vm, fid=None):
        for a in self.locals(vm, fid).values():
            if vm.loopmarks and a <= vm.loopmarks[-1]: vm.run.effects.append(Effect([], T, a, (), "slot", None, None))
    # loops that call the nested functions
    def for_rule(self, vm, it, body, names, node):
        fid = self.home(vm)
        if fid is None: return False
        called = {x.func.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)}
        fr = vm.st.frames[fid]
        if not any(isinstance(fr.get(n), FuncV) and fr[n].frames[:1] == (fid,) for n in called): return False
        return super().for_rule(vm, it, body, names, node)
    # calls
    def role(self, vm, f): raise NotImplementedError
    def arg(self, vm, f, env):
        """Key of the node the function is called with."""
        raise NotImplementedError
    def pre(self, vm, role, k, S): return T
    def post(self, vm, role, k, S0, S1, r=None): raise NotImplementedError
    def result(self, vm, role):
        """The value a call returns."""
        return None
    def bindkey(self, vm, f, k):
        """Arguments of a generic call for key k."""
        raise NotImplementedError
    def nested(self, vm, f, args, kw):
        role = self.role(vm, f)
        if role is None: return NotImplemented
        env = vm.bindargs(f, args, kw)
        k = self.arg(vm, f, env)
        if f.d.node not in self.proved:
            self.proved.add(f.d.node)
            self.prove(vm, f, role)
        fid = f.frames[0]
        S0 = self.get(vm, fid)
        self.oblige(vm, "precondition of %s at its call in %s" % (f.d.node.name, vm.curq()), And(self.inv(S0), self.pre(vm, role, k, S0)))
        S1 = self.havoc(vm, fid)
        r = self.result(vm, role)
        more = () if r is None else (r,)
        vm.assume(And(self.keeps(role, S0, S1, *more), self.post(vm, role, k, S0, S1, *more)))
        vm.assume(self.frame_facts(S1))
        self.log(vm, fid)
        return r
    def keeps(self, role, S0, S1, r=None): return And(self.inv(S1), self.rel(S0, S1))
    def finish(self, vm, role, k, r): pass
    def prove(self, vm, f, role):
        """The body of f keeps the contract, its recursive calls taken by contract."""
        fid = f.frames[0]
        def go():
            S0 = self.havoc(vm, fid)
            k, args = self.bindkey(vm, f)
            vm.assume(And(self.inv(S0), self.pre(vm, role, k, S0)))
            vm.assume(self.frame_facts(S0))
            r = vm.inline(f, args, {})
            more = () if r is None else (r,)
            self.finish(vm, role, k, r)
            S1 = self.get(vm, fid)
            self.oblige(vm, "%s keeps the invariant" % f.d.node.name, self.keeps(role, S0, S1, *more))
            self.oblige(vm, "postcondition of %s" % f.d.node.name, self.post(vm, role, k, S0, S1, *more))
        # outside any path of the caller: only what held when the function was defined
        run, marks, stk = vm.run, vm.loopmarks, vm.fnstack
        vm.run, vm.loopmarks = self.top_run(vm), [vm.naddr]
        try: paths = vm.explore(go)
        finally: vm.run, vm.loopmarks = run, marks
        cells = set(self.locals(vm, fid).values())
        for p in paths:
            if p.out[0] != "normal": raise ContractFailed("%s: %s" % (f.d.qual, p.out))
            for e in p.effects:
                if e.addr not in cells: raise Unsupported("%s changes something else: %s" % (f.d.qual, e))
    def top_run(self, vm):
        r = vm.run
        while r.parent is not None and r is not self.root: r = r.parent
        return r
    root = None
