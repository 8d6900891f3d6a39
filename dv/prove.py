"""python -m dv.prove PID RESULT.json : generate and discharge the obligations of a property from the current source."""
import sys, json, time, importlib, traceback, os
import z3
from dv import smt
from dv.smt import And, Or, Not, Implies, ForAll, Exists
from dv.core import Unsupported, Infeasible
from dv.interp import PyExc
from dv.vm import VM

class Proof:
    def __init__(self, pid):
        self.pid, self.obligations = pid, []
        self.trusted, self.assumptions = [], []
        self.inlined, self.contracted = set(), set()
        self.by = {"z3": 0, "cvc5": 0, "syntactic": 0}
        self.timeout = 20000 if os.environ.get("VERIF_TIER") != "thorough" else 60000
        self.functions = set()
    def vm(self):
        self.last = VM()
        return self.last
    def add(self, name, ok, detail="", **kw):
        self.obligations.append(dict({"name": name, "ok": bool(ok), "detail": detail}, **kw))
        if os.environ.get("DV_VERBOSE"): print("   " if ok else "XXX", name, detail[:300], flush=True)
    def note(self, vm):
        self.inlined |= vm.inlined
        self.contracted |= vm.contracted
    def valid(self, hyps, goal, ms=None, split=True):
        """-> (True | False | None, detail)"""
        if z3.is_true(goal): self.by["syntactic"] += 1; return True, "", "syntactic"
        t0 = time.time()
        r, s = smt.check(hyps + [Not(goal)], timeout=min(ms or self.timeout, 3000), opts=smt.EMATCH)
        if r == z3.unknown:                              # the search depends on its starting point: several short ones, then a long one
            for seed, lim in ((0, 1500), (11, 1500), (23, 2500), (37, None)):
                r, s = smt.check(hyps + [Not(goal)], timeout=min(lim or self.timeout, ms or self.timeout), opts={"smt.random_seed": seed})
                if r != z3.unknown: break
        if r == z3.unsat:
            self.by["z3"] += 1
            return True, "", "z3"
        if r == z3.sat:
            m = s.model()
            return False, model_text(m), "z3"
        ors = [h for h in hyps if z3.is_or(h) and 1 < h.num_args() <= 24]
        if ors and split:                                # case by case
            h = ors[-1]
            rest = [x for x in hyps if not x.eq(h)]
            cs = h.children()
            if all(self.valid(rest + [c] + ([Not(x) for x in cs[:j]] if len(cs) < 4 else []), goal, ms, False)[0] for j, c in enumerate(cs)): return True, "", "z3"
        if self.failures and os.environ.get("VERIF_TIER") != "thorough": return None, "undecided: z3 %s" % s.reason_unknown(), "none"
        c = smt.cvc5_check(hyps + [Not(goal)], timeout=(ms or self.timeout))
        if c == "unsat":
            self.by["cvc5"] += 1
            return True, "", "cvc5"
        return None, "undecided: z3 %s, cvc5 %s" % (s.reason_unknown(), c), "none"
    failures = 0
    def goal(self, name, hyps, goal, ms=None):
        t = time.time()
        if self.failures:                                    # the property is not proved any more: a quicker look at the rest
            ms = min(ms or self.timeout, 4000)
            if self.failures >= 4 and os.environ.get("VERIF_TIER") != "thorough":
                self.add(name, False, "not tried: other obligations failed")
                return False
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        goals = goal.children() if z3.is_and(goal) else [goal]
        for g in goals:
            ok, d, be = self.valid(hyps, g, ms)
            if not ok:
                self.failures += 1
                self.add(name, False, d + "\ngoal: " + str(g)[:1500], seconds=round(time.time() - t, 2), backend=be)
                return False
        self.add(name, True, "", seconds=round(time.time() - t, 2), backend=be if len(goals) == 1 else "z3/cvc5")
        return True
    def reachable(self, name, hyps):
        """The hypotheses are consistent (no vacuous proof)."""
        r, _ = smt.check(hyps, timeout=1000)
        self.add(name + ": precondition satisfiable", r != z3.unsat, "" if r != z3.unsat else "contradictory hypotheses", backend="z3 %s" % r)
    def run(self, name, vm, call, post, pre=None, only=None):
        """Execute call from vm's state on every path; post(vm, outcome) gives the goals [(label, formula)]."""
        try:
            self.reachable(name, vm.run.pc())
            paths = vm.explore(call)
            if not paths: self.add(name, False, "no path")
            for n, p in enumerate(paths):
                save, srun = vm.st, vm.run
                from dv.core import Run
                vm.st = p.state.copy()
                vm.run = Run(vm.run, [])
                for c in p.conds: vm.run.decide(c)
                for f in p.facts: vm.run.assume(f)
                def go():
                    return post(vm, p.out)
                try:
                    for q in vm.explore(go):
                        if q.out[0] != "normal": self.add("%s [path %d]" % (name, n), False, "contract raised %r" % (q.out[1],)); continue
                        hy = vm.run.pc() + q.conds + q.facts
                        for lab, g in q.out[1]:
                            self.goal("%s: %s [path %d]" % (name, lab, n), hy, g)
                finally:
                    vm.st, vm.run = save, srun
        except Unsupported as e:
            self.add(name, False, "not verified: %s" % e, unsupported=True)
            if os.environ.get("DV_TRACE"): traceback.print_exc()
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, z3.Z3Exception) as e:
            self.add(name, False, "verifier stopped: %r" % e, unsupported=True)
            if os.environ.get("DV_TRACE"): traceback.print_exc()
        self.note(vm)

def model_text(m):
    out = []
    for d in sorted(m.decls(), key=lambda d: d.name()):
        if d.arity() == 0 and not d.name().startswith("lit_"): out.append("%s = %s" % (d.name(), m[d]))
    return "counter-model: " + ", ".join(out)[:3000]

def one_task(job):
    """One group of obligations, in a process of its own."""
    pid, module, n = job
    os.environ.pop("DV_VERBOSE", None)
    P = Proof(pid)
    t0 = time.time()
    name = "task %d" % n
    try:
        mod = importlib.import_module("contracts." + module)
        name, f = getattr(mod, "tasks_" + pid)()[n]
        smt.STATS.time, smt.STATS.queries = 0, 0
        f(P)
        if not P.obligations: P.add(name + ": some obligation", False, "no obligation was generated")
    except Unsupported as e:
        P.add(name, False, "not verified: %s" % e, unsupported=True)
        P.trace = traceback.format_exc()
    except Exception as e:
        P.add(name, False, "verifier stopped: %r" % e, unsupported=True)
        P.trace = traceback.format_exc()
    return name, round(time.time() - t0, 2), P.__dict__ | {"last": None}, smt.STATS.time, smt.STATS.queries

def parallel(P, pid, mod):
    import multiprocessing as mp
    tasks = getattr(mod, "tasks_" + pid)()
    module = mod.__name__.split(".")[-1]
    order = sorted(range(len(tasks)), key=lambda i: -WEIGHT(tasks[i][0]))
    with mp.get_context("spawn").Pool(int(os.environ.get("DV_PROCS", "8")), maxtasksperchild=None) as pool:
        for name, t, d, st, sq in pool.imap_unordered(one_task, [(pid, module, i) for i in order]):
            if os.environ.get("DV_VERBOSE"): print("-- %s: %d obligations, %d failed, %.1f s" % (name, len(d["obligations"]), len([o for o in d["obligations"] if not o["ok"]]), t), flush=True)
            if d.get("trace") and os.environ.get("DV_VERBOSE"): print(d["trace"])
            P.obligations += d["obligations"]
            for k in ("trusted", "assumptions"):
                for x in d[k]:
                    if x not in getattr(P, k): getattr(P, k).append(x)
            P.inlined |= d["inlined"]; P.contracted |= d["contracted"]; P.functions |= d["functions"]
            for k in d["by"]: P.by[k] += d["by"][k]
            smt.STATS.time += st; smt.STATS.queries += sq

def WEIGHT(name):
    """Slow groups first."""
    return sum(w for k, w in (("Animation", 5), ("Skin38", 4), ("set_default", 2), ("to_spine", 2), ("Timeline", 1)) if k in name)

def main():
    pid, out = sys.argv[1], sys.argv[2]
    t0 = time.time()
    P = Proof(pid)
    res = {}
    try:
        from dv import registry
        mod = importlib.import_module("contracts." + registry.PROOFS[pid]["module"])
        if hasattr(mod, "tasks_" + pid): parallel(P, pid, mod)
        else: getattr(mod, "prove_" + pid)(P)
        P.goal_count = len(P.obligations)
        if not P.obligations: P.add("some obligation", False, "no obligation was generated")
    except Unsupported as e:
        P.add("verification conditions of %s" % pid, False, "not verified: %s" % e, unsupported=True)
        res["trace"] = traceback.format_exc()
        if os.environ.get("DV_VERBOSE"): traceback.print_exc()
    except Exception as e:
        P.add("verification conditions of %s" % pid, False, "verifier stopped: %r" % e, unsupported=True)
        res["trace"] = traceback.format_exc()
        if os.environ.get("DV_VERBOSE"): traceback.print_exc()
    res.update({"obligations": P.obligations, "trusted": P.trusted, "assumptions": P.assumptions, "backends": P.by,
                "solver_time": round(smt.STATS.time, 2), "queries": smt.STATS.queries, "functions": sorted(P.functions),
                "inlined": sorted(P.inlined), "contracted": sorted(P.contracted), "wall": round(time.time() - t0, 2)})
    with open(out, "w") as f: json.dump(res, f, indent=1, default=str)
    bad = [o for o in P.obligations if not o["ok"]]
    if os.environ.get("DV_VERBOSE"): print(pid, len(P.obligations), "obligations,", len(bad), "failed, %.1fs wall, %.1fs solver" % (res["wall"], res["solver_time"]))

if __name__ == "__main__":
    main()
