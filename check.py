"""Decide one property:  python3 check.py PID   (VERIF_TIER=quick|thorough, VERIF_SEED, VERIF_REPO).

1. The verifier (dv/) generates the obligations of the property from /repo's current source and discharges them.
2. The executable form of the same contract (rt/) is evaluated on the real code for generated inputs: it supplies the
   failing input of a failed obligation, and is the bounded stand-in for what the verifier does not reach.
Exit 0: held.  Exit 1 and a VIOLATION line otherwise.  Never anything else."""
import json, os, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if not sys.executable.startswith("/opt/veriftools/pyvenv") and os.path.exists(VT) and not os.environ.get("VERIF_REEXEC"):
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONHASHSEED", "0")

def out(name, data):
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    p = os.path.join(HERE, "out", name)
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return p

def start_proof(pid, tier):
    from dv.registry import PROOFS
    if pid not in PROOFS:
        return None
    limit = {"quick": 420, "thorough": 3000}[tier]
    res = os.path.join(HERE, "out", "proof_%s_%d.json" % (pid, os.getpid()))
    os.makedirs(os.path.dirname(res), exist_ok=True)
    p = subprocess.Popen([sys.executable, "-m", "dv.prove", pid, res], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), start_new_session=True)
    return p, res, time.time() + limit

def end_proof(h):
    """{"obligations": [{"name","ok","backend","time","detail"}...], ...}; a failed or stuck verifier is a failed obligation."""
    p, res, end = h
    try:
        log, _ = p.communicate(timeout=max(1, end - time.time()))
        log = log.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        log, _ = p.communicate()
        log = log.decode(errors="replace") + "\nout of time"
    try:
        r = json.load(open(res))
        os.unlink(res)
    except Exception:
        r = {"obligations": [], "error": "the verifier gave no result: " + log[-3000:]}
    r["log"] = log[-3000:]
    if r.get("error"):
        r["obligations"].append({"name": "verifier run", "ok": False, "detail": r["error"]})
    if not r["obligations"]:
        r["obligations"].append({"name": "obligations generated", "ok": False, "detail": "none were generated"})
    return r

def main(pid, tier, seed):
    t0 = time.time()
    from rt import run
    from dv.registry import PROOFS, BOUNDED
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    h = start_proof(pid, tier)
    budget = {"quick": 14.0, "thorough": 240.0}[tier]
    s = run.search(pid, seed, budget, procs=7 if h else 8)
    proof = end_proof(h) if h else None
    failed = [o for o in proof["obligations"] if not o["ok"]] if proof else []
    if failed and not s["bad"]:
        more = run.search(pid, seed + 7919, {"quick": 60.0, "thorough": 300.0}[tier])
        s["bad"] = more["bad"]
        for k in ("evaluations", "distinct"):
            s[k] += more[k]
    if not s["evaluations"] and not s["bad"]:
        failed.append({"name": "the real code can be run", "ok": False, "detail": "no case could be evaluated: " + s.get("error", "")})
    violations, line = 0, None
    for k in known:
        if k.get("property") == pid and k.get("status") == "known":
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if s["bad"]:
        case, msg = s["bad"]
        rp = out("%s_seed%d.json" % (pid, seed), {"property": pid, "case": case, "what_fails": msg,
                 "failed_obligations": [{k: o.get(k) for k in ("name", "detail")} for o in failed],
                 "replay": "python3 %s/check.py --replay <this file>" % HERE})
        print("%s: %s" % (pid, msg[:600]))
        for o in failed[:5]:
            print("failed obligation: %s" % o["name"])
        line = "VIOLATION property=%s replay=%s" % (pid, rp)
        violations = 1
    elif failed:
        rp = out("%s_seed%d.json" % (pid, seed), {"property": pid, "case": None,
                 "failed_obligations": failed, "verifier_output": proof["log"] if proof else ""})
        for o in failed[:5]:
            print("failed obligation: %s: %s" % (o["name"], str(o.get("detail"))[:400]))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp)
        violations = 1
    rule = ("cases are generated by rt/gen.py and rt/props.py (seed %d) within the size bound; a case counts as distinct by its "
            "full text; every case runs the real code and evaluates the property's contract" % seed)
    cov = {"evaluations": s["evaluations"], "distinct_nontrivial": s["distinct"], "rule": rule,
           "samples": [json.dumps(x)[:1500] for x in s["samples"]] or ["-"], "bound": "%.0f s of generated cases, up to 6 elements per collection" % budget}
    level = "exploration"
    assumptions = []
    if proof:
        level = PROOFS[pid].get("level", "proof")
        ok = [o for o in proof["obligations"] if o["ok"]]
        cov.update({"obligations": len(proof["obligations"]), "discharged": len(ok),
                    "checker_cmd": "cd /verif && python3 check.py %s" % pid,
                    "trusted_base": proof.get("trusted", []),
                    "by_back_end": proof.get("backends", {}), "solver_seconds": round(proof.get("solver_time", 0), 2),
                    "solver_queries": proof.get("queries", 0),
                    "functions_under_contract": proof.get("functions", []), "inlined_functions": proof.get("inlined", []),
                    "bounded_part": PROOFS[pid].get("bounded", "none: the generated cases only supply failing inputs"),
                    "obligation_names": [o["name"] for o in proof["obligations"]][:400]})
        assumptions = proof.get("assumptions", [])
    else:
        cov["bounded"] = BOUNDED.get(pid, "bounded stand-in: not proved")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if line:
        print(line, flush=True)
        return 1
    print("%s held: %s obligations discharged, %d cases evaluated, %.1f s" % (pid, cov.get("discharged", "no"), s["evaluations"], time.time() - t0))
    return 0

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        if r.get("case") is None:
            print(json.dumps(r, indent=1))
            sys.exit(1)
        os.execv(sys.executable, [sys.executable, os.path.join(HERE, "rt", "run.py"), "replay", sys.argv[2]])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        rc = main(pid, tier, seed)
    except BaseException:
        d = traceback.format_exc()
        print(d)
        rp = out("%s_seed%d.json" % (pid, seed), {"property": pid, "case": None, "failed_obligations": [{"name": "check run", "detail": d}]})
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp), flush=True)
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
