import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dv.registry import PROOFS, BOUNDED
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    c = {"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p}
    if p in PROOFS:
        d = PROOFS[p]
        c["technique"] = d.get("technique", "contract-based deductive verification: obligations generated from the real source, discharged by SMT")
        c["level"] = d.get("level", "proof")
        c["level_note"] = d["note"]
    else:
        c["technique"] = "executable contract on the real functions, evaluated on generated inputs (bounded stand-in for the deductive check)"
        c["level"] = "exploration"
        c["level_note"] = BOUNDED.get(p, "Bounded: the contract is evaluated on the real code for generated inputs of bounded size; nothing is proved.")
    checks.append(c)
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3, sys; print(z3.get_version_string())'", "checks": checks, "not_applicable": [],
           "notes": "No hooks: /repo carries only fix: commits. See DESIGN.md."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
