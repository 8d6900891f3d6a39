"""Which obligations fail on each planted bug: proves on a scratch copy.  Usage: proveseeds.py SCRATCH_REPO [seed ...]; writes tools/seed_obligations.json"""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scratch, out = sys.argv[1], os.path.join(root, "tools", "seed_obligations.json")
res = json.load(open(out)) if os.path.exists(out) else {}
for s in sys.argv[2:] or sorted(os.listdir(root + "/seeded")):
    pid = json.load(open("%s/seeded/%s/meta.json" % (root, s)))["property"]
    subprocess.run(["git", "-C", scratch, "checkout", "-q", "--", "."], check=True)
    subprocess.run(["git", "-C", scratch, "apply", "%s/seeded/%s/patch.diff" % (root, s)], check=True)
    o = "/tmp/proveseeds.json"
    try:
        subprocess.run(["python3-vt", "-m", "dv.prove", pid, o], cwd=root, env=dict(os.environ, VERIF_REPO=scratch), timeout=600, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = json.load(open(o))
        bad = [x for x in r["obligations"] if not x["ok"]]
        res[s] = {"failed": len(bad), "first": bad[0]["name"] if bad else "", "detail": bad[0]["detail"][:200] if bad else "", "unsupported": all("not verified" in x["detail"] for x in bad)}
        os.remove(o)
    except subprocess.TimeoutExpired: res[s] = {"failed": 0, "first": "timeout"}
    print(s, res[s]["failed"], res[s]["first"][:110], "| UNSUPPORTED " + res[s].get("detail", "")[:150] if res[s].get("unsupported") else "", flush=True)
    subprocess.run(["git", "-C", scratch, "checkout", "-q", "--", "."], check=True)
    json.dump(res, open(out, "w"), indent=1, sort_keys=True)
