"""Fill DESIGN.md's generated parts (per-property table, seeds) from the registry and the seeds."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dv.registry import PROOFS, BOUNDED, HOW
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
s = "## Per property\n\n"
for p in props:
    i = p["id"]
    s += "**%s %s.** %s\n\n" % (i, p["title"], HOW[i])
m = {}
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    f = os.path.join(HERE, "seeded", d, "meta.json")
    if os.path.exists(f): m[d] = json.load(open(f))
caught = json.load(open(os.path.join(HERE, "tools", "seed_results.json"))) if os.path.exists(os.path.join(HERE, "tools", "seed_results.json")) else {}
t = "## Planted bugs\n\n`tools/mkseeds.py` writes them, `tools/runseeds.sh` runs the checks against them.\n\n| change | property | what it breaks | caught by |\n|---|---|---|---|\n"
for d, x in m.items():
    t += "| %s | %s | %s | %s |\n" % (d, x["property"], x["what_it_breaks"], caught.get(d, "search"))
f = os.path.join(HERE, "DESIGN.md")
x = open(f).read()
def put(x, name, body):
    a, b = "<!-- %s -->\n" % name, "<!-- end %s -->\n" % name
    if a in x: return x[:x.index(a)] + a + body + x[x.index(b):]
    return x.replace(name + "\n", a + body + b)
x = put(x, "PROPERTY_SECTIONS", s + "\n")
x = put(x, "SEEDS_SECTION", t)
open(f, "w").write(x)
