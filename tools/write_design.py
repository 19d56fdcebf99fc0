"""Writes DESIGN.md from tools/design/*.md, seeded/*/meta.json and evidence/."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
out = [open(f).read().rstrip() + "\n" for f in sorted(glob.glob("tools/design/*.md"))]
t = ["## Planted bugs\n",
     "Each lies in `seeded/<id>/`; the part of the id before the dash is the property,",
     "whose check catches it (verified with VERIF_SEED=1, quick tier).  Besides these,",
     "about 200 further mutations were tried in scratch copies; those that were missed",
     "and observable led to new facets or counts.\n",
     "| id | needs |", "|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    t.append(f"| {f.split('/')[1]} | {m['needs']} |")
out.append("\n".join(t) + "\n")
t = ["## Costs (quick tier, 8 cores)\n", "| | cases | distinct non-trivial | s |", "|---|---|---|---|"]
tot = 0
for f in sorted(glob.glob("evidence/C*.json")):
    e = json.load(open(f))
    if e["tier"] == "quick":
        c = e["coverage"]
        t.append(f"| {e['property']} | {c['evaluations']} | {c['distinct_nontrivial']} | {e['wall_s']:.0f} |")
        tot += e["wall_s"]
t.append(f"\nAll quick checks together take about {tot / 60:.0f} minutes; the thorough tier runs the same\nfacets with many times the cases (see `check.py --tier thorough`).")
out.append("\n".join(t) + "\n")
open("DESIGN.md", "w").write("\n".join(out))
