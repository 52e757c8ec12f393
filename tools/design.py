#!/usr/bin/env python3
"""Render DESIGN.md from notes/design_src.md, notes/design_notes.py and checks.py."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + "/notes"]
import checks, design_notes as D
C = [v for v in vars(checks).values() if isinstance(v, dict) and "C21" in v][0]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = []
for p in props:
    i = p["id"]
    if i not in C: continue
    c = C[i]; kinds = sorted({q.get("flavor", "asan") for q in c["parts"]}) if isinstance(c.get("parts"), list) and isinstance(c["parts"][0], dict) else []
    out.append(f"**{i} {p['title']}** – {D.METHOD[i]}\n  *Enumerated:* {c.get('bounds', '')}.")
    if c.get("assumptions"): out[-1] += "\n  *Assumed:* " + "; ".join(c["assumptions"]) + "."
s = open(V + "/notes/design_src.md").read()
kf = [l for l in open(V + "/KNOWN_FINDINGS.txt") if not l.startswith("#")]
counts = f"{sum(l.startswith('fixed:') for l in kf)} defects repaired, {sum(l.startswith('known:') for l in kf)} entries recorded as known."
seeds = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    seeds.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {D.CAUGHT.get(n, 'not measured')} |")
s = s.replace("@@TABLE@@", "\n\n".join(out)).replace("@@OPEN@@", D.OPEN.strip()).replace("@@FALSE@@", D.FALSE.strip()).replace("@@COUNTS@@", counts).replace("@@SEEDED@@", "| seed | property | breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(seeds))
open(V + "/DESIGN.md", "w").write(s)
print(len(out), "properties,", len(seeds), "seeds")
