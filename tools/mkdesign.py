#!/usr/bin/env python3
"""DESIGN.md = tools/design.md with the tables filled in from properties.jsonl, props.py, evidence and seeded/."""
import json, os, glob, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS
s = open(H + "/tools/design.md").read()
rows = ["| property | units (+ units whose contracts it uses) | obligations | functions under contract | loops | verifier s | bounded cases (quick) |", "|---|---|---|---|---|---|---|"]
for p in sorted(PROPS):
    f = f"{H}/evidence/{p}.json"
    if not os.path.exists(f):
        continue
    e = json.load(open(f)); c = e["coverage"]
    dep = PROPS[p].get("deps", [])
    rows.append(f"| {p} | {', '.join(PROPS[p]['units'])}{' (+ ' + ', '.join(dep) + ')' if dep else ''} | {c['discharged']}/{c['obligations']} | {len(set(c['functions_under_contract']))} | {c['loops_with_invariants']} | {c['verifier_ms'] / 1000:.0f} | {c['evaluations']} |")
s = s.replace("@TABLE@", "\n".join(rows))
res = {}
if os.path.exists(H + "/tools/seed_results.json"):
    res = json.load(open(H + "/tools/seed_results.json"))
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    rows.append(f"| {i} | {m['needs']} | {res.get(i, 'check ' + m['property'])} |")
s = s.replace("@SEEDS@", "\n".join(rows))
open(H + "/DESIGN.md", "w").write(s)
