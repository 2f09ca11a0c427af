#!/usr/bin/env python3
"""Writes DESIGN.md from design.txt (hand-written) and props.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
from props import PROPS, NA, BOUNDS_COMMON, ASSUMPTIONS_COMMON
CAUGHT = {}
exec(open(f"{V}/design.txt").read())
o = [HEAD.strip(), "\n## Properties and how each is decided\n", COMMON.strip(), ""]
for id, p in sorted(PROPS.items()):
    ent = {}
    for r in p["runs"]: ent[r[0]] = ent.get(r[0], 0) + 1
    o += [f"### {id} {p['title']}\n", p["statement"], "",
          f"- Symbolic: {p['qtext']}.", f"- Oracle: {ORACLE[id]}", f"- Bounds: {'; '.join(p['bounds'])}.",
          f"- Entries: {', '.join(f'{e} ({n} configurations)' for e, n in ent.items())}; quick run {COST.get(id, '?')} once built; code: {', '.join(p['files'])}.",
          f"- Beyond tests: {p['why']}.", ""]
o += ["## Not applicable\n"]
for id, p in sorted(NA): o += [f"- **{id} {p['title']}**: {p['reason']}"]
S = []
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    S.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {CAUGHT.get(d, 'caught')} |")
tab = "\n".join(["| bug | property | what it breaks | needs | result |", "|---|---|---|---|---|"] + S)
o += ["", TAIL.strip().replace("@SEEDED@", tab), ""]
open(f"{V}/DESIGN.md", "w").write("\n".join(o))
