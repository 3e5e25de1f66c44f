#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
TECH = ("solver-based: symbolic execution of the LLVM IR compiled from /repo's current source "
        "(symbolic inputs, environment and thread schedules), each assertion discharged by z3 or returned as a counterexample that is replayed natively")
NOTE = ("Bounded: holds for every value, environment answer and schedule inside the bounds printed in the evidence; not a proof beyond them. "
        "Trusts clang -O1, the executor's IR semantics and runtime models (allocator, pthread, clock), z3. ")
ck = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None))
        if p.get("observe"): d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
        if p["id"] in NOT_APPLICABLE: continue
        ck.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick",
                       thorough_cmd=f"python3 check.py {p['id']} --tier thorough", technique=TECH, level="model_checking",
                       level_note=NOTE + p.get("note", "")))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=ck,
               not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
               notes="Known findings and repairs: known_findings.json. No hooks in /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

import re, glob
def harnesses():
    r = {}
    for f in sorted(glob.glob(V + "/harness/*.cpp")):
        cur = None
        for l in open(f):
            m = re.match(r"//! ([a-z-]+): *(.*)", l)
            if not m: continue
            if m.group(1) == "harness": cur = dict(name=m.group(2).strip(), file=os.path.basename(f))
            elif cur is not None: cur[m.group(1)] = m.group(2).strip()
            if m.group(1) == "prop":
                for p in m.group(2).split(): r.setdefault(p, []).append(cur)
    return r
H = harnesses()
t = ""
for p in PROPS:
    t += f"### {p['id']} {p['title']}\n{p['statement']}\n\n"
    if p["id"] in NOT_APPLICABLE: t += "Not applicable: " + NOT_APPLICABLE[p["id"]] + "\n\n"; continue
    if p.get("how"): t += p["how"] + "\n\n"
    for h in H.get(p["id"], []):
        t += f"* `{h['name']}` ({h['file']}): {h.get('bounds', '')}" + (f"; outside: {h['outside']}" if h.get("outside") else "") + "\n"
    t += "\n"
sd = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
for i in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    sd += f"| {i} | {m['property']} | {m['needs']} | {res.get(i, 'not yet run')} |\n"
s = open(V + "/tools/design_head.md").read().replace("@@PROPS@@", t).replace("@@SEEDS@@", sd)
open(V + "/DESIGN.md", "w").write(s)
