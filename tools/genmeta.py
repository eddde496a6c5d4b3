#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py and tools/props.py."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from meta import PROPERTIES, NOT_APPLICABLE, PENDING
from props import PROPS, HOOKS
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPERTIES: f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPERTIES:
    i = p["id"]
    if i in PROPS:
        q = PROPS[i]
        parts = []
        if q.get("verus"): parts.append("Verus contracts and loop invariants on functions extracted from /repo on each run")
        if q.get("kani"): parts.append("Kani contract harnesses on the ported crates")
        parts.append("counterexamples and stand-ins executed on the unmodified code")
        checks.append({"property": i, "quick_cmd": "python3 tools/run.py %s quick" % i, "thorough_cmd": "python3 tools/run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "contract-based deductive verification: " + "; ".join(parts),
                       "level": q.get("level", "proof"), "level_note": q["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Verdict policy, engines and per-property contracts: DESIGN.md. Proof obligations that only fail to be decided (lost anchor, unsupported construct, time or memory limit) are recorded as undecided in the evidence and are not violations."}
if HOOKS: m["hooks"] = HOOKS
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks;", len(na), "not applicable")

# DESIGN.md: the general part is kept, everything from the marker on is written here
D = os.path.join(HERE, "DESIGN.md")
MARK = "## Properties\n"
with open(D) as f: head = f.read().split(MARK)[0].rstrip() + "\n\n"
out = [MARK]
for p in PROPERTIES:
    i = p["id"]
    out.append("\n### %s %s\n" % (i, p["title"]))
    if i in PROPS:
        q = PROPS[i]
        eng = []
        if q.get("verus"): eng.append("Verus unit " + ", ".join("`%s`" % v for v in q["verus"]))
        if q.get("kani"): eng.append("Kani " + ", ".join("`%s`" % v for v in q["kani"]))
        eng.append("executed `" + "`, `".join(q["harness"]) + "`")
        out.append("*Decided by:* " + "; ".join(eng) + ". *Beyond the tests:* " + p["why_tests_cant"] + "\n")
        out.append(q["note"] + "\n")
    else: out.append("Not applicable: " + NOT_APPLICABLE.get(i, PENDING) + "\n")
seeds = []
S = os.path.join(HERE, "seeded")
if os.path.isdir(S):
    for d in sorted(os.listdir(S), key=lambda d: (json.load(open(os.path.join(S, d, "meta.json")))["property"], d)):
        mm = json.load(open(os.path.join(S, d, "meta.json")))
        seeds.append("| %s | %s | %s | %s |" % (mm["property"], d, mm["needs"], mm["what_it_breaks"]))
table = "| check that catches it | change | needs | breaks |\n|---|---|---|---|\n" + "\n".join(seeds)
with open(os.path.join(HERE, "tools", "design_tail.md")) as f: tail = f.read()
if seeds:
    with open(D, "w") as f: f.write(head + "\n".join(out) + tail % (len(seeds), table))
