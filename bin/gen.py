#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from bin/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{V}/properties.jsonl", "w") as f:
    for k in sorted(PROPS):
        assert len(PROPS[k]["prop"]["title"]) <= 80, k
        f.write(json.dumps(PROPS[k]["prop"]) + "\n")
    for p in getattr(props, "NA", []):
        f.write(json.dumps(p["prop"]) + "\n")
checks = []
for k in sorted(PROPS):
    p = PROPS[k]
    vs = sorted({v for v, _, _ in p["runs"]})
    san = {"asan": "AddressSanitizer+UBSan", "tsan": "ThreadSanitizer", "plain": "plain"}
    checks.append(dict(
        property=k, quick_cmd=f"bin/check {k}", thorough_cmd=f"VERIF_TIER=thorough bin/check {k}",
        technique="runtime monitoring: seeded workloads on the real code under " + " and ".join(san[v] for v in vs) + ", judged by a reference model",
        level="exploration",
        level_note=(p["note"] + " " if p["note"] else "") + "Held on the executions of this run only; trusts the oracle in harness/, the dependency shims in shims/ and gcc's sanitizers."))
m = dict(version=1, setup_cmd="bin/setup", checks=checks,
         not_applicable=[dict(property=p["prop"]["id"], reason=p["reason"]) for p in getattr(props, "NA", [])],
         notes="No hooks in /repo: monitors observe the public API only. bin/props.py is the source of this file.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)

# DESIGN.md
K = [l.strip() for l in open(f"{V}/known-findings.txt")]
o = []
for k in sorted(PROPS):
    p = PROPS[k]; q = p["prop"]
    o.append(f"### {k}: {q['title']}\n")
    o.append(f"{q['statement']}\n")
    o.append("* monitored: " + p["rule"])
    o.append("* explored: " + q["quantifier"]["text"] + " (seeded sampling, " + ", ".join(q["quantifier"]["over"]) + ")")
    o.append("* harness: " + ", ".join(f"`harness/{h}.cpp` under {v}" for v, h, _ in p["runs"]))
    o.append("* why the tests cannot: " + q["why_tests_cant"])
    if p["assumptions"]:
        o.append("* assumptions: " + "; ".join(p["assumptions"]))
    for kind in ("fixed", "known"):
        f = [l.split(" ", 2)[2] for l in K if l.startswith(f"{kind}: property={k} ")]
        if f:
            o.append(f"* {kind}: " + "; ".join(f))
    o.append("")
for p in getattr(props, "NA", []):
    o.append(f"### {p['prop']['id']}: {p['prop']['title']} (not applicable)\n\n{p['reason']}\n")
t = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{V}/seeded")) if os.path.isdir(f"{V}/seeded") else []:
    j = json.load(open(f"{V}/seeded/{d}/meta.json"))
    t.append(f"| {d}: {j['what_it_breaks']} | {j['property']} | {j['needs']} | {getattr(props, 'CAUGHT', {}).get(d, j['property'])} |")
s = open(f"{V}/bin/design.md").read().replace("<!-- PROPERTIES -->", "\n".join(o)).replace("<!-- SEEDED -->", "\n".join(t))
open(f"{V}/DESIGN.md", "w").write(s)
