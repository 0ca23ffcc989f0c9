#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the plan, the properties and design_tail.md."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from na import NA  # noqa: E402
from plan import PLAN, TRUSTED  # noqa: E402


def read(name):
    with open(os.path.join(VERIF, "tools", name)) as f:
        return f.read().rstrip() + "\n"


out = [read("design_head.md")]
properties = [json.loads(line) for line in open(os.path.join(VERIF, "properties.jsonl"))]
proofs = bounded = natives = 0
for p in properties:
    plan = PLAN.get(p["id"])
    out.append(f"\n### {p['id']} {p['title']}\n")
    if plan is None:
        out.append(f"Not applicable: {NA[p['id']]}\n")
        continue
    out.append(f"*Decided by* {plan['technique']} (level: {plan['level']}).\n")
    out.append(f"*What is specified and how far.* {plan['note']}\n")
    if plan.get("explanation"):
        out.append(f"*Oracle.* {plan['explanation'][0].upper()}{plan['explanation'][1:]}.\n")
    rows = []
    seconds = 0
    for part in plan["parts"]:
        for h in part.get("kani", []):
            proofs += h["kind"] == "proof"
            bounded += h["kind"] == "bounded"
            what = ", ".join(h["functions"]) or "(lemma)"
            tier = ", thorough tier only" if h.get("tier") == "thorough" else ""
            rows.append(f"- {'proof' if h['kind'] == 'proof' else 'bounded proof'} `{h['harness']}`: {what}; {h['bound']}{tier}")
        for n in part.get("native", []):
            natives += 1
            seconds += n.get("seconds", 0)
            what = ", ".join(n["functions"])
            rows.append(f"- native, bounded `{n['contract']}`" + (f": {what}" if what else "") + f"; at most {n.get('seconds', '?')} s")
    out.append("\n".join(rows) + "\n")
    if plan.get("trusted"):
        out.append("*Assumed besides the common base.* " + "; ".join(plan["trusted"]) + ".\n")
    for k in plan.get("known_findings", []):
        out.append(f"*Known finding.* {k}\n")
    out.append(f"*Beyond the tests.* {p['why_tests_cant']} Quantified over {p['quantifier']['text']}.\n")
out.append("\n## Totals\n")
out.append(
    f"{len(PLAN)} properties are decided, {len(properties) - len(PLAN)} are not applicable; {proofs} complete proof harnesses, "
    f"{bounded} bounded proof harnesses, {natives} native contracts.\n"
)
out.append("\n## Common trusted base\n")
out.append("\n".join(f"- {t}" for t in TRUSTED) + "\n")
out.append("\n" + read("design_tail.md"))
with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
