"""Write properties.jsonl and MANIFEST.json from tools/props.py."""

import ast
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import CAUGHT, COST, MISSED, NA, P  # noqa: E402

checks, lines = [], []
for id, p in sorted(P.items()):
    assert len(p["title"]) <= 80, (id, len(p["title"]))
    lines.append(
        {
            "id": id,
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p["observe"],
                "hook_needed": None,
            },
        }
    )
    if id in NA:
        continue
    checks.append(
        {
            "property": id,
            "quick_cmd": f"./run.sh {id}",
            "thorough_cmd": f"./run.sh {id} --tier thorough",
            "evidence_file": f"evidence/{id}.json",
            "technique": p["technique"],
            "level": "model_checking",
            "level_note": p["note"],
        }
    )
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in lines:
        f.write(json.dumps(x) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: the checks drive the public API. Every check imports nannos from /repo's working tree.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# ---- DESIGN.md


def consts(id):
    tree = ast.parse(open(os.path.join(V, "mc", "checks", id.lower() + ".py")).read())
    out = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUND", "RULE", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def table():
    out = ["## Seeded bugs", "", "`seeded/<id>/` holds planted changes with a demonstration; each passes the test suite of the repository. "
           "\"Missed at first\" marks those the check did not catch when they were written; the check was strengthened (last column).", "",
           "| bug | property | what it needs | caught by | missed at first: what was added |", "| --- | --- | --- | --- | --- |"]
    d = os.path.join(V, "seeded")
    for b in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        m = json.load(open(os.path.join(d, b, "meta.json")))
        out.append(f"| {b} | {m['property']} | {m['needs']} | {CAUGHT.get(b, m['property'])} | {MISSED.get(b, '')} |")
    return out + [""]


parts = [open(os.path.join(V, "tools", "design_head.md")).read()]
for id, p in sorted(P.items()):
    c = consts(id)
    b = c["BOUND"] if isinstance(c["BOUND"], dict) else {"quick": c["BOUND"]}
    parts.append(f"### {id}. {p['title']}\n\n{p['statement']}\n\n")
    parts.append(f"- Decided by: {p['technique']}.\n- States and transitions: {c['RULE']}.\n")
    for k, v in b.items():
        parts.append(f"- Bound ({k}): {v}.\n")
    for a in c.get("ASSUMPTIONS", []):
        parts.append(f"- Assumes: {a}.\n")
    parts.append(f"- Beyond tests: {p['why']} {p['note']}\n- Cost (quick, 8 cores): about {COST.get(id, '10')} s.\n\n")
parts.append("\n".join(table()) + "\n")
parts.append(open(os.path.join(V, "tools", "design_tail.md")).read())
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write("".join(parts))
print(len(lines), "properties,", len(checks), "checks")
