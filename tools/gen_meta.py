"""Write properties.jsonl and MANIFEST.json from sa/props.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.props import NOT_CLAIMED, PROPS  # noqa: E402

keys = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in [PROPS[k] for k in sorted(PROPS)] + NOT_CLAIMED:
        f.write(json.dumps({k: p[k] for k in keys}) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q sa check.py",
    "checks": [],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_CLAIMED],
    "notes": "All checks read /repo's working tree on each run with Python's ast; nothing in /repo is imported or executed.",
}
for pid in sorted(PROPS):
    p = PROPS[pid]
    m["checks"].append({
        "property": pid,
        "quick_cmd": f"python3 check.py --property {pid} --tier quick",
        "thorough_cmd": f"python3 check.py --property {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": p["technique"],
        "level": "other",
        "level_note": p["level_note"],
    })
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "claimed;", len(NOT_CLAIMED), "not claimed")

SEED = os.path.join(ROOT, "seeded")
here = os.path.dirname(os.path.abspath(__file__))
out = [open(os.path.join(here, "design_head.md")).read()]
for pid in sorted(PROPS):
    p = PROPS[pid]
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"*Property.* {p['statement']}\n")
    out.append(f"*Quantifies over.* {p['quantifier']['text']} *Why not tests:* {p['why_tests_cant']}\n")
    doc = []
    for spec in p["rules"]:
        mod, fn = spec.split(":")
        doc.append(f"`sa/rules/{mod}.py:{fn}`")
    out.append(f"*Decided by.* {', '.join(doc)}. {p['technique']}. Decides: {p['level_note']}\n")
out.append("## Not applicable\n")
for p in NOT_CLAIMED:
    out.append(f"* **{p['id']} {p['title']}** - {p['reason']}")
if not NOT_CLAIMED:
    out.append("(none yet)")
out.append(open(os.path.join(here, "design_tail.md")).read())
out.append("## Planted bugs and which check reports them\n")
res = {}
rp = os.path.join(here, "seed_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
for sid in sorted(os.listdir(SEED)) if os.path.isdir(SEED) else []:
    mp = os.path.join(SEED, sid, "meta.json")
    if os.path.exists(mp):
        m = json.load(open(mp))
        out.append(f"* `{sid}` ({m['property']}): {m['what_it_breaks']}. Needs {m['needs']}. **{res.get(sid, 'not recorded')}**")
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
