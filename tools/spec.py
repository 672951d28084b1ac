#!/usr/bin/env python3
"""The one source of properties.jsonl and MANIFEST.json: ./tools/spec.py rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []

def P(id, title, statement, over, quant, tests, files, mech, note=None, level="exploration",
      technique=None, na=None, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    for f in files:
        assert os.path.exists("/repo/" + f), f
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": quant},
                  "why_tests_cant": tests, "anchors": a})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id,
                       "quick_cmd": f"VERIF_TIER=quick ./check.sh {id}",
                       "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {id}",
                       "evidence_file": f"evidence/{id}.json",
                       "technique": technique or "deterministic simulation with seeded fault injection",
                       "level": level, "level_note": note})

exec(open(f"{V}/tools/properties.py").read())

ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": CHECKS, "not_applicable": NA, "notes": NOTES}
if HOOKS:
    m["hooks"] = HOOKS
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(CHECKS), "checks,", len(NA), "not applicable")
