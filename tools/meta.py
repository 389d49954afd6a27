"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json, os

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, level_note, technique="TLA+ spec + TLC; trace validation of the real code", state=(), observe=(), level="model_checking"):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
        anchors={"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                 "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": None},
        _note=level_note, _tech=technique, _level=level))


exec(open(os.path.dirname(os.path.abspath(__file__)) + "/properties_src.py").read())

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks, na = [], []
for p in PROPS:
    if p["_level"] == "na":
        na.append({"property": p["id"], "reason": p["_note"]})
        continue
    assert os.path.exists(f"{V}/vp/props/{p['id'].lower()}.py"), p["id"]
    checks.append({"property": p["id"], "quick_cmd": f"bin/check {p['id']}", "thorough_cmd": f"bin/check {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": p["_tech"], "level": p["_level"], "level_note": p["_note"]})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
    "notes": "TLA+ specifications in specs/, checked with TLC; every check drives the real code of /repo and lets TLC judge the recorded traces. See DESIGN.md."},
    open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "na")
