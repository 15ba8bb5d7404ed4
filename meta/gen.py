"""Generate properties.jsonl and MANIFEST.json from the property descriptions in this folder."""
import glob, importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
props, na = [], []
for f in sorted(glob.glob(os.path.join(here, "props_*.py"))):
    m = importlib.import_module(os.path.basename(f)[:-3])
    props += m.PROPS
    na += m.NA
assert len({p["id"] for p in props}) == len(props)
with open(os.path.join(here, "..", "properties.jsonl"), "w") as fh:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    for p in na:
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 run.py --list",
       "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']}",
                   "thorough_cmd": f"python3 run.py {p['id']} --tier=thorough", "technique": p["tech"], "level": "other",
                   "level_note": p["note"]} for p in props],
       "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in na],
       "notes": "Static analysis only: every check parses /repo's current source and runs none of it. No hooks in /repo."}
json.dump(man, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(props), "claimed", len(na), "not applicable")
