"""writes MANIFEST.json from the checks that exist"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        t, n = NOTES[i]
        checks.append(dict(
            property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
            technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="./run.sh selftest", checks=checks, not_applicable=na,
    notes="No hooks in /repo are needed. Evidence is rewritten by every run; findings and repairs are in KNOWN_FINDINGS.txt."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
