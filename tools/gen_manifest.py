"""Writes MANIFEST.json from the registered checks and the property list."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = json.load(open(os.path.join(root, "tools", "not_applicable.json")))
NOTES = json.load(open(os.path.join(root, "tools", "levels.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in NOTES:
        n = NOTES[pid]
        checks.append(dict(property=pid, quick_cmd="VERIF_TIER=quick ./check.sh " + pid, thorough_cmd="VERIF_TIER=thorough ./check.sh " + pid,
                           technique=n["technique"], level=n["level"], level_note=n["note"]))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "check under construction")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: the checks import /repo/src as it is. VERIF_REPO can point the machinery at another checkout (used only while testing it).")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
