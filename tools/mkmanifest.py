import json
import sys
P = [json.loads(l) for l in open("/verif/properties.jsonl")]
NOTE = json.load(open("/verif/tools/notes.json"))
m = {"version": 1, "setup_cmd": "python3-vt /verif/check.py setup", "checks": [], "not_applicable": []}
for p in P:
    n = NOTE[p["id"]]
    m["checks"].append({
        "property": p["id"], "quick_cmd": f"python3-vt /verif/check.py {p['id']} quick", "thorough_cmd": f"python3-vt /verif/check.py {p['id']} thorough",
        "technique": n["technique"], "level": n["level"], "level_note": n["note"],
    })
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
