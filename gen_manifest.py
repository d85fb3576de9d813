"""Writes MANIFEST.json from the table below (only checks that exist are listed)."""
import json, os
NOTES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_notes.json")))
PY = "PYTHONHASHSEED=0 /opt/venv/bin/python -W ignore "
checks, na = [], []
for line in open("properties.jsonl"):
    p = json.loads(line)["id"]
    path = "checks/%s.py" % p.lower()
    if os.path.exists(path) and p in NOTES["checks"]:
        t, n = NOTES["checks"][p]
        checks.append({"property": p, "quick_cmd": PY + path, "thorough_cmd": "VERIF_TIER=thorough " + PY + path,
                       "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": p, "reason": NOTES["na"].get(p, "its check is not built yet")})
m = {"version": 1, "setup_cmd": PY + "mlv/selftest.py", "checks": checks, "not_applicable": na}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
