"""python3 addnote.py C07 'technique' 'note' - registers a check in manifest_notes.json and rewrites MANIFEST.json"""
import json, subprocess, sys
d = json.load(open("/verif/manifest_notes.json"))
d["checks"][sys.argv[1]] = [sys.argv[2], sys.argv[3]]
d["checks"] = dict(sorted(d["checks"].items()))
json.dump(d, open("/verif/manifest_notes.json", "w"), indent=1)
subprocess.check_call([sys.executable, "/verif/gen_manifest.py"])
