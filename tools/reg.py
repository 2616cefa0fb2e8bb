"""reg.py ID 'technique' 'note': registers a check and rewrites the manifest."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(R, "tools", "notes.json")
n = json.load(open(f))
n[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(n, open(f, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(R, "tools", "mkmanifest.py")])
subprocess.check_call(["python3-vt", os.path.join(R, "tools", "val.py")])
