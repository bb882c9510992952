#!/usr/bin/env python3
"""replay.py FILE: rebuilds the simulator and replays a violation exactly, printing its event trace."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
R = json.load(open(sys.argv[1]))
exe, _, _ = B.build("plain")
tr = tempfile.mktemp(suffix=".trace")
p = subprocess.run([exe, "replay", R["property"], R["scenario"], ",".join(map(str, R["choices"])) or "0", tr], stdout=subprocess.PIPE, text=True)
print(open(tr, errors="replace").read())
os.unlink(tr)
j = json.loads(p.stdout.splitlines()[0])
print("class:", j["class"]); print("message:", j["msg"]); print("run:", j["sample"])
print("log hash", j["loghash"], "recorded", R["loghash"])
q = subprocess.run([exe, "replay", R["property"], R["scenario"], ",".join(map(str, R["choices"])) or "0"], stdout=subprocess.PIPE, text=True)
j = json.loads(q.stdout.splitlines()[0])
same = j["class"] == R["class"] and j["loghash"] == R["loghash"]
print("REPRODUCED" if same else "NOT REPRODUCED")
sys.exit(0 if same else 1)
