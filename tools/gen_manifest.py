#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_BUILT
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        P = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                       "technique": P["technique"], "level": P["level"],
                       "level_note": P.get("note") or ("Seeded search, not proof: every explored run of the real code is checked against an independent oracle; every violation comes with an exactly repeatable, minimised replay. Trusts: " + "; ".join(P["assume"]))})
    else:
        na.append({"property": i, "reason": NOT_BUILT.get(i, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the MPI and libc/civetweb symbol boundaries and conduit's own allocator and message handlers. python3 tools/replay.py FILE replays a violation. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
