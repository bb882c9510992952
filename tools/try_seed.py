#!/usr/bin/env python3
"""try_seed.py ID...: development aid. Confirms a planted bug (applies, builds, passes the stable tests,
demo 0 without and nonzero with it) and says whether the property's quick check catches it. Restores /repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
notest = os.environ.get("NOTEST")
for i in sys.argv[1:]:
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("/repo is not clean")
    res = {}
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode: print(i, "patch does not apply", r.stdout); continue
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: print(i, "does not build", r.stdout[-2000:]); continue
        if not notest:
            sh("bash /opt/vp/test.sh /tmp/seed.json")
            res["tests_broken"] = sorted(base - set(json.load(open("/tmp/seed.json"))["passed"]))[:5]
        r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
        res["demo_with"] = r.returncode; res["demo_out"] = r.stdout[-200:]
        if not os.environ.get("NOCHECK"):
            r = sh("python3 tools/check.py %s quick" % meta["property"], cwd=V)
            res["check"] = r.returncode; res["check_out"] = r.stdout[-700:]
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
    res["demo_without"] = r.returncode
    if r.returncode: res["demo_without_out"] = r.stdout[-800:]
    ok = res["demo_with"] != 0 and res["demo_without"] == 0 and not res.get("tests_broken")
    print("==", i, "COUNTS" if ok else "DOES NOT COUNT", "CAUGHT" if res.get("check") == 1 and "VIOLATION property=%s " % meta["property"] in res["check_out"] else "MISSED")
    for k, v in res.items(): print("  ", k, ":", v)
    sys.stdout.flush()
