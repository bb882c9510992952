#!/usr/bin/env python3
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_BUILT
import design_text as D
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = []
for p in props:
    i = p["id"]
    if i not in PROPS: continue
    P = PROPS[i]
    out.append("### %s %s\n\n%s\n\n- runs: %s\n- bounds: quick %d runs, thorough %d runs (time caps %s s)\n- real: %s; stub: %s\n- assumes: %s\n" % (
        i, p["title"], D.HOW.get(i, ""), P["rule"], P["runs"][0], P["runs"][1], "/".join(map(str, P.get("cap", (45, 1500)))), "; ".join(P["real"]), "; ".join(s.split(" (")[0] for s in P["stub"]), "; ".join(P["assume"])))
F = json.load(open(V + "/known_findings.json"))["findings"]
fl = []
for f in F:
    fl.append("- %s" % f["line"] if f["status"] == "fixed" else "- known: property=%s %s" % (f["property"], f["what"]))
na = "\n".join("- %s %s: %s" % (p["id"], p["title"], NOT_BUILT.get(p["id"], "no check has been built")) for p in props if p["id"] not in PROPS)
seeds = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    seeds.append("| %s | %s | %s | %s |" % (n, j["property"], j["what_it_breaks"], D.CAUGHT.get(n, "not run yet") if hasattr(D, "CAUGHT") else "not run yet"))
t = open(V + "/tools/DESIGN.tmpl.md").read()
t = t.replace("@PROPS@", "\n".join(out)).replace("@FINDINGS@", "\n".join(fl)).replace("@NA@", na).replace("@ALARMS@", "\n".join("- " + a for a in D.ALARMS))
t = t.replace("@SEEDS@", "| id | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(seeds))
open(V + "/DESIGN.md", "w").write(t)
