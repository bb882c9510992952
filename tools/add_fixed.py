"""add_fixed.py PROP COMMIT TEXT: records a repaired defect in known_findings.json (run by hand, never by a check)."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p)); prop, commit, what = sys.argv[1:4]
d["findings"].append({"id": "F%d" % (len(d["findings"]) + 1), "property": prop, "status": "fixed", "commit": commit, "what": what, "line": "fixed: property=%s %s %s" % (prop, commit, what)})
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
