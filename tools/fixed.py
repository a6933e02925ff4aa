"""tools/fixed.py C03 <commit> "what failed": adds a fixed entry to known_findings.json (used while editing, never by a check)."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
if sys.argv[1] == "finding":
    k["findings"].append(dict(property=sys.argv[2], sig=sys.argv[3], what=sys.argv[4]))
else:
    k["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(k, open(p, "w"), indent=1)
