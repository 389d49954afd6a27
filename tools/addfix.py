"""usage: addfix.py PROP COMMIT TEXT  - records a fixed defect (before the open findings)"""
import json, sys
p = __file__.rsplit("/", 2)[0] + "/known_findings.json"
d = json.load(open(p))
fixed = [x for x in d if x.startswith("fixed:")]
rest = [x for x in d if not x.startswith("fixed:")]
fixed.append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
open(p, "w").write("[\n" + ",\n".join(" " + json.dumps(x) for x in fixed + rest) + "\n]\n")
