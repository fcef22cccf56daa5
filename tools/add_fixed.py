"""usage: add_fixed.py PROP COMMIT TEXT : records a repaired defect"""
import json, sys
p = __file__.rsplit("/", 2)[0] + "/known_findings.json"
k = json.load(open(p))
k["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(k, open(p, "w"), indent=1)
open(p, "a").write("\n")
