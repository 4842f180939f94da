"""python3 tools/addfix.py PROP COMMIT TEXT: record a repair"""
import json, sys
p = __file__.rsplit("/", 2)[0] + "/known_findings.json"
d = json.load(open(p))
d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
