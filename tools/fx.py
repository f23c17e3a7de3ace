"""fx.py PROPERTY COMMIT TEXT: records a repaired defect in known-findings.json"""
import json, sys
p = "/verif/known-findings.json"
k = json.load(open(p))
n = 1 + max(int(f["id"][1:]) for f in k["findings"] if f["id"][0] == "X")
prop, c, t = sys.argv[1:4]
k["findings"].append(dict(id="X%02d" % n, status="fixed", property=prop, commit=c, what=t, text="fixed: property=%s %s %s" % (prop, c, t)))
json.dump(k, open(p, "w"), indent=1)
