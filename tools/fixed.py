"""record a repaired defect: fixed.py <property> <commit> <what failed>"""
import json, os, sys

P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(P))
prop, commit, what = sys.argv[1:4]
e = {"status": "fixed", "property": prop, "commit": commit, "entry": "fixed: property={} {} {}".format(prop, commit, what)}
if e not in d["findings"]:
    d["findings"].append(e)
json.dump(d, open(P, "w"), indent=1)
