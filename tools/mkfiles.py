"""Regenerate properties.jsonl and MANIFEST.json from the PROPERTY/META of contracts/c*.py"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from contracts import not_claimed  # noqa

props, checks, mods = [], [], {}
for f in sorted(glob.glob(os.path.join(HERE, "contracts", "c[0-9]*.py"))):
    m = importlib.import_module("contracts." + os.path.basename(f)[:-3])
    P, M = m.PROPERTY, m.META
    pid = os.path.basename(f)[:-3].upper()
    mods[pid] = m
    assert len(P["title"]) <= 80, P["title"]
    props.append(
        {
            "id": pid,
            "title": P["title"],
            "statement": P["statement"],
            "quantifier": {"over": P["over"], "text": P["for_all"]},
            "why_tests_cant": P["why"],
            "anchors": {
                "files": ["src/spectrocrunch/" + x for x in P["files"]],
                "mechanism": [{"name": n, "where": "src/spectrocrunch/" + w} for n, w in P["mechanism"]],
            },
        }
    )
    checks.append(
        {
            "property": pid,
            "quick_cmd": "./check {}".format(pid),
            "thorough_cmd": "./check {} --tier thorough".format(pid),
            "technique": M.get("technique", "contracts on the real functions, obligations from symbolic execution of every path, discharged by ring normaliser/z3/cvc5"),
            "level": M["level"],
            "level_note": M.get("note") or M["explanation"],
        }
    )
na = []
for pid, P in sorted(not_claimed.NOT_CLAIMED.items()):
    props.append(P["line"])
    na.append({"property": pid, "reason": P["reason"]})
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in props:
        fh.write(json.dumps(p) + "\n")
doc = {
    "version": 1,
    "setup_cmd": "./selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "One engine (dv/) executes the real functions of /repo/src on symbolic values; contracts/cNN.py hold the specifications. "
    "Evidence level degrades to 'other' when an obligation is undecided on the current source.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(doc, fh, indent=1)
    fh.write("\n")
import jsonschema  # noqa

ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props:
    jsonschema.validate(p, ps)
jsonschema.validate(doc, json.load(open("/root/.vp/MANIFEST.schema.json")))
import design  # noqa

design.write(mods)
print(len(props), "properties", len(checks), "checks")
