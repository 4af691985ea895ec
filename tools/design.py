"""Write DESIGN.md from tools/DESIGN.in.md, the contracts, the known findings and the seeded bugs"""
import glob
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def properties(mods):
    from dv.engine import CONTRACTS

    out = []
    for pid, m in sorted(mods.items()):
        out.append("### {} {}\n".format(pid, m.PROPERTY["title"]))
        out.append(m.META["explanation"][0].upper() + m.META["explanation"][1:])
        if m.META.get("trusted"):
            out.append("Trusted: " + "; ".join(m.META["trusted"]) + ".")
        if m.META.get("assumptions"):
            out.append("Assumed: " + "; ".join(m.META["assumptions"]) + ".")
        out.append("\n| contract | kind | specifies | functions |\n|---|---|---|---|")
        for c in CONTRACTS[pid]:
            kind = "proved" if c.mode == "proof" else "bounded: " + (c.bound or "random inputs")
            doc = " ".join((c.fn.__doc__ or "").split())
            if c.assumes:
                doc += " (assumes: " + "; ".join(c.assumes) + ")"
            fn = sorted({f.split(":")[-1] for f in c.functions})
            fn = ", ".join(fn[:8]) + (", …" if len(fn) > 8 else "")
            out.append("| {} | {} | {} | {} |".format(c.name, kind, doc.replace("|", "\\|"), fn))
        out.append("")
    return "\n".join(out)


def seeds():
    table = os.path.join(HERE, "tools", "seedtable.json")
    caught = json.load(open(table)) if os.path.exists(table) else {}
    out = ["| bug | needs | breaks | caught by |", "|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        k = os.path.basename(d)
        out.append("| {} | {} | {} | {} |".format(k, m["needs"], m["what_it_breaks"], caught.get(k, "check of " + m["property"])))
    return "\n".join(out)


def findings():
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    fixed = ["* " + e["entry"][len("fixed: ") :] for e in kf if e["status"] == "fixed"]
    known = ["* property={} {}".format(e["property"], e["what"]) for e in kf if e["status"] != "fixed"]
    return "\n".join(fixed), "\n".join(known) or "(none)"


def write(mods):
    s = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
    fixed, known = findings()
    for k, v in (("PROPERTIES_TABLE", properties(mods)), ("FIXED_TABLE", fixed), ("KNOWN_TABLE", known), ("SEED_TABLE", seeds())):
        s = s.replace(k, v, 1)
    with open(os.path.join(HERE, "DESIGN.md"), "w") as fh:
        fh.write(s)
