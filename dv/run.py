"""python -m dv.run C01 [--tier quick|thorough] [--replay FILE] [--contract NAME]"""
import argparse
import glob
import importlib
import json
import os
import random
import sys
import time

from . import env
from . import engine

HERE = env.VERIF

TRUSTED = [
    "CPython 3.12 executing the real functions of /repo/src (no extraction, no translation)",
    "dv.sym proxies: every operation of the verified code on a symbolic number builds the corresponding z3 term; unsupported operations abort the proof (never a pass)",
    "z3 5.3 / nlsat / cvc5 1.1 answers 'unsat'; ring normaliser dv.ring on sympy polynomial arithmetic",
    "numpy object-array arithmetic applies the element operations of its definition",
]
BASE_ASSUMPTIONS = [
    "machine floating point treated as mathematical real arithmetic (no rounding, no overflow)",
    "partial correctness: termination is only checked on the bounded runs",
]


def load(prop):
    importlib.import_module("contracts." + prop.lower())
    return engine.CONTRACTS[prop]


def meta(prop):
    return importlib.import_module("contracts." + prop.lower()).META


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k.get("status") == "known"]


def is_known(prop, cname, v, known):
    for k in known:
        if k["property"] == prop and k["contract"] == cname and k["check"] in (v["check"], "*"):
            ch = k.get("choices")
            if ch and any(v.get("choices", {}).get(a) != b for a, b in ch.items()):
                continue
            return k
    return None


def write_replay(prop, cname, v, extra=None):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "{}_{}_{}.json".format(prop, cname, v.get("check", "obligation")).replace("/", "_").replace(" ", "_"))
    doc = {"property": prop, "contract": cname}
    doc.update(v)
    if extra:
        doc.update(extra)
    doc["how"] = "cd /verif && ./check {} --replay {}".format(prop, path)
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    return path


def do_replay(path):
    doc = json.load(open(path))
    cons = load(doc["property"])
    con = next(c for c in cons if c.name == doc["contract"])
    if "values" not in doc:
        print("no concrete input recorded:", json.dumps(doc, indent=1))
        return 1
    import tempfile
    import shutil

    d = tempfile.mkdtemp(prefix="dvreplay_")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        tempfile.tempdir = d
        st, chk, detail, cc = engine.run_once(
            con, random.Random(doc.get("rng", 0)), engine.unjson(doc["values"]), doc["choices"]
        )
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    print(st, chk, detail)
    if st == "violation":
        print("VIOLATION property={} replay={}".format(doc["property"], path))
        return 1
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--contract")
    ap.add_argument("--nproc", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    sys.path.insert(0, HERE)
    if a.replay:
        return do_replay(a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = a.prop
    thorough = a.tier == "thorough"
    # import failures of the real code surface here
    try:
        cons = load(prop)
    except Exception as e:
        import traceback

        detail = traceback.format_exc()[-1500:]
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        if "/spectrocrunch/" in last:
            p = write_replay(prop, "import", {"check": "import", "detail": detail})
            print("VIOLATION property={} replay={}".format(prop, p))
            return 1
        raise
    M = meta(prop)
    if a.contract:
        cons = [c for c in cons if c.name in a.contract.split(",")]
    jobs = []
    for c in cons:
        if c.mode == "proof":
            lim = c.timeout * (4 if thorough else 1)
            for k in range(c.split or 1):
                jobs.append(
                    (
                        (c.name, "sym", k),
                        prop,
                        c.name,
                        "sym",
                        {"limit": lim, "prover_timeout": 30000 if thorough else 8000, "part": [k, c.split] if c.split else None},
                        lim + 60,
                    )
                )
    for c in cons:
        n = c.samples * (10 if thorough else 1)
        lim = 600 if thorough else 100
        jobs.append(((c.name, "conc"), prop, c.name, "conc", {"seed": seed, "n": n, "limit": lim}, lim + 60))
    results = engine.run_jobs(jobs, a.nproc)
    for c in cons:
        if c.mode == "proof":
            parts = [results.pop((c.name, "sym", k)) for k in range(c.split or 1)]
            bad = [p for p in parts if p[0] != "ok"]
            results[(c.name, "sym")] = bad[0] if bad else ("ok", engine.merge([p[1] for p in parts]))

    # replays of refuted obligations and raised exceptions
    rj = []
    for c in cons:
        st, r = results.get((c.name, "sym"), (None, None))
        if st != "ok":
            continue
        inputs = [o[2] for o in r["obligations"] if o[1] == "refuted" and o[2]] + [e[1] for e in r["exceptions"]]
        if inputs:
            rj.append(((c.name, "replay"), prop, c.name, "replay", {"inputs": inputs[:8], "seed": seed}, 150))
    if rj:
        results.update(engine.run_jobs(rj, a.nproc))

    known = known_findings()
    violations, knownhits = [], []
    ev_contracts, undecided = [], []
    nobl = ndis = 0
    evals = distinct = 0
    functions = set()
    samples = []
    solver_s = 0.0
    backends = {}
    for c in cons:
        rec = {"contract": c.name, "mode": c.mode, "doc": (c.fn.__doc__ or "").strip().split("\n")[0]}
        if c.bound:
            rec["bound"] = c.bound
        sst, s = results.get((c.name, "sym"), (None, None))
        cst, k = results.get((c.name, "conc"), (None, None))
        viol = []
        if cst == "ok":
            evals += k["evaluations"]
            distinct += k["distinct"]
            functions |= set(k["functions"])
            rec["runtime_evaluations"] = k["accepted"]
            rec["runtime_checks"] = k["checks"]
            rec["functions_executed"] = k["functions"]
            if k["samples"]:
                samples.append({"contract": c.name, "input": k["samples"][0]})
            if k["skip"]:
                rec["not_bound"] = k["skip"]
                undecided.append("{}: cannot bind {}".format(c.name, k["skip"]))
            elif k["accepted"] == 0:
                undecided.append("{}: no accepted input in the bounded run".format(c.name))
            viol.extend(k["violations"])
        else:
            undecided.append("{}: bounded run {}".format(c.name, cst))
            rec["bounded_run"] = "{} {}".format(cst, k)
        if c.mode == "proof":
            if sst == "ok":
                solver_s += s["solver_s"]
                for b, n in s["backends"].items():
                    backends[b] = backends.get(b, 0) + n
                o_all = len(s["obligations"])
                o_dis = sum(1 for o in s["obligations"] if o[1] == "discharged")
                proved = (
                    o_all > 0
                    and o_all == o_dis
                    and not s["unsupported"]
                    and not s["exceptions"]
                    and not s["budget"]
                    and s["paths"] > 0
                    and s["cover"]
                )
                missing = set(k["names"]) - {o[0] for o in s["obligations"]} if cst == "ok" else set()
                if missing:
                    proved = False
                nobl += o_all
                ndis += o_dis
                rec.update(
                    paths=s["paths"],
                    obligations=o_all,
                    discharged=o_dis,
                    obligation_names=sorted({o[0] for o in s["obligations"]}),
                    solver_s=s["solver_s"],
                    max_query_s=s["max_query_s"],
                    backends=s["backends"],
                    cover=s["cover"],
                    proved=proved,
                )
                if not proved:
                    why = []
                    why += ["unsupported: " + u for u in s["unsupported"][:3]]
                    why += ["raises " + e[0] for e in s["exceptions"][:3]]
                    why += ["{} {} {}".format(o[0], o[1], o[3]) for o in s["obligations"] if o[1] != "discharged"][:3]
                    if s["budget"]:
                        why.append("path/time budget exhausted")
                    if missing:
                        why.append("checks not reached symbolically: {}".format(sorted(missing)))
                    if not s["cover"]:
                        why.append("no satisfiable path (vacuous)")
                    rec["undecided"] = why
                    undecided.append("{}: {}".format(c.name, "; ".join(why)))
                refuted = [o for o in s["obligations"] if o[1] == "refuted"]
                if (refuted or s["exceptions"]) and not viol:
                    rst, r = results.get((c.name, "replay"), (None, None))
                    if rst == "ok" and r and r["check"]:
                        viol.append(r)
                    elif rst == "ok" and r and r["holds_at_model"]:
                        # exact-real counterexample that the real code satisfies on floats: undecided
                        rec["not_reproduced"] = "the real code satisfies the contract at every solver model"
                    else:
                        solid = [o for o in refuted if not o[4]]
                        if solid:
                            viol.append(
                                {
                                    "check": solid[0][0],
                                    "detail": "obligation refuted by the solver, not reproduced on floats: " + str(solid[0][3]),
                                    "solver_model": solid[0][2],
                                    "nofail": True,
                                }
                            )
            else:
                rec["proved"] = False
                rec["undecided"] = ["symbolic run: {} {}".format(sst, s)]
                undecided.append("{}: symbolic run {} {}".format(c.name, sst, str(s)[:300] if s else ""))
        for v in viol[:1] if not known else viol:
            kf = is_known(prop, c.name, v, known)
            if kf:
                if kf not in knownhits:
                    knownhits.append(kf)
            else:
                violations.append((c.name, v))
                break
        ev_contracts.append(rec)

    proved_names = [r["contract"] for r in ev_contracts if r.get("proved")]
    bounded_names = [r["contract"] for r in ev_contracts if r["mode"] == "bounded"]
    level = M["level"]
    if level == "proof" and len(proved_names) < sum(1 for c in cons if c.mode == "proof"):
        level = "other"
    cov = {
        "obligations": nobl,
        "discharged": ndis,
        "checker_cmd": "./check {} --tier {}".format(prop, a.tier),
        "trusted_base": TRUSTED + list(M.get("trusted", [])),
        "functions_under_contract": sorted({f for c in cons for f in c.functions}),
        "functions_executed": sorted(functions),
        "proved_contracts": proved_names,
        "bounded_contracts": bounded_names,
        "undecided": undecided,
        "solver_s": round(solver_s, 2),
        "backends": backends,
        "contracts": ev_contracts,
        "evaluations": evals,
        "distinct_nontrivial": distinct,
        "rule": "inputs drawn per contract from its precondition (edge values and random); distinct input valuations whose precondition holds and whose contract was evaluated on the real code",
        "samples": samples[:12],
        "explanation": M["explanation"],
    }
    doc = {
        "property": prop,
        "tier": "thorough" if thorough else "quick",
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": BASE_ASSUMPTIONS + list(M.get("assumptions", [])) + sorted({x for c in cons for x in c.assumes}),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if not a.contract:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1, default=str)
    print(
        "{}: {} contracts, {} proved, {} bounded; obligations {}/{} discharged; {} runtime evaluations; {:.1f}s".format(
            prop, len(cons), len(proved_names), len(bounded_names), ndis, nobl, evals, time.time() - t0
        )
    )
    if a.v:
        for r in ev_contracts:
            print("  ", r["contract"], r["mode"], "proved" if r.get("proved") else "", r.get("obligations"), r.get("solver_s"), r.get("runtime_evaluations"))
    for u in undecided:
        print("UNDECIDED", u)
    for kf in knownhits:
        print("KNOWN-FINDING: property={} {}".format(prop, kf["what"]))
    for cname, v in violations:
        p = write_replay(prop, cname, v)
        print("  {}: {} {}".format(cname, v.get("check"), v.get("detail")))
        print(
            "VIOLATION property={} replay={}{}".format(prop, p, " no-failing-input-found" if v.get("nofail") else "")
        )
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
