"""Run contracts: symbolic proof, replay, bounded runtime contract checking, evidence"""
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import zlib

from . import env

CONTRACTS = {}  # property -> list of Contract


class Skip(BaseException):
    """The contract cannot be bound to the current source"""


class Contract:
    def __init__(self, prop, name, fn, mode, functions, samples, known, assumes, timeout, builtins, bound, max_paths, split):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.mode = mode
        self.functions = functions
        self.samples = samples
        self.known = known
        self.assumes = assumes
        self.timeout = timeout
        self.builtins = builtins
        self.bound = bound
        self.max_paths = max_paths
        self.split = split


def contract(prop, functions=(), mode="proof", samples=150, known=None, assumes=(), timeout=90, builtins=(), bound=None, name=None, max_paths=3000, split=0):
    """Register a contract.

    mode proof: symbolic, every obligation discharged for all inputs (plus a bounded cross-check)
    mode bounded: runtime contract checking only (stand-in, never counted as proved)
    """

    def deco(fn):
        c = Contract(prop, name or fn.__name__, fn, mode, tuple(functions), samples, known, tuple(assumes), timeout, tuple(builtins), bound, max_paths, split)
        lst = CONTRACTS.setdefault(prop, [])
        if any(o.name == c.name for o in lst):
            raise ValueError("duplicate contract " + c.name)
        lst.append(c)
        return fn

    return deco


def bind(path):
    """Resolve 'module:qualname'; Skip when absent (renamed internals)"""
    mod, _, qual = path.partition(":")
    try:
        o = importlib.import_module(mod)
        for p in qual.split("."):
            if p:
                o = getattr(o, p)
        return o
    except (ImportError, AttributeError):
        raise Skip(path)


# ------------------------------------------------------------------ symbolic
def explore(con, deadline, prover_timeout, part=None):
    from . import case, prover, shim, sym

    pv = prover.Prover(prover_timeout)
    res = {
        "paths": 0,
        "infeasible": 0,
        "obligations": [],
        "unsupported": [],
        "exceptions": [],
        "cover": False,
        "budget": False,
    }
    todo = [[]]
    while todo:
        if time.time() > deadline or res["paths"] > con.max_paths:
            res["budget"] = True
            break
        prefix = todo.pop()
        c = sym.Ctx(prefix)
        c.part = part
        sym.activate(c)
        sc = case.SymCase(c, pv)
        try:
            with shim.patched(con.builtins):
                con.fn(sc)
            res["paths"] += 1
            if not res["cover"] and c.feasible_sat():
                res["cover"] = True
        except sym.Infeasible:
            res["infeasible"] += 1
        except Skip as e:
            res["unsupported"].append("cannot bind " + str(e))
            break
        except sym.Budget as e:
            res["budget"] = True
            res["unsupported"].append("budget: " + str(e))
            break
        except sym.Unsupported as e:
            res["unsupported"].append("{} @ {}".format(e, _where(e)))
            if os.environ.get("DV_TRACE") and len(res["unsupported"]) == 1:
                traceback.print_exc()
            if len(res["unsupported"]) > 20:
                break
        except RecursionError:
            res["unsupported"].append("recursion")
        except Exception as e:  # the code raised on this path
            if c.infeasible_now():
                res["infeasible"] += 1
            else:
                res["paths"] += 1
                m = c.model()
                if os.environ.get("DV_TRACE") and not res["exceptions"]:
                    traceback.print_exc()
                res["exceptions"].append(
                    (
                        "{}: {} @ {}".format(type(e).__name__, str(e)[:200], _where(e)),
                        sc.model_inputs(m),
                    )
                )
        finally:
            sym.activate(None)
        for name, status, model, note in sc.obligations:
            inp = sc.model_inputs(model) if status == "refuted" else None
            res["obligations"].append((name, status, inp, note, c.abstracted))
        todo.extend(c.alternatives)
        bad = sum(1 for o in res["obligations"] if o[1] != "discharged")
        if bad > 12 or len(res["exceptions"]) > 12:
            res["stopped_early"] = True
            break
    res["solver_s"] = round(pv.time, 3)
    res["queries"] = pv.queries
    res["backends"] = pv.stats
    res["max_query_s"] = round(pv.maxtime, 3)
    return res


def merge(parts):
    """Merge the explorations of disjoint initial choices"""
    out = None
    for r in parts:
        if out is None:
            out = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in r.items()}
            continue
        for k, v in r.items():
            if k == "backends":
                for b, n in v.items():
                    out[k][b] = out[k].get(b, 0) + n
            elif k == "max_query_s":
                out[k] = max(out[k], v)
            elif isinstance(v, bool):
                out[k] = bool(out.get(k)) or v
            else:
                out[k] = out[k] + v
    return out


def _where(e):
    tb = e.__traceback__
    last = ""
    for f, ln in traceback.walk_tb(tb):
        fn = f.f_code.co_filename
        if "/spectrocrunch/" in fn or "/contracts/" in fn:
            last = "{}:{}".format(os.path.basename(fn), ln)
    return last


# ------------------------------------------------------------------ concrete
class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def run_once(con, rng, values=None, choices=None, limit=40):
    """One concrete evaluation of the contract on the real code.
    Returns (status, check, detail, case): ok/reject/violation/skip"""
    from . import case

    cc = case.ConcCase(rng, values, choices)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        con.fn(cc)
        return "ok", None, None, cc
    except case.Reject:
        return "reject", None, None, cc
    except Skip as e:
        return "skip", None, str(e), cc
    except case.Violation as e:
        return "violation", e.name, e.detail, cc
    except Timeout:
        return "violation", "termination", "no result within {} s".format(limit), cc
    except Exception as e:
        return (
            "violation",
            "no-exception",
            "{}: {} @ {}".format(type(e).__name__, str(e)[:300], _where(e)),
            cc,
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def jsonable(d):
    return {k: (v if v == v else "nan") for k, v in d.items()}


def unjson(d):
    return {k: (float("nan") if v == "nan" else v) for k, v in d.items()}


def concrete(con, seed, n, deadline):
    fns = set()

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(env.REPO_SRC) and "/tests/" not in co.co_filename:
                fns.add(
                    co.co_filename[len(env.REPO_SRC) + 1 :].replace("spectrocrunch/", "", 1)
                    + ":"
                    + co.co_qualname
                )

    out = {"evaluations": 0, "accepted": 0, "distinct": 0, "violations": [], "checks": 0, "samples": [], "skip": None}
    seen = set()
    names = set()
    base = zlib.crc32("{}|{}|{}".format(con.prop, con.name, seed).encode())
    i = 0
    rejected = 0
    while out["accepted"] < n and time.time() < deadline and rejected < 60 * n + 2000:
        rng = random.Random(base * 1000003 + i)
        i += 1
        if out["accepted"] < 8:
            sys.setprofile(prof)
        try:
            st, chk, detail, cc = run_once(con, rng)
        finally:
            sys.setprofile(None)
        out["evaluations"] += 1
        if st == "reject":
            rejected += 1
            continue
        if st == "skip":
            out["skip"] = detail
            break
        out["accepted"] += 1
        out["checks"] += cc.nchecks
        names |= cc.names
        key = repr((sorted(cc.values.items()), sorted(cc.choices.items())))
        if key not in seen:
            seen.add(key)
            out["distinct"] += 1
            if len(out["samples"]) < 2:
                out["samples"].append({"values": jsonable(cc.values), "choices": cc.choices})
        if st == "violation":
            out["violations"].append(
                {
                    "check": chk,
                    "detail": detail,
                    "values": jsonable(cc.values),
                    "choices": cc.choices,
                    "rng": base * 1000003 + i - 1,
                }
            )
            if len(out["violations"]) >= 3:
                break
    out["functions"] = sorted(fns)
    out["names"] = sorted(names)
    return out


# ------------------------------------------------------------------ worker
def _worker(conn, prop, cname, kind, args):
    try:
        con = next(c for c in CONTRACTS[prop] if c.name == cname)
        # private scratch directory, removed by the parent
        os.chdir(args["scratch"])
        os.environ["TMPDIR"] = args["scratch"]
        import tempfile

        tempfile.tempdir = args["scratch"]
        if kind == "sym":
            r = explore(con, time.time() + args["limit"], args["prover_timeout"], args["part"])
        elif kind == "conc":
            r = concrete(con, args["seed"], args["n"], time.time() + args["limit"])
        else:
            r = replay(con, args["inputs"], args["seed"])
        conn.send(("ok", r))
    except BaseException as e:
        conn.send(("error", "{}: {}\n{}".format(type(e).__name__, e, traceback.format_exc()[-1500:])))
    finally:
        conn.close()
        os._exit(0)


def replay(con, inputs, seed):
    """Replay solver models on the real code; then search around them"""
    holds = 0
    for inp in inputs:
        for k in range(4):
            rng = random.Random(seed + k)
            st, chk, detail, cc = run_once(con, rng, inp["values"], inp["choices"])
            holds += st == "ok" and k == 0
            if st == "violation":
                return {
                    "check": chk,
                    "detail": detail,
                    "values": jsonable(cc.values),
                    "choices": cc.choices,
                    "rng": seed + k,
                    "from": "solver model",
                }
    # random search on the choices of the failing paths
    t0 = time.time()
    i = 0
    while time.time() - t0 < 20:
        for inp in inputs:
            i += 1
            rng = random.Random(seed * 7919 + i)
            near = None
            if i % 2:
                # keep the special values of the model, draw the others
                near = {k: v for k, v in inp["values"].items() if v in (0, 1, -1) and rng.random() < 0.6}
            st, chk, detail, cc = run_once(con, rng, near, inp["choices"])
            if st == "violation":
                return {
                    "check": chk,
                    "detail": detail,
                    "values": jsonable(cc.values),
                    "choices": cc.choices,
                    "rng": seed * 7919 + i,
                    "from": "search on the refuted path",
                }
    return {"check": None, "holds_at_model": holds == len(inputs)}


def run_jobs(jobs, nproc):
    """jobs: list of (key, prop, cname, kind, args, hardlimit). Returns {key: (status, result)}"""
    import shutil
    import tempfile

    ctx = mp.get_context("fork")
    pending = list(jobs)
    running = []
    results = {}
    top = tempfile.mkdtemp(prefix="dv_")
    try:
        while pending or running:
            while pending and len(running) < nproc:
                key, prop, cname, kind, args, hard = pending.pop(0)
                args = dict(args)
                args["scratch"] = tempfile.mkdtemp(dir=top)
                a, b = ctx.Pipe(duplex=False)
                p = ctx.Process(target=_worker, args=(b, prop, cname, kind, args))
                p.start()
                b.close()
                running.append((key, p, a, time.time() + hard))
            time.sleep(0.01)
            still = []
            for key, p, a, end in running:
                if a.poll():
                    try:
                        results[key] = a.recv()
                    except EOFError:
                        results[key] = ("error", "worker died")
                    p.join(5)
                    if p.is_alive():
                        p.kill()
                elif not p.is_alive():
                    results[key] = ("error", "worker died")
                elif time.time() > end:
                    p.kill()
                    p.join()
                    results[key] = ("timeout", None)
                else:
                    still.append((key, p, a, end))
            running = still
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return results
