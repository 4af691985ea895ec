"""Discharging obligations: ring normaliser, z3, nlsat, cvc5"""
import os
import shutil
import subprocess
import tempfile
import time

import z3

from . import ring
from .sym import _real

CVC5 = shutil.which("cvc5")


class Prover:
    def __init__(self, timeout_ms=8000, use_cvc5=True):
        self.timeout = timeout_ms
        self.use_cvc5 = use_cvc5
        self.stats = {}
        self.time = 0.0
        self.queries = 0
        self.maxtime = 0.0

    def _done(self, backend, t0):
        dt = time.time() - t0
        self.time += dt
        self.maxtime = max(self.maxtime, dt)
        self.stats[backend] = self.stats.get(backend, 0) + 1

    def equal(self, c, x, xn, y, yn):
        t0 = time.time()
        self.queries += 1
        if xn is None and yn is None:
            if ring.prove_equal(x, y, c.relations):
                self._done("ring", t0)
                return ("discharged", "ring", None)
            # definitional rewrites of the path condition: atom == term
            subs = c.memo.get("defs")
            if subs and ring.prove_equal(x, y, c.relations + subs):
                self._done("ring", t0)
                return ("discharged", "ring", None)
            if ring.prove_close(x, y, c.relations):
                self._done("ring(1e-11)", t0)
                return ("discharged", "ring", None)
            return self._visible(c, x, y, self.prove(c, _real(x) == _real(y), counted=True))
        f = z3.BoolVal(False)
        xn = f if xn is None else xn
        yn = f if yn is None else yn
        r = self.prove(c, xn == yn)
        if r[0] != "discharged":
            return r
        if ring.prove_equal(x, y, c.relations):
            self._done("ring", t0)
            return ("discharged", "ring", None)
        if ring.prove_close(x, y, c.relations):
            self._done("ring(1e-11)", t0)
            return ("discharged", "ring", None)
        return self._visible(c, x, y, self.prove(c, z3.Or(xn, _real(x) == _real(y))), xn)

    def _visible(self, c, x, y, r, xn=None):
        """Prefer a counterexample that differs by more than rounding (replay on floats)"""
        if r[0] != "refuted":
            return r
        t0 = time.time()
        d = _real(x) - _real(y)
        for tol in (1, z3.RealVal("1/100"), z3.RealVal("1/100000")):
            s = z3.Solver()
            s.set("timeout", 1000)
            s.add(*c.facts)
            s.add(*c.pc)
            if xn is not None:
                s.add(z3.Not(xn))
            s.add(z3.Or(d >= tol, d <= -tol))
            if s.check() == z3.sat:
                r = (r[0], r[1], s.model())
                break
            if time.time() - t0 > 2:
                break
        self.time += time.time() - t0
        return r

    def prove(self, c, goal, counted=False):
        t0 = time.time()
        if not counted:
            self.queries += 1
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            self._done("simplify", t0)
            return ("discharged", "simplify", None)
        s = z3.Solver()
        s.set("timeout", self.timeout)
        for f in c.facts:
            s.add(f)
        for f in c.pc:
            s.add(f)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            self._done("z3", t0)
            return ("discharged", "z3", None)
        if r == z3.sat:
            m = s.model()
            self._done("z3-sat", t0)
            return ("refuted", "z3", m)
        # nlsat
        try:
            t = z3.Then("simplify", "solve-eqs", "qfnra-nlsat").solver()
            t.set("timeout", self.timeout)
            t.add(*s.assertions())
            r = t.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            self._done("nlsat", t0)
            return ("discharged", "nlsat", None)
        if r == z3.sat:
            m = t.model()
            self._done("nlsat-sat", t0)
            return ("refuted", "nlsat", m)
        if self.use_cvc5 and CVC5:
            if self._cvc5(s) == "unsat":
                self._done("cvc5", t0)
                return ("discharged", "cvc5", None)
        self._done("unknown", t0)
        return ("unknown", "none", None)

    def _cvc5(self, s):
        txt = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            out = subprocess.run(
                [CVC5, "--tlimit={}".format(self.timeout), f.name],
                capture_output=True,
                text=True,
                timeout=self.timeout / 1000 + 5,
            )
            return out.stdout.strip().split("\n")[0]
        except Exception:
            return "unknown"
        finally:
            os.unlink(f.name)
