"""Solver portfolio: incremental z3, fresh z3, cvc5 (SMT-LIB text)."""
import os, subprocess, tempfile, time
import z3
from . import terms as T


class Prover:
    def __init__(self, quick_ms=1500, slow_ms=12000, cvc5_s=12):
        self.quick_ms = quick_ms
        self.slow_ms = slow_ms
        self.cvc5_s = cvc5_s
        self.s = z3.Solver()
        self.s.set("timeout", quick_ms)
        self.stack = []
        self.cache = {}
        self.n = dict(queries=0, z3_incremental=0, z3_fresh=0, cvc5=0, unknown=0, cached=0)
        self.time = 0.0
        self.backend = None
        self.pushes = 0

    def _sync(self, facts):
        st = self.stack
        i = 0
        n = min(len(st), len(facts))
        while i < n and st[i] is facts[i]:
            i += 1
        if len(st) > i:
            self.s.pop(len(st) - i)
            del st[i:]
        for f in facts[i:]:
            self.s.push()
            self.s.add(T.z(f))
            st.append(f)
        self.pushes += 1
        if self.pushes > 4000:
            # rebuild now and then: long incremental sessions slow down
            self.pushes = 0
            self.s = z3.Solver()
            self.s.set("timeout", self.quick_ms)
            for f in st:
                self.s.push()
                self.s.add(T.z(f))

    def check(self, facts, goal, effort=0):
        """is `goal` implied by facts?  -> ('proved'|'refuted'|'unknown', model)
        effort 0: one incremental query; 1: whole portfolio."""
        if goal is T.TRUE:
            self.backend = "syntactic"
            return "proved", None
        fs = facts
        key = (tuple(f.id for f in fs), goal.id)
        hit = self.cache.get(key)
        if hit and (hit[0] != "unknown" or hit[2] >= effort):
            self.n["cached"] += 1
            self.backend = hit[3]
            return hit[0], hit[1]
        t0 = time.time()
        self.n["queries"] += 1
        self._sync(fs)
        self.s.push()
        self.s.add(z3.Not(T.z(goal)))
        r = self.s.check()
        model = None
        if r == z3.sat:
            model = self.s.model()
        self.s.pop()
        backend = "z3"
        if r == z3.unsat:
            out = "proved"
            self.n["z3_incremental"] += 1
        elif r == z3.sat:
            out = "refuted"
            self.n["z3_incremental"] += 1
        else:
            out = "unknown"
        if out == "unknown" and effort > 0:
            s2 = z3.Solver()
            s2.set("timeout", self.slow_ms)
            for f in fs:
                s2.add(T.z(f))
            s2.add(z3.Not(T.z(goal)))
            r = s2.check()
            if r == z3.unsat:
                out = "proved"
            elif r == z3.sat:
                out, model = "refuted", s2.model()
            if out != "unknown":
                self.n["z3_fresh"] += 1
                backend = "z3-fresh"
            else:
                r = self.cvc5(s2)
                if r == "unsat":
                    out = "proved"
                    self.n["cvc5"] += 1
                    backend = "cvc5"
                elif r == "sat":
                    out = "refuted"
                    self.n["cvc5"] += 1
                    backend = "cvc5"
        if out == "unknown":
            self.n["unknown"] += 1
        self.time += time.time() - t0
        self.backend = backend
        self.cache[key] = (out, model, effort, backend)
        return out, model

    def cvc5(self, s2, timeout=None):
        return run_cvc5(s2.to_smt2(), timeout or self.cvc5_s)

    def smt2(self, facts, goal):
        s2 = z3.Solver()
        for f in facts:
            s2.add(T.z(f))
        s2.add(z3.Not(T.z(goal)))
        return s2.to_smt2()


def run_cvc5(text, timeout):
    text = "(set-logic ALL)\n" + "\n".join(l for l in text.splitlines() if not l.startswith("(set-info"))
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
        name = f.name
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % (timeout * 1000), "--nl-ext-tplanes", name],
                           capture_output=True, text=True, timeout=timeout + 5)
        o = p.stdout.strip().splitlines()
        return o[0] if o else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(name)
