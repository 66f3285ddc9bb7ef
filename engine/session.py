"""A verification unit = one function (or lemma) of /repo put under contract."""
import time, traceback, os, sys
from . import terms as T
from .terms import I
from .vals import *
from .exec import *
from . import stdlib


class Unit:
    def __init__(self, name, fn, kind="function", budget=120):
        self.name = name
        self.fn = fn
        self.kind = kind
        self.budget = budget


class Result:
    """picklable outcome of a unit"""

    def __init__(self, name, kind):
        self.name = name
        self.kind = kind
        self.obligs = []
        self.error = None
        self.error_kind = None
        self.stats = {}
        self.trusted = {}
        self.inlined = []
        self.assumed = {}
        self.seconds = 0.0
        self.paths = 0
        self.functions = []
        self.reach = 0


class U:
    """what a unit function works with"""

    def __init__(self, prog, name, budget):
        self.prog = prog
        self.name = name
        self.ex = Exec(prog)
        self.ex.curfn = name
        self.ex.deadline = time.time() + budget
        self.ex.demangled = dict(DEMANGLED)
        stdlib.install(self.ex)
        self.functions = []
        self.reach = 0

    def fn(self, demangled):
        f = self.ex.find_fn(demangled)
        if f is None:
            raise Unsupported("function %s not found in the sources" % demangled)
        self.functions.append(demangled)
        return f

    def spec(self, name, *args):
        """value of a helper of /verif/specs (compiled against /repo's headers)"""
        f = self.ex.find_fn(name)
        if f is None:
            raise Unsupported("spec helper %s not found" % name)
        rs = self.ex.run_function(f, State(), list(args))
        if len(rs) != 1:
            raise Unsupported("spec helper %s has %d outcomes" % (name, len(rs)))
        return self.ex.resolve(rs[0].ret) if isinstance(rs[0].ret, IPtr) else rs[0].ret

    def const(self, name):
        key = ("const", name)
        if key not in self.prog.index:
            v = self.spec(name)
            if not T.is_const(v):
                raise Unsupported("spec helper %s is not constant" % name)
            self.prog.index[key] = T.cval(v)
        return self.prog.index[key]

    def run(self, fn, st, args, post, reach=True):
        """execute fn from st; call post(st) on every outcome"""
        ex = self.ex
        outs = ex.run_function(fn, st, args)
        ok = 0

        def p(s):
            post(s)
            return True
        rs = ex.with_forks(outs, p)
        for s, _ in rs:
            if ex.feasible(s):
                ok += 1
        self.reach += ok
        if reach and not ok:
            # every path is infeasible: the precondition excludes everything
            raise Unsupported("vacuous: no outcome of the function is reachable")
        return rs

    def lemma(self, name, goal, facts=()):
        ex = self.ex
        st = State()
        for f in facts:
            ex.assume(st, f)
        st.frames = []
        if facts and not ex.feasible(st):
            raise Unsupported("vacuous: the hypotheses of a lemma exclude everything (%s)" % name)
        return ex.oblig(st, goal, name, where="lemma")

    def state(self):
        return State()


DEMANGLED = {}


def run_unit(prog, unit):
    r = Result(unit.name, unit.kind)
    t0 = time.time()
    u = None
    try:
        u = U(prog, unit.name, unit.budget)
        unit.fn(u)
        if not u.ex.obligs:
            r.error = "no obligations were generated"
            r.error_kind = "vacuous"
    except Unsupported as e:
        r.error = str(e)
        r.error_kind = "unsupported"
    except RecursionError as e:
        r.error = "recursion limit"
        r.error_kind = "internal"
    except Exception as e:
        r.error = "%s: %s" % (type(e).__name__, e)
        r.error_kind = "internal"
        r.tb = traceback.format_exc()
    if u is not None:
        r.obligs = [(o.name, o.status, o.backend, o.where, o.fn, o.detail) for o in u.ex.obligs]
        r.stats = dict(u.ex.pv.n)
        r.solver = u.ex.pv.time
        r.trusted = dict(u.ex.trusted)
        r.inlined = sorted(u.ex.inlined)
        r.assumed = dict(u.ex.assumed)
        r.paths = u.ex.nstates
        r.functions = u.functions
        r.reach = u.reach
        r.loops = (u.ex.loops_inv, u.ex.loops_unrolled)
    r.seconds = time.time() - t0
    return r


_PROG = None
_UNITS = None


def _work(i):
    return run_unit(_PROG, _UNITS[i])


def run_units(prog, units, jobs=8):
    global _PROG, _UNITS
    _PROG, _UNITS = prog, units
    # names once, before forking
    ex = Exec(prog)
    ex.demangle_all()
    DEMANGLED.update(ex.demangled)
    ex.find_fn("main")
    if jobs <= 1 or len(units) == 1:
        return [_work(i) for i in range(len(units))]
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    with ctx.Pool(min(jobs, len(units)), maxtasksperchild=1) as pool:
        return list(pool.imap(_work, range(len(units)), chunksize=1))
