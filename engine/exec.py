"""Verification-condition generator: path-wise symbolic execution of the LLVM IR
of /repo's functions with contracts at calls and inductive invariants at loops.

Nothing here is bounded: a loop is either fully unrolled because every exit
branch is decided, or cut by an invariant that is checked on entry and on every
back edge."""
import re, subprocess, time
from . import terms as T
from .terms import I, TRUE, FALSE
from .vals import *
from .solver import Prover

sys_lim = __import__("sys").setrecursionlimit(20000)
I0 = T.I(0)
PTRT = ("ptr",)
I1 = ("i", 1)
I8 = ("i", 8)
I32 = ("i", 32)
I64 = ("i", 64)
F64T = ("f64",)


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class ForkVal(Exception):
    """case split: list of conditions, exhaustive"""
    def __init__(self, conds):
        self.conds = conds


class Unsupported(Exception):
    pass


class NeedInvariant(Exception):
    def __init__(self, loop_key):
        self.key = loop_key


class Running:
    """a loop being executed: `it` is the iteration the invariant is about (None while unrolling)"""
    def __init__(self, key, spec):
        self.key, self.spec, self.it = key, spec, None


class Dead(Exception):
    """the current path is infeasible or ends here"""


class Frame:
    __slots__ = ("fn", "blk", "i", "prev", "env", "call", "onret", "serial")

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.blk = self.blk
        f.i = self.i
        f.prev = self.prev
        f.env = dict(self.env)
        f.call = self.call
        f.onret = self.onret
        f.serial = self.serial
        return f


class State:
    def __init__(self):
        self.facts = []
        self.seen = set()
        self.mem = {}
        self.dead = {}      # region -> True when freed
        self.frames = []
        self.ghost = {}
        self.bnd = {}
        self.trace = []
        self.ret = None
        self.heap = []
        self.noted = set()

    def clone(self):
        s = State.__new__(State)
        s.facts = list(self.facts)
        s.seen = set(self.seen)
        s.mem = dict(self.mem)
        s.dead = dict(self.dead)
        s.frames = [f.clone() for f in self.frames]
        s.ghost = dict(self.ghost)
        s.bnd = dict(self.bnd)
        s.trace = list(self.trace)
        s.ret = self.ret
        s.heap = list(self.heap)
        s.noted = set(self.noted)
        return s


class Oblig:
    __slots__ = ("name", "status", "backend", "where", "detail", "fn", "dt")

    def __init__(self, name, status, backend, where, fn, detail=None):
        self.name = name
        self.status = status
        self.backend = backend
        self.where = where
        self.fn = fn
        self.detail = detail


NEG_INF = None


class Loop:
    def __init__(self, header, body, latches):
        self.header = header
        self.body = body
        self.latches = latches


def find_loops(fn):
    """natural loops, header -> Loop"""
    if fn._loops is not None:
        return fn._loops
    from .irparse import succs
    succ = {b: succs(fn.blocks[b]) for b in fn.blocks}
    # dominators (iterative)
    order = []
    seen = set()
    stack = [(fn.entry, iter(succ[fn.entry]))]
    seen.add(fn.entry)
    while stack:
        b, it = stack[-1]
        for t in it:
            if t not in seen:
                seen.add(t)
                stack.append((t, iter(succ[t])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {fn.entry: fn.entry}

    def inter(a, b):
        while a != b:
            while num[a] > num[b]:
                a = idom[a]
            while num[b] > num[a]:
                b = idom[b]
        return a
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in fn.preds[b] if p in idom]
            n = ps[0]
            for p in ps[1:]:
                n = inter(n, p)
            if idom.get(b) != n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if idom[b] == b:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for t in succ[b]:
            if dom(t, b):
                body = {t, b}
                work = [b] if b != t else []
                while work:
                    x = work.pop()
                    for p in fn.preds[x]:
                        if p in num and p not in body:
                            body.add(p)
                            work.append(p)
                if t in loops:
                    loops[t].body |= body
                    loops[t].latches.append(b)
                else:
                    loops[t] = Loop(t, body, [b])
    # blocks that cannot return to the loop but leave the function by unwinding are not part of it
    fn._loops = loops
    return loops


class Stop:
    """where a nested drive() must give a state back"""
    __slots__ = ("depth", "loop", "serial", "concrete", "outer", "conds")

    def __init__(self, depth, loop, serial, concrete):
        self.depth = depth
        self.loop = loop
        self.serial = serial
        self.concrete = concrete
        self.conds = []


class Exec:
    access = None          # called with (st, region, offset, size) on every access the code makes

    def __init__(self, prog, prover=None):
        self.prog = prog
        self.pv = prover or Prover()
        self.obligs = []
        self.ranges = {}
        self.axioms = {}            # fname -> callable(app term) -> [facts]
        self.contracts = {}         # demangled prefix or mangled name -> handler(ex, st, call, args)
        self.demangled = {}
        self.gl = {}
        self.fams = {}
        self.trusted = {}
        self.inlined = set()
        self.assumed = {}
        self.throws = []
        self.notes = []
        self.loopspec = None        # callable(ex, st, frame, loop, it) -> LoopSpec or None
        self.templates = []         # list of callables it -> Term
        self.maxsteps = 1500000
        self.steps = 0
        self.unroll = 40
        self.curfn = "?"
        self.fserial = 0
        self.running = []
        self.unroll_ok = set()      # functions whose loops may be unrolled with forking exits
        self.addrs = {}
        self.deadline = None
        self.max_states = 6000
        self.nstates = 0
        self.no_inline = set()
        self.pure_ro = set()
        self.loops_inv = 0
        self.loops_unrolled = 0
        self.region_inv = {}        # region -> RegionInv used at invariant loops
        self.addr_regions = {}
        self.opaque_bits = False    # keep hash arithmetic uninterpreted
        self.reads = set()          # objects read
        self.facts_of = {}          # atom -> [facts]

    # ------------------------------------------------------------ naming
    def demangle_all(self):
        if "names" in self.prog.index:
            if self.demangled is not self.prog.index["names"]:
                self.demangled.update(self.prog.index["names"])
            return
        names = set()
        for m in self.prog.mods:
            names.update(m.funcs)
            names.update(m.decls)
            names.update(m.aliases)
        names = [n for n in names if n.startswith("_Z")]
        p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
        for a, b in zip(names, p.stdout.split("\n")):
            self.demangled[a] = norm_std(b)
        self.prog.index["names"] = dict(self.demangled)

    def dn(self, name):
        d = self.demangled.get(name)
        if d is None:
            if name.startswith("_Z"):
                d = norm_std(subprocess.run(["c++filt", name], capture_output=True, text=True).stdout.strip())
            else:
                d = name
            self.demangled[name] = d
        return d

    def find_fn(self, demangled):
        """IR function by demangled name (prefix before '(' or the full signature)"""
        if not self.demangled:
            self.demangle_all()
        key = ("find", demangled)
        hit = self.prog.index.get(key)
        if hit is None:
            if "funcs" not in self.prog.index:
                ix, al = {}, {}
                for m in self.prog.mods:
                    for into, ns in ((ix, m.funcs), (al, m.aliases)):
                        for n in ns:
                            d = self.dn(n)
                            for k in (d, strip_args(d), n):
                                into.setdefault(k, []).append((n, m))
                self.prog.index["funcs"] = (ix, al)
            ix, al = self.prog.index["funcs"]
            f = None
            if demangled in ix:
                n, m = ix[demangled][0]
                f = self.prog.lookup(n, m)
            else:
                # constructors/destructors come as C1/C2: same body
                for n, m in al.get(demangled, ()):
                    f = self.prog.lookup(n, m)
                    if f:
                        break
            hit = self.prog.index[key] = (f,)
        return hit[0]

    # ------------------------------------------------------------ facts
    def setrange(self, atom, lo, hi):
        if atom not in self.ranges:
            self.ranges[atom] = (lo, hi)

    def var(self, name, lo=None, hi=None, sort="Int"):
        v = T.var(name, sort)
        if lo is not None:
            self.setrange(v, lo, hi)
        return v

    def fresh(self, name, lo=None, hi=None, sort="Int"):
        v = T.fresh(name, sort)
        if lo is not None:
            self.setrange(v, lo, hi)
        return v

    def fresh_of(self, ty, name):
        k = ty[0]
        if k == "i":
            if ty[1] == 1:
                return T.fresh(name, "Bool")
            return self.fresh(name, 0, 2 ** ty[1] - 1)
        if k == "ptr":
            return IPtr(self.fresh(name, 0, 2 ** 64 - 1))
        if k == "f64":
            return T.fresh(name, "F64")
        if k == "f32":
            return T.fresh(name, "F32")
        if k in ("st", "arr", "named"):
            return UNDEF
        if k == "f80":
            return T.fresh(name, "F80")
        if k == "void":
            return None
        raise Unsupported("fresh of %r" % (ty,))

    def zero_of(self, ty):
        k = ty[0]
        if k == "i":
            return FALSE if ty[1] == 1 else I0
        if k == "ptr":
            return NULL
        if k == "f64" or k == "f32":
            return T.mk("fpval", (0,), "F64" if k == "f64" else "F32")
        raise Unsupported("zero of %r" % (ty,))

    def know(self, st, t):
        """bring in the axioms attached to atoms of t"""
        todo = [t]
        while todo:
            x = todo.pop()
            for a in atoms_new(x, st.noted):
                if a in st.seen:
                    continue
                st.seen.add(a)
                r = self.ranges.get(a)
                if r is not None:
                    if r[0] is not None:
                        st.facts.append(T.le(r[0], a))
                    if r[1] is not None:
                        f = T.le(a, r[1])
                        st.facts.append(f)
                        if isinstance(r[1], T.Term):
                            todo.append(f)
                if a.op.startswith("app:"):
                    ax = self.axioms.get(a.op[4:])
                    if ax:
                        for f in ax(a):
                            st.facts.append(f)
                            todo.append(f)
                fs = self.facts_of.get(a)
                if fs:
                    for f in fs:
                        st.facts.append(f)
                        todo.append(f)

    def assume(self, st, f):
        f = T.B(f)
        if f is TRUE:
            return
        if f.op == "and":
            for x in f.args:
                self.assume(st, x)
            return
        self.know(st, f)
        st.facts.append(f)
        if f is FALSE:
            raise Dead()
        self._bound(st, f)

    def _bound(self, st, f):
        if f.op == "le0":
            k, items = T.lin_of(f.args[0])
            if len(items) == 1:
                a, q = items[0]
                lo, hi = st.bnd.get(a, (None, None))
                if q > 0:
                    v = (-k) // q
                    if hi is None or v < hi:
                        st.bnd[a] = (lo, v)
                else:
                    v = -((-k) // (-q)) if False else -(-k // -q) if False else -((-k) // (-q))
                    # q<0: q*a + k <= 0  ->  a >= k/(-q)
                    v = -((-k) // (-q))
                    if lo is None or v > lo:
                        st.bnd[a] = (v, hi)
        elif f.op == "eq0":
            k, items = T.lin_of(f.args[0])
            if len(items) == 1:
                a, q = items[0]
                if (-k) % q == 0:
                    v = -k // q
                    st.bnd[a] = (v, v)

    def iv(self, st, t, depth=4):
        """interval of an Int term"""
        if t.op == "lin":
            lo = hi = t.args[0]
            for a, q in t.args[1]:
                l, h = self.iv(st, a, depth)
                if q < 0:
                    l, h = h, l
                lo = None if lo is None or l is None else lo + q * l
                hi = None if hi is None or h is None else hi + q * h
            return lo, hi
        r = self.ranges.get(t)
        lo, hi = (None, None)
        if r:
            lo = r[0] if isinstance(r[0], int) else None
            hi = r[1] if isinstance(r[1], int) else None
        b = st.bnd.get(t)
        if b:
            if b[0] is not None and (lo is None or b[0] > lo):
                lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi):
                hi = b[1]
        if depth > 0:
            if t.op == "ite":
                l1, h1 = self.iv(st, t.args[1], depth - 1)
                l2, h2 = self.iv(st, t.args[2], depth - 1)
                if l1 is not None and l2 is not None:
                    lo = min(l1, l2) if lo is None else max(lo, min(l1, l2))
                if h1 is not None and h2 is not None:
                    hi = max(h1, h2) if hi is None else min(hi, max(h1, h2))
            elif t.op == "mod" and T.is_const(t.args[1]):
                c = T.cval(t.args[1])
                lo = 0 if lo is None else max(lo, 0)
                hi = c - 1 if hi is None else min(hi, c - 1)
            elif t.op == "div" and T.is_const(t.args[1]):
                c = T.cval(t.args[1])
                l1, h1 = self.iv(st, t.args[0], depth - 1)
                if l1 is not None:
                    lo = l1 // c if lo is None else max(lo, l1 // c)
                if h1 is not None:
                    hi = h1 // c if hi is None else min(hi, h1 // c)
        return lo, hi

    def quick(self, st, c):
        """cheap decision by intervals: True/False/None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == "le0":
            lo, hi = self.iv(st, c.args[0])
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif c.op == "eq0":
            lo, hi = self.iv(st, c.args[0])
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo == 0 and hi == 0:
                return True
        elif c.op == "not":
            r = self.quick(st, c.args[0])
            return None if r is None else not r
        elif c.op == "and":
            rs = [self.quick(st, x) for x in c.args]
            if False in rs:
                return False
            if all(r is True for r in rs):
                return True
        return None

    def proved(self, st, c, effort=0):
        c = T.B(c)
        q = self.quick(st, c)
        if q is not None:
            return q
        self.know(st, c)
        self.tick()
        return self.pv.check(st.facts, c, effort)[0] == "proved"

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of this function is used up")

    def decide(self, st, c):
        c = T.B(c)
        q = self.quick(st, c)
        if q is not None:
            return q
        if self.proved(st, c):
            return True
        if self.proved(st, T.not_(c)):
            return False
        raise Fork(c)

    def feasible(self, st):
        r, _ = self.pv.check(st.facts, FALSE, 0)
        return r != "proved"

    def oblig(self, st, goal, name, where=None):
        goal = T.B(goal)
        q = self.quick(st, goal)
        if goal is TRUE or q is True:
            status, be, model = "proved", "interval" if goal is not TRUE else "syntactic", None
        else:
            self.know(st, goal)
            self.tick()
            status, model = self.pv.check(st.facts, goal, 1)
            be = self.pv.backend
        o = Oblig(name, status, be, where or self.where(st), self.curfn)
        if status != "proved":
            o.detail = "goal: %s" % T.show(goal, 12)
            if model is not None:
                o.detail += "\nmodel: " + model_text(model)
            o.detail += "\npath: " + " > ".join(st.trace[-12:])
        self.obligs.append(o)
        if status != "proved":
            # (what fails inside a loop may be tentative: a pass is redone with another invariant)
            if sum(x.status != "proved" for x in self.obligs) > (600 if self.running else 60):
                raise Unsupported("stopped after too many failed obligations")
            # go on as if it held, so that one defect is not reported many times
            if goal is FALSE:
                raise Dead()
            st.facts.append(goal)
        return status == "proved"

    def fail(self, st, name, detail=""):
        """an obligation that is false on this path, if the path is feasible"""
        self.oblig(st, FALSE, name)

    def where(self, st):
        return " < ".join(self.dn(f.fn.name) + ":" + str(f.blk) for f in reversed(st.frames[-3:]))

    # ------------------------------------------------------------ regions
    def new_region(self, name, kind, size, base=None, info=None):
        if isinstance(size, int):
            size = I(size)
        return Region(name, kind, size, base or UninitBase(), info=info)

    def family(self, fam, idx, size=None, base=None, kind="param", info=None):
        k = (fam, idx)
        r = self.fams.get(k)
        if r is None:
            r = self.fams[k] = Region(fam, kind, size, base, fam, idx, info)
        return r

    def addr(self, r):
        a = self.addrs.get(r)
        if a is None:
            if r.fam is not None:
                a = T.app("addr." + r.fam, (r.idx,))
            else:
                a = T.var("addr.%s.%d" % (r.name, r.n))
            self.setrange(a, 4096, 2 ** 47)
            self.addrs[r] = a
            self.addr_regions[a] = r
        return a

    def ptr_int(self, p):
        if isinstance(p, IPtr):
            return p.t
        if isinstance(p, Ptr):
            return T.add(self.addr(p.r), p.off)
        if isinstance(p, FuncPtr):
            v = T.var("fnaddr." + p.name)
            self.setrange(v, 4096, 2 ** 47)
            return v
        raise Unsupported("pointer value %r" % (p,))

    def resolve(self, p):
        """integer address of a known object -> pointer into it"""
        if isinstance(p, IPtr) and not T.is_const(p.t):
            k, items = T.lin_of(p.t)
            for a, q in items:
                if q == 1 and a in self.addr_regions:
                    return Ptr(self.addr_regions[a], T.sub(p.t, a))
        return p

    def ptr_eq(self, st, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is b.r:
                return T.eq(a.off, b.off)
            if a.r.fam is not None and a.r.fam == b.r.fam:
                return T.and_(T.eq(a.r.idx, b.r.idx), T.eq(a.off, b.off))
            return FALSE
        if isinstance(a, FuncPtr) or isinstance(b, FuncPtr):
            if isinstance(a, FuncPtr) and isinstance(b, FuncPtr):
                return T.B(a.name == b.name)
            return FALSE if isnull(a) or isnull(b) else T.eq(self.ptr_int(a), self.ptr_int(b))
        if isinstance(a, IPtr) and isinstance(b, IPtr):
            return T.eq(a.t, b.t)
        if isnull(a) or isnull(b):
            return FALSE
        return T.eq(self.ptr_int(a), self.ptr_int(b))

    def same_region(self, st, r):
        """representative of a family member among the touched members"""
        if r.fam is None:
            return r
        for r2 in list(st.mem):
            if r2.fam == r.fam and r2 is not r:
                if self.decide(st, T.eq(r2.idx, r.idx)):
                    return r2
        return r

    def region_of(self, st, p, what):
        p = self.resolve(p)
        if isinstance(p, IPtr):
            if isnull(p):
                self.fail(st, "null pointer %s" % what)
                raise Dead()
            # an unknown pointer: is it provably null?
            if self.proved(st, T.eq(p.t, 0)):
                self.fail(st, "null pointer %s" % what)
                raise Dead()
            raise Unsupported("%s through unknown pointer %r at %s" % (what, p, self.where(st)))
        if not isinstance(p, Ptr):
            raise Unsupported("%s through %r" % (what, p))
        return self.same_region(st, p.r), p.off

    def bounds(self, st, r, off, n, what):
        n = T.toint(n)
        if r in st.dead:
            self.fail(st, "%s of released object %s" % (what, r.name))
            raise Dead()
        if r.size is None:
            return
        self.oblig(st, T.and_(T.le(0, off), T.le(T.add(off, n), r.size)), "%s within %s" % (what, r.name))

    # ------------------------------------------------------------ memory
    def mod_size(self, ty):
        k = ty[0]
        if k == "i":
            return max(1, (ty[1] + 7) // 8)
        if k in ("ptr", "f64"):
            return 8
        if k == "f32":
            return 4
        if k == "f80":
            return 16
        raise Unsupported("size of %r" % (ty,))

    def split_index(self, st, off, stride):
        k, items = T.lin_of(off)
        q = [(a, c // stride) for a, c in items if c % stride == 0]
        if len(q) == len(items):
            d = k % stride
            return T.mklin(k // stride, q), d
        return None, None

    def from_int(self, st, t, ty):
        k = ty[0]
        if k == "i":
            if ty[1] == 1:
                return T.eq(T.mod(t, 2), 1)
            return t
        if k == "ptr":
            return self.resolve(IPtr(t))
        if k == "f64":
            if t.op == "app:f642bits":
                return t.args[0]
            return T.app("bits2f64", (t,), "F64")
        if k == "f32":
            if t.op == "app:f322bits":
                return t.args[0]
            return T.app("bits2f32", (t,), "F32")
        raise Unsupported("from_int %r" % (ty,))

    def to_int(self, v, ty):
        if v is UNDEF:
            return T.fresh("undef")
        k = ty[0]
        if k == "i":
            if v.sort == "Bool":
                return T.ite(v, 1, 0)
            return v
        if k == "ptr":
            return self.ptr_int(v)
        if k in ("f64", "f32"):
            if v.op == "app:bits2" + k:
                return v.args[0]
            if v.op == "fpval":
                return I(v.args[0])
            t = T.app(k + "2bits", (v,))
            self.setrange(t, 0, 2 ** (64 if k == "f64" else 32) - 1)
            return t
        raise Unsupported("to_int %r" % (ty,))

    def retype(self, st, v, fty, ty):
        if fty == ty:
            return v
        if v is UNDEF:
            return self.fresh_of(ty, "undef")
        if fty[0] == "i" and ty[0] == "i":
            if ty[1] == 1 or fty[1] == 1:
                return self.from_int(st, self.to_int(v, fty), ty)
            return v
        if ty[0] == "ptr" and isinstance(v, (Ptr, FuncPtr, IPtr)):
            return v
        if ty[0] == "i" and ty[1] == 64 and isinstance(v, FuncPtr):
            return self.ptr_int(v)
        return self.from_int(st, self.to_int(v, fty), ty)

    def subread(self, st, v, fty, d, size, ty):
        """`size` bytes at (constant) displacement d of a stored value"""
        if self.mod_size(fty) == size and T.is_const(d) and T.cval(d) == 0:
            return self.retype(st, v, fty, ty)
        if not T.is_const(d):
            d = self.enum_const(st, d, None, self.mod_size(fty) - size)
        t = self.to_int(v, fty)
        r = T.mod(T.div(t, 256 ** T.cval(d)), 256 ** size)
        lo, hi = self.iv(st, t)
        if hi is not None and lo is not None and lo >= 0 and hi < 256 ** (size + T.cval(d)):
            r = T.div(t, 256 ** T.cval(d))
        return self.from_int(st, r, ty)

    def enum_const(self, st, off, r, top=None):
        """case split on the value of a term that has few values"""
        lo, hi = self.iv(st, off)
        if top is None and r is not None and r.size is not None and T.is_const(r.size):
            top = T.cval(r.size)
        lo = 0 if lo is None or lo < 0 else lo
        hi = top if hi is None or (top is not None and hi > top) else hi
        if hi is None or hi - lo > 300:
            raise Unsupported("case split on %s" % off)
        for v in range(lo, hi + 1):
            c = T.eq(off, v)
            if c is FALSE:
                continue
            if self.decide(st, c):
                return I(v)
        raise Dead()

    def load(self, st, p, ty, check=True):
        p = self.resolve(p)
        r, off = self.region_of(st, p, "read")
        self.reads.add(r)
        size = self.mod_size(ty)
        if check:
            self.bounds(st, r, off, size, "read")
            if self.access:
                self.access(st, r, off, size)
        return self.read(st, r, st.mem.get(r), off, size, ty)

    def read(self, st, r, node, off, size, ty):
        steps = 0
        nsize = I(size)
        end = T.add(off, nsize)
        while node is not None:
            steps += 1
            if node.k == "H" and node.n is None:
                t = T.app("m%d.%s" % (size, node.a), (off,)) if ty[0] not in ("f64", "f32") else None
                if t is None:
                    return T.app("m%s.%s" % (ty[0], node.a), (off,), "F64" if ty[0] == "f64" else "F32")
                self.setrange(t, 0, 256 ** size - 1)
                return self.from_int(st, t, ty)
            nend = T.add(node.off, node.n)
            rel = self.relation(st, off, end, node.off, nend, size)
            if rel == "dis":
                node = node.prev
                continue
            d = T.sub(off, node.off)
            if rel == "part":
                # overlapping only partly: take it byte by byte
                if size == 1:
                    raise Unsupported("partial overlap of one byte")
                t = I0
                for i in range(size):
                    b = self.read(st, r, node, T.add(off, i), 1, I8)
                    t = T.add(t, T.mulc(b, 256 ** i))
                return self.from_int(st, t, ty)
            if node.k == "S":
                return self.subread(st, node.a, node.b, d, size, ty)
            if node.k == "C":
                src, snode, soff = node.a, node.b, node.c
                return self.read(st, src, snode, T.add(soff, d), size, ty)
            if node.k == "F":
                b = node.a
                t = I0
                for i in range(size):
                    t = T.add(t, T.mulc(b, 256 ** i))
                return self.from_int(st, t, ty)
            if node.k == "H":
                if ty[0] in ("f64", "f32"):
                    return T.app("m%s.%s" % (ty[0], node.a), (off,), "F64" if ty[0] == "f64" else "F32")
                t = T.app("m%d.%s" % (size, node.a), (off,))
                self.setrange(t, 0, 256 ** size - 1)
                return self.from_int(st, t, ty)
            if node.k == "G":
                # ghost content: callable(ex, st, rel offset, size, ty)
                v = node.a(self, st, d, size, ty)
                if v is not None:
                    return v
                node = node.prev
                continue
            raise Unsupported("node " + node.k)
        return r.base.read(self, st, r, off, size, ty)

    def relation(self, st, a0, a1, b0, b1, size):
        """[a0,a1) against [b0,b1): 'dis' | 'in' | 'part' (forks when undecided)"""
        if self.decide_dis(st, a1, b0) or self.decide_dis(st, b1, a0):
            return "dis"
        if self.decide(st, T.le(b0, a0)) and self.decide(st, T.le(a1, b1)):
            return "in"
        return "part"

    def decide_dis(self, st, x, y):
        return self.decide(st, T.le(x, y))

    def store(self, st, p, v, ty, check=True):
        r, off = self.region_of(st, p, "write")
        if v is UNDEF:
            v = self.fresh_of(ty, "undef")
        if check:
            self.bounds(st, r, off, self.mod_size(ty), "write")
            if r.kind == "const":
                self.fail(st, "write to constant %s" % r.name)
            if self.access:
                self.access(st, r, off, self.mod_size(ty))
        self.put(st, r, Node(st.mem.get(r), "S", off, I(self.mod_size(ty)), v, ty))

    def put(self, st, r, node):
        # drop an identical-range store directly below
        p = node.prev
        if node.k == "S" and p is not None and p.k == "S" and p.off is node.off and p.n is node.n:
            node = Node(p.prev, "S", node.off, node.n, node.a, node.b)
        elif node.k == "S" and node.prev is not None and T.is_const(node.off):
            # constant-offset cell: compact when every newer entry is a disjoint constant cell
            q = node.prev
            stack = []
            found = False
            o, n = T.cval(node.off), T.cval(node.n)
            while q is not None and q.k == "S" and T.is_const(q.off) and len(stack) < 40:
                if q.off is node.off and q.n is node.n:
                    found = True
                    break
                qo, qn = T.cval(q.off), T.cval(q.n)
                if not (qo + qn <= o or o + n <= qo):
                    break
                stack.append(q)
                q = q.prev
            if found:
                base = q.prev
                for s in reversed(stack):
                    base = Node(base, "S", s.off, s.n, s.a, s.b)
                node = Node(base, "S", node.off, node.n, node.a, node.b)
        st.mem[r] = node

    def copy_mem(self, st, dst, src, n, check=True, what="memcpy"):
        n = T.toint(n)
        if self.decide(st, T.eq(n, 0)):
            return
        dr, do = self.region_of(st, dst, "write")
        sr, so = self.region_of(st, src, "read")
        if check:
            self.bounds(st, sr, so, n, what + " read")
            self.bounds(st, dr, do, n, what + " write")
        if T.is_const(n) and T.cval(n) <= 16 and T.cval(n) in (1, 2, 4, 8):
            ty = ("i", 8 * T.cval(n))
            v = self.read(st, sr, st.mem.get(sr), so, T.cval(n), self.best_type(st, sr, so, T.cval(n), ty))
            bt = self.best_type(st, sr, so, T.cval(n), ty)
            self.put(st, dr, Node(st.mem.get(dr), "S", do, n, v, bt))
            return
        self.put(st, dr, Node(st.mem.get(dr), "C", do, n, sr, st.mem.get(sr), so))

    def best_type(self, st, r, off, n, ty):
        """keep pointers as pointers when copying a stored cell"""
        node = st.mem.get(r)
        while node is not None and node.k == "S":
            if node.off is off and T.is_const(node.n) and T.cval(node.n) == n:
                return node.b
            if T.is_const(node.off) and T.is_const(off):
                a, b = T.cval(node.off), T.cval(off)
                if a + T.cval(node.n) <= b or b + n <= a:
                    node = node.prev
                    continue
            break
        if node is None and isinstance(r.base, StructBase) and T.is_const(off):
            f = r.base.fields.get(T.cval(off))
            if f and self.mod_size(f[0]) == n:
                return f[0]
        if node is None and isinstance(r.base, ArrayBase):
            q, d = self.split_index(st, off, r.base.stride)
            if q is not None:
                f = r.base.elem(self, st, q).get(d)
                if f and self.mod_size(f[0]) == n:
                    return f[0]
        return ty

    def fill(self, st, dst, byte, n):
        n = T.toint(n)
        if self.decide(st, T.eq(n, 0)):
            return
        r, off = self.region_of(st, dst, "write")
        self.bounds(st, r, off, n, "memset write")
        self.put(st, r, Node(st.mem.get(r), "F", off, n, byte))

    def havoc(self, st, r, off=None, n=None, tag=None):
        tag = tag or "h.%s.%d" % (r.name, next_id())
        self.put(st, r, Node(st.mem.get(r), "H", off if off is not None else I0, n, tag))

    def alloc(self, st, size, kind="heap", name="new", base=None, info=None):
        r = self.new_region(name, kind, size, base, info)
        st.mem[r] = None
        if kind == "heap":
            st.heap.append(r)
        return r

    def free(self, st, p, kind="heap"):
        """ownership: the pointer must be null or the start of a live heap object"""
        p = self.resolve(p)
        if isnull(p):
            return
        if isinstance(p, IPtr):
            if self.decide(st, T.eq(p.t, 0)):
                return
            raise Unsupported("release of unknown pointer %r" % p)
        r = self.same_region(st, p.r)
        if r in st.dead:
            self.fail(st, "double release of %s" % r.name)
            return
        self.oblig(st, T.and_(T.eq(p.off, 0), T.B(r.kind in ("heap", "pheap"))), "release of the start of a heap object (%s)" % r.name)
        st.dead[r] = True

    # ------------------------------------------------------------ globals
    def global_ptr(self, mod, name):
        f = self.prog.lookup(name, mod)
        if f is not None or (name in mod.decls):
            return FuncPtr(name, mod)
        key = name if not (name in mod.globals and re.match(r"(internal|private)", mod.globals[name])) else (mod.path, name)
        r = self.gl.get(key)
        if r is None:
            g = self.prog.find_global(name, mod)
            if g is None:
                return FuncPtr(name, mod)
            m, const, ty, init = g
            try:
                size = m.size(ty)
            except Exception:
                size = None
            if init is not None and const:
                base = InitBase(m, ty, init)
            elif init is not None and name.startswith("_ZZ") is False and init == ("zero",) and False:
                base = ZeroBase()
            else:
                base = UFBase("g." + name)
            r = Region(name, "const" if const else "global", I(size) if size is not None else None, base)
            self.gl[key] = r
        return Ptr(r, 0)

    def read_init(self, mod, ty, init, off, size, want):
        ty = mod.resolve(ty)
        if init == ("zero",) or init == ("undef",):
            return self.zero_of(want)
        k = ty[0]
        if k in ("i", "ptr", "f64", "f32"):
            v = self.const(mod, ty, init)
            if off == 0 and self.mod_size(ty) == size:
                return self.retype(None, v, ty, want)
            t = self.to_int(v, ty)
            return self.from_int(None, T.mod(T.div(t, 256 ** off), 256 ** size), want)
        if init[0] == "cstr":
            bs = init[1][off:off + size]
            return self.from_int(None, I(int.from_bytes(bs, "little")), want)
        if k in ("arr", "vec"):
            es = mod.size(ty[2])
            i = off // es
            if (off % es) + size > es:
                t = 0
                for q in range(size):
                    b = self.read_init(mod, ty, init, off + q, 1, I8)
                    t += T.cval(b) * 256 ** q
                return self.from_int(None, I(t), want)
            return self.read_init(mod, ty[2], init[1][i][1], off - i * es, size, want)
        if k == "st":
            for i in range(len(ty[2])):
                fo, ft = mod.field(ty, i)
                if fo <= off and off + size <= fo + mod.size(ft):
                    return self.read_init(mod, ft, init[1][i][1], off - fo, size, want)
        raise Unsupported("initializer read")

    def const(self, mod, ty, v):
        """value of a constant operand"""
        k = v[0]
        if k == "int":
            if ty == I1:
                return T.B(v[1] & 1)
            return I(v[1] % 2 ** ty[1])
        if k == "null":
            return NULL
        if k == "glob":
            return self.global_ptr(mod, v[1])
        if k == "undef":
            return UNDEF
        if k == "zero":
            t = mod.resolve(ty)
            if t[0] == "st":
                return Agg([self.const(mod, e, ("zero",)) for e in t[2]])
            return self.zero_of(t)
        if k == "fp":
            if ty == ("f32",):
                import struct
                d = struct.unpack("<d", struct.pack("<Q", v[1]))[0]
                return T.mk("fpval", (struct.unpack("<I", struct.pack("<f", d))[0],), "F32")
            return T.mk("fpval", (v[1],), "F64")
        if k == "fpx":
            return T.var("f80." + v[1], "F80")
        if k == "cgep":
            base = self.const(mod, v[2][0], v[2][1])
            return self.gep(None, mod, v[1], base, [(t, self.const(mod, t, x)) for t, x in v[3]])
        if k == "agg":
            return Agg([self.const(mod, t, x) for t, x in v[1]])
        if k == "cast":
            x = self.const(mod, v[2][0], v[2][1])
            if v[1] == "ptrtoint":
                return self.ptr_int(x)
            if v[1] == "inttoptr":
                return self.resolve(IPtr(x))
            return x
        raise Unsupported("constant %r" % (v,))

    # ------------------------------------------------------------ arithmetic
    def signed(self, st, x, n):
        h = 2 ** (n - 1)
        if T.is_const(x):
            v = T.cval(x)
            return I(v - 2 * h if v >= h else v)
        lo, hi = self.iv(st, x)
        if hi is not None and hi < h:
            return x
        if lo is not None and lo >= h:
            return T.sub(x, 2 * h)
        if x.op == "mod" and T.is_const(x.args[1]) and T.cval(x.args[1]) == 2 * h:
            # representation of a possibly negative value
            inner = x.args[0]
            if self.proved(st, T.and_(T.le(-h, inner), T.lt(inner, h))):
                return inner
        if self.proved(st, T.lt(x, h)):
            return x
        if self.proved(st, T.le(h, x)):
            return T.sub(x, 2 * h)
        return T.ite(T.lt(x, h), x, T.sub(x, 2 * h))

    def unsigned(self, st, s, n):
        """canonical representation of a signed value in range"""
        M = 2 ** n
        lo, hi = self.iv(st, s)
        if lo is not None and lo >= 0:
            return s
        if hi is not None and hi < 0:
            return T.add(s, M)
        if s.op == "ite" and s.args[0] is T.lt(s.args[1], M // 2):
            return s.args[1]
        if self.proved(st, T.le(0, s)):
            return s
        return T.mod(s, M)

    def wrap(self, st, r, n, flags=()):
        M = 2 ** n
        if T.is_const(r):
            return I(T.cval(r) % M)
        lo, hi = self.iv(st, r)
        if lo is not None and lo >= 0 and hi is not None and hi < M:
            return r
        if flags is not None and self.opaque_bits and n <= 32 and opaque_term(r):
            t = T.app("wrap%d" % n, (r,))
            self.setrange(t, 0, M - 1)
            return t
        if lo is None or lo < 0:
            if not self.proved(st, T.le(0, r)):
                return T.mod(r, M)
        if hi is None or hi >= M:
            if not self.proved(st, T.lt(r, M)):
                return T.mod(r, M)
        return r

    def binop(self, st, op, n, a, b, flags, ins):
        M = 2 ** n
        if n == 1:
            if op == "and":
                return T.and_(a, b)
            if op == "or":
                return T.or_(a, b)
            if op in ("xor", "add", "sub"):
                return T.not_(T.eq(a, b))
            raise Unsupported("i1 " + op)
        if op == "add":
            if T.is_const(b) and T.cval(b) >= M // 2:
                return self.wrap(st, T.add(a, T.cval(b) - M), n)
            if T.is_const(a) and T.cval(a) >= M // 2:
                return self.wrap(st, T.add(b, T.cval(a) - M), n)
            if "nsw" in flags and "nuw" not in flags:
                # may be negative numbers in two's complement
                r = T.add(a, b)
                if self.proved(st, T.lt(r, M)):
                    return r
                sa, sb = self.signed(st, a, n), self.signed(st, b, n)
                return T.mod(T.add(sa, sb), M) if True else None
            return self.wrap(st, T.add(a, b), n)
        if op == "sub":
            return self.wrap(st, T.sub(a, b), n)
        if op == "mul":
            if T.is_const(b) and T.cval(b) >= M // 2:
                return self.wrap(st, T.mulc(a, T.cval(b) - M), n)
            return self.wrap(st, T.mul(a, b), n)
        if op in ("udiv", "urem"):
            return self.divmod(st, op, a, b)
        if op in ("sdiv", "srem"):
            sa, sb = self.signed(st, a, n), self.signed(st, b, n)
            la, _ = self.iv(st, sa)
            lb, _ = self.iv(st, sb)
            nna = (la is not None and la >= 0) or self.proved(st, T.le(0, sa))
            nnb = (lb is not None and lb >= 0) or self.proved(st, T.le(0, sb))
            if nna and nnb:
                return self.divmod(st, "udiv" if op == "sdiv" else "urem", sa, sb)
            self.oblig(st, T.ne(sb, 0), "divisor is not zero")
            if T.is_const(sb) and T.cval(sb) > 0:
                c = T.cval(sb)
                q = T.ite(T.le(0, sa), T.div(sa, c), T.sub(0, T.div(T.sub(0, sa), c)))
                r = q if op == "sdiv" else T.sub(sa, T.mulc(q, c))
                return T.mod(r, M)
            # C semantics: remainder has the dividend's sign, |r| < |b|
            t = T.app("s" + op[1:], (sa, sb))
            self.axioms.setdefault("sdiv", sdiv_axiom)
            self.axioms.setdefault("srem", srem_axiom)
            return T.mod(t, M)
        if op == "shl":
            if T.is_const(b):
                return self.wrap(st, T.mulc(a, 2 ** T.cval(b)), n)
            t = T.app("shl%d" % n, (a, b))
            self.setrange(t, 0, M - 1)
            return t
        if op == "lshr":
            if T.is_const(b):
                return T.div(a, 2 ** T.cval(b))
            t = T.app("lshr%d" % n, (a, b))
            self.setrange(t, 0, M - 1)
            return t
        if op == "ashr":
            if T.is_const(b):
                s = self.signed(st, a, n)
                return self.unsigned(st, T.div(s, 2 ** T.cval(b)), n)
            t = T.app("ashr%d" % n, (a, b))
            self.setrange(t, 0, M - 1)
            return t
        if op in ("and", "or", "xor"):
            if T.is_const(a) and not T.is_const(b):
                a, b = b, a
            if T.is_const(a) and T.is_const(b):
                x, y = T.cval(a), T.cval(b)
                return I(x & y if op == "and" else x | y if op == "or" else x ^ y)
            if T.is_const(b):
                c = T.cval(b)
                if op == "and":
                    if c == 0:
                        return I0
                    if c == M - 1:
                        return a
                    if (c & (c + 1)) == 0:
                        return T.mod(a, c + 1)
                    inv = M - 1 - c
                    if (inv & (inv + 1)) == 0:
                        return T.sub(a, T.mod(a, inv + 1))
                    if (c & (c - 1)) == 0:
                        return T.mulc(T.mod(T.div(a, c), 2), c)
                elif op == "or":
                    if c == 0:
                        return a
                elif op == "xor":
                    if c == 0:
                        return a
                    if c == M - 1:
                        return T.sub(M - 1, a)
            # booleans kept in bytes
            if not T.is_const(a) and a.op == "ite" and (T.is_const(b) or b.op == "ite"):
                ba, bb = as_bool(a), as_bool(b)
                if ba is not None and bb is not None:
                    f = {"and": T.and_, "or": T.or_, "xor": lambda p, q: T.not_(T.eq(p, q))}[op]
                    return T.ite(f(ba, bb), 1, 0)
            x, y = sorted((a, b), key=lambda t: t.id)
            t = T.app("bv%s%d" % (op, n), (x, y))
            hi = M - 1
            if op == "and" and T.is_const(b):
                hi = T.cval(b)
            self.setrange(t, 0, hi)
            return t
        raise Unsupported("binop " + op)

    def simp(self, st, t):
        """drop a mod whose argument is in range by now"""
        if isinstance(t, T.Term) and t.op == "mod" and T.is_const(t.args[1]):
            for i in (t.args[0], T.sub(t.args[0], t.args[1])):
                if self.proved(st, T.and_(T.le(0, i), T.lt(i, t.args[1]))):
                    return i
        return t

    def divmod(self, st, op, a, b):
        if T.is_const(b):
            if T.cval(b) == 0:
                self.fail(st, "divisor is not zero")
                raise Dead()
            return T.div(a, b) if op == "udiv" else T.mod(a, b)
        self.oblig(st, T.ne(b, 0), "divisor is not zero")
        self.axioms.setdefault("udiv", udiv_axiom)
        self.axioms.setdefault("urem", urem_axiom)
        t = T.app(op, (a, b))
        return t

    def icmp(self, st, pred, ty, a, b):
        if ty == PTRT:
            if pred in ("eq", "ne"):
                c = self.ptr_eq(st, a, b)
                return c if pred == "eq" else T.not_(c)
            a, b = self.resolve(a), self.resolve(b)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                x, y = a.off, b.off
            else:
                x, y = self.ptr_int(a), self.ptr_int(b)
            return cmpu(pred.replace("s", "u", 1) if pred[0] == "s" else pred, x, y)
        if ty == I1:
            if pred == "eq":
                return T.eq(a, b)
            if pred == "ne":
                return T.not_(T.eq(a, b))
            a, b = T.ite(a, 1, 0), T.ite(b, 1, 0)
            return cmpu(pred, a, b)
        if pred in ("eq", "ne"):
            n = ty[1]
            # comparisons of two's complement constants with modular terms
            c = T.eq(a, b)
            return c if pred == "eq" else T.not_(c)
        if pred[0] == "u":
            return cmpu(pred, a, b)
        n = ty[1]
        return cmpu("u" + pred[1:], self.signed(st, a, n), self.signed(st, b, n))

    def gep(self, st, mod, ty, base, idx):
        off = I0
        t = ty
        for k, (it, v) in enumerate(idx):
            if k == 0:
                s = mod.size(t)
                off = T.add(off, T.mulc(self.sidx(st, v, it), s))
                continue
            t = mod.resolve(t)
            if t[0] in ("arr", "vec"):
                off = T.add(off, T.mulc(self.sidx(st, v, it), mod.size(t[2])))
                t = t[2]
            else:
                fo, t = mod.field(t, T.cval(v))
                off = T.add(off, fo)
        if off is I0:
            return base
        base = self.resolve(base)
        if isinstance(base, Ptr):
            return Ptr(base.r, T.add(base.off, off))
        if isinstance(base, IPtr):
            return IPtr(T.add(base.t, off))
        raise Unsupported("gep on %r" % (base,))

    def sidx(self, st, v, it):
        n = it[1]
        if T.is_const(v):
            x = T.cval(v)
            return I(x - 2 ** n if x >= 2 ** (n - 1) else x)
        if st is None:
            raise Unsupported("symbolic constant gep")
        return self.signed(st, v, n)

    # ------------------------------------------------------------ running
    def run_function(self, fn, st, args, pre=None):
        """all outcomes of a call: list of states with .ret set (frames as before)"""
        depth = len(st.frames)
        self.push(st, fn, args, None)
        return self.drive([st], None, depth)

    def push(self, st, fn, args, call, onret=None):
        fn.parse()
        f = Frame.__new__(Frame)
        f.fn = fn
        f.blk = fn.entry
        f.i = 0
        f.prev = None
        f.env = {}
        f.call = call
        f.onret = onret
        self.fserial += 1
        f.serial = self.fserial
        if len(fn.params) != len(args) and not fn.vararg:
            raise Unsupported("arity of " + fn.name)
        for (ty, nm, bv), a in zip(fn.params, args):
            f.env[nm] = a
        if len(st.frames) > 60:
            raise Unsupported("call depth")
        st.frames.append(f)

    def drive(self, work, stop, base_depth):
        """run until the states leave: returns list of (kind, state) when stop is
        given ('back'/'exit'), else the states that returned from base frame"""
        out = []
        work = list(work)
        while work:
            st = work.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Unsupported("more than %d paths" % self.max_states)
            try:
                while True:
                    self.steps += 1
                    if self.steps > self.maxsteps:
                        raise Unsupported("more than %d steps" % self.maxsteps)
                    if len(st.frames) <= base_depth and stop is None:
                        out.append(st)
                        break
                    if stop is not None and len(st.frames) < stop.depth:
                        out.append(("exit", st))
                        break
                    f = st.frames[-1]
                    if stop is not None and f.serial == stop.serial and f.blk not in stop.loop.body:
                        out.append(("exit", st))
                        break
                    ins = f.fn.blocks[f.blk].ins[f.i]
                    saved = None
                    if ins.op in ("call", "invoke"):
                        saved = st.clone()
                    mark = len(self.obligs)
                    try:
                        r = self.step(st, f, ins, stop)
                    except (Fork, ForkVal) as e:
                        del self.obligs[mark:]
                        if stop is not None and stop.concrete and len(st.frames) == stop.depth and ins.op in ("br", "switch") and f.serial == stop.serial:
                            from .irparse import succs
                            if any(s not in stop.loop.body for s in succs(f.fn.blocks[f.blk])) and f.blk in stop.loop.body:
                                # leaving depends on unknown data
                                live = [s for s in succs(f.fn.blocks[f.blk])]
                                raise NeedInvariant((f.serial, stop.loop.header))
                        src = saved if saved is not None else st
                        conds = [e.cond, T.not_(e.cond)] if isinstance(e, Fork) else e.conds
                        # exhaustiveness of ForkVal conditions is the raiser's duty
                        for c in conds[1:]:
                            s2 = src.clone()
                            try:
                                self.assume(s2, c)
                                work.append(s2)
                            except Dead:
                                pass
                        st = src
                        self.assume(st, conds[0])
                        continue
                    if r is None:
                        continue
                    if r == "done":
                        break
                    if isinstance(r, tuple):      # ('back'|'exit')
                        out.append((r[0], st))
                        break
                    # list of successor states
                    work.extend(r)
                    break
            except Dead:
                continue
        return out

    def val(self, st, f, tv):
        ty, v = tv
        if v[0] == "loc":
            try:
                return f.env[v[1]]
            except KeyError:
                raise Unsupported("undefined value %s in %s" % (v[1], f.fn.name))
        return self.const(f.fn.module, ty, v)

    def ival(self, st, f, tv):
        v = self.val(st, f, tv)
        if v is UNDEF:
            v = self.fresh_of(tv[0], "undef")
        return v

    def goto(self, st, f, target, stop):
        """transfer to block; returns None | ('back'|'exit',) | list of states"""
        prev = f.blk
        if stop is not None and f.serial == stop.serial:
            if target == stop.loop.header:
                f.prev = prev
                f.blk = target
                f.i = 0
                return ("back",)
            if target not in stop.loop.body:
                self.enter_block(st, f, prev, target)
                return ("exit",)
        loops = find_loops(f.fn)
        if target in loops:
            L = loops[target]
            f.prev = prev
            f.blk = target
            f.i = 0
            return self.run_loop(st, f, L, stop)
        self.enter_block(st, f, prev, target)
        return None

    def enter_block(self, st, f, prev, target, phis=None):
        b = f.fn.blocks[target]
        new = {}
        i = 0
        for ins in b.ins:
            if ins.op != "phi":
                break
            i += 1
            if phis is not None and ins.res in phis:
                new[ins.res] = phis[ins.res]
                continue
            tv = ins.a["inc"].get(prev)
            if tv is None:
                raise Unsupported("phi edge")
            new[ins.res] = self.val(st, f, tv)
        f.env.update(new)
        f.prev = prev
        f.blk = target
        f.i = i

    def step(self, st, f, ins, stop):
        op = ins.op
        env = f.env
        if op == "load":
            ty = ins.ty
            mod = f.fn.module
            rt = mod.resolve(ty)
            p = self.val(st, f, ins.a["p"])
            if rt[0] in ("st", "arr"):
                env[ins.res] = self.load_agg(st, mod, p, rt)
            else:
                env[ins.res] = self.load(st, p, rt)
        elif op == "store":
            ty, _ = ins.a["v"]
            v = self.val(st, f, ins.a["v"])
            p = self.val(st, f, ins.a["p"])
            mod = f.fn.module
            rt = mod.resolve(ty)
            if rt[0] in ("st", "arr"):
                self.store_agg(st, mod, p, v, rt)
            else:
                self.store(st, p, v, rt)
        elif op == "getelementptr":
            base = self.val(st, f, ins.a["base"])
            idx = [(t, self.ival(st, f, (t, v))) for t, v in ins.a["idx"]]
            env[ins.res] = self.gep(st, f.fn.module, ins.a["t"], base, idx)
        elif op == "alloca":
            n = 1
            sz = I(f.fn.module.size(ins.a["t"]))
            if ins.a["n"] is not None:
                sz = T.mul(sz, self.ival(st, f, ins.a["n"]))
            r = self.new_region("%s.%s" % (short(self.dn(f.fn.name)), ins.res), "stack", sz)
            st.mem[r] = None
            env[ins.res] = Ptr(r, 0)
        elif op == "br":
            if ins.a["c"] is None:
                return self.goto(st, f, ins.a["t"], stop)
            c = self.ival(st, f, ins.a["c"])
            if stop is not None and not stop.concrete and f.serial == stop.serial:
                tin, fin = ins.a["t"] in stop.loop.body, ins.a["f"] in stop.loop.body
                if tin != fin:
                    stop.conds.append(c if tin else T.not_(c))
            d = self.decide(st, c)
            if not T.is_const_bool(c):
                st.trace.append("%s:%s=%s" % (short(self.dn(f.fn.name)), f.blk, "T" if d else "F"))
            return self.goto(st, f, ins.a["t"] if d else ins.a["f"], stop)
        elif op == "switch":
            v = self.ival(st, f, ins.a["v"])
            n = ins.a["v"][0][1]
            for c, l in ins.a["cases"]:
                if self.decide(st, T.eq(v, c[1] % 2 ** n if isinstance(c, tuple) else c % 2 ** n)):
                    st.trace.append("%s:%s=case %s" % (short(self.dn(f.fn.name)), f.blk, c))
                    return self.goto(st, f, l, stop)
            return self.goto(st, f, ins.a["default"], stop)
        elif op == "ret":
            v = None
            if ins.a["v"] is not None:
                v = self.val(st, f, ins.a["v"])
            return self.do_ret(st, f, v, stop)
        elif op in ("icmp",):
            ty = ins.a["a"][0]
            a, b = self.ival(st, f, ins.a["a"]), self.ival(st, f, ins.a["b"])
            env[ins.res] = self.icmp(st, ins.a["pred"], ty, a, b)
        elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a, b = self.ival(st, f, ins.a["a"]), self.ival(st, f, ins.a["b"])
            env[ins.res] = self.binop(st, op, ins.ty[1], a, b, ins.a.get("flags", ()), ins)
        elif op in ("zext", "trunc", "sext", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi", "fptrunc", "fpext"):
            env[ins.res] = self.cast(st, op, ins.a["v"][0], ins.ty, self.ival(st, f, ins.a["v"]))
        elif op == "select":
            c = self.ival(st, f, ins.a["c"])
            a, b = self.val(st, f, ins.a["a"]), self.val(st, f, ins.a["b"])
            if isinstance(a, T.Term) and isinstance(b, T.Term):
                q = self.quick(st, c)
                env[ins.res] = a if q is True else b if q is False else T.ite(c, a, b)
            else:
                env[ins.res] = a if self.decide(st, c) else b
        elif op == "fcmp":
            a, b = self.ival(st, f, ins.a["a"]), self.ival(st, f, ins.a["b"])
            env[ins.res] = fcmp(ins.a["pred"], a, b)
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = self.ival(st, f, ins.a["a"]), self.ival(st, f, ins.a["b"])
            env[ins.res] = T.app(op, (a, b), a.sort)
        elif op == "fneg":
            a = self.ival(st, f, ins.a["a"])
            env[ins.res] = T.app("fneg", (a,), a.sort)
        elif op == "extractvalue":
            v = self.val(st, f, ins.a["v"])
            if v is UNDEF:
                env[ins.res] = self.fresh_of(ins.ty, "undef") if ins.ty else UNDEF
            else:
                for i in ins.a["idx"]:
                    v = v.f[i]
                env[ins.res] = v
        elif op == "insertvalue":
            v = self.val(st, f, ins.a["v"])
            mod = f.fn.module
            ty = mod.resolve(ins.a["v"][0])
            if v is UNDEF:
                v = Agg([UNDEF] * (len(ty[2]) if ty[0] == "st" else ty[1]))
            else:
                v = Agg(v.f)
            idx = ins.a["idx"]
            if len(idx) != 1:
                raise Unsupported("nested insertvalue")
            v.f[idx[0]] = self.val(st, f, ins.a["e"])
            env[ins.res] = v
        elif op in ("call", "invoke"):
            return self.do_call(st, f, ins, stop)
        elif op == "unreachable":
            self.fail(st, "unreachable code reached")
            return "done"
        elif op == "landingpad" or op == "resume":
            return "done"
        elif op == "atomicrmw":
            p = self.val(st, f, ins.a["p"])
            ty, _ = ins.a["v"]
            v = self.ival(st, f, ins.a["v"])
            old = self.load(st, p, ty)
            k = ins.a["kind"]
            if k == "xchg":
                new = v
            else:
                new = self.binop(st, k, ty[1], old, v, (), ins)
            self.store(st, p, new, ty)
            env[ins.res] = old
        elif op == "freeze":
            env[ins.res] = self.ival(st, f, ins.a["v"])
        elif op == "fence":
            pass
        else:
            raise Unsupported("instruction " + op)
        f.i += 1
        return None

    def load_agg(self, st, mod, p, rt):
        n = len(rt[2]) if rt[0] == "st" else rt[1]
        out = []
        for i in range(n):
            fo, ft = mod.field(rt, i)
            q = self.gep(st, mod, I8, p, [(I64, I(fo))])
            ft = mod.resolve(ft)
            out.append(self.load_agg(st, mod, q, ft) if ft[0] in ("st", "arr") else self.load(st, q, ft))
        return Agg(out)

    def store_agg(self, st, mod, p, v, rt):
        if v is UNDEF:
            return
        n = len(rt[2]) if rt[0] == "st" else rt[1]
        for i in range(n):
            fo, ft = mod.field(rt, i)
            q = self.gep(st, mod, I8, p, [(I64, I(fo))])
            ft = mod.resolve(ft)
            if ft[0] in ("st", "arr"):
                self.store_agg(st, mod, q, v.f[i], ft)
            else:
                self.store(st, q, v.f[i], ft)

    def cast(self, st, op, fty, ty, v):
        if op == "zext":
            if fty == I1:
                return T.ite(v, 1, 0)
            return v
        if op == "trunc":
            n = ty[1]
            if n == 1:
                lo, hi = self.iv(st, v)
                if lo == 0 and hi == 1:
                    return T.eq(v, 1)
                b = as_bool(v)
                if b is not None:
                    return b
                return T.eq(T.mod(v, 2), 1)
            return self.wrap(st, v, n, None)
        if op == "sext":
            if fty == I1:
                return T.ite(v, 2 ** ty[1] - 1, 0)
            s = self.signed(st, v, fty[1])
            return self.unsigned(st, s, ty[1])
        if op == "ptrtoint":
            t = self.ptr_int(v)
            return t if ty[1] == 64 else self.wrap(st, t, ty[1], None)
        if op == "inttoptr":
            return self.resolve(IPtr(v))
        if op == "bitcast":
            return self.retype(st, v, fty, ty)
        if op in ("uitofp", "sitofp"):
            if fty == I1:
                v = T.ite(v, 1, 0)
            x = v if op == "uitofp" else self.signed(st, v, fty[1])
            s = "F64" if ty == F64T else "F32" if ty == ("f32",) else "F80"
            if T.is_const(x) and s == "F64":
                import struct
                return T.mk("fpval", (struct.unpack("<Q", struct.pack("<d", float(T.cval(x))))[0],), "F64")
            return T.app("int2" + s, (x,), s)
        if op in ("fptoui", "fptosi"):
            t = T.app(op + str(ty[1]), (v,))
            self.setrange(t, 0, 2 ** ty[1] - 1)
            return t
        if op in ("fptrunc", "fpext"):
            s = "F64" if ty == F64T else "F32" if ty == ("f32",) else "F80"
            return T.app(op, (v,), s)
        raise Unsupported("cast " + op)

    # ------------------------------------------------------------ calls
    def do_ret(self, st, f, v, stop):
        st.frames.pop()
        if f.onret is not None:
            v = f.onret(self, st, v)
        if f.call is None:
            st.ret = v
            return None
        g = st.frames[-1]
        return self.after_call(st, g, f.call, v, stop)

    def after_call(self, st, g, ins, v, stop):
        if ins.res is not None:
            if v is None:
                v = UNDEF
            g.env[ins.res] = v
        if ins.op == "invoke":
            return self.goto(st, g, ins.a["normal"], stop)
        g.i += 1
        return None

    def do_call(self, st, f, ins, stop):
        fv = ins.a["fn"]
        mod = f.fn.module
        if fv[0] == "asm":
            raise Unsupported("inline assembly")
        if fv[0] == "glob":
            name = fv[1]
        else:
            p = self.resolve(self.val(st, f, (PTRT, fv)))
            if isinstance(p, FuncPtr):
                name = p.name
                mod = p.mod
            else:
                h = self.indirect(st, p, ins)
                if h is None:
                    raise Unsupported("indirect call through %r in %s" % (p, self.where(st)))
                args = [self.val(st, f, a) for a in ins.a["args"]]
                return self.finish_handler(st, f, ins, h, args, stop, "indirect")
        if name.startswith("llvm."):
            return self.intrinsic(st, f, ins, name, stop)
        if mod is not None:
            name = self.prog.canonical(name, mod)
        d = self.dn(name)
        h = self.handler(name, d)
        args = [self.val(st, f, a) for a in ins.a["args"]]
        if h is not None:
            return self.finish_handler(st, f, ins, h, args, stop, d)
        fn = self.prog.lookup(name, mod)
        if fn is None:
            raise Unsupported("call of %s (no body, no contract)" % d)
        self.inlined.add(d)
        args = self.byval(st, fn, args)
        self.push(st, fn, args, ins)
        return None

    def byval(self, st, fn, args):
        fn.parse()
        return args

    def handler(self, name, d):
        h = self.contracts.get(name)
        if h is None:
            h = self.contracts.get(d)
        if h is None:
            h = self.contracts.get(strip_args(d))
        return h

    def finish_handler(self, st, f, ins, h, args, stop, name):
        fi = len(st.frames)
        self.callname = name
        self.callins = ins
        r = h(self, st, args)
        if isinstance(r, Inline):
            self.push(st, r.fn, r.args, ins, r.onret)
            return None
        if isinstance(r, list):
            outs = []
            for s, v in r:
                g = s.frames[-1]
                x = self.after_call(s, g, ins, v, stop)
                if x is None:
                    outs.append(s)
                elif isinstance(x, tuple):
                    raise Unsupported("several outcomes at a loop edge")
                else:
                    outs.extend(x)
            return outs
        return self.after_call(st, f, ins, r, stop)

    def indirect(self, st, p, ins):
        return None

    def intrinsic(self, st, f, ins, name, stop):
        a = [self.val(st, f, x) for x in ins.a["args"]] if not name.startswith("llvm.dbg") else []
        base = name.split(".")[1]
        v = None
        if base in ("memcpy", "memmove"):
            self.copy_mem(st, a[0], a[1], a[2], what=base)
        elif base == "memset":
            self.fill(st, a[0], a[1], a[2])
        elif base in ("lifetime", "dbg", "assume", "stacksave", "stackrestore", "experimental", "va_start", "va_end", "prefetch"):
            v = NULL if base == "stacksave" else None
        elif base in ("umin", "umax", "smin", "smax", "abs", "ctlz", "cttz", "bswap", "ctpop"):
            n = ins.ty[1]
            if base == "umin":
                v = T.ite(T.le(a[0], a[1]), a[0], a[1])
            elif base == "umax":
                v = T.ite(T.le(a[0], a[1]), a[1], a[0])
            else:
                v = T.app("i." + base + str(n), tuple(x for x in a if x.sort == "Int"))
                self.setrange(v, 0, 2 ** n - 1)
        elif name.startswith(("llvm.uadd.with.overflow", "llvm.umul.with.overflow", "llvm.usub.with.overflow")):
            n = ins.a["args"][0][0][1]
            k = name[5:9]
            r = {"uadd": T.add, "umul": T.mul, "usub": T.sub}[k](a[0], a[1])
            bad = T.or_(T.lt(r, 0), T.le(2 ** n, r))
            if self.decide(st, bad):
                v = Agg([T.mod(r, 2 ** n), TRUE])
            else:
                v = Agg([r, FALSE])
        elif base in ("fabs", "floor", "ceil", "sqrt", "pow", "log", "log2", "fmuladd", "exp", "round", "trunc"):
            v = T.app("fp_" + base, tuple(a), a[0].sort)
        elif name.startswith("llvm.eh.typeid"):
            v = self.fresh_of(I32, "typeid")
        elif base == "trap":
            self.fail(st, "trap reached")
            return "done"
        else:
            raise Unsupported("intrinsic " + name)
        return self.after_call(st, f, ins, v, stop)

    # ------------------------------------------------------------ loops
    def run_loop(self, st, f, L, stop):
        """st is about to enter header L.header from f.prev.  Returns successor states (list)
        positioned behind the loop, or a stop marker list through 'exit' handling."""
        saved = st.clone()
        mark = len(self.obligs)
        spec = self.loopspec(self, st, f, L) if self.loopspec else None
        outs = None
        entry = Running((f.serial, L.header), spec)
        self.running.append(entry)
        try:
            if not (spec and spec.force):
                try:
                    outs = self.loop_unroll(st, L)
                    self.loops_unrolled += 1
                except NeedInvariant as e:
                    if e.key != (f.serial, L.header):
                        raise
                    del self.obligs[mark:]
                    st = saved.clone()
            else:
                st = saved.clone()
            if outs is None:
                outs = self.loop_inv(saved, L, spec, mark)
                self.loops_inv += 1
        finally:
            del self.running[self.running.index(entry):]
        return outs

    def loop_unroll(self, st, L):
        f = st.frames[-1]
        depth = len(st.frames)
        self.concrete_enter(st, f, L, f.prev)
        work = [st]
        outs = []
        n = 0
        while work:
            n += 1
            if n > self.unroll:
                raise NeedInvariant((f.serial, L.header))
            stop = Stop(depth, L, f.serial, short_fn(self, f) not in self.unroll_ok)
            rs = self.drive(work, stop, 0)
            work = []
            for k, s in rs:
                if k == "back":
                    g = s.frames[-1]
                    self.concrete_enter(s, g, L, g.prev)
                    work.append(s)
                else:
                    outs.append(s)
            if len(work) > 64:
                raise NeedInvariant((f.serial, L.header))
        return outs

    def concrete_enter(self, st, f, L, prev):
        self.enter_block(st, f, prev, L.header)

    def loop_inv(self, st0, L, spec, mark):
        from .loops import LoopInv
        return LoopInv(self, st0, L, spec, mark).run()

    # ------------------------------------------------------------ top level
    def with_forks(self, states, fn):
        """run fn(st) on each state, case-splitting where it needs a decision"""
        out = []
        work = list(states)
        while work:
            st = work.pop()
            saved = st.clone()
            mark = len(self.obligs)
            try:
                r = fn(st)
                out.append((st, r))
            except (Fork, ForkVal) as e:
                del self.obligs[mark:]
                conds = [e.cond, T.not_(e.cond)] if isinstance(e, Fork) else e.conds
                for c in conds:
                    s2 = saved.clone()
                    try:
                        self.assume(s2, c)
                        work.append(s2)
                    except Dead:
                        pass
            except Dead:
                pass
        return out


class Inline:
    """handler result: run this function instead"""
    def __init__(self, fn, args, onret=None):
        self.fn = fn
        self.args = args
        self.onret = onret


# ------------------------------------------------------------------ helpers
def opaque_term(t):
    for a in T.atoms(t):
        if a.op.startswith(("app:bv", "app:wrap", "app:shl", "app:lshr", "app:m1.")) or (a.op == "var" and a.args[0].startswith("hv!")):
            return True
    return False


_nid = [0]


def next_id():
    _nid[0] += 1
    return _nid[0]


def atoms_new(t, noted):
    out = []
    stack = [t]
    while stack:
        x = stack.pop()
        if x in noted:
            continue
        noted.add(x)
        if x.op == "var" or x.op.startswith("app:") or x.op in ("mul",):
            out.append(x)
        stack.extend(T.children(x))
    return out


def cmpu(pred, a, b):
    if pred == "eq":
        return T.eq(a, b)
    if pred == "ne":
        return T.ne(a, b)
    return {"ult": lambda: T.lt(a, b), "ule": lambda: T.le(a, b), "ugt": lambda: T.lt(b, a), "uge": lambda: T.le(b, a)}[pred]()


def fcmp(p, a, b):
    if p in ("true", "false"):
        return T.B(p == "true")
    if a.sort not in ("F64", "F32"):
        return T.fresh("f80cmp", "Bool")
    un = T.or_(T.fp_isnan(a), T.fp_isnan(b))
    base = {"eq": lambda: T.fp_eq(a, b), "lt": lambda: T.fp_lt(a, b), "le": lambda: T.fp_le(a, b),
            "gt": lambda: T.fp_lt(b, a), "ge": lambda: T.fp_le(b, a)}
    if p == "ord":
        return T.not_(un)
    if p == "uno":
        return un
    if p[1:] == "ne":
        r = T.not_(T.fp_eq(a, b))
        return T.and_(T.not_(un), r) if p[0] == "o" else r
    r = base[p[1:]]()
    return r if p[0] == "o" else T.or_(un, r)


def as_bool(x):
    if T.is_const(x):
        return T.B(T.cval(x) != 0) if T.cval(x) in (0, 1) else None
    if x.op == "ite" and T.is_const(x.args[1]) and T.is_const(x.args[2]):
        a, b = T.cval(x.args[1]), T.cval(x.args[2])
        if (a, b) == (1, 0):
            return x.args[0]
        if (a, b) == (0, 1):
            return T.not_(x.args[0])
    return None


def short(d):
    return strip_args(d).split("::")[-1][:40]


def short_fn(ex, f):
    return strip_args(ex.dn(f.fn.name))


def strip_args(d):
    """demangled name without argument list and template return type"""
    depth = 0
    i = 0
    n = len(d)
    # find the first '(' at template depth 0 that starts the argument list
    while i < n:
        c = d[i]
        if c == "<":
            if d[i - 8:i] == "operator" or d[i - 9:i] == "operator<":
                i += 1
                continue
            depth += 1
        elif c == ">":
            if not (d[i - 1] == "-" or d[i - 8:i] == "operator"):
                depth -= 1
        elif c == "(" and depth <= 0:
            if d[i:i + 21] == "(anonymous namespace)":
                i += 21
                continue
            if d[i - 8:i] == "operator":
                i += 2
                continue
            return d[:i]
        i += 1
    return d


def norm_std(d):
    return d.replace("std::__cxx11::", "std::").replace("std::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::string")


def model_text(m, limit=40):
    xs = []
    try:
        for d in m.decls()[:limit]:
            xs.append("%s=%s" % (d.name(), str(m[d]).replace("\n", " ")[:120]))
    except Exception:
        pass
    return "; ".join(xs)


def udiv_axiom(t):
    a, b = t.args
    r = T.app("urem", (a, b))
    return [T.implies(T.lt(0, b), T.and_(T.eq(a, T.add(T.mul(b, t), r)), T.le(0, r), T.lt(r, b), T.le(0, t)))]


def urem_axiom(t):
    a, b = t.args
    q = T.app("udiv", (a, b))
    return [T.implies(T.lt(0, b), T.and_(T.eq(a, T.add(T.mul(b, q), t)), T.le(0, t), T.lt(t, b), T.le(0, q)))]


def sdiv_axiom(t):
    a, b = t.args
    return []


def srem_axiom(t):
    a, b = t.args
    return [T.implies(T.and_(T.lt(0, b), T.le(0, a)), T.and_(T.le(0, t), T.lt(t, b))),
            T.implies(T.and_(T.lt(0, b), T.lt(a, 0)), T.and_(T.le(t, 0), T.lt(T.sub(0, b), t)))]
