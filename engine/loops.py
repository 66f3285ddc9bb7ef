"""Loops by invariant.  A ghost counter `it` numbers the iterations.  For every
location the body changes, an invariant of the form  v == v0 + c*it  /  v ==
T(it) (templates from the contract)  /  v0 <= v <= v0 + c*it  is guessed from
the first iteration and kept only if it is established on entry and preserved
by an arbitrary iteration (Houdini); memory invariants come from the contract.
Everything not covered by an invariant is havocked."""
from . import terms as T
from .terms import I
from .vals import *
from .exec import Unsupported, Dead, Fork, Stop, I0


class LoopSpec:
    force = False
    templates = ()

    def region_inv(self, ex, st, r):
        return None

    def pointer(self, ex, st, key, v0):
        """PtrInv for a pointer the loop changes, or None"""
        return None

    # ghost records that head() resets, so that carrying them over is sound
    logs = ("events", "done")

    def string(self, ex, st, key, v0):
        """StrInv for a std::string the loop changes, or None"""
        return None

    def facts(self, ex, st, it):
        """invariants over ghost state: proved on entry and on back edges"""
        return []

    def candidates(self, ex, st):
        """(name, fn(it) -> Term): invariants to try; dropped when not inductive"""
        return []

    def head(self, ex, st, it):
        """prepare the state at the head of an arbitrary iteration (ghost state)"""

    def seen(self, ex, st, it):
        """the end of an iteration, before any invariant is fixed: for guesses only"""

    def back(self, ex, st, it):
        """judge the state at the end of iteration `it`"""


class PtrInv:
    """what a pointer refers to at the head of iteration `it`"""

    def produce(self, ex, st, it):
        raise NotImplementedError

    def check(self, ex, st, v, it):
        raise NotImplementedError


class StrInv:
    """content of a std::string at the head of iteration `it`: produce -> SV"""

    def produce(self, ex, st, it):
        raise NotImplementedError

    def check(self, ex, st, v, it):
        raise NotImplementedError


class Chain(PtrInv):
    """the pointer runs through node(0), node(1), ..., node(n-1), null"""

    def __init__(self, node, n, what="the chain is followed node by node"):
        self.node, self.n, self.what = node, n, what

    def produce(self, ex, st, it):
        return self.node(ex, st, it) if ex.decide(st, T.lt(it, self.n)) else NULL

    def check(self, ex, st, v, it):
        ex.oblig(st, ex.ptr_eq(st, v, self.produce(ex, st, it)), self.what)


class RegionInv:
    """contents of one object at the head of iteration `it`"""

    def produce(self, ex, st, r, it, entry):
        raise NotImplementedError

    def check(self, ex, st, r, it, entry, head_nodes):
        raise NotImplementedError


def new_nodes(node, head_nodes):
    out = []
    while node is not None and id(node) not in head_nodes:
        out.append(node)
        node = node.prev
    return out, node


class LoopInv:
    def __init__(self, ex, st0, L, spec, mark):
        self.ex = ex
        self.st0 = st0
        self.L = L
        self.spec = spec or LoopSpec()
        self.mark = mark
        self.it = ex.fresh("it", 0, 2 ** 64)

    def run(self):
        ex, st0 = self.ex, self.st0
        f0 = st0.frames[-1]
        self.depth = len(st0.frames)
        hb = f0.fn.blocks[self.L.header]
        self.phis = [i for i in hb.ins if i.op == "phi"]
        self.v0 = {}
        for i in self.phis:
            v = ex.val(st0, f0, i.a["inc"][f0.prev])
            if v is UNDEF:
                v = ex.fresh_of(i.ty, "undef")
            self.v0[("phi", i.res)] = v
        self.ty = {("phi", i.res): i.ty for i in self.phis}
        self.cand = {k: ("same",) for k in self.v0}
        self.learned = set()
        self.regions = {}            # region -> RegionInv or None (havoc)
        self.invs = {}               # key -> fn(it) -> Term
        self.badinvs = set()
        self.ghost0 = dict(st0.ghost)
        self.gcand = {}
        self.strs = {}               # string -> StrInv
        self.bufs = set()
        templates = list(self.spec.templates) + list(ex.templates)
        self.templates = templates
        for k, fn in self.spec.candidates(ex, st0):
            if ex.proved(st0, fn(I0)):
                self.invs[("spec", k)] = fn
        for p in range(60):
            # what the spec handles from the start
            del ex.obligs[self.mark:]
            r = self.one_pass(p)
            if r is not None:
                return r
        raise Unsupported("no loop invariant found in " + ex.where(st0))

    # ---------------------------------------------------------------- values
    def cand_value(self, key, it):
        ex = self.ex
        c = self.cand[key]
        v0 = self.v0[key]
        if c[0] == "same":
            return v0
        if c[0] == "lin":
            d = T.mulc(it, c[1])
            if isinstance(v0, Ptr):
                return Ptr(v0.r, T.add(v0.off, d))
            if isinstance(v0, IPtr):
                return IPtr(T.add(v0.t, d))
            return T.add(v0, d)
        if c[0] == "tmpl":
            t = self.templates[c[1]](it)
            if isinstance(v0, Ptr):
                return Ptr(v0.r, t)
            return t
        if c[0] == "free":
            return None
        raise Exception(c)

    def head_value(self, key, it):
        v = self.cand_value(key, it)
        if v is not None:
            return v
        ex = self.ex
        v0 = self.v0[key]
        if isinstance(v0, Ptr) and self.cand[key][1:] != ("lost",):
            return Ptr(v0.r, ex.fresh("off", 0, 2 ** 63))
        ty = self.ty[key]
        v = ex.fresh_of(ty, "hv")
        return v

    def init_cell(self, r, off, ty):
        """value of a cell on entry"""
        ex = self.ex
        st = self.st0.clone()
        try:
            v = ex.read(st, r, st.mem.get(r), I(off), ex.mod_size(ty), ty)
        except Fork:
            return ex.fresh_of(ty, "cell0")
        if v is UNDEF:
            v = ex.fresh_of(ty, "cell0")
        return v

    # ---------------------------------------------------------------- a pass
    def one_pass(self, p):
        ex = self.ex
        it = self.it if p > 0 else I0
        ex.running[-1].it = it
        head = self.st0.clone()
        if p > 0:
            ex.assume(head, T.le(0, it))
        hv = {}
        phis = {}
        ptrs = []
        for key in self.cand:
            if self.cand[key][0] == "ptr":
                ptrs.append(key)
                continue
            v = self.head_value(key, it)
            hv[key] = v
            if key[0] == "phi":
                phis[key[1]] = v
            elif key[0] == "cell":
                _, r, off, ty = key
                ex.put(head, r, Node(head.mem.get(r), "S", I(off), I(ex.mod_size(ty)), v, ty))
        for g, c in self.gcand.items():
            head.ghost[g] = T.add(self.ghost0[g], T.mulc(it, c[1])) if c[0] == "lin" else ex.fresh("g." + g, 0, None)
        for key, v in hv.items():
            c = self.cand[key]
            if c[0] == "free" and len(c) > 1 and c[1] != "lost":
                for b in c[1]:
                    ex.assume(head, self.bound_fact(key, b, v, it))
            if isinstance(v, T.Term) and v.sort == "Int":
                ex.know(head, v)
                if c[0] in ("lin", "tmpl") and self.ty[key][0] == "i":
                    # by hypothesis this term is the value of an iN variable
                    ex.assume(head, T.and_(T.le(0, v), T.lt(v, 2 ** self.ty[key][1])))
        for k, fn in self.invs.items():
            ex.assume(head, fn(it))
        if p > 0:
            for t in self.templates:
                ex.know(head, t(it))
        for g in self.spec.facts(ex, head, it):
            ex.assume(head, g)
        regs = dict(self.regions)

        def produce(st):
            for r, inv in regs.items():
                if inv is None:
                    ex.havoc(st, r, tag="lp.%s.%d" % (r.name, self.it.id))
                else:
                    inv.produce(ex, st, r, it, self.st0.mem.get(r))
            for g, inv in self.strs.items():
                n0 = Region._n
                v = st.ghost[g] = inv.produce(ex, st, it)
                if v.buf.n > n0:
                    self.bufs.add(v.buf)      # the characters stand for those of this iteration
            self.spec.head(ex, st, it)
            extra = {}
            for key in ptrs:
                v = self.cand[key][1].produce(ex, st, it)
                if key[0] == "phi":
                    extra[key[1]] = v
                else:
                    _, r, off, ty = key
                    ex.put(st, r, Node(st.mem.get(r), "S", I(off), I(ex.mod_size(ty)), v, ty))
            return extra
        heads = ex.with_forks([head], produce)
        maxn = Region._n
        out_exits = []
        backs = []
        conds = []
        for h, extra in heads:
            h.trace.append("loop %s %s" % (self.L.header, "entry" if p == 0 else "it"))
            hn = {}
            for r, node in h.mem.items():
                ids = set()
                q = node
                while q is not None:
                    ids.add(id(q))
                    q = q.prev
                hn[r] = ids
            hkeep = h.clone()
            f = h.frames[-1]
            ex.enter_block(h, f, f.prev, self.L.header, dict(phis, **extra))
            stop = Stop(self.depth, self.L, f.serial, False)
            rs = ex.drive([h], stop, 0)
            conds.extend(stop.conds)
            for k, s in rs:
                if k == "exit":
                    out_exits.append(s)
                else:
                    backs.append((s, hkeep, hn))
        changed = False
        itn = T.add(it, 1)
        # 1. discover modified locations
        self.str_changed = False
        for s, h, hn in backs:
            self.spec.seen(ex, s, it)
            for r in list(s.dead):
                if r not in h.dead and r.n <= maxn and not self.local_ok(r, maxn):
                    if self.spec and getattr(self.spec, "frees", None) and self.spec.frees(ex, s, r):
                        continue
                    raise Unsupported("loop releases %s, which exists outside it" % r.name)
            for r, node in s.mem.items():
                if node is h.mem.get(r):
                    continue
                if (r.n > maxn or r in self.bufs) and r.fam is None and r.kind not in ("global", "const"):
                    continue
                if r in self.regions:
                    continue
                inv = self.spec.region_inv(ex, s, r) or ex.region_inv.get(r)
                if inv is None and r.fam is not None:
                    inv = ex.region_inv.get(r.fam)
                if inv is not None:
                    self.regions[r] = inv
                    changed = True
                    continue
                if r.fam is not None:
                    raise Unsupported("loop writes to family member %r" % r)
                nn, _ = new_nodes(node, hn.get(r, ()))
                cells = []
                whole = False
                for q in nn:
                    if q.k == "S" and T.is_const(q.off):
                        cells.append(("cell", r, T.cval(q.off), q.b))
                    else:
                        whole = True
                if whole:
                    self.regions[r] = None
                    for key in [k for k in self.cand if k[0] == "cell" and k[1] is r]:
                        del self.cand[key]
                    changed = True
                else:
                    for key in cells:
                        if key not in self.cand:
                            # overlapping cells of another width: give up on precision
                            o, n = key[2], ex.mod_size(key[3])
                            clash = [k for k in self.cand if k[0] == "cell" and k[1] is r and not (k[2] + ex.mod_size(k[3]) <= o or o + n <= k[2])]
                            if clash:
                                if all(k[2] == o and ex.mod_size(k[3]) == n for k in clash):
                                    continue
                                self.regions[r] = None
                                for k in [k for k in self.cand if k[0] == "cell" and k[1] is r]:
                                    del self.cand[k]
                                changed = True
                                break
                            self.v0[key] = self.init_cell(r, key[2], key[3])
                            self.ty[key] = key[3]
                            self.cand[key] = ("same",)
                            changed = True
            self.other_ghosts(s, h, maxn)
            for g in s.ghost:
                if isinstance(s.ghost[g], T.Term) and s.ghost[g] is not h.ghost.get(g) and g not in self.gcand:
                    if g in self.ghost0:
                        d = T.sub(s.ghost[g], h.ghost[g])
                        self.gcand[g] = ("lin", T.cval(d)) if T.is_const(d) else ("free",)
                        changed = True
        changed = changed or self.str_changed
        if p > 0 and self.new_invs(conds):
            return None
        # 2. check the candidates
        for key in list(self.cand):
            c = self.cand[key]
            if c[0] == "ptr":
                continue
            ok = True
            obs = []
            for s, h, hn in backs:
                def chk(st, key=key, obs=obs):
                    v = self.back_value(st, key)
                    return self.holds(st, key, v, it, itn)
                for s2, r in ex.with_forks([s.clone()], chk):
                    if not r:
                        ok = False
            if not ok:
                inv = self.spec.pointer(ex, self.st0, key, self.v0[key]) if isinstance(self.v0[key], (Ptr, IPtr)) else None
                if inv is not None:
                    self.cand[key] = ("ptr", inv)
                else:
                    self.weaken(key, backs, p, it, itn)
                changed = True
        for g, c in list(self.gcand.items()):
            if c[0] == "lin":
                for s, h, hn in backs:
                    if not ex.proved(s, T.eq(s.ghost[g], T.add(self.ghost0[g], T.mulc(itn, c[1])))):
                        self.gcand[g] = ("free",)
                        changed = True
                        break
        if p > 0 and not changed:
            for k, fn in list(self.invs.items()):
                for s, h, hn in backs:
                    if not ex.proved(s, fn(itn)):
                        del self.invs[k]
                        self.badinvs.add(k)
                        changed = True
                        break
        if changed or p == 0:
            return None
        # 3. stable: obligations for the spec's invariants
        n0 = len(ex.obligs)
        for g in self.spec.facts(ex, self.st0, I0):
            ex.oblig(self.st0.clone(), g, "loop invariant on entry")
        for r, inv in regs.items():
            if inv is not None:
                def est(st, r=r, inv=inv):
                    inv.check(ex, st, r, I0, self.st0.mem.get(r), None)
                ex.with_forks([self.st0.clone()], est)
        for g, inv in self.strs.items():
            ex.with_forks([self.st0.clone()], lambda st, g=g, inv=inv: inv.check(ex, st, self.ghost0[g], I0))
        for key, c in self.cand.items():
            if c[0] == "ptr":
                ex.with_forks([self.st0.clone()], lambda st, key=key, inv=c[1]: inv.check(ex, st, self.v0[key], I0))
        for s, h, hn in backs:
            ex.with_forks([s.clone()], lambda st: self.spec.back(ex, st, it))
            for key, c in self.cand.items():
                if c[0] == "ptr":
                    ex.with_forks([s.clone()], lambda st, key=key, inv=c[1]: inv.check(ex, st, self.back_value(st, key), itn))
            for g, inv in self.strs.items():
                ex.with_forks([s.clone()], lambda st, g=g, inv=inv: inv.check(ex, st, st.ghost[g], itn))
            for g in self.spec.facts(ex, s, itn):
                ex.oblig(s, g, "loop invariant preserved")
            for r, inv in regs.items():
                if inv is not None:
                    def pre(st, r=r, inv=inv, hn=hn):
                        inv.check(ex, st, r, itn, self.st0.mem.get(r), hn.get(r, ()))
                    ex.with_forks([s.clone()], pre)
        return out_exits

    def other_ghosts(self, s, h, maxn):
        """ghost state that is not a Term is carried over: it must not change,
        unless it belongs to the iteration or has an invariant"""
        for g in set(s.ghost) | set(h.ghost):
            a, b = s.ghost.get(g), h.ghost.get(g)
            if a is b or isinstance(a, T.Term) or isinstance(b, T.Term) or g in self.spec.logs or g in self.strs:
                continue
            if type(a) is type(b) and type(a) in (tuple, int, str, bool) and a == b:
                continue
            r = next((x for x in g if isinstance(x, Region)), None) if isinstance(g, tuple) else None
            if r is not None and (r.n > maxn or g not in h.ghost and r in s.dead):
                continue
            if isinstance(g, tuple) and g[0] == "str" and g not in h.ghost:
                continue                  # a string that came to life in this iteration: unknown outside it
            if isinstance(g, tuple) and g[0] == "str" and a is not None and b is not None:
                if b.n is a.n and b.buf is a.buf:
                    continue
                inv = self.spec.string(self.ex, self.st0, g, self.ghost0.get(g))
                if inv is not None and g in self.ghost0:
                    self.strs[g] = inv
                    self.str_changed = True
                    continue
            raise Unsupported("the loop changes ghost state without an invariant: %s" % (g if isinstance(g, str) else g[0],))

    def local_ok(self, r, maxn):
        return r.n > maxn or r in self.bufs

    def back_value(self, st, key):
        ex = self.ex
        if key[0] == "phi":
            f = st.frames[-1]
            ins = [i for i in self.phis if i.res == key[1]][0]
            v = ex.val(st, f, ins.a["inc"][f.prev])
            if v is UNDEF:
                v = ex.fresh_of(ins.ty, "undef")
            return v
        _, r, off, ty = key
        return ex.read(st, r, st.mem.get(r), I(off), ex.mod_size(ty), ty)

    def equal(self, st, a, b):
        ex = self.ex
        if isinstance(a, T.Term) and isinstance(b, T.Term):
            if a.sort != b.sort:
                return False
            return ex.proved(st, T.eq(a, b))
        if a is UNDEF or b is UNDEF:
            return False
        if isinstance(a, T.Term) or isinstance(b, T.Term):
            return False
        if isinstance(a, Agg) or isinstance(b, Agg):
            return False
        return ex.proved(st, ex.ptr_eq(st, a, b))

    def bound_fact(self, key, b, v, it):
        v0 = self.v0[key]
        if isinstance(v0, Ptr):
            v0, v = v0.off, v.off
        if b == "ge0":
            return T.le(v0, v)
        if b[0] == "le":
            return T.le(v, T.add(v0, T.mulc(it, b[1])))
        if b[0] == "letop":
            return T.le(v, b[1])
        raise Exception(b)

    def holds(self, st, key, v, it, itn):
        c = self.cand[key]
        if c[0] == "free":
            if len(c) > 1 and c[1] == "lost":
                return True
            v0 = self.v0[key]
            if isinstance(v0, Ptr):
                v = self.ex.resolve(v)
                if not isinstance(v, Ptr) or v.r is not v0.r:
                    return False
            for b in (c[1] if len(c) > 1 else ()):
                if not self.ex.proved(st, self.bound_fact(key, b, v, itn)):
                    return False
            return True
        want = self.cand_value(key, itn)
        return self.equal(st, v, want)

    def weaken(self, key, backs, p, it, itn):
        """the candidate for key failed"""
        ex = self.ex
        c = self.cand[key]
        v0 = self.v0[key]
        tried = key in self.learned
        if c[0] == "same" and not tried:
            self.learned.add(key)
            deltas = []
            for s, h, hn in backs:
                try:
                    v = self.back_value(s, key)
                except Fork:
                    deltas.append(None)
                    continue
                hvv = self.head_back(key, it)
                if isinstance(v, Ptr) and isinstance(hvv, Ptr) and v.r is hvv.r:
                    deltas.append(T.sub(v.off, hvv.off))
                elif isinstance(v, T.Term) and isinstance(hvv, T.Term) and v.sort == "Int" == hvv.sort:
                    d = T.sub(ex.simp(s, v), hvv)
                    n = self.ty[key][1] if self.ty[key][0] == "i" else 64
                    if T.is_const(d) and T.cval(d) > 2 ** (n - 1):
                        d = I(T.cval(d) - 2 ** n)
                    deltas.append(d)
                else:
                    deltas.append(None)
            if deltas and all(d is not None and T.is_const(d) for d in deltas):
                cs = set(T.cval(d) for d in deltas)
                if len(cs) == 1:
                    # a constant step on the first iteration may also be a template value
                    self.cand[key] = ("lin", cs.pop())
                    return
                if isinstance(v0, (T.Term, Ptr)) and min(cs) >= 0:
                    self.cand[key] = ("free", ("ge0", ("le", max(cs))))
                    return
            self.try_templates(key, -1)
            return
        if c[0] in ("same", "lin"):
            self.try_templates(key, -1)
            return
        if c[0] == "tmpl":
            self.try_templates(key, c[1])
            return
        if c[0] == "free":
            bs = c[1] if len(c) > 1 else ()
            if bs:
                self.cand[key] = ("free", bs[:-1])
            else:
                self.cand[key] = ("free", "lost")

    def head_back(self, key, it):
        v = self.cand_value(key, it)
        return v

    def try_templates(self, key, after):
        ex = self.ex
        v0 = self.v0[key]
        x = v0.off if isinstance(v0, Ptr) else v0 if isinstance(v0, T.Term) and v0.sort == "Int" else None
        if x is not None:
            for k in range(after + 1, len(self.templates)):
                t0 = self.templates[k](I0)
                if t0.sort == "Int" and ex.proved(self.st0, T.eq(x, t0)):
                    self.cand[key] = ("tmpl", k)
                    return
        if isinstance(v0, Ptr) or (isinstance(v0, T.Term) and v0.sort == "Int"):
            self.cand[key] = ("free", ("ge0",))
        else:
            self.cand[key] = ("free", ()) if isinstance(v0, T.Term) else ("free", "lost")

    def new_invs(self, conds):
        """bounds on `it` suggested by the conditions under which the loop goes on"""
        ex = self.ex
        it = self.it
        known = self.st0.seen
        added = False
        for c in conds:
            if it not in T.atoms(c):
                continue
            if any(a.op == "var" and a is not it and a not in known and "!" in a.args[0] for a in T.atoms(c)):
                continue
            key = ("prev", c.id)
            if key not in self.invs and key not in self.badinvs:
                self.invs[key] = lambda i, c=c: T.or_(T.eq(i, 0), T.subst(c, {it: T.sub(i, 1)}))
                added = True
            if c.op == "not" and c.args[0].op == "eq0":
                d = c.args[0].args[0]
                for sgn in (1, -1):
                    key = ("ne", c.id, sgn)
                    if key in self.invs or key in self.badinvs:
                        continue
                    fn = lambda i, d=d, sgn=sgn: T.le(T.mulc(T.subst(d, {it: i}), sgn), 0)
                    if ex.proved(self.st0, fn(I0)):
                        self.invs[key] = fn
                        added = True
                    else:
                        self.badinvs.add(key)
        return added
