"""C08: histograms count every value exactly once in the right bucket (src/utils/Histogram.cpp)."""
from engine.session import *
from engine.harness import Harness
from checks.hists import *

SOURCES = ["src/utils/Histogram.cpp", "src/utils/memory.cpp", "specs/hist.cpp"]
HARNESSES = [Harness("c08.cpp", ["src/utils/Histogram.cpp", "src/utils/memory.cpp", "src/utils/mlog2.c"], ["-lm"], san=["-fsanitize=address"], budget=6)]


class Edges:
    """edges of Z buckets: a function of the index.  Sorted (the generator's contract)"""

    def __init__(self, h, tag, Z):
        self.h, self.tag, self.Z = h, tag, Z

    def at(self, i):
        return self.h.fapp(self.tag, i)

    def inside(self, v, k):
        """v belongs into bucket k: the greatest left edge not exceeding it is edge k"""
        return T.and_(T.fp_le(self.at(k), v), T.or_(T.eq(T.add(k, 1), self.Z), T.fp_lt(v, self.at(T.add(k, 1)))))

    def counted(self, v):
        return T.fp_le(self.at(I0), v)


def number(ex, name):
    t = T.var(name, "F64")
    ex.facts_of.setdefault(t, [T.not_(T.fp_isnan(t))])
    return t


def upper_bound(u, edges):
    """std::upper_bound over edges: how far values do not exceed v"""
    ex = u.ex

    def h(ex, st, a):
        ex.trusted.setdefault("std::upper_bound", "contract: the position of the first element greater than the value, in a sorted range; reads only the range")
        b, e = ex.resolve(a[0]), ex.resolve(a[1])
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.r is e.r):
            raise Unsupported("upper_bound over %r" % (b,))
        nb = T.sub(e.off, b.off)
        n = edges.Z
        i = len(st.ghost.get("ub", ()))       # the names stay the same when a case split runs this again
        if not ex.proved(st, T.eq(nb, T.mulc(n, 8))):
            n = ex.var("ub.n!%d" % i, 0, 2 ** 60)
            ex.assume(st, T.eq(nb, T.mulc(n, 8)))
        ex.bounds(st, b.r, b.off, nb, "upper_bound reads the edges")
        v = ex.load(st, a[2], F64)
        q = ex.var("ub!%d" % i, 0, 2 ** 60)
        ex.assume(st, T.le(q, n))
        for i in (I0, T.sub(q, 1), q):
            partition(ex, st, b, n, v, q, i)
        st.ghost["ub"] = st.ghost.get("ub", ()) + ((b, n, v, q),)
        return Ptr(b.r, T.add(b.off, T.mulc(q, 8)))
    for n, d in ex.demangled.items() or []:
        if d.startswith(("double* std::upper_bound<double*, double>(double*, double*, double const&)", "double const* std::upper_bound<double const*, double>(double const*, double const*, double const&)")):
            ex.contracts[n] = h


def partition(ex, st, b, n, v, q, i):
    """what upper_bound says about element i"""
    c = ex.decide(st, T.and_(T.le(0, i), T.lt(i, n)))
    if not c:
        return
    e = ex.load(st, Ptr(b.r, T.add(b.off, T.mulc(i, 8))), F64, check=False)
    if ex.decide(st, T.lt(i, q)):
        ex.assume(st, T.fp_le(e, v))
    else:
        ex.assume(st, T.fp_lt(v, e))


def about(ex, st, k):
    """use every search for bucket k"""
    for b, n, v, q in st.ghost.get("ub", ()):
        partition(ex, st, b, n, v, q, k)
        partition(ex, st, b, n, v, q, T.add(k, 1))


def u_insert(u):
    """add() once there are buckets: one count goes up, the right one"""
    ex = u.ex
    strings.install(ex)
    fn = u.fn("Histogram::Histogram::add(double const&)")
    for cache in ("yes", "no"):
        h = H(u, "h", "full")
        h.fp = True
        E = Edges(h, "edge", h.Z)
        upper_bound(u, E)
        st = u.state()
        h.pre(st)
        p = h.make(st, cache)
        v = number(ex, "v")
        ex.know(st, v)
        vp = ex.new_region("value", "param", I(8), StructBase("value", {0: (F64, v)}))

        def post(st):
            ex.oblig(st, T.eq(h.field(st, "count_"), T.add(h.C, 1)), "the value is added to the number of values")
            counts_after(u, st, h, E, v)
            for m, w in (("first_n_", h.N), ("size_", h.Z)):
                ex.oblig(st, T.eq(h.field(st, m), w), "%s stays" % m)
            for m, r in (("cache_", h.r_cache), ("buckets_", h.r_edges), ("counts_", h.r_counts)):
                ex.oblig(st, ex.ptr_eq(st, h.field(st, m, PTRT), Ptr(r, 0) if r is not None else NULL), "%s stays" % m)
        u.run(fn, st, [p, Ptr(vp, 0)], post)


def counts_after(u, st, h, E, v):
    ex = u.ex
    k = ex.fresh("k", 0, None)
    s2 = st.clone()
    ex.assume(s2, T.lt(k, h.Z))

    def one(s):
        about(ex, s, k)
        got = ex.load(s, Ptr(h.r_counts, T.mulc(k, 8)), I64)
        was = ex.read(s, h.r_counts, None, T.mulc(k, 8), 8, I64)
        hit = ex.decide(s, E.inside(v, k))
        ex.oblig(s, T.eq(got, T.mod(T.add(was, 1), 2 ** 64) if hit else was), "the count of the value's bucket goes up by one" if hit else "no other count changes")
        ex.oblig(s, T.eq(ex.load(s, Ptr(h.r_edges, T.mulc(k, 8)), F64), E.at(k)), "edges stay")
    if ex.feasible(s2):
        ex.with_forks([s2], one)

    def top(s):
        got = ex.load(s, Ptr(h.r_edges, T.mulc(h.Z, 8)), F64)
        old = E.at(h.Z)
        more = ex.decide(s, T.and_(E.counted(v), T.fp_lt(old, v)))
        ex.oblig(s, T.eq(got, v if more else old), "the upper bound is the greatest value counted")
    ex.with_forks([st.clone()], top)


class Counting:
    """counts and upper bound after the first i cached values, by recursion over i"""

    def __init__(self, u, h, E, last=None):
        self.u, self.ex, self.h, self.E, self.last = u, u.ex, h, E, last

    def value(self, st, i):
        """the i'th value: the cached ones, then the one being added"""
        if self.last is not None and self.ex.decide(st, T.eq(i, self.h.C)):
            return self.last
        return self.h.fapp("cache", i)

    def cnt(self, k, i):
        t = T.app("CNT", (T.toint(k), T.toint(i)))
        self.ex.setrange(t, 0, 2 ** 41)
        return t

    def up(self, i):
        t = T.app("UP", (T.toint(i),), "F64")
        self.ex.facts_of.setdefault(t, [T.not_(T.fp_isnan(t))])
        return t

    def base(self, ex, st, k=None):
        if k is not None:
            ex.assume(st, T.eq(self.cnt(k, I0), 0))
        ex.assume(st, T.eq(self.up(I0), lowest()))

    def step(self, ex, st, i, k=None):
        v = self.value(st, i)
        if k is not None:
            ex.assume(st, T.eq(self.cnt(k, T.add(i, 1)), T.add(self.cnt(k, i), 1 if ex.decide(st, self.E.inside(v, k)) else 0)))
        more = ex.decide(st, T.and_(self.E.counted(v), T.fp_lt(self.up(i), v)))
        ex.assume(st, T.eq(self.up(T.add(i, 1)), v if more else self.up(i)))


def lowest():
    import struct
    return T.mk("fpval", (struct.unpack("<Q", struct.pack("<d", -1.7976931348623157e308))[0],), "F64")


class CntInv(RegionInv):
    def __init__(self, c):
        self.c = c

    def produce(self, ex, st, r, it, entry):
        c = self.c
        b = ArrayBase("cnt", 8, lambda ex, st, q: {0: (I64, c.cnt(q, it))})
        ex.put(st, r, Node(st.mem.get(r), "G", I0, T.mulc(c.E.Z, 8), lambda ex, s, d, size, ty: b.read(ex, s, r, d, size, ty)))

    def check(self, ex, st, r, it, entry, head):
        c = self.c
        k = ex.fresh("k", 0, None)
        s2 = st.clone()
        ex.assume(s2, T.lt(k, c.E.Z))

        def one(s):
            c.base(ex, s, k)
            if it is not I0:
                about(ex, s, k)
                c.step(ex, s, T.sub(it, 1), k)
            ex.oblig(s, T.eq(ex.load(s, Ptr(r, T.mulc(k, 8)), I64), c.cnt(k, it)), "every count is the number of values in the bucket so far")
        if ex.feasible(s2):
            ex.with_forks([s2], one)


class UpInv(RegionInv):
    def __init__(self, c):
        self.c = c

    def produce(self, ex, st, r, it, entry):
        c = self.c
        ex.put(st, r, Node(st.mem.get(r), "G", T.mulc(c.E.Z, 8), I(8), lambda ex, s, d, size, ty: ex.retype(s, c.up(it), F64, ty) if size == 8 else None))

    def check(self, ex, st, r, it, entry, head):
        c = self.c

        def top(s):
            c.base(ex, s)
            if it is not I0:
                c.step(ex, s, T.sub(it, 1))
            ex.oblig(s, T.eq(ex.load(s, Ptr(r, T.mulc(c.E.Z, 8)), F64), c.up(it)), "the upper bound is the greatest value counted so far")
        ex.with_forks([st.clone()], top)
        k = ex.fresh("k", 0, None)
        s2 = st.clone()
        ex.assume(s2, T.lt(k, c.E.Z))
        if ex.feasible(s2):
            ex.with_forks([s2], lambda s: ex.oblig(s, T.eq(ex.load(s, Ptr(r, T.mulc(k, 8)), F64), c.E.at(k)), "edges stay"))


def u_first(kind):
    """add() while there are no buckets"""
    def f(u):
        ex = u.ex
        strings.install(ex)
        arrays_by_contract(u)
        fn = u.fn("Histogram::Histogram::add(double const&)")
        ok, err = u.const("hist_success"), u.const("hist_error")
        for hasgen in (True, False):
            h = H(u, "h", "filling" if kind != "later" else "bare")
            h.fp = True
            Z = ex.var("Z", 1, MAXN)
            E = Edges(h, "gen", Z)
            h.gen = FuncPtr("user.generator", None) if hasgen else NULL
            h.extra = Ptr(ex.new_region("extra", "param", I(8), UFBase("extra")), 0)
            upper_bound(u, E)
            st = u.state()
            h.pre(st)
            if kind == "filling":
                ex.assume(st, T.lt(T.add(h.C, 1), h.N))
            elif kind == "last":
                ex.assume(st, T.eq(T.add(h.C, 1), h.N))
            p = h.make(st, "yes")
            v = number(ex, "v")
            ex.know(st, v)
            vp = ex.new_region("value", "param", I(8), StructBase("value", {0: (F64, v)}))
            c = Counting(u, h, E, v if kind == "last" else None)
            works = T.var("generator works", "Bool")

            def generator(ex, st, a):
                ex.trusted.setdefault("bucket generator", "contract: given the first N values, succeeds with a new array of at least one edge in ascending order, none NaN, and room for the upper bound, or fails and leaves everything as it is")
                ex.oblig(st, ex.ptr_eq(st, a[0], Ptr(h.r_cache, 0)), "the generator is given the first values")
                ex.oblig(st, T.eq(a[1], h.N), "the generator is given all of the first N values and no more")
                ex.oblig(st, ex.ptr_eq(st, a[4], h.extra), "the generator is given its argument")
                if st.ghost.get("generated"):
                    ex.fail(st, "buckets are generated once")
                if not ex.decide(st, works):
                    return I(err)
                r = ex.alloc(st, T.mulc(T.add(Z, 1), 8), "heap", "edges", ArrayBase("gen", 8, lambda ex, st, q: {0: (F64, E.at(q))}))
                ex.store(st, a[2], Ptr(r, 0), PTRT)
                ex.store(st, a[3], Z, I64)
                st.ghost["generated"] = r
                return I(ok)
            ex.contracts["user.generator"] = generator

            class Spec(LoopSpec):
                logs = ("ub",)            # searches made: those of an iteration say nothing about another

                def region_inv(self, ex, st, r):
                    for m, inv in (("counts_", CntInv), ("buckets_", UpInv)):
                        q = h.field(st, m, PTRT)
                        if isinstance(q, Ptr) and q.r is r:
                            return inv(c)
                    return None
            ex.loopspec = lambda ex, st, f, L: Spec()

            def post(st):
                ret = st.ret
                ex.oblig(st, T.eq(h.field(st, "count_"), T.add(h.C, 1)), "the value is added to the number of values")
                ex.oblig(st, T.eq(h.field(st, "first_n_"), h.N), "first_n_ stays")
                ex.oblig(st, ex.ptr_eq(st, h.field(st, "cache_", PTRT), Ptr(h.r_cache, 0)), "cache_ stays")
                ex.oblig(st, T.B(h.r_cache not in st.dead), "the cached values are kept")
                # the cached values
                k = ex.fresh("k", 0, None)
                s2 = st.clone()
                ex.assume(s2, T.lt(k, h.N if kind == "later" else T.add(h.C, 1)))

                def kept(s):
                    w = Counting(u, h, E, None if kind == "later" else v).value(s, k)
                    ex.oblig(s, T.eq(ex.load(s, Ptr(h.r_cache, T.mulc(k, 8)), F64), w), "every value so far is retained")
                if ex.feasible(s2):
                    ex.with_forks([s2], kept)
                made = st.ghost.get("generated")
                bk, cn = h.field(st, "buckets_", PTRT), h.field(st, "counts_", PTRT)
                if kind == "filling":
                    ex.oblig(st, T.eq(ret, ok), "adding succeeds")
                    ex.oblig(st, T.B(made is None and isnull(bk) and isnull(cn)), "no buckets yet")
                    ex.oblig(st, T.eq(h.field(st, "size_"), 0), "no buckets yet")
                    return
                if made is None:
                    ex.oblig(st, T.B(not hasgen) if not hasgen else T.not_(works), "buckets are generated")
                    ex.oblig(st, T.B(isnull(bk) and isnull(cn)), "no buckets when generating them failed")
                    ex.oblig(st, T.eq(ret, err), "failure is reported")
                    return
                ex.oblig(st, T.eq(ret, ok), "adding succeeds")
                good = isinstance(bk, Ptr) and bk.r is made and isinstance(cn, Ptr) and cn.r in st.heap and cn.r not in st.dead
                ex.oblig(st, T.and_(T.eq(bk.off, 0), T.eq(cn.off, 0), T.eq(cn.r.size, T.mulc(Z, 8)), T.eq(h.field(st, "size_"), Z)) if good else T.FALSE, "edges and counts belong together")
                k = ex.fresh("b", 0, None)
                s2 = st.clone()
                ex.assume(s2, T.lt(k, Z))

                def one(s):
                    about(ex, s, k)
                    extra = 1 if kind == "later" and ex.decide(s, T.and_(T.lt(h.N, T.add(h.C, 1)), E.inside(v, k))) else 0
                    ex.oblig(s, T.eq(ex.load(s, Ptr(cn.r, T.mulc(k, 8)), I64), T.add(c.cnt(k, h.N), extra)), "every value so far is counted once, in its bucket")
                    ex.oblig(s, T.eq(ex.load(s, Ptr(bk.r, T.mulc(k, 8)), F64), E.at(k)), "the edges are those generated")
                if ex.feasible(s2):
                    ex.with_forks([s2], one)

                def top(s):
                    w = c.up(h.N)
                    if kind == "later" and ex.decide(s, T.and_(T.lt(h.N, T.add(h.C, 1)), E.counted(v), T.fp_lt(w, v))):
                        w = v
                    ex.oblig(s, T.eq(ex.load(s, Ptr(bk.r, T.mulc(Z, 8)), F64), w), "the upper bound is the greatest value counted")
                ex.with_forks([st.clone()], top)
            u.run(fn, st, [p, Ptr(vp, 0)], post)
    return f


def u_get(u):
    """what is exposed"""
    ex = u.ex
    strings.install(ex)
    fn = u.fn("Histogram::Histogram::get(double**, unsigned long**, unsigned long*) const")
    for mode in ("filling", "full", "bare"):
        for want in (True, False):
            h = H(u, "h", mode)
            st = u.state()
            h.pre(st)
            p = h.make(st, "yes")
            o = [ex.new_region(n, "param", I(8), UFBase(n)) for n in ("edges", "counts", "size")]

            def post(st):
                ex.oblig(st, T.eq(st.ret, u.const("hist_error" if mode == "filling" else "hist_success")), "counts are there once N values came in")
                if not want:
                    return
                if mode == "filling":
                    for r in o:
                        ex.oblig(st, T.eq(ex.load(st, Ptr(r, 0), I64), r.base.read(ex, st, r, I0, 8, I64)), "nothing is exposed before")
                    return
                for r, m, x in ((o[0], "buckets_", h.r_edges), (o[1], "counts_", h.r_counts)):
                    ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(r, 0), PTRT), Ptr(x, 0) if x is not None else NULL), "%s is exposed" % m)
                ex.oblig(st, T.eq(ex.load(st, Ptr(o[2], 0), I64), h.Z), "the number of buckets is exposed")
            u.run(fn, st, [p] + [Ptr(r, 0) if want else NULL for r in o], post)
    fn = u.fn("Histogram::Histogram::get_cache(unsigned long*, double**, unsigned long*) const")
    for mode, cache in (("filling", "yes"), ("full", "yes"), ("full", "no"), ("bare", "no")):
        h = H(u, "h", mode)
        st = u.state()
        h.pre(st)
        p = h.make(st, cache)
        o = [ex.new_region(n, "param", I(8), UFBase(n)) for n in ("n", "values", "size")]

        def post(st):
            ex.oblig(st, T.eq(ex.load(st, Ptr(o[0], 0), I64), h.N), "the threshold")
            ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(o[1], 0), PTRT), Ptr(h.r_cache, 0) if h.r_cache is not None else NULL), "the cached values")
            m = ex.load(st, Ptr(o[2], 0), I64)
            if mode == "filling":
                ex.oblig(st, T.eq(m, h.C), "every value so far is retained")
            else:
                ex.oblig(st, T.eq(m, h.N if cache == "yes" else 0), "as many values as there are")
        u.run(fn, st, [p] + [Ptr(r, 0) for r in o], post)


def u_new(u):
    """a new histogram: threshold and generator as configured, no values, room for the first N"""
    ex = u.ex
    strings.install(ex)
    arrays_by_contract(u)
    fn = u.fn("Histogram::Histogram::Histogram(Histogram::Config const&, std::string const&)")
    r = ex.new_region("this", "param", I(u.const("size_histogram")), UninitBase())
    n = ex.var("first_n", 0, MAXN)
    g = FuncPtr("user.generator", None)
    x = Ptr(ex.new_region("extra", "param", I(8), UFBase("extra")), 0)
    cfg = ex.new_region("config", "param", I(u.const("size_hconfig")), StructBase("config", {u.const("off_C_first_n"): (I64, n), u.const("off_C_generator"): (PTRT, g), u.const("off_C_extra"): (PTRT, x)}))
    ln = ex.var("name_len", 0, MAXN)
    nm = ex.new_region("namebuf", "param", T.add(ln, 1), UFBase("namebuf"))
    sr = ex.new_region("name", "param", I(32), UninitBase())
    st = u.state()
    st.ghost[("str", sr, I0)] = SV(nm, ln)

    def post(st):
        f = lambda m, ty=I64: ex.load(st, Ptr(r, off(u, m)), ty)
        ex.oblig(st, T.and_(T.eq(f("first_n_"), n), T.eq(f("count_"), 0), T.eq(f("size_"), 0)), "threshold as configured, no values yet")
        ex.oblig(st, T.B(isnull(ex.resolve(f("buckets_", PTRT))) and isnull(ex.resolve(f("counts_", PTRT)))), "no buckets yet")
        ex.oblig(st, T.and_(ex.ptr_eq(st, f("gen_", PTRT), g), ex.ptr_eq(st, f("extra_", PTRT), x)), "generator and its argument as configured")
        c = ex.resolve(f("cache_", PTRT))
        ex.oblig(st, T.eq(c.r.size, T.mulc(n, 8)) if isinstance(c, Ptr) else T.eq(n, 0), "room for the first N values")
        sv = st.ghost.get(("str", r, I(off(u, "name_"))))
        ex.oblig(st, T.eq(sv.n, ln) if sv is not None else T.FALSE, "the name")
    u.run(fn, st, [Ptr(r, 0), Ptr(cfg, 0), Ptr(sr, 0)], post)


def u_lemmas(u):
    ex = u.ex
    h = H(u, "h", "bare")
    E = Edges(h, "gen", ex.var("Z", 1, MAXN))
    c = Counting(u, h, E)
    i, k, m = ex.var("i", 0, MAXN), ex.var("k", 0, MAXN), ex.var("m", 0, MAXN)
    v = h.fapp("cache", i)
    nn = [T.not_(T.fp_isnan(x)) for x in (v, E.at(k), E.at(T.add(k, 1)), E.at(m), E.at(T.add(m, 1)), E.at(I0), c.up(i), c.up(T.add(i, 1)))]
    sorted_ = [T.implies(T.le(T.add(k, 1), m), T.fp_le(E.at(T.add(k, 1)), E.at(m))), T.implies(T.le(T.add(m, 1), k), T.fp_le(E.at(T.add(m, 1)), E.at(k)))]
    u.lemma("a value belongs into at most one bucket", T.eq(k, m), nn + sorted_ + [E.inside(v, k), E.inside(v, m), T.lt(k, E.Z), T.lt(m, E.Z)])
    u.lemma("a value in a bucket is not below the lowest edge", E.counted(v), nn + [E.inside(v, k), T.fp_le(E.at(I0), E.at(k))])
    more = T.and_(E.counted(v), T.fp_lt(c.up(i), v))
    up = [T.implies(more, T.eq(c.up(T.add(i, 1)), v)), T.implies(T.not_(more), T.eq(c.up(T.add(i, 1)), c.up(i)))]
    u.lemma("the upper bound is not below any value counted", T.and_(T.implies(E.counted(v), T.fp_le(v, c.up(T.add(i, 1)))), T.fp_le(c.up(i), c.up(T.add(i, 1)))), nn + up)


UNITS = [Unit("add with buckets", u_insert), Unit("add before N values", u_first("filling")), Unit("add the N'th value", u_first("last")), Unit("add after generating failed", u_first("later")),
         Unit("get", u_get), Unit("constructor", u_new), Unit("buckets and bounds", u_lemmas, kind="lemma"), Unit("alloc_array<double>", u_alloc_array("double")), Unit("alloc_array<unsigned long>", u_alloc_array("unsigned long"))]
