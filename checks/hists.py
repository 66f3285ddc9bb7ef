"""What the contracts know about histograms and their wire form (C08, C09).

A histogram is: name (bytes), number of values, threshold N, the first N values,
Z edges with Z counts and the upper bound.  Class invariant used as precondition
and proved as postcondition by add(): counts exist only once N values came in,
and then edges, counts and upper bound exist together."""
from engine.session import *
from engine.loops import LoopSpec, RegionInv
from engine import terms as T
from engine import strings
from engine.strings import SV
from checks.msgs import arrays_by_contract, u_alloc_array, place, Field, Kind, WireBase

MAXN = 2 ** 40
F64 = ("f64",)


def off(u, m):
    return u.const("off_H_" + m)


class H:
    """a histogram in an arbitrary state: "filling" (fewer than N values, no buckets),
    "full" (buckets exist) or "bare" (N values or more, no buckets)"""

    def __init__(self, u, tag, mode):
        ex = self.ex = u.ex
        self.u, self.tag, self.mode = u, tag, mode
        self.L = ex.var(tag + ".name_len", 0, MAXN)
        self.C = ex.var(tag + ".count", 0, MAXN)
        self.N = ex.var(tag + ".first_n", 0, MAXN)
        self.Z = ex.var(tag + ".size", 1, MAXN) if mode == "full" else I0

    fp = False

    def fapp(self, f, i):
        """value i of an array as a number (no NaN)"""
        t = T.app("%s.f%s" % (self.tag, f), (T.toint(i),), "F64")
        self.ex.facts_of.setdefault(t, [T.not_(T.fp_isnan(t))])
        return t

    def pre(self, st):
        ex = self.ex
        ex.assume(st, T.lt(self.C, self.N) if self.mode == "filling" else T.le(self.N, self.C))

    def app(self, f, i, hi=2 ** 64 - 1):
        t = T.app("%s.%s" % (self.tag, f), (T.toint(i),))
        self.ex.setrange(t, 0, hi)
        return t

    def name(self, j):
        return self.app("name", j, 255)

    def cache(self, i):
        return self.app("cache", i)

    def edge(self, i):
        """edges; the upper bound is behind the last one"""
        return self.app("edge", i)

    def cnt(self, i):
        return self.app("counts", i)

    def M(self):
        """number of cached values on the wire"""
        return self.C if self.mode == "filling" else I0

    def make(self, st, cache="yes"):
        """the object; its arrays"""
        u, ex = self.u, self.ex
        def ints(f):
            if self.fp and f.__name__ != "cnt":
                return ArrayBase("%s.%s" % (self.tag, f.__name__), 8, lambda ex, st, q: {0: (F64, self.fapp(f.__name__, q))})
            return ArrayBase("%s.%s" % (self.tag, f.__name__), 8, lambda ex, st, q: {0: (I64, f(q))})
        self.r_cache = self.r_edges = self.r_counts = None
        fs = {off(u, "count_"): (I64, self.C), off(u, "first_n_"): (I64, self.N), off(u, "size_"): (I64, self.Z),
              off(u, "gen_"): (PTRT, getattr(self, "gen", NULL)), off(u, "extra_"): (PTRT, getattr(self, "extra", NULL)),
              off(u, "cache_"): (PTRT, NULL), off(u, "buckets_"): (PTRT, NULL), off(u, "counts_"): (PTRT, NULL)}
        if cache == "yes":
            self.r_cache = ex.new_region(self.tag + ".cache_", "heap", T.mulc(self.N, 8), ints(self.cache))
            fs[off(u, "cache_")] = (PTRT, Ptr(self.r_cache, 0))
        if self.mode == "full":
            self.r_edges = ex.new_region(self.tag + ".buckets_", "heap", T.mulc(T.add(self.Z, 1), 8), ints(self.edge))
            self.r_counts = ex.new_region(self.tag + ".counts_", "heap", T.mulc(self.Z, 8), ints(self.cnt))
            fs[off(u, "buckets_")] = (PTRT, Ptr(self.r_edges, 0))
            fs[off(u, "counts_")] = (PTRT, Ptr(self.r_counts, 0))
        self.r = ex.new_region(self.tag, "param", I(u.const("size_histogram")), StructBase(self.tag, fs))
        for x in (self.r_cache, self.r_edges, self.r_counts):
            if x is not None:
                st.heap.append(x) if isinstance(st.heap, list) else None
        h = self

        class Name(Base):
            def read(self, ex, st, r, o, size, ty):
                t = I0
                for i in range(size):
                    t = T.add(t, T.mulc(h.name(T.add(o, i)), 256 ** i))
                return ex.from_int(st, t, ty)
        self.r_name = ex.new_region(self.tag + ".name_", "param", T.add(self.L, 1), Name())
        st.ghost[("str", self.r, I(off(u, "name_")))] = SV(self.r_name, self.L)
        return Ptr(self.r, 0)

    def field(self, st, m, ty=I64):
        v = self.ex.load(st, Ptr(self.r, off(self.u, m)), ty)
        return self.ex.resolve(v) if ty == PTRT else v


class HWire:
    """the packed form of h: name length, name, count, N, cached values while they
    are needed, number of buckets, then (edge, count) pairs and the upper bound"""

    def __init__(self, h):
        self.h, self.ex = h, h.ex
        self.tag = h.tag

    def head(self):
        h = self.h
        return [("int", 8, h.L, "name length"), ("bytes", h.L, h.name, "name"), ("int", 8, h.C, "number of values"), ("int", 8, h.N, "threshold")]

    def at_cache(self):
        return T.add(24, self.h.L)

    def at_size(self):
        return T.add(self.at_cache(), T.mulc(self.h.M(), 8))

    def at_pairs(self):
        return T.add(self.at_size(), 8)

    def size(self):
        h = self.h
        return T.add(self.at_pairs(), T.add(T.mulc(h.Z, 16), 8) if h.mode == "full" else I0)

    def cached(self, i):
        return place([("int", 8, self.h.cache(i), "cached value")], T.add(self.at_cache(), T.mulc(i, 8)))[0]

    def zfield(self):
        return place([("int", 8, self.h.Z, "number of buckets")], self.at_size())[0]

    def pair(self, i):
        h = self.h
        return place([("int", 8, h.edge(i), "edge"), ("int", 8, h.cnt(i), "count")], T.add(self.at_pairs(), T.mulc(i, 16)))[0]

    def upper(self):
        h = self.h
        return place([("int", 8, h.edge(h.Z), "upper bound")], T.add(self.at_pairs(), T.mulc(h.Z, 16)))[0]

    check_fields = Kind.check_fields
    pick = Kind.pick

    def read(self, ex, st, o, size, ty):
        h = self.h
        fs = place(self.head(), I0)[0] + self.zfield()
        v = self.pick(ex, st, fs, o, size, ty)
        if v is not None:
            return v
        if h.mode == "filling":
            base, stride, of, n = self.at_cache(), 8, self.cached, h.C
        else:
            base, stride, of, n = self.at_pairs(), 16, self.pair, h.Z
        q, d = ex.split_index(st, T.sub(o, base), stride)
        if q is not None and d + size <= stride:
            if ex.proved(st, T.eq(q, n)):
                f = (self.upper() if h.mode == "full" else self.zfield())[0]
                return ex.subread(st, f.v, I64, I(d), size, ty)
            if ex.proved(st, T.and_(T.le(0, q), T.lt(q, n))):
                v = self.pick(ex, st, of(q), o, size, ty)
                if v is not None:
                    return v
        t = T.app("beyond%d.%s" % (size, self.tag), (o,))
        ex.setrange(t, 0, 256 ** size - 1)
        return ex.from_int(st, t, ty)

    def check(self, ex, st, r, base, upto, n, of, what):
        """head (and everything before the n'th element of the current array) is written"""

    def check_all(self, ex, st, r, stage, upto, what=""):
        """r holds everything below element `upto` of the stage ("cache" | "pairs" | "end")"""
        h = self.h
        self.check_fields(ex, st, r, place(self.head(), I0)[0], what)
        if h.mode == "filling":
            self.check_elems(ex, st, r, self.cached, upto if stage == "cache" else h.C, what)
        if stage == "cache":
            return
        self.check_fields(ex, st, r, self.zfield(), what)
        if h.mode == "full":
            self.check_elems(ex, st, r, self.pair, upto if stage == "pairs" else h.Z, what)
            if stage == "end":
                self.check_fields(ex, st, r, self.upper(), what)

    def check_elems(self, ex, st, r, of, upto, what):
        if T.is_const(upto) and T.cval(upto) == 0:
            return
        k = ex.fresh("k", 0, None)
        for i, fs in ((T.sub(upto, 1), [T.lt(0, upto)]), (k, [T.lt(k, T.sub(upto, 1))])):
            s2 = st.clone()
            try:
                for f in fs:
                    ex.assume(s2, f)
            except Dead:
                continue
            if ex.feasible(s2):
                ex.with_forks([s2], lambda s, i=i: self.check_fields(ex, s, r, of(i), what))


class HWireInv(RegionInv):
    """while packing: everything below the current element is the wire form"""

    def __init__(self, w, rest=False):
        self.w, self.rest = w, rest
        self.stage, self.stride, self.base = ("cache", 8, w.at_cache()) if w.h.mode == "filling" else ("pairs", 16, w.at_pairs())

    def produce(self, ex, st, r, it, entry):
        w = self.w
        if not self.rest:
            ex.havoc(st, r, tag="lp.%s.%d" % (r.name, it.id))
        ex.put(st, r, Node(st.mem.get(r), "G", I0, T.add(self.base, T.mulc(it, self.stride)), lambda ex, s, d, size, ty: w.read(ex, s, d, size, ty)))

    def check(self, ex, st, r, it, entry, head):
        self.w.check_all(ex, st, r, self.stage, it, "after %s values: " % ("no" if it is I0 else "some"))
        if self.rest:
            k = ex.fresh("k", 0, None)
            s2 = st.clone()
            ex.assume(s2, T.and_(T.le(T.add(self.base, T.mulc(it, self.stride)), k), T.lt(k, r.size)))
            if ex.feasible(s2):
                ex.with_forks([s2], lambda s: ex.oblig(s, T.eq(ex.load(s, Ptr(r, k), I8), ex.read(s, r, entry, k, 1, I8)), "nothing is written ahead of the cursor"))
