"""C09: histograms survive serialization (src/utils/Histogram.cpp)."""
from engine.session import *
from engine.harness import Harness
from checks.hists import *
from checks.msgs import ElemInv

SOURCES = ["src/utils/Histogram.cpp", "src/utils/memory.cpp", "specs/hist.cpp"]
HARNESSES = [Harness("c09.cpp", ["src/utils/Histogram.cpp", "src/utils/memory.cpp", "src/utils/mlog2.c"], ["-lm"], san=["-fsanitize=address"], budget=6)]
MODES = ("filling", "full", "bare")


def u_size(u):
    ex = u.ex
    strings.install(ex)
    fn = u.fn("Histogram::Histogram::pack_size() const")
    for mode in MODES:
        h = H(u, "h", mode)
        st = u.state()
        h.pre(st)
        p = h.make(st, cache="yes" if mode == "filling" else "no")
        u.run(fn, st, [p], lambda s, h=h: ex.oblig(s, T.eq(s.ret, HWire(h).size()), "the packed size"))


def keeps(u, st, h, what):
    """packing changes nothing about the histogram"""
    ex = u.ex
    for m, v in (("count_", h.C), ("first_n_", h.N), ("size_", h.Z)):
        ex.oblig(st, T.eq(h.field(st, m), v), "%s: %s is as before" % (what, m))
    for m, r in (("cache_", h.r_cache), ("buckets_", h.r_edges), ("counts_", h.r_counts)):
        ex.oblig(st, ex.ptr_eq(st, h.field(st, m, PTRT), Ptr(r, 0) if r is not None else NULL), "%s: %s is as before" % (what, m))
    for f, r, n in ((h.cache, h.r_cache, h.N), (h.edge, h.r_edges, T.add(h.Z, 1)), (h.cnt, h.r_counts, h.Z)):
        if r is None:
            continue
        ex.oblig(st, T.B(r not in st.dead), "%s: nothing is released" % what)
        k = ex.fresh("k", 0, None)
        s2 = st.clone()
        ex.assume(s2, T.lt(k, n))
        if ex.feasible(s2):
            ex.with_forks([s2], lambda s, r=r, f=f: ex.oblig(s, T.eq(ex.load(s, Ptr(r, T.mulc(k, 8)), I64), f(k)), "%s: values are as before" % what))


def u_pack(place_):
    def f(u):
        ex = u.ex
        strings.install(ex)
        own = place_ == "allocated"
        fn = u.fn("Histogram::Histogram::pack(%s) const" % ("void**, unsigned long*" if own else "char*&, unsigned long&, unsigned long*"))
        for mode in MODES:
            for want in ((True,) if own else (True, False)):
                h = H(u, "h", mode)
                w = HWire(h)
                st = u.state()
                h.pre(st)
                p = h.make(st, cache="yes" if mode == "filling" else "no")
                inv = HWireInv(w, not own)
                usedp = ex.new_region("used", "param", I(8), UninitBase())
                bufp = ex.new_region("bufp", "param", I(8), UninitBase())
                sizep = ex.new_region("sizep", "param", I(8), UninitBase())
                if own:
                    buf = None
                    args = [p, Ptr(bufp, 0), Ptr(sizep, 0)]
                else:
                    avail = ex.var("avail", 0, 2 ** 62)
                    buf = ex.new_region("buf", "param", avail, UFBase("before"))
                    bufp.base = StructBase("bufp", {0: (PTRT, Ptr(buf, 0))})
                    sizep.base = StructBase("sizep", {0: (I64, avail)})
                    args = [p, Ptr(bufp, 0), Ptr(sizep, 0), Ptr(usedp, 0) if want else NULL]

                class Spec(LoopSpec):
                    def region_inv(self, ex, st, r):
                        if r is buf or (own and r.kind == "heap" and r not in (h.r_cache, h.r_edges, h.r_counts)):
                            return inv
                        return None
                ex.loopspec = lambda ex, st, f, L: Spec()

                def post(st):
                    size = w.size()
                    if own:
                        ex.oblig(st, T.ne(st.ret, 0) if st.ret.sort == "Int" else st.ret, "packing succeeds")
                        ex.oblig(st, T.eq(ex.load(st, Ptr(sizep, 0), I64), size), "the reported size is the packed size")
                        q = ex.resolve(ex.load(st, Ptr(bufp, 0), PTRT))
                        ex.oblig(st, T.B(isinstance(q, Ptr) and q.r in st.heap and q.r not in st.dead), "a new buffer is returned")
                        if not isinstance(q, Ptr):
                            return
                        ex.oblig(st, T.eq(q.r.size, size), "the buffer has the packed size")
                        w.check_all(ex, st, q.r, "end", None)
                    else:
                        ret = st.ret if st.ret.sort == "Bool" else T.ne(st.ret, 0)
                        ok = ex.decide(st, T.le(size, avail))
                        ex.oblig(st, ret if ok else T.not_(ret), "packing succeeds exactly when there is enough space")
                        cur = ex.load(st, Ptr(bufp, 0), PTRT)
                        if not ok:
                            ex.oblig(st, T.and_(ex.ptr_eq(st, cur, Ptr(buf, 0)), T.eq(ex.load(st, Ptr(sizep, 0), I64), avail)), "arguments stay as they are when packing fails")
                            return
                        ex.oblig(st, ex.ptr_eq(st, cur, Ptr(buf, size)), "the cursor advances by the packed size")
                        ex.oblig(st, T.eq(ex.load(st, Ptr(sizep, 0), I64), T.sub(avail, size)), "the space left decreases by the packed size")
                        if want:
                            ex.oblig(st, T.eq(ex.load(st, Ptr(usedp, 0), I64), size), "the space used is the packed size")
                        w.check_all(ex, st, buf, "end", None)
                        k = ex.fresh("k", 0, None)
                        s2 = st.clone()
                        ex.assume(s2, T.and_(T.le(size, k), T.lt(k, avail)))
                        if ex.feasible(s2):
                            ex.with_forks([s2], lambda s: ex.oblig(s, T.eq(ex.load(s, Ptr(buf, k), I8), ex.read(s, buf, None, k, 1, I8)), "nothing is written behind the packed size"))
                    keeps(u, st, h, "packing")
                u.run(fn, st, args, post)
    return f


def u_unpack(place_):
    def f(u):
        ex = u.ex
        strings.install(ex)
        arrays_by_contract(u)
        whole = place_ == "whole"
        fn = u.fn("Histogram::Histogram::unpack(%s)" % ("void const*, unsigned long" if whole else "char*&, unsigned long&, unsigned long*"))
        for mode in MODES:
            for dmode, cache in (("filling", "yes"), ("full", "yes"), ("full", "no"), ("bare", "no")):
                h, d = H(u, "h", mode), H(u, "old", dmode)
                w = HWire(h)
                st = u.state()
                h.pre(st)
                d.pre(st)
                p = d.make(st, cache)
                want = dmode != "full"
                size = ex.var("given", 0, 2 ** 62)
                ex.assume(st, T.le(w.size(), size))
                buf = ex.new_region("buf", "param", w.size(), WireBase(w))
                bufp = ex.new_region("bufp", "param", I(8), StructBase("bufp", {0: (PTRT, Ptr(buf, 0))}))
                sizep = ex.new_region("sizep", "param", I(8), StructBase("sizep", {0: (I64, size)}))
                usedp = ex.new_region("used", "param", I(8), UninitBase())
                olds = [x for x in (d.r_cache, d.r_edges, d.r_counts) if x is not None]
                content = {"cache_": (h.cache, h.C), "buckets_": (h.edge, T.add(h.Z, 1)), "counts_": (h.cnt, h.Z)}

                def same(of):
                    return lambda ex, st, r, k: ex.oblig(st, T.eq(ex.load(st, Ptr(r, T.mulc(k, 8)), I64), of(k)), "unpacked values are those of the wire")

                class Spec(LoopSpec):
                    def region_inv(self, ex, st, r):
                        if r.kind != "heap" or r in olds:
                            return None
                        for m, (of, n) in content.items():
                            q = d.field(st, m, PTRT)
                            if isinstance(q, Ptr) and q.r is r:
                                return ElemInv("u." + m, 8, lambda ex, st, k, of=of: {0: (I64, of(k))}, same(of))
                        return None
                ex.loopspec = lambda ex, st, f, L: Spec()

                def post(st):
                    ret = st.ret if st.ret.sort == "Bool" else T.ne(st.ret, 0)
                    ex.oblig(st, ret, "unpacking succeeds")
                    if not whole:
                        ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(bufp, 0), PTRT), Ptr(buf, w.size())), "the cursor advances by the packed size")
                        ex.oblig(st, T.eq(ex.load(st, Ptr(sizep, 0), I64), T.sub(size, w.size())), "the space left decreases by the packed size")
                        if want:
                            ex.oblig(st, T.eq(ex.load(st, Ptr(usedp, 0), I64), w.size()), "the space used is the packed size")
                    for m, v in (("count_", h.C), ("first_n_", h.N), ("size_", h.Z)):
                        ex.oblig(st, T.eq(d.field(st, m), v), "unpacked " + m)
                    for m, v in (("gen_", getattr(d, "gen", NULL)), ("extra_", getattr(d, "extra", NULL))):
                        ex.oblig(st, ex.ptr_eq(st, d.field(st, m, PTRT), v), "%s stays" % m)
                    sv = st.ghost[("str", d.r, I(off(u, "name_")))]
                    ex.oblig(st, T.eq(sv.n, h.L), "unpacked name: length")
                    k = ex.fresh("k", 0, None)
                    s2 = st.clone()
                    ex.assume(s2, T.lt(k, h.L))
                    if ex.feasible(s2):
                        ex.with_forks([s2], lambda s: ex.oblig(s, T.eq(ex.load(s, Ptr(sv.buf, k), I8), h.name(k)), "unpacked name: bytes"))
                    for r in olds:
                        ex.oblig(st, T.B(r in st.dead), "what the object held before is released")
                    need = {"cache_": T.TRUE if mode == "filling" else T.FALSE, "buckets_": T.TRUE if mode == "full" else T.FALSE, "counts_": T.TRUE if mode == "full" else T.FALSE}
                    seen = []
                    for m, (of, n) in content.items():
                        q = d.field(st, m, PTRT)
                        if need[m] is T.FALSE:
                            ex.oblig(st, T.B(isnull(q) or (m == "cache_" and isinstance(q, Ptr) and q.r not in st.dead)), "no %s where none were packed" % m)
                            continue
                        ok = isinstance(q, Ptr) and q.r in st.heap and q.r not in st.dead and q.r not in olds + seen
                        ex.oblig(st, T.and_(T.eq(q.off, 0), T.le(T.mulc(h.N if m == "cache_" else n, 8), q.r.size)) if ok else T.FALSE, "%s is an array of its own with enough room" % m)
                        if not ok:
                            continue
                        seen.append(q.r)
                        i = ex.fresh("i", 0, None)
                        s2 = st.clone()
                        ex.assume(s2, T.lt(i, n))
                        if ex.feasible(s2):
                            ex.with_forks([s2], lambda s, q=q, of=of: same(of)(ex, s, q.r, i))
                    for r in st.heap:
                        if r not in st.dead and r not in seen and r not in olds and r is not sv.buf and not any(d.field(st, m, PTRT) is r for m in content):
                            ex.oblig(st, T.B(r.name == "string"), "nothing is leaked")
                u.run(fn, st, [p, Ptr(buf, 0), size] if whole else [p, Ptr(bufp, 0), Ptr(sizep, 0), Ptr(usedp, 0) if want else NULL], post)
    return f


UNITS = [Unit("pack_size", u_size), Unit("pack allocated", u_pack("allocated")), Unit("pack in place", u_pack("in place")),
         Unit("unpack whole", u_unpack("whole")), Unit("unpack in place", u_unpack("in place"))] + [Unit("alloc_array<%s>" % t, u_alloc_array(t)) for t in ("double", "unsigned long")]
