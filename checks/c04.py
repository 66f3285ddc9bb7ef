"""C04: stored keys identify exactly one subject-predicate pair
(src/datastore/triplestore.cpp; append_type/remove_type of src/datastore/datastore.cpp).

sp_to_key is run on an arbitrary pair, key_to_sp on the key it made; lengths,
types and every byte (a skolem index) come back.  key_to_sp reads nothing but
the key, so two pairs with the same key are the same pair."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from checks.blobs import *

SOURCES = ["src/datastore/triplestore.cpp", "src/datastore/datastore.cpp", "src/utils/Blob.cpp", "src/utils/memory.cpp", "specs/c04.cpp"]
HARNESSES = [Harness("c04.cpp", full_sources(), FULL_LIBS, opt="-O0", san=["-fsanitize=address"], budget=6)]
ASSUMPTIONS = ["lengths below 2^40; type numbers are those of hxhim_data_t"]


def value(u, name, null=False):
    """a stored value: any bytes, any length, a type of hxhim_data_t"""
    r, b = mk(u, name, null=null, size=I0 if null else None)
    b.facts = [T.lt(b.type, u.const("spec_max_type"))]
    return r, b


def byte(u, st, b, j):
    return u.ex.load(st, Ptr(b.ptr.r, T.add(b.ptr.off, j)), I8)


def make_key(u, sn=False, pn=False):
    ex = u.ex
    rs, s = value(u, "subject", sn)
    rp, p = value(u, "predicate", pn)
    key = ex.new_region("key", "param", I(blob_size(u)), StructBase("key", fields(u, empty())))
    st = u.state()
    for f in s.facts + p.facts:
        ex.assume(st, f)
    return rs, s, rp, p, key, st


def u_to_key(u):
    ex = u.ex
    fn = u.fn("sp_to_key(Blob const&, Blob const&, Blob*)")
    for sn, pn in ((False, False), (True, False), (False, True), (True, True)):
        rs, s, rp, p, key, st0 = make_key(u, sn, pn)

        def post(st):
            ex.oblig(st, T.eq(st.ret, u.const("spec_success")), "sp_to_key succeeds")
            expect(u, st, get(u, st, rs), s, "subject")
            expect(u, st, get(u, st, rp), p, "predicate")
            released(u, st, s, T.FALSE, "the subject")
            released(u, st, p, T.FALSE, "the predicate")
            k = get(u, st, key)
            q = ex.resolve(k.ptr)
            ex.oblig(st, T.B(isinstance(q, Ptr) and q.r in st.heap and q.r not in st.dead), "the key has a buffer of its own")
            ex.oblig(st, k.clean, "the key owns its buffer")
            ex.oblig(st, T.eq(q.r.size, k.len), "the key is the whole buffer")
            ex.oblig(st, T.B(len([h for h in st.heap if h not in st.dead]) == 1), "no other buffer is left behind")
            J = ex.fresh("J", 0, None)
            a = st.clone()
            ex.assume(a, T.lt(J, s.len))
            if not sn and ex.feasible(a):
                ex.oblig(a, T.eq(ex.load(a, Ptr(q.r, T.add(q.off, J)), I8), byte(u, a, s, J)), "the key begins with the subject")
            b = st.clone()
            ex.assume(b, T.lt(J, p.len))
            if not pn and ex.feasible(b):
                ex.oblig(b, T.eq(ex.load(b, Ptr(q.r, T.add(q.off, T.add(s.len, J))), I8), byte(u, b, p, J)), "the predicate follows the subject")
        u.run(fn, st0, [Ptr(rs, 0), Ptr(rp, 0), Ptr(key, 0)], post)


def u_split(copy, used):
    def f(u):
        ex = u.ex
        fk = u.fn("sp_to_key(Blob const&, Blob const&, Blob*)")
        fs = u.fn("key_to_sp(Blob const&, Blob&, Blob&, bool)")
        for sn, pn in ((False, False), (True, False), (False, True)) if not used else ((False, False),):
            rs, s, rp, p, key, st0 = make_key(u, sn, pn)
            x, bx = mk(u, "x", null=not used)
            y, by = mk(u, "y", null=not used)

            def split(st):
                k = get(u, st, key)
                kq = ex.resolve(k.ptr)
                st = st.clone()
                heap0 = set(st.heap)
                seen = []
                ex.reads.clear()

                def post(st):
                    if not seen:
                        seen.append(1)
                        bad = [r.name for r in ex.reads if r not in (kq.r, key, x, y) and r.kind not in ("stack", "const")]
                        ex.oblig(st, T.B(not bad), "key_to_sp reads nothing but the key (equal keys come from equal pairs)%s" % (bad or ""))
                    ex.oblig(st, T.eq(st.ret, u.const("spec_success")), "key_to_sp succeeds")
                    expect(u, st, get(u, st, key), k, "the key")
                    ex.oblig(st, T.B(kq.r not in st.dead), "the key's buffer is not released")
                    if used:
                        released(u, st, bx, bx.clean, "the overwritten subject")
                        released(u, st, by, by.clean, "the overwritten predicate")
                    for r, src, what in ((x, s, "subject"), (y, p, "predicate")):
                        g = get(u, st, r)
                        ex.oblig(st, T.eq(g.len, src.len), "%s length comes back" % what)
                        ex.oblig(st, T.eq(g.type, src.type), "%s type comes back" % what)
                        q = ex.resolve(g.ptr)
                        if copy:
                            ex.oblig(st, T.B(not (isinstance(q, Ptr) and q.r is kq.r)), "%s copy does not refer to the key" % what)
                            ex.oblig(st, T.or_(g.clean, T.eq(g.len, 0)), "%s copy is owned" % what)
                        else:
                            ex.oblig(st, T.not_(g.clean), "%s reference owns nothing" % what)
                        if not isinstance(q, Ptr):
                            ex.oblig(st, T.eq(src.len, 0), "only an empty %s has no data" % what)
                            continue
                        ex.oblig(st, T.B(q.r not in st.dead), "%s data is alive" % what)
                        a = st.clone()
                        J = ex.fresh("J", 0, None)
                        ex.assume(a, T.lt(J, src.len))
                        if not isinstance(src.ptr, Ptr) or not ex.feasible(a):
                            continue
                        ex.oblig(a, T.eq(ex.load(a, Ptr(q.r, T.add(q.off, J)), I8), byte(u, a, src, J)), "%s bytes come back" % what)
                    mine = [h for h in st.heap if h not in heap0 and h not in st.dead]
                    owners = [get(u, st, r) for r in (x, y)]
                    for h in mine:
                        ex.oblig(st, T.or_(*[T.and_(ex.ptr_eq(st, g.ptr, Ptr(h, 0)), g.clean) for g in owners]), "a buffer made by key_to_sp has an owner")
                u.run(fs, st, [Ptr(key, 0), Ptr(x, 0), Ptr(y, 0), T.TRUE if copy else T.FALSE], post)
                return True
            outs = ex.run_function(fk, st0, [Ptr(rs, 0), Ptr(rp, 0), Ptr(key, 0)])
            n = 0
            for st in outs:
                if ex.feasible(st):
                    split(st)
                    n += 1
            if not n:
                raise Unsupported("vacuous: sp_to_key has no outcome")
    return f


def u_typed(null):
    def f(u):
        ex = u.ex
        fa = u.fn("Datastore::Datastore::append_type(void*, unsigned long, hxhim_data_t)")
        fr = u.fn("Datastore::Datastore::remove_type(void const*, unsigned long&)")
        n = I0 if null else ex.var("n", 0, 2 ** 40)
        ty = ex.var("type", 0, 2 ** 32 - 1)
        src = ex.new_region("value", "param", n, UFBase("value"))
        out = ex.new_region("out", "param", I(blob_size(u)), UninitBase())
        st0 = u.state()
        ex.assume(st0, T.lt(ty, u.const("spec_max_type")))

        def after(st):
            g = get(u, st, out)
            q = ex.resolve(g.ptr)
            ex.oblig(st, T.B(isinstance(q, Ptr) and q.r in st.heap and q.r not in st.dead), "the typed value has a buffer")
            ex.oblig(st, g.clean, "the typed value owns its buffer")
            ex.oblig(st, T.eq(q.r.size, g.len), "the typed value is the whole buffer")
            ex.oblig(st, T.B(src not in st.dead and st.mem.get(src) is None), "the value is only read")
            sz = ex.new_region("size", "param", I(8), StructBase("size", {0: (I64, g.len)}))

            def post(st):
                ex.oblig(st, T.eq(st.ret, ty), "the type comes back")
                ex.oblig(st, T.eq(ex.load(st, Ptr(sz, 0), I64), n), "the length comes back")
                a = st.clone()
                J = ex.fresh("J", 0, None)
                ex.assume(a, T.lt(J, n))
                if ex.feasible(a):
                    ex.oblig(a, T.eq(ex.load(a, Ptr(q.r, T.add(q.off, J)), I8), ex.load(a, Ptr(src, J), I8)), "the bytes come back")
                ex.oblig(st, T.B(q.r not in st.dead), "nothing is released")
            u.run(fr, st.clone(), [q, Ptr(sz, 0)], post)
            return True
        outs = ex.run_function(fa, st0, [Ptr(out, 0), NULL if null else Ptr(src, 0), n, ty])
        outs = [o for o in outs if ex.feasible(o)]
        if not outs:
            raise Unsupported("vacuous: append_type has no outcome")
        for o in outs:
            after(o)
    return f


UNITS = [Unit("sp_to_key", u_to_key), Unit("key_to_sp: references", u_split(False, False)), Unit("key_to_sp: copies", u_split(True, False)),
         Unit("key_to_sp: references into used objects", u_split(False, True)), Unit("key_to_sp: copies into used objects", u_split(True, True)),
         Unit("remove_type(append_type(v))", u_typed(False)), Unit("remove_type(append_type(empty))", u_typed(True))]
