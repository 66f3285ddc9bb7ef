"""C10: value buffers have exactly one owner (src/utils/Blob.cpp, memory.cpp).

Ghost ownership: every heap buffer is alive or released; the prover obliges each
release to hit the start of a live heap buffer (no double release, nothing else
released).  Per operation the contract states which buffers are released, who
owns what afterwards, and that buffers a live owner points at stay alive.  Any
sequence is covered by induction: the operations' preconditions (an owning
object points at a live heap buffer or null, no two owners share a buffer) are
re-established by every postcondition."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from checks.blobs import *

SOURCES = ["src/utils/Blob.cpp", "src/utils/memory.cpp"]
HARNESSES = [Harness("c10.cpp", full_sources(), FULL_LIBS, opt="-O0", san=["-fsanitize=address"], budget=8)]


def raw(u, name="this"):
    return u.ex.new_region(name, "param", I(blob_size(u)), UninitBase())


def no_leak(u, st, *owners):
    """every heap object made during the call is released or owned by one of these"""
    got = [get(u, st, r) for r in owners]
    for h in st.heap:
        if h in st.dead:
            continue
        u.ex.oblig(st, T.or_(*[T.and_(u.ex.ptr_eq(st, g.ptr, Ptr(h, 0)), g.clean) for g in got]) if got else T.FALSE, "a buffer made by the operation has an owner")


def owner_ok(u, st, r, what="the object"):
    """class invariant: an owner points at null or the start of a live heap buffer"""
    g = get(u, st, r)
    p = u.ex.resolve(g.ptr)
    if isinstance(p, Ptr):
        if p.r in st.dead:
            u.ex.oblig(st, T.not_(g.clean), what + " does not own a released buffer")
        elif p.r.kind == "heap":
            u.ex.oblig(st, T.implies(g.clean, T.eq(p.off, 0)), what + " owns a whole buffer")
        else:
            u.ex.oblig(st, T.not_(g.clean), what + " does not own a buffer that is not its to release")
    elif not isnull(p):
        u.ex.oblig(st, T.implies(g.clean, T.eq(p.t, 0)), what + " owns a known buffer")


def sharings(u):
    """(a, b) pairs of objects: separate buffers, null on either side, one buffer with at most one owner"""
    for an in (False, True):
        for bn in (False, True):
            yield "%s/%s" % ("null" if an else "data", "null" if bn else "data"), an, bn, False
    yield "one buffer", False, False, True


def pair(u, an, bn, shared):
    ra, a = mk(u, "a", null=an)
    rb, b = mk(u, "b", null=bn, data=a.ptr if shared else None)
    st = u.state()
    if shared:
        u.ex.assume(st, T.not_(T.and_(a.clean, b.clean)))
    return ra, a, rb, b, st


def u_ctor(u):
    ex = u.ex
    fn = u.fn("Blob::Blob(void*, unsigned long, hxhim_data_t, bool)")
    for null in (False, True):
        r, b = mk(u, "v", null=null)
        t = raw(u)
        u.run(fn, u.state(), [Ptr(t, 0), b.ptr, b.len, b.type, b.clean], lambda st: (expect(u, st, get(u, st, t), b, "constructed object"), released(u, st, b, T.FALSE, "the buffer"), no_leak(u, st, t)))


def copied(u, st, t, src, n, ty, null):
    ex = u.ex
    g = get(u, st, t)
    ex.oblig(st, T.eq(g.len, n), "length of the copy")
    ex.oblig(st, T.eq(g.type, ty), "type of the copy")
    ex.oblig(st, g.clean, "the copy owns its buffer")
    p = ex.resolve(g.ptr)
    if isinstance(p, Ptr):
        ex.oblig(st, T.B(p.r in st.heap and p.r not in st.dead), "the copy has a buffer of its own")
        J = ex.fresh("J", 0, None)
        ex.assume(st, T.lt(J, n))
        if src is not None:
            x = ex.load(st, Ptr(p.r, T.add(p.off, J)), I8)
            ex.oblig(st, T.eq(x, ex.load(st, Ptr(src.r, T.add(src.off, J)), I8)), "every byte is copied")
    else:
        ex.oblig(st, T.eq(n, 0), "only an empty copy has no buffer")
    no_leak(u, st, t)


def u_copyctor(u):
    fn = u.fn("Blob::Blob(unsigned long, void const*, hxhim_data_t)")
    r, b = mk(u, "v")
    t = raw(u)
    u.run(fn, u.state(), [Ptr(t, 0), b.len, b.ptr, b.type], lambda st: (released(u, st, b, T.FALSE, "the source"), copied(u, st, t, b.ptr, b.len, b.type, False)))
    u.run(fn, u.state(), [Ptr(t, 0), I0, NULL, b.type], lambda st: copied(u, st, t, None, I0, b.type, True))


def u_refctor(u):
    fn = u.fn("Blob::Blob(Blob&)")
    for null in (False, True):
        r, b = mk(u, "v", null=null)
        t = raw(u)
        u.run(fn, u.state(), [Ptr(t, 0), Ptr(r, 0)], lambda st: (expect(u, st, get(u, st, t), B(b.ptr, b.len, b.type, T.FALSE), "the reference"),
                                                                 expect(u, st, get(u, st, r), b, "the original"), released(u, st, b, T.FALSE, "the buffer"), no_leak(u, st)))


def u_movector(u):
    fn = u.fn("Blob::Blob(Blob&&)")
    for null in (False, True):
        r, b = mk(u, "v", null=null)
        t = raw(u)
        u.run(fn, u.state(), [Ptr(t, 0), Ptr(r, 0)], lambda st: (expect(u, st, get(u, st, t), b, "the new object"), expect(u, st, get(u, st, r), empty(), "the source"),
                                                                 released(u, st, b, T.FALSE, "the buffer"), no_leak(u, st)))


def u_dtor(u):
    fn = u.fn("Blob::~Blob()")
    for null in (False, True):
        r, b = mk(u, "v", null=null)
        u.run(fn, u.state(), [Ptr(r, 0)], lambda st: (released(u, st, b, b.clean, "the buffer"), owner_ok(u, st, r), no_leak(u, st)))


def u_dealloc(u):
    fn = u.fn("Blob::dealloc()")
    for null in (False, True):
        r, b = mk(u, "v", null=null)
        u.run(fn, u.state(), [Ptr(r, 0)], lambda st: (released(u, st, b, b.clean, "the buffer"), expect(u, st, get(u, st, r), empty(), "the object"), no_leak(u, st)))


def u_clear(u):
    fn = u.fn("Blob::clear()")
    r, b = mk(u, "v")
    u.run(fn, u.state(), [Ptr(r, 0)], lambda st: (released(u, st, b, T.FALSE, "the buffer"), expect(u, st, get(u, st, r), empty(), "the object"), no_leak(u, st)))


def u_assign(u):
    fn = u.fn("Blob::operator=(Blob&)")
    for what, an, bn, sh in sharings(u):
        ra, a, rb, b, st = pair(u, an, bn, sh)

        def post(st):
            expect(u, st, get(u, st, ra), B(b.ptr, b.len, b.type, T.FALSE), "the assigned object")
            expect(u, st, get(u, st, rb), b, "the source")
            released(u, st, a, a.clean, "the overwritten buffer")
            if not sh:
                released(u, st, b, T.FALSE, "the source's buffer")
            owner_ok(u, st, ra)
            owner_ok(u, st, rb, "the source")
            no_leak(u, st)
            u.ex.oblig(st, u.ex.ptr_eq(st, st.ret, Ptr(ra, 0)), "returns the object")
        u.run(fn, st, [Ptr(ra, 0), Ptr(rb, 0)], post)


def u_self(name):
    def f(u):
        fn = u.fn(name)
        for null in (False, True):
            r, b = mk(u, "v", null=null)
            u.run(fn, u.state(), [Ptr(r, 0), Ptr(r, 0)], lambda st: (expect(u, st, get(u, st, r), b, "a self-assigned object"), released(u, st, b, T.FALSE, "the buffer"), no_leak(u, st)))
    return f


def u_moveassign(u):
    fn = u.fn("Blob::operator=(Blob&&)")
    for what, an, bn, sh in sharings(u):
        ra, a, rb, b, st = pair(u, an, bn, sh)

        def post(st):
            expect(u, st, get(u, st, ra), b, "the assigned object")
            expect(u, st, get(u, st, rb), empty(), "the source")
            released(u, st, a, a.clean, "the overwritten buffer")
            if not sh:
                released(u, st, b, T.FALSE, "the source's buffer")
            owner_ok(u, st, ra)
            no_leak(u, st)
            u.ex.oblig(st, u.ex.ptr_eq(st, st.ret, Ptr(ra, 0)), "returns the object")
        u.run(fn, st, [Ptr(ra, 0), Ptr(rb, 0)], post)


def u_setters(u):
    ex = u.ex
    r, b = mk(u, "v")
    nt, nc = ex.var("new.type", 0, 2 ** 32 - 1), T.var("new.clean", "Bool")
    u.run(u.fn("Blob::set_type"), u.state(), [Ptr(r, 0), nt], lambda st: (expect(u, st, get(u, st, r), B(b.ptr, b.len, nt, b.clean), "set_type"), ex.oblig(st, T.eq(st.ret, b.type), "set_type returns the old type"), released(u, st, b, T.FALSE, "the buffer")))
    u.run(u.fn("Blob::set_clean"), u.state(), [Ptr(r, 0), nc], lambda st: (expect(u, st, get(u, st, r), B(b.ptr, b.len, b.type, nc), "set_clean"), ex.oblig(st, same_bool(st.ret, b.clean), "set_clean returns the old ownership"), released(u, st, b, T.FALSE, "the buffer")))


def u_getters(u):
    ex = u.ex
    r, b = mk(u, "v")
    def unchanged(st):
        expect(u, st, get(u, st, r), b, "the object")
        released(u, st, b, T.FALSE, "the buffer")
    u.run(u.fn("Blob::data"), u.state(), [Ptr(r, 0)], lambda st: (unchanged(st), ex.oblig(st, ex.ptr_eq(st, st.ret, b.ptr), "data()")))
    u.run(u.fn("Blob::size"), u.state(), [Ptr(r, 0)], lambda st: (unchanged(st), ex.oblig(st, T.eq(st.ret, b.len), "size()")))
    out = ex.new_region("out", "param", I(64), UninitBase())

    def post(st):
        unchanged(st)
        ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(out, 0), PTRT), b.ptr), "get: address")
        ex.oblig(st, T.eq(ex.load(st, Ptr(out, 8), I64), b.len), "get: length")
        ex.oblig(st, T.eq(ex.load(st, Ptr(out, 16), I32), b.type), "get: type")
    u.run(u.fn("Blob::get"), u.state(), [Ptr(r, 0), Ptr(out, 0), Ptr(out, 8), Ptr(out, 16)], post)
    u.run(u.fn("Blob::get"), u.state(), [Ptr(r, 0), NULL, NULL, NULL], unchanged)


def wire(u, name, n):
    """buffer holding a packed value of n bytes at offset 0"""
    ex = u.ex
    return ex.new_region(name, "param", None, UFBase(name))


def u_unpack(copy):
    def f(u):
        ex = u.ex
        fn = u.fn("Blob::unpack")
        for null in (False, True):
            for ty in (T.TRUE, T.FALSE):
                r, b = mk(u, "v", null=null)
                src = wire(u, "src", None)
                cur = ex.new_region("cur", "param", I(8), StructBase("cur", {0: (PTRT, Ptr(src, 0))}))
                st = u.state()
                n = ex.load(st, Ptr(src, 0), I64)
                ex.assume(st, T.le(n, 2 ** 40))

                def post(st):
                    released(u, st, b, b.clean, "the overwritten buffer")
                    wt = b.type if ty is T.FALSE else ex.load(st, Ptr(src, T.add(n, 8)), I32)
                    g = get(u, st, r)
                    if copy is T.TRUE:
                        copied(u, st, r, Ptr(src, 8), n, wt, False)
                    else:
                        expect(u, st, g, B(Ptr(src, 8), n, wt, T.FALSE), "the view")
                        no_leak(u, st)
                    end = T.add(n, 8 if ty is T.FALSE else 12)
                    ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(cur, 0), PTRT), Ptr(src, end)), "the cursor moves behind the value")
                    ex.oblig(st, ex.ptr_eq(st, st.ret, Ptr(src, end)), "the new cursor is returned")
                    owner_ok(u, st, r)
                u.run(fn, st, [Ptr(r, 0), Ptr(cur, 0), ty, copy], post)
    return f


def u_unpack_ref(u):
    ex = u.ex
    fn = u.fn("Blob::unpack_ref")
    for null in (False, True):
        for ty in (T.TRUE, T.FALSE):
            r, b = mk(u, "v", null=null)
            src = wire(u, "src", None)
            cur = ex.new_region("cur", "param", I(8), StructBase("cur", {0: (PTRT, Ptr(src, 0))}))

            def post(st):
                released(u, st, b, b.clean, "the overwritten buffer")
                wt = b.type if ty is T.FALSE else ex.load(st, Ptr(src, 16), I32)
                expect(u, st, get(u, st, r), B(ex.load(st, Ptr(src, 0), PTRT), ex.load(st, Ptr(src, 8), I64), wt, T.FALSE), "the reference")
                ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(cur, 0), PTRT), Ptr(src, 16 if ty is T.FALSE else 20)), "the cursor moves behind the reference")
                no_leak(u, st)
            u.run(fn, u.state(), [Ptr(r, 0), Ptr(cur, 0), ty], post)
            # no source: nothing happens
            cur0 = ex.new_region("cur0", "param", I(8), StructBase("cur0", {0: (PTRT, NULL)}))
            u.run(fn, u.state(), [Ptr(r, 0), Ptr(cur0, 0), ty], lambda st: (expect(u, st, get(u, st, r), b, "the object"), released(u, st, b, T.FALSE, "the buffer")))


def u_pack(u):
    """packing neither releases nor takes anything"""
    ex = u.ex
    fn = u.fn("Blob::pack")
    for null in (False, True):
        for ty in (T.TRUE, T.FALSE):
            r, b = mk(u, "v", null=null)
            dst = ex.new_region("dst", "param", T.add(b.len, 12 if ty is T.TRUE else 8), UFBase("dst"))
            cur = ex.new_region("cur", "param", I(8), StructBase("cur", {0: (PTRT, Ptr(dst, 0))}))

            def post(st):
                expect(u, st, get(u, st, r), b, "the object")
                released(u, st, b, T.FALSE, "the buffer")
                no_leak(u, st)
            st = u.state()
            u.run(fn, st, [Ptr(r, 0), Ptr(cur, 0), ty], post)


def u_helpers(u):
    fn = u.fn("ReferenceBlob")
    r, b = mk(u, "v")
    t = raw(u)
    u.run(fn, u.state(), [Ptr(t, 0), b.ptr, b.len, b.type], lambda st: (expect(u, st, get(u, st, t), B(b.ptr, b.len, b.type, T.FALSE), "ReferenceBlob"), released(u, st, b, T.FALSE, "the buffer"), no_leak(u, st, t)))
    fn = u.fn("RealBlob(void*, unsigned long, hxhim_data_t)")
    t2 = raw(u)
    u.run(fn, u.state(), [Ptr(t2, 0), b.ptr, b.len, b.type], lambda st: (expect(u, st, get(u, st, t2), B(b.ptr, b.len, b.type, T.TRUE), "RealBlob"), released(u, st, b, T.FALSE, "the buffer"), no_leak(u, st, t2)))
    fn = u.fn("RealBlob(unsigned long, void const*, hxhim_data_t)")
    t3 = raw(u)
    u.run(fn, u.state(), [Ptr(t3, 0), b.len, b.ptr, b.type], lambda st: (released(u, st, b, T.FALSE, "the source"), copied(u, st, t3, b.ptr, b.len, b.type, False)))


def u_memory(u):
    ex = u.ex
    n = ex.var("n", 0, 2 ** 40)

    def post(st):
        p = ex.resolve(st.ret)
        if isinstance(p, Ptr):
            ex.oblig(st, T.eq(p.r.size, n), "alloc returns a buffer of the requested size")
            ex.oblig(st, T.B(len(st.heap) == 1 and p.r in st.heap), "one allocation")
        else:
            ex.oblig(st, T.and_(T.eq(n, 0), T.B(isnull(p))), "alloc returns null only for no bytes")
            ex.oblig(st, T.B(not [h for h in st.heap if h not in st.dead]), "nothing is lost")
    u.run(u.fn("alloc"), u.state(), [n], post)
    buf = ex.new_region("buf", "heap", n, UFBase("buf"))
    u.run(u.fn("dealloc"), u.state(), [Ptr(buf, 0)], lambda st: ex.oblig(st, T.B(buf in st.dead), "dealloc releases the buffer"))
    u.run(u.fn("dealloc"), u.state(), [NULL], lambda st: ex.oblig(st, T.B(not st.dead), "dealloc of null does nothing"))


UNITS = [Unit("alloc/dealloc", u_memory), Unit("Blob(ptr,len,type,clean)", u_ctor), Unit("Blob(len,ptr,type)", u_copyctor), Unit("Blob(Blob&)", u_refctor),
         Unit("Blob(Blob&&)", u_movector), Unit("~Blob", u_dtor), Unit("Blob::dealloc", u_dealloc), Unit("Blob::clear", u_clear),
         Unit("Blob::operator=(Blob&)", u_assign), Unit("Blob::operator=(Blob&) self", u_self("Blob::operator=(Blob&)")),
         Unit("Blob::operator=(Blob&&)", u_moveassign), Unit("Blob::operator=(Blob&&) self", u_self("Blob::operator=(Blob&&)")),
         Unit("Blob setters", u_setters), Unit("Blob getters", u_getters), Unit("Blob::unpack(copy)", u_unpack(T.TRUE)), Unit("Blob::unpack(view)", u_unpack(T.FALSE)),
         Unit("Blob::unpack_ref", u_unpack_ref), Unit("Blob::pack", u_pack), Unit("ReferenceBlob/RealBlob", u_helpers)]
