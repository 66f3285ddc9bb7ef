"""C06: placement maps are mutually inverse (src/hxhim/Datastore.cpp, RangeServer.cpp)."""
from engine.session import *

SOURCES = ["src/hxhim/Datastore.cpp", "src/hxhim/RangeServer.cpp"]
M32 = 2 ** 32
IMAX = 2 ** 31 - 1
NEG1 = M32 - 1


def pre(u):
    ex = u.ex
    c = ex.var("client", 0, 2 ** 64 - 1)
    s = ex.var("server", 0, 2 ** 64 - 1)
    d = ex.var("per_server", 0, 2 ** 64 - 1)
    return c, s, d


def dv(ex, a, b):
    ex.axioms.setdefault("udiv", udiv_axiom)
    ex.axioms.setdefault("urem", urem_axiom)
    return T.app("udiv", (a, b)), T.app("urem", (a, b))


def rank_of(ex, rs, c, s):
    """spec: block placement of range server rs"""
    q, r = dv(ex, rs, s)
    return T.ite(T.le(c, s), rs, T.add(T.mul(q, c), r))


def neg(x):
    return T.le(2 ** 31, x)


def u_ds_get_rank(u):
    ex = u.ex
    fn = u.fn("hxhim::Datastore::get_rank(int, unsigned long, unsigned long, unsigned long)")
    c, s, d = pre(u)
    idv = ex.var("id", 0, M32 - 1)
    bad = T.or_(neg(idv), T.eq(c, 0), T.eq(s, 0), T.eq(d, 0))
    rs, _ = dv(ex, idv, d)
    want = rank_of(ex, rs, c, s)
    st = u.state()
    ex.assume(st, T.or_(bad, T.le(want, IMAX)))     # the rank is an int

    def post(st):
        if ex.decide(st, bad):
            ex.oblig(st, T.eq(st.ret, NEG1), "get_rank: invalid argument gives -1")
        else:
            ex.oblig(st, T.eq(st.ret, want), "get_rank: result is the spec rank")
    u.run(fn, st, [idv, c, s, d], post)


def u_ds_get_id(u):
    ex = u.ex
    fn = u.fn("hxhim::Datastore::get_id(int, unsigned long, unsigned long, unsigned long, unsigned long)")
    c, s, d = pre(u)
    rank = ex.var("rank", 0, M32 - 1)
    off = ex.var("offset", 0, 2 ** 64 - 1)
    q, r = dv(ex, rank, c)
    rs = T.ite(T.le(c, s), rank, T.add(T.mul(q, s), r))
    bad = T.or_(neg(rank), T.eq(c, 0), T.eq(s, 0), T.eq(d, 0), T.le(d, off), T.and_(T.lt(s, c), T.le(s, r)))
    # spec in both cases, spelled out so that products stay products
    w1 = T.add(T.mul(rank, d), off)
    w2 = T.add(T.mul(T.add(T.mul(q, s), r), d), off)
    st = u.state()
    ex.assume(st, T.or_(bad, T.and_(T.implies(T.le(c, s), T.le(w1, IMAX)), T.implies(T.lt(s, c), T.and_(T.le(w2, IMAX), T.le(T.add(T.mul(q, s), r), IMAX))))))

    def post(st):
        if ex.decide(st, bad):
            ex.oblig(st, T.eq(st.ret, NEG1), "get_id: not a server / invalid argument gives -1")
        elif ex.decide(st, T.le(c, s)):
            ex.oblig(st, T.eq(st.ret, w1), "get_id: result is the spec id (every rank serves)")
        else:
            ex.oblig(st, T.eq(st.ret, w2), "get_id: result is the spec id (blocks)")
    u.run(fn, st, [rank, off, c, s, d], post)


def u_ds_get_rank_sized(u):
    ex = u.ex
    fn = u.fn("hxhim::Datastore::get_rank(int, int, unsigned long, unsigned long, unsigned long)")
    c, s, d = pre(u)
    idv = ex.var("id", 0, M32 - 1)
    size = ex.var("size", 1, IMAX)
    bad = T.or_(neg(idv), T.eq(c, 0), T.eq(s, 0), T.eq(d, 0))
    rs, _ = dv(ex, idv, d)
    want = rank_of(ex, rs, c, s)
    st = u.state()
    ex.assume(st, T.or_(bad, T.le(want, IMAX)))

    def post(st):
        if ex.decide(st, T.or_(bad, T.le(size, want))):
            ex.oblig(st, T.eq(st.ret, NEG1), "get_rank(size): outside the world gives -1")
        else:
            ex.oblig(st, T.eq(st.ret, want), "get_rank(size): result is the spec rank")
    u.run(fn, st, [idv, size, c, s, d], post)


def u_ds_get_id_sized(u):
    ex = u.ex
    fn = u.fn("hxhim::Datastore::get_id(int, unsigned long, int, unsigned long, unsigned long, unsigned long)")
    c, s, d = pre(u)
    rank = ex.var("rank", 0, M32 - 1)
    off = ex.var("offset", 0, 2 ** 64 - 1)
    size = ex.var("size", 1, IMAX)
    q, r = dv(ex, rank, c)
    w1 = T.add(T.mul(rank, d), off)
    w2 = T.add(T.mul(T.add(T.mul(q, s), r), d), off)
    bad = T.or_(neg(rank), T.le(size, rank), T.eq(c, 0), T.eq(s, 0), T.eq(d, 0), T.le(d, off), T.and_(T.lt(s, c), T.le(s, r)))
    st = u.state()
    ex.assume(st, T.or_(bad, T.and_(T.implies(T.le(c, s), T.le(w1, IMAX)), T.implies(T.lt(s, c), T.and_(T.le(w2, IMAX), T.le(T.add(T.mul(q, s), r), IMAX))))))

    def post(st):
        if ex.decide(st, bad):
            ex.oblig(st, T.eq(st.ret, NEG1), "get_id(size): not a server / outside the world gives -1")
        elif ex.decide(st, T.le(c, s)):
            ex.oblig(st, T.eq(st.ret, w1), "get_id(size): result is the spec id (every rank serves)")
        else:
            ex.oblig(st, T.eq(st.ret, w2), "get_id(size): result is the spec id (blocks)")
    u.run(fn, st, [rank, off, size, c, s, d], post)


def mk_rs(which, with_size):
    def f(u):
        ex = u.ex
        sz = ", int" if with_size else ""
        fn = u.fn("hxhim::RangeServer::%s(int%s, unsigned long, unsigned long)" % (which, sz))
        c, s, _ = pre(u)
        x = ex.var("x", 0, M32 - 1)
        size = ex.var("size", 1, IMAX)
        bad = T.or_(neg(x), T.eq(c, 0), T.eq(s, 0))
        st = u.state()
        if which == "get_rank":
            want = rank_of(ex, x, c, s)
            ex.assume(st, T.or_(bad, T.le(want, IMAX)))
            if with_size:
                bad = T.or_(bad, T.le(size, want))
        else:
            q, r = dv(ex, x, c)
            if with_size:
                bad = T.or_(bad, T.le(size, x))
            if which == "get_id":
                bad = T.or_(bad, T.and_(T.lt(s, c), T.le(s, r)))
                want = T.ite(T.le(c, s), x, T.add(T.mul(q, s), r))
                ex.assume(st, T.or_(bad, T.le(want, IMAX)))
            else:
                want = T.ite(T.lt(r, s), 1, 0)

        def post(st):
            if ex.decide(st, bad):
                ex.oblig(st, T.eq(st.ret, NEG1), "RangeServer::%s: -1 where there is no answer" % which)
            else:
                ex.oblig(st, T.eq(st.ret, want), "RangeServer::%s: result is the spec value" % which)
        u.run(fn, st, [x] + ([size] if with_size else []) + [c, s], post)
    return f


def u_lemma(u):
    """the spec functions are mutually inverse"""
    ex = u.ex
    n = lambda nm, lo=0: ex.var(nm, lo, None)
    # Euclidean division is unique
    b, q1, q2, r1, r2, k = n("b", 1), n("q1"), n("q2"), n("r1"), n("r2"), n("k")
    u.lemma("product of non-negatives is non-negative", T.le(0, T.mul(k, b)))
    hint = lambda x, y: T.implies(T.lt(y, x), T.le(0, T.mul(T.sub(T.sub(x, y), 1), b)))
    uniq = [T.lt(r1, b), T.lt(r2, b), T.eq(T.add(T.mul(q1, b), r1), T.add(T.mul(q2, b), r2)), hint(q1, q2), hint(q2, q1)]
    u.lemma("Euclidean division is unique", T.and_(T.eq(q1, q2), T.eq(r1, r2)), uniq)

    def euclid(a, m, q, r):
        """instance of the lemma: a == q*m + r with 0 <= r < m"""
        dq, dr = dv(ex, a, m)
        return T.implies(T.and_(T.eq(a, T.add(T.mul(q, m), r)), T.le(0, r), T.lt(r, m)), T.and_(T.eq(dq, q), T.eq(dr, r)))
    c, s, d = n("c", 1), n("s", 1), n("d", 1)
    idv, rank, off = n("id"), n("rank"), n("off")
    # 1. id -> rank -> id
    rs, o = dv(ex, idv, d)
    qs, rr = dv(ex, rs, s)
    R = T.add(T.mul(qs, c), rr)
    q, r = dv(ex, R, c)
    f1 = [T.lt(s, c), euclid(R, c, qs, rr), T.le(0, qs)]
    u.lemma("rank of an id is a server rank", T.lt(r, s), f1)
    f1b = f1 + [T.eq(q, qs), T.eq(r, rr)]
    u.lemma("rank of an id decomposes into its block", T.and_(T.eq(q, qs), T.eq(r, rr)), f1)
    u.lemma("range server of the rank is the id's range server", T.eq(T.add(T.mul(qs, s), rr), rs), f1)
    x = n("x")
    u.lemma("rs*d + offset is the id", T.eq(T.add(T.mul(rs, d), o), idv))
    u.lemma("offset is below datastores per server", T.and_(T.le(0, o), T.lt(o, d)))
    # 2. (rank, off) -> id -> rank
    q, r = dv(ex, rank, c)
    rsv = T.add(T.mul(q, s), r)
    rv = n("rsv")
    ID = T.add(T.mul(rv, d), off)
    iq, ir = dv(ex, ID, d)
    u.lemma("the id's range server and offset are those it was made from", T.and_(T.eq(iq, rv), T.eq(ir, off)), [T.lt(off, d), euclid(ID, d, rv, off)])
    q2, r2 = dv(ex, rsv, s)
    u.lemma("the range server's block and offset are those of the rank", T.and_(T.eq(q2, q), T.eq(r2, r)), [T.lt(r, s), euclid(rsv, s, q, r)])
    u.lemma("mapping back gives the rank", T.eq(T.add(T.mul(q, c), r), rank), [])


UNITS = [Unit("Datastore::get_rank", u_ds_get_rank), Unit("Datastore::get_id", u_ds_get_id),
         Unit("Datastore::get_rank(size)", u_ds_get_rank_sized), Unit("Datastore::get_id(size)", u_ds_get_id_sized)]
for w in ("is_range_server", "get_rank", "get_id"):
    for z in (False, True):
        UNITS.append(Unit("RangeServer::%s%s" % (w, "(size)" if z else ""), mk_rs(w, z)))
UNITS.append(Unit("placement inverse lemma", u_lemma, "lemma"))
from engine.harness import *
HARNESSES = [Harness("c06.cpp", full_sources(), FULL_LIBS, budget=2)]
ASSUMPTIONS = ["IDs and ranks handed in and their images fit a non-negative int (the property's quantifier)"]
