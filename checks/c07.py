"""C07: hash destinations are valid and depend only on the data (src/hxhim/hash.cpp)."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS

SOURCES = ["src/hxhim/hash.cpp", "src/hxhim/accessors.cpp"]


def struct_off(prog, path, mod=None):
    pass


def setup(u, want_rank=False):
    ex = u.ex
    count = ex.var("datastores", 1, 2 ** 31 - 1)
    rank = ex.var("rank", 0, 2 ** 31 - 1)
    ns, np = ex.var("subject_len", 0, 2 ** 31 - 1), ex.var("predicate_len", 0, 2 ** 31 - 1)
    subj = ex.new_region("subject", "param", ns, UFBase("subject"))
    pred = ex.new_region("predicate", "param", np, UFBase("predicate"))
    hx = ex.new_region("hx", "param", None, UFBase("hx"))

    def get_count(ex, st, a):
        if not isnull(a[1]):
            ex.store(st, a[1], count, I64)
        return I0

    def get_mpi(ex, st, a):
        if not isnull(a[1]):
            ex.store(st, a[1], ex.fresh("comm", 0, 2 ** 64 - 1), I64)
        if not isnull(a[2]):
            ex.store(st, a[2], rank, I32)
        if not isnull(a[3]):
            ex.store(st, a[3], ex.fresh("size", 1, 2 ** 31 - 1), I32)
        ex.assumed_rank = True
        return I0
    ex.contracts["hxhim::nocheck::GetDatastoreCount(hxhim*, unsigned long*)"] = get_count
    ex.contracts["hxhim::nocheck::GetMPI(hxhim*, ompi_communicator_t**, int*, int*)"] = get_mpi
    ex.contracts["hxhim::nocheck::GetDatastoreCount"] = get_count
    ex.contracts["hxhim::nocheck::GetMPI"] = get_mpi
    ex.opaque_bits = True
    ex.assumed_rank = False
    return count, rank, subj, pred, hx, ns, np


DATA = ["SumModDatastores", "uthash_BER", "uthash_SAX", "uthash_FNV", "uthash_OAT", "uthash_JEN", "uthash_SFH"]


def mk(name, data):
    def f(u):
        ex = u.ex
        fn = u.fn("hxhim_hash_" + name)
        count, rank, subj, pred, hx, ns, np = setup(u)
        st = u.state()
        args = [Ptr(hx, 0), Ptr(subj, 0), ns, Ptr(pred, 0), np, NULL]

        def post(st):
            ex.oblig(st, T.lt(st.ret, count), "destination below the number of datastores")
            ex.oblig(st, T.le(0, st.ret), "destination is not negative")
            for r in (subj, pred, hx):
                ex.oblig(st, T.B(st.mem.get(r) is None), "arguments are not written")
        u.run(fn, st, args, post)
        if data:
            # frame on reads: nothing but the bytes, the lengths and the datastore count
            s0 = u.state()
            allowed = {subj, pred}
            bad = [r.name for r in ex.reads if r not in allowed and r.kind not in ("stack", "const")]
            ex.oblig(s0, T.B(not bad), "reads only the subject and predicate" + ("" if not bad else " (also reads %s)" % bad), where=name)
            ex.oblig(s0, T.B(not any(r in ex.addrs for r in (subj, pred, hx))), "result does not depend on addresses", where=name)
            ex.oblig(s0, T.B(not ex.assumed_rank), "result does not depend on the rank", where=name)
    return f


def u_null(name):
    """zero-length keys may come with a null pointer"""
    def f(u):
        ex = u.ex
        fn = u.fn("hxhim_hash_" + name)
        count, rank, subj, pred, hx, ns, np = setup(u)
        st = u.state()
        u.run(fn, st, [Ptr(hx, 0), NULL, I0, NULL, I0, NULL], lambda st: ex.oblig(st, T.lt(st.ret, count), "destination below the number of datastores (empty key)"))
    return f


def u_accessor(u):
    ex = u.ex
    fn = u.fn("hxhim::nocheck::GetDatastoreCount")
    p = ex.new_region("hx->p", "param", None, UFBase("hxp"))
    hx = ex.new_region("hx", "param", I(8), StructBase("hx", {0: (PTRT, Ptr(p, 0))}))
    out = ex.new_region("count", "param", I(8), UFBase("out"))
    st = u.state()

    def post(st):
        v = ex.load(st, Ptr(out, 0), I64)
        ex.oblig(st, T.B(v.op == "app:m8.hxp"), "GetDatastoreCount copies one field of the instance")
        ex.oblig(st, T.eq(st.ret, ex.success), "GetDatastoreCount succeeds")
    ex.success = I(HXHIM_SUCCESS)
    u.run(fn, st, [Ptr(hx, 0), Ptr(out, 0)], post)


HXHIM_SUCCESS = 3

UNITS = [Unit("hxhim_hash_" + n, mk(n, True)) for n in DATA]
UNITS += [Unit("hxhim_hash_DatastoreZero", mk("DatastoreZero", True)), Unit("hxhim_hash_RankModDatastores", mk("RankModDatastores", False))]
UNITS += [Unit("hxhim_hash_%s (empty)" % n, u_null(n)) for n in DATA]
UNITS.append(Unit("GetDatastoreCount", u_accessor))


def u_wrapper(u):
    """hxhim_hash hands its arguments to the configured function unchanged"""
    ex = u.ex
    fn = u.fn("hxhim_hash")
    got = []
    res = ex.var("dst", -2 ** 31, 2 ** 31 - 1)

    def get_hash(ex, st, a):
        ex.store(st, a[2], FuncPtr("verif.hash", fn.module), PTRT)
        ex.store(st, a[3], Ptr(args, 0), PTRT)
        return I(HXHIM_SUCCESS)

    def called(ex, st, a):
        got.append(list(a))
        return T.mod(res, I(2 ** 32))
    ex.contracts["hxhim::nocheck::GetHash"] = get_hash
    ex.contracts["verif.hash"] = called
    hx, s, p, args = [ex.new_region(n, "param", None, UFBase(n)) for n in ("hx", "subject", "predicate", "args")]
    ns, np = ex.var("subject_len", 0, 2 ** 64 - 1), ex.var("predicate_len", 0, 2 ** 64 - 1)
    want = [Ptr(hx, 0), Ptr(s, 0), ns, Ptr(p, 0), np, Ptr(args, 0)]

    def post(st):
        ex.oblig(st, T.eq(st.ret, T.mod(res, I(2 ** 32))), "returns what the configured hash returned")
    u.run(fn, u.state(), [Ptr(hx, 0), Ptr(s, 0), ns, Ptr(p, 0), np], post)
    same = len(got) == 1 and all((x.r is y.r and x.off == y.off) if isinstance(y, Ptr) else x is y for x, y in zip(got[0], want))
    ex.oblig(u.state(), T.B(same), "the configured hash gets the caller's arguments, once", where="hxhim_hash")


UNITS.append(Unit("hxhim_hash", u_wrapper))
HARNESSES = [Harness("c07.cpp", full_sources(), FULL_LIBS, opt="-O0", san=["-fsanitize=address"], budget=6)]
