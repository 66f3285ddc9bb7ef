"""C14: batches respect limits and lose nothing (src/hxhim/ops)."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from checks.queues import *
from checks import queues

SOURCES = queues.SOURCES
HARNESSES = [Harness("c14.cpp", full_sources(), FULL_LIBS, opt="-O0", san=["-fsanitize=address"], budget=8)]


def u_impl(cls):
    """GetImpl, GetOpImpl, DeleteImpl: hash, then one more operation in the hash's queue"""
    def f(u):
        ex = u.ex
        name = {ReqGet: "Get", ReqGetOp: "GetOp", ReqDelete: "Delete"}[cls]
        fn = u.fn("hxhim::%sImpl" % name)
        s = Session(u)
        q = Queue(s, cls, {ReqGet: "gets", ReqGetOp: "getops", ReqDelete: "deletes"}[cls])
        st = u.state()
        q.pre(st)
        sp, sb = blob_arg(u, s, "subject")
        pp, pb = blob_arg(u, s, "predicate")
        args, nums = [Ptr(s.hx, 0), q.ptr, sp, pp], {}
        if cls is not ReqDelete:
            t = ex.var("object_type", 0, 2 ** 32 - 1)
            args.append(t)
            nums["object_types"] = (I32, t)
        if cls is ReqGetOp:
            k, op = ex.var("num_records", 0, 2 ** 64 - 1), ex.var("query", 0, 2 ** 32 - 1)
            args += [k, op]
            nums["num_recs"], nums["ops"] = (I64, k), (I32, op)
        d = s.hash("subject", "predicate")

        def post(st):
            ex.oblig(st, T.eq(st.ret, T.ite(T.lt(d, 0), u.const("hx_error"), u.const("hx_success"))), "an error exactly if the hash rejects the pair")
            if ex.decide(st, T.lt(d, 0)):
                q.untouched(st)
                return
            q.check(st, d, {"subjects": sb, "predicates": pb}, nums, {} if cls is ReqGetOp else {"subjects": sb.ptr, "predicates": pb.ptr})
        u.run(fn, st, args, post)
    return f


def u_hist(u):
    ex = u.ex
    fn = u.fn("hxhim::HistogramImpl")
    s = Session(u)
    q = Queue(s, ReqHist, "histograms")
    st = u.state()
    q.pre(st)
    d = ex.var("id", 0, 2 ** 31 - 1)
    ex.assume(st, T.lt(d, s.total))
    n = ex.var("name.len", 0, 2 ** 40)
    for null in (False, True):
        p = NULL if null else Ptr(ex.new_region("name", "param", n, UFBase("name")), 0)
        u.run(fn, st.clone(), [Ptr(s.hx, 0), q.ptr, d, p, n], lambda st: (ex.oblig(st, T.eq(st.ret, u.const("hx_success")), "queueing succeeds"),
              q.check(st, d, {"names": B(p, n, I(u.const("type_byte")), None)}, {}, {})))


UNITS = [Unit("HistogramImpl", u_hist), Unit("PutImpl", u_put, budget=300)] + [Unit("%sImpl" % n, u_impl(c)) for n, c in (("Get", ReqGet), ("GetOp", ReqGetOp), ("Delete", ReqDelete))]
UNITS += [Unit(call_name(*x), u_call(*x)) for x in CALLS]
UNITS += [Unit("alloc_array<unsigned long>(count, value)", u_filled)]
