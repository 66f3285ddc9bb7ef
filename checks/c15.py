"""C15: results mirror responses one for one, in order."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from checks.results import *
from checks import results

SOURCES = results.SOURCES
HARNESSES = [Harness("c15.cpp", full_sources(), FULL_LIBS, opt="-O0", san=["-fsanitize=address"], budget=8)]


# ------------------------------------------------------------------ the list
class Grown(RegionInv):
    """list elements from position `at` on are node(0), node(1), ..., one more per iteration; those before stay"""

    def __init__(self, at, node):
        self.at, self.node = at, node

    def produce(self, ex, st, r, it, entry):
        def content(ex, s, d, size, ty):
            q = T.div(d, 8)
            return self.node(q)
        ex.put(st, r, Node(entry, "G", T.mulc(self.at, 8), T.mulc(it, 8), content))

    def check(self, ex, st, r, it, entry, head):
        k = ex.fresh("k", 0, None)
        s2 = st.clone()
        ex.assume(s2, T.lt(k, it))
        if ex.feasible(s2):
            ex.with_forks([s2], lambda s: ex.oblig(s, ex.ptr_eq(s, ex.load(s, Ptr(r, T.mulc(T.add(self.at, k), 8)), PTRT), self.node(k)), "every record is appended, in order"))
        k2 = ex.fresh("k", 0, None)
        s2 = st.clone()
        ex.assume(s2, T.lt(k2, self.at))
        if ex.feasible(s2):
            ex.with_forks([s2], lambda s: ex.oblig(s, ex.ptr_eq(s, ex.load(s, Ptr(r, T.mulc(k2, 8)), PTRT), ex.read(s, r, entry, T.mulc(k2, 8), 8, PTRT)), "results already in the list stay where they are"))


def u_add(u):
    """Results::Add: nothing for no result, one entry for a result, one per record of a GETOP"""
    ex = u.ex
    fn = u.fn("hxhim::Results::Add")
    deque_by_contract(u)
    # nothing
    r = Results(u)
    st = u.state()
    r.pre(st)

    def none(st):
        ex.oblig(st, T.eq(r.now(st).n, r.n), "no result, no entry")
        r.kept(st)
    u.run(fn, st, [Ptr(r.r, 0), NULL], none)
    # one
    r = Results(u, "r1")
    st = u.state()
    r.pre(st)
    op = ex.var("op", 0, 2 ** 32 - 1)
    ex.assume(st, T.ne(op, u.const("op_getop")))
    x = ex.new_region("result", "param", None, StructBase("result", {u.const("off_res_op"): (I32, op)}))

    def one(st):
        ex.oblig(st, T.eq(r.now(st).n, T.add(r.n, 1)), "one result, one entry")
        ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(r.now(st).r, T.mulc(r.n, 8)), PTRT), Ptr(x, 0)), "the result is appended")
        r.kept(st)
    u.run(fn, st, [Ptr(r.r, 0), Ptr(x, 0)], one)
    # the records of a GETOP
    r = Results(u, "r2")
    st = u.state()
    r.pre(st)
    m = ex.var("records", 1, 2 ** 40)

    def node(k):
        k = T.toint(k)
        last = lambda ex, st: Ptr(node(T.add(k, 1)), 0) if ex.decide(st, T.lt(T.add(k, 1), m)) else NULL
        return ex.family("node", k, I(4096), StructBase("node", {u.const("off_res_op"): (I32, I(u.const("op_getop"))), u.const("off_res_getop_next"): (PTRT, last)}), kind="pheap")

    class Spec(LoopSpec):
        def region_inv(self, ex, st, q):
            return Grown(r.n, lambda k: Ptr(node(k), 0)) if q is r.seq else None

        def facts(self, ex, st, it):
            return [T.le(it, m)]

        def pointer(self, ex, st, key, v0):
            return Chain(lambda ex, st, it: Ptr(node(it), 0), m) if isinstance(v0, Ptr) and v0.r.fam == "node" else None
    ex.loopspec = lambda ex, st, f, L: Spec()

    def all_(st):
        s = r.now(st)
        ex.oblig(st, T.eq(s.n, T.add(r.n, m)), "as many entries as records")
        Grown(r.n, lambda k: Ptr(node(k), 0)).check(ex, st, s.r, m, None, None)
    u.run(fn, st, [Ptr(r.r, 0), Ptr(node(I0), 0)], all_)


def u_append(u):
    ex = u.ex
    fn = u.fn("hxhim::Results::Append")
    deque_by_contract(u)
    r, o = Results(u, "r"), Results(u, "o")
    st = u.state()
    r.pre(st)
    o.pre(st)

    def post(st):
        s = r.now(st)
        ex.oblig(st, T.eq(s.n, T.add(r.n, o.n)), "as many entries as both lists had")
        r.kept(st)
        k = ex.fresh("k", 0, None)
        s2 = st.clone()
        ex.assume(s2, T.lt(k, o.n))
        if ex.feasible(s2):
            ex.with_forks([s2], lambda t: ex.oblig(t, ex.ptr_eq(t, ex.load(t, Ptr(s.r, T.mulc(T.add(r.n, k), 8)), PTRT), o.element(k)), "the other list's entries follow in order"))
        ex.oblig(st, T.eq(o.now(st).n, 0), "the other list is empty afterwards: each result has one owner")
    u.run(fn, st, [Ptr(r.r, 0), Ptr(o.r, 0)], post)
    r = Results(u, "r'")
    st = u.state()
    r.pre(st)

    def post(st):
        ex.oblig(st, T.eq(r.now(st).n, r.n), "nothing to append")
        r.kept(st)
    u.run(fn, st, [Ptr(r.r, 0), NULL], post)


OK, ERR = "hx_success", "hx_error"


def is_true(v):
    return v if v.sort == "Bool" else T.ne(v, 0)


def u_walk(u):
    """Size, GoToHead, ValidIterator, GoToNext, and their C wrappers"""
    ex = u.ex
    deque_by_contract(u)
    handle = lambda r: r.wrapped()
    this = lambda r: Ptr(r.r, 0)

    def go(name, arg, post, pre=None, extra=()):
        fn = u.fn(name)
        r = Results(u, "r.%d" % len(u.functions))
        st = u.state()
        r.pre(st)
        if pre:
            ex.assume(st, pre(r))

        def p(st):
            post(st, r)
            ex.oblig(st, T.eq(r.now(st).n, r.n), "walking does not change the list")
            r.kept(st)
        u.run(fn, st, [arg(r)] + list(extra), p)

    def at(st, r, p):
        pos = r.position(st)
        ex.oblig(st, ex.ptr_eq(st, pos, Ptr(r.seq, T.mulc(p, 8))), "the position in the list")
    code = lambda st, ok: ex.oblig(st, T.eq(st.ret, T.ite(ok, u.const(OK), u.const(ERR))), "success exactly if the position holds a result")
    go("hxhim::Results::Size", this, lambda st, r: ex.oblig(st, T.eq(st.ret, r.n), "the number of entries"))
    go("hxhim::Results::GoToHead", this, lambda st, r: at(st, r, I0))
    go("hxhim::Results::ValidIterator", this, lambda st, r: (ex.oblig(st, same_bool(is_true(st.ret), T.lt(r.p, r.n)), "valid exactly before the end"), at(st, r, r.p)))
    nxt = lambda r: T.ite(T.lt(r.p, r.n), T.add(r.p, 1), r.p)
    go("hxhim::Results::GoToNext", this, lambda st, r: at(st, r, nxt(r)))
    go("hxhim_results_goto_head", handle, lambda st, r: (at(st, r, I0), code(st, T.lt(0, r.n))))
    go("hxhim_results_goto_next", handle, lambda st, r: (at(st, r, nxt(r)), code(st, T.lt(nxt(r), r.n))))
    go("hxhim_results_valid_iterator", handle, lambda st, r: (at(st, r, r.p), code(st, T.lt(r.p, r.n))))
    go("hxhim_results_valid", handle, lambda st, r: code(st, T.TRUE))
    n = ex.new_region("size", "param", I(8), UninitBase())
    go("hxhim_results_size", handle, lambda st, r: (code(st, T.TRUE), ex.oblig(st, T.eq(ex.load(st, Ptr(n, 0), I64), r.n), "the number of entries")), extra=[Ptr(n, 0)])
    go("hxhim_results_size", handle, lambda st, r: code(st, T.TRUE), extra=[NULL])
    # no list
    bad = Ptr(ex.new_region("nothing", "param", I(u.const("size_cresults")), StructBase("nothing", {u.const("off_cresults_res"): (PTRT, NULL)})), 0)
    for f, k in (("goto_head", 0), ("goto_next", 0), ("valid_iterator", 0), ("valid", 0), ("size", 1)):
        for h in (NULL, bad):
            u.run(u.fn("hxhim_results_" + f), u.state(), [h] + [Ptr(n, 0)] * k, lambda st: ex.oblig(st, T.eq(st.ret, u.const(ERR)), "an error without a list"))


# ------------------------------------------------------------------ one result
VALUES = ("subject", "predicate", "object")


class Sample:
    """results whose every member is arbitrary"""

    def __init__(self, u, tag="r"):
        self.u, self.ex = u, u.ex
        ex = u.ex
        v = lambda f, hi=2 ** 32 - 1: lambda k: ex.setrange(T.app("%s.%s" % (tag, f), (T.toint(k),)), 0, hi) or T.app("%s.%s" % (tag, f), (T.toint(k),))
        self.op, self.status, self.rs = v("op"), v("status"), v("range_server")
        self.len = {x: v(x + ".len", 2 ** 40) for x in VALUES}
        self.type = {x: v(x + ".type") for x in VALUES}
        self.hist = lambda k: ex.family(tag + ".hist", T.toint(k), I(4096), UFBase(tag + ".hist"), kind="pheap")
        self.data = lambda x, k: ex.family("%s.%s.data" % (tag, x), T.toint(k), self.len[x](k), UFBase("data." + x), kind="pheap")
        self.r = Results(u, tag, fields=self.fields)

    def blob(self, x, k):
        return B(Ptr(self.data(x, k), 0), self.len[x](k), self.type[x](k), T.TRUE)

    def fields(self, k):
        u = self.u
        f = {u.const("off_res_op"): (I32, self.op(k)), u.const("off_res_status"): (I32, self.status(k)), u.const("off_res_range_server"): (I32, self.rs(k))}
        # a histogram result keeps its histogram where others keep their values
        hist = u.const("off_res_histogram")
        isb = lambda ex, st: ex.decide(st, T.eq(self.op(k), u.const("op_histogram")))
        for x in VALUES:
            at = u.const("off_res_" + x)
            for o, (ty, v) in fields(u, self.blob(x, k), at).items():
                if o == hist:
                    f[o] = (ty, lambda ex, st, v=v: Ptr(self.hist(k), 0) if isb(ex, st) else v)
                else:
                    f[o] = (ty, v)
        f.setdefault(hist, (PTRT, lambda ex, st: Ptr(self.hist(k), 0)))
        return f


def accessor(u, name, outs, allowed, what, ptrs=False, cname=None):
    """outs: list of (type, expected(s, k) -> value).  C++ member and C wrapper,
    each output wanted or not"""
    ex = u.ex
    deque_by_contract(u)
    for which in ("c++", "c"):
        full = name if which == "c++" else cname
        if full is None:
            continue
        fn = u.fn(full)
        short = full.split("(")[0].split("::")[-1]
        for want in (True, False):
            s = Sample(u, "%s.%s.%d" % (short, which, want))
            r = s.r
            st = u.state()
            r.pre(st)
            slots = [ex.new_region("out%d" % i, "param", I(8), UFBase("out%d" % i)) for i in range(len(outs))]
            args = [Ptr(r.r, 0) if which == "c++" else r.wrapped()] + [Ptr(x, 0) if want else NULL for x in slots]

            def post(st):
                ok = T.and_(T.lt(r.p, r.n), allowed(s, r.p))
                got = ex.decide(st, ok)
                ex.oblig(st, T.eq(st.ret, u.const(OK if got else ERR)), "%s: success exactly if the current result has one" % what)
                for x, (ty, f) in zip(slots, outs):
                    if got and want:
                        v, w = ex.load(st, Ptr(x, 0), ty), f(s, r.p)
                        ex.oblig(st, T.eq(v, w) if isinstance(w, T.Term) else ex.ptr_eq(st, v, w), "%s: what the current result holds" % what)
                ex.oblig(st, ex.ptr_eq(st, r.position(st), Ptr(r.seq, T.mulc(r.p, 8))), "%s: looking does not move the position" % what)
                ex.oblig(st, T.B(not any(q.fam and q.fam.startswith(s.r.tag) for q in st.mem)), "%s: looking does not change results" % what)
            u.run(fn, st, args, post)
        if which == "c":
            bad = Ptr(ex.new_region("nothing", "param", I(u.const("size_cresults")), StructBase("nothing", {u.const("off_cresults_res"): (PTRT, NULL)})), 0)
            for h in (NULL, bad):
                slots = [Ptr(ex.new_region("out%d" % i, "param", I(8), UFBase("out%d" % i)), 0) for i in range(len(outs))]
                u.run(fn, u.state(), [h] + slots, lambda st: ex.oblig(st, T.eq(st.ret, u.const(ERR)), "an error without a list"))


def u_plain(name, cname, field, what):
    return lambda u: accessor(u, name, [(I32, lambda s, k: getattr(s, field)(k))], lambda s, k: T.TRUE, what, cname=cname)


def ops(u, *names):
    return lambda s, k: T.or_(*[T.eq(s.op(k), u.const("op_" + n)) for n in names])


def u_value(x, name, cname):
    def f(u):
        keys = ops(u, "put", "get", "getop", "delete")
        vals = ops(u, "get", "getop")
        allowed = keys if x != "object" else lambda s, k: T.and_(vals(s, k), T.eq(s.status(k), u.const(OK)))
        accessor(u, name, [(PTRT, lambda s, k: s.blob(x, k).ptr), (I64, lambda s, k: s.len[x](k)), (I32, lambda s, k: s.type[x](k))], allowed, x, cname=cname)
    return f


def u_timestamps(u):
    accessor(u, "hxhim::Results::Timestamps", [(PTRT, lambda s, k: Ptr(s.r.result(k), u.const("off_res_timestamps")))], lambda s, k: T.TRUE, "timestamps")


HISTCALLS = [("get_name", 2), ("get", 3)]


def u_histogram(u):
    """the histogram object itself, or its name and contents as the histogram gives them (C08)"""
    ex = u.ex
    good = lambda s, k: T.and_(T.eq(s.op(k), u.const("op_histogram")), T.eq(s.status(k), u.const(OK)))
    accessor(u, "hxhim::Results::Histogram(Histogram::Histogram**) const", [(PTRT, lambda s, k: Ptr(s.hist(k), 0))], good, "histogram")
    part = lambda f: lambda s, k: Ptr(ex.family("hist." + f, s.hist(k).idx, None, UFBase("hist." + f), kind="pheap"), 0)
    num = lambda f: lambda s, k: num_(f, s.hist(k))

    def num_(f, h):
        t = T.app("hist." + f, (h.idx,))
        ex.setrange(t, 0, 2 ** 40)
        return t

    def member(outs):
        def h(ex, st, a):
            ex.trusted.setdefault("Histogram accessors", "contract (C08): name, bucket edges, counts and number of buckets")
            p = ex.resolve(a[0])
            if not (isinstance(p, Ptr) and p.r.fam and p.r.fam.endswith(".hist")):
                ex.fail(st, "asks the histogram of the current result")
                raise Dead()
            for q, f in zip(a[1:], outs):
                q = ex.resolve(q)
                if isnull(q):
                    continue
                if f.endswith("n"):
                    ex.store(st, q, num_(f, p.r), I64)
                else:
                    ex.store(st, q, Ptr(ex.family("hist." + f, p.r.idx, None, UFBase("hist." + f), kind="pheap"), 0), PTRT)
            return I(u.const("hist_success"))
        return h
    ex.contracts["Histogram::Histogram::get_name(char const**, unsigned long*) const"] = member(("name", "name.n"))
    ex.contracts["Histogram::Histogram::get(double**, unsigned long**, unsigned long*) const"] = member(("buckets", "counts", "n"))
    accessor(u, "hxhim::Results::Histogram(char const**, unsigned long*, double**, unsigned long**, unsigned long*) const",
             [(PTRT, part("name")), (I64, num("name.n")), (PTRT, part("buckets")), (PTRT, part("counts")), (I64, num("n"))], good, "histogram contents", cname="hxhim_result_histogram")


# ------------------------------------------------------------------ a result from a response
def session(u):
    ex = u.ex
    clock(u)
    hp = ex.new_region("hp", "param", I(u.const("size_hp")), UFBase("hp"))
    return Ptr(ex.new_region("hx", "param", I(u.const("size_hx")), StructBase("hx", {u.const("off_hx_p"): (PTRT, Ptr(hp, 0))})), 0)


def respond(u, cls):
    ex = u.ex
    w = cls(u, "w")
    msg = message(u, w)
    reqs = ex.new_region("reqs", "heap", T.mulc(w.n, u.const("size_send")), UFBase("reqs"))
    msg.base.fields[off(u, w, "reqs")] = (PTRT, Ptr(reqs, 0))
    return w, msg


DISPATCH = "hxhim::Result::init(hxhim_t*, Message::Response::Response*, unsigned long)"


def u_init(cls):
    def f(u):
        ex = u.ex
        fn = u.fn(DISPATCH)
        hx = session(u)
        w, msg = respond(u, cls)
        i = ex.var("i", 0, 2 ** 40)
        st = u.state()
        c = u.const
        rec = None
        if cls is ResGetOp:
            # values are moved, not looked into: any address
            w.s.ptr = lambda f, k: IPtr(w.s.addr(f, k))
            rec = Records(u, w, i, msg)
            arrs = {}
            for f_ in w.rec:
                arrs["%s.records.%s" % (w.tag, f_)] = f_

            class Spec(LoopSpec):
                def facts(self, ex, st, it):
                    return [T.le(it, w.nrec(i))] if it is not None else []

                def region_inv(self, ex, st, r):
                    if r.fam in arrs:
                        m = arrs[r.fam]
                        L = layout(u)
                        return ElemInv("left." + m, blob_size(u), lambda ex, st, j: left(st, m, j), lambda ex, st, r, k: gone(st, r, m, k))
                    if r.fam is not None and r.fam.startswith("getop.node."):
                        return Middle()
                    if r.kind == "heap" and r.fam is None and r.size is not None and T.is_const(r.size) and T.cval(r.size) == c("size_res_GetOp"):
                        return First(rec)
                    return None

                def pointer(self, ex, st, key, v0):
                    if isinstance(v0, Ptr) and v0.r.kind == "heap":
                        rec.key = key
                        return Last(rec, v0.r, key)
                    return None

            def left(st, m, j):
                if m == "objects" and not ex.decide(st, w.ok(i)):
                    return rec_fields(u, w, m, (i, j))
                return moved(u, w.s, m, (i, j))

            def gone(st, r, m, k):
                if m == "objects" and not ex.decide(st, w.ok(i)):
                    g = get(u, st, r, T.mulc(k, blob_size(u)))
                    for o, (ty, v) in rec_fields(u, w, m, (i, k)).items():
                        x = ex.load(st, Ptr(r, T.add(T.mulc(k, blob_size(u)), o)), ty)
                        v = value(st, v, ex)
                        ex.oblig(st, T.eq(x, v) if isinstance(v, T.Term) else ex.ptr_eq(st, x, v), "what no result takes stays in the response")
                    return
                ex.oblig(st, T.not_(get(u, st, r, T.mulc(k, blob_size(u))).clean), "values move: the response owns them no more")
            ex.loopspec = lambda ex, st, f, L: Spec()
            rec.last = lambda st: ex.resolve(ex.val(st, st.frames[-1], u_back(ex, st, rec.key)))

        def common(st, p):
            for o, ty, v, what in ((c("off_res_hx"), PTRT, hx, "session"), (c("off_res_op"), I32, I(w.op), "operation"), (c("off_res_range_server"), I32, w.src, "range server"),
                                   (c("off_res_status"), I32, T.ite(w.ok(i), c(OK), c(ERR)), "status")):
                x = ex.load(st, Ptr(p.r, T.add(p.off, o)), ty)
                ex.oblig(st, T.eq(x, v) if isinstance(v, T.Term) else ex.ptr_eq(st, x, v), "the result's %s is the response's" % what)

        def blob_is(st, p, m, f, ref):
            g = get(u, st, p.r, T.add(p.off, c("off_res_" + m)))
            s = w.s
            want = B(IPtr(s.addr(f, i)), s.len(f, i), s.type(f, i), T.FALSE) if ref else B(value(st, s.ptr(f, i), ex), s.len(f, i), s.type(f, i), s.clean(f, i))
            expect(u, st, g, want, "%s of the result" % m)

        def others(st):
            k = ex.fresh("k", 0, None)
            s2 = st.clone()
            ex.assume(s2, T.and_(T.lt(k, w.n), T.ne(k, i)))
            if not ex.feasible(s2):
                return
            for member, kind, f in w.arrays():
                def one(s, member=member, kind=kind, f=f):
                    r = w.arr[member]
                    for o, (ty, v) in elem(u, w, kind, f)(ex, s, k).items():
                        x = ex.load(s, Ptr(r, T.add(T.mulc(k, stride(u, kind)), o)), ty)
                        v = value(s, v, ex)
                        ex.oblig(s, T.eq(x, v) if isinstance(x, T.Term) else ex.ptr_eq(s, x, v), "other entries stay as they are (%s)" % member)
                ex.with_forks([s2.clone()], one)

        def post(st):
            p = ex.resolve(st.ret)
            if not ex.decide(st, T.lt(i, w.n)):
                ex.oblig(st, T.B(isnull(p)), "no result behind the last entry")
                return
            if not (isinstance(p, Ptr) and p.r in st.heap and p.r not in st.dead):
                ex.fail(st, "one new result per entry")
                return
            ex.oblig(st, T.eq(p.off, 0), "one new result per entry")
            for part in (common, lambda st, p: others(st), content, records):
                ex.with_forks([st.clone()], lambda s, part=part: part(s, p))

        def content(st, p):
            if cls in (ResPut, ResDelete, ResGet):
                for m, f in (("subject", "osubj"), ("predicate", "opred")):
                    blob_is(st, p, m, f, True)
            if cls is ResGet:
                if ex.decide(st, w.ok(i)):
                    blob_is(st, p, "object", "objects", False)
                    ex.oblig(st, T.not_(get(u, st, w.arr["objects"], T.mulc(i, blob_size(u))).clean), "the value moves: the response owns it no more")
                else:
                    expect(u, st, get(u, st, p.r, c("off_res_object")), empty(), "a failed operation has no object")
            if cls is ResHist:
                h = ex.resolve(ex.load(st, Ptr(p.r, c("off_res_histogram")), PTRT))
                if ex.decide(st, w.ok(i)):
                    ex.oblig(st, ex.ptr_eq(st, h, Ptr(w.object(i), 0)), "the result holds the entry's histogram")
                    ctl = ex.resolve(ex.load(st, Ptr(p.r, c("off_res_histogram") + 8), PTRT))
                    ex.oblig(st, ex.ptr_eq(st, ctl, Ptr(w.control(i), 0)), "the result owns the entry's histogram")
                    ex.oblig(st, T.B(w.object(i) not in st.dead), "the histogram lives")
                    held = ex.resolve(ex.load(st, Ptr(w.arr["histograms"], T.mulc(i, 16)), PTRT))
                    owners = ex.load(st, Ptr(w.control(i), 8), I32)
                    n0 = w.s.num("owners", i, 1, 2 ** 20)
                    ex.oblig(st, T.eq(owners, n0 if isnull(held) else T.add(n0, 1)), "as many owners as there are")
                else:
                    ex.oblig(st, T.B(isnull(h)), "a failed operation has no histogram")

        def records(st, p):
            if not rec:
                return
            n = w.nrec(i)
            if ex.decide(st, T.eq(n, 0)):
                ex.oblig(st, ex.ptr_eq(st, rec.next(st, p), NULL), "no records: a single result")
                for m in ("subject", "predicate", "object"):
                    ex.oblig(st, T.not_(get(u, st, p.r, c("off_res_" + m)).clean), "no records: no values")
                return
            ex.with_forks([st.clone()], lambda s: rec.same(s, p, I0, "first record"))
            one = ex.decide(st, T.eq(n, 1))
            nxt = rec.next(st, p)
            if one:
                ex.oblig(st, ex.ptr_eq(st, nxt, NULL), "as many results as records")
                return
            if not isinstance(nxt, Ptr):
                ex.fail(st, "as many results as records")
                return
            # node(1), ... : the one of any index
            fam = nxt.r.fam
            if fam is None:
                # exactly two, the second made last
                rec.same(st, nxt, T.I(1))
                ex.oblig(st, ex.ptr_eq(st, rec.next(st, nxt), NULL), "as many results as records")
                ex.oblig(st, T.eq(n, 2), "as many results as records")
                return
            ex.oblig(st, T.eq(nxt.r.idx, 1), "records in order")
            k = ex.var("some record", 1, None)
            ex.assume(st, T.lt(k, n))
            q = Ptr(rec.node(k, rec.nodes[fam]), 0)
            ex.with_forks([st.clone()], lambda s: rec.same(s, q, k))
            nx = rec.next(st, q)
            if ex.decide(st, T.lt(T.add(k, 1), n)):
                ex.oblig(st, T.and_(T.B(isinstance(nx, Ptr) and nx.r.fam == fam), T.eq(nx.r.idx, T.add(k, 1)) if isinstance(nx, Ptr) and nx.r.fam == fam else T.FALSE), "records in order")
            else:
                ex.oblig(st, ex.ptr_eq(st, nx, NULL), "as many results as records")
        u.run(fn, st, [hx, Ptr(msg, 0), i], post)
    return f


def u_back(ex, st, key):
    f = st.frames[-1]
    for b in f.fn.blocks.values():
        for ins in b.ins:
            if ins.op == "phi" and ins.res == key[1] and f.prev in ins.a["inc"]:
                return ins.a["inc"][f.prev]
    raise Unsupported("the last node is not known")


def u_init_null(u):
    fn = u.fn(DISPATCH)
    u.run(fn, u.state(), [session(u), NULL, u.ex.var("i", 0, 2 ** 64 - 1)], lambda st: u.ex.oblig(st, T.B(isnull(u.ex.resolve(st.ret))), "no response, no result"))


def u_next(u):
    ex = u.ex
    fn = u.fn("Message::next(Message::Response::Response*)")

    def destruct(ex, st, a):
        ex.trusted.setdefault("destruct<Message::Response::Response>", "releases the response (ownership: C10)")
        ex.free(st, a[0])
        return None
    ex.demangle_all()
    for n, d in ex.demangled.items():
        if "destruct<Message::Response::Response>" in d:
            ex.contracts[n] = destruct
    w = ResPut(u, "w")
    nxt = ex.new_region("next", "heap", None, UFBase("next"))
    for p in (NULL, Ptr(nxt, 0)):
        msg = ex.new_region("curr", "heap", I(u.const("size_RBPut")), StructBase("curr", {off(u, w, "next"): (PTRT, p)}))

        def post(st):
            ex.oblig(st, ex.ptr_eq(st, st.ret, p), "the response behind this one")
            ex.oblig(st, T.B(msg in st.dead), "the response is released")
            ex.oblig(st, T.B(nxt not in st.dead), "the response behind it is not")
        u.run(fn, u.state(), [Ptr(msg, 0)], post)


# ------------------------------------------------------------------ all responses
class Log(RegionInv):
    """which results were added, in order: those of response q begin at P(q)"""

    def __init__(self, a, upto):
        self.a, self.upto = a, upto

    def produce(self, ex, st, r, it, entry):
        a = self.a
        end = self.upto(it)
        ex.put(st, r, Node(None, "G", I0, T.mulc(end, 8), lambda ex, s, d, size, ty: a.result(*a.where(T.div(d, 8)))))

    def check(self, ex, st, r, it, entry, head):
        a = self.a
        q, i = ex.fresh("q", 0, None), ex.fresh("i", 0, None)
        s2 = st.clone()
        for f in a.facts(q) + [T.lt(i, a.count(q)), T.lt(q, a.n), T.lt(T.add(a.P(q), i), self.upto(it))] + a.between(q, i, self.upto(it)):
            ex.assume(s2, f)
        if ex.feasible(s2):
            ex.with_forks([s2], lambda s: ex.oblig(s, ex.ptr_eq(s, ex.load(s, Ptr(r, T.mulc(T.add(a.P(q), i), 8)), PTRT), a.result(q, i)), "the results are those of the entries, in order"))


class All:
    """a list of n responses with count(q) entries each"""

    def __init__(self, u):
        self.u, self.ex = u, u.ex
        ex = self.ex
        self.n = ex.var("responses", 0, 2 ** 30)
        self.log = ex.new_region("log", "heap", None, UninitBase())
        self.len = ex.new_region("added", "heap", I(8), StructBase("added", {0: (I64, I0)}))
        self.kind = ResPut(u, "w")

    def count(self, q):
        t = T.app("count", (T.toint(q),))
        self.ex.setrange(t, 0, 2 ** 40)
        return t

    def P(self, q):
        if T.is_const(T.toint(q)) and T.cval(T.toint(q)) == 0:
            return I0
        t = T.app("P", (T.toint(q),))
        self.ex.setrange(t, 0, 2 ** 60)
        return t

    def facts(self, q):
        """P(0) = 0, P(q+1) = P(q) + count(q); so P grows"""
        return [T.eq(self.P(T.add(q, 1)), T.add(self.P(q), self.count(q))), T.le(0, self.P(q)), T.implies(T.lt(q, self.n), T.le(self.P(T.add(q, 1)), self.P(self.n)))]

    def between(self, q, i, end):
        """entries of other responses are elsewhere (P grows): q < m implies P(q+1) <= P(m)"""
        out = []
        for a in T.atoms(end):
            if a.op == "app:P":
                m = a.args[0]
                out += [T.implies(T.lt(q, m), T.le(self.P(T.add(q, 1)), self.P(m))), T.implies(T.lt(m, q), T.le(self.P(T.add(m, 1)), self.P(q))), T.eq(self.P(T.add(m, 1)), T.add(self.P(m), self.count(m))),
                        T.implies(T.eq(m, q), T.eq(self.P(m), self.P(q)))]
        return out

    def where(self, d):
        k, items = T.lin_of(d)
        for a, c in items:
            if c == 1 and a.op == "app:P":
                return a.args[0], T.sub(d, a)
        return I0, d

    def response(self, q):
        q = T.toint(q)
        nxt = lambda ex, st: Ptr(self.response(T.add(q, 1)), 0) if ex.decide(st, T.lt(T.add(q, 1), self.n)) else NULL
        return self.ex.family("response", q, I(self.u.const("size_RBPut")), StructBase("response", {off(self.u, self.kind, "count"): (I64, self.count(q)), off(self.u, self.kind, "next"): (PTRT, nxt)}), kind="pheap")

    def result(self, q, i):
        return Ptr(self.ex.family("result", T.app("pair", (T.toint(q), T.toint(i))), None, UFBase("result"), kind="pheap"), 0)


def u_addall(u):
    """AddAll: one result per entry of every response in the list, in order; each response is released once it is used up"""
    ex = u.ex
    fn = u.fn("hxhim::Result::AddAll")
    a = All(u)
    hx = session(u)
    res = Results(u, "results")
    k = ex.var("q", 0, 2 ** 40)
    u.lemma("counts are not negative, so positions grow", T.le(a.P(k), a.P(T.add(k, 1))), a.facts(k)[:1])

    def which(st, p, what):
        p = ex.resolve(p)
        if not (isinstance(p, Ptr) and p.r.fam == "response"):
            ex.fail(st, what)
            raise Dead()
        ex.oblig(st, T.B(p.r not in st.dead), "a response is not used after its release")
        ex.oblig(st, T.eq(p.off, 0), what)
        return p.r.idx

    def init(ex, st, args):
        q = which(st, args[1], "results are made from the responses of the list")
        ex.oblig(st, ex.ptr_eq(st, args[0], hx), "the session")
        ex.oblig(st, T.lt(args[2], a.count(q)), "results are made from entries the response has")
        return a.result(q, args[2])

    def add(ex, st, args):
        ex.oblig(st, ex.ptr_eq(st, args[0], Ptr(res.r, 0)), "results go to the list given")
        n = ex.load(st, Ptr(a.len, 0), I64)
        p = ex.resolve(args[1])
        if isnull(p):
            return None
        ex.store(st, Ptr(a.log, T.mulc(n, 8)), p, PTRT)
        ex.store(st, Ptr(a.len, 0), T.add(n, 1), I64)
        return None

    def nxt(ex, st, args):
        q = which(st, args[0], "the responses are followed one by one")
        r = a.response(q)
        v = ex.load(st, Ptr(r, off(u, a.kind, "next")), PTRT)
        ex.free(st, Ptr(r, 0))
        return v
    ex.contracts[DISPATCH] = init
    ex.contracts["hxhim::Results::Add(hxhim::Result::Result*)"] = add
    ex.contracts["Message::next(Message::Response::Response*)"] = nxt

    class Outer(LoopSpec):
        force = True
        templates = [lambda it: a.P(it)]

        def facts(self, ex, st, it):
            for f in a.facts(it):
                ex.assume(st, f)
            return [T.le(it, a.n)]

        def region_inv(self, ex, st, r):
            return Log(a, lambda it: a.P(it)) if r is a.log else None

        def pointer(self, ex, st, key, v0):
            return Chain(lambda ex, st, it: Ptr(a.response(it), 0), a.n, "every response of the list is used")

        def frees(self, ex, st, r):
            return r.fam == "response"

    class Inner(LoopSpec):
        force = True

        def __init__(self, q):
            self.q = q
            self.templates = [lambda it: T.add(a.P(q), it)]

        def facts(self, ex, st, it):
            for f in a.facts(self.q):
                ex.assume(st, f)
            return [T.le(it, a.count(self.q))]

        def region_inv(self, ex, st, r):
            return Log(a, lambda it: T.add(a.P(self.q), it)) if r is a.log else None

    def spec(ex, st, f, L):
        if not ex.running:
            return Outer()
        top = ex.running[0]
        if top.it is None:
            raise NeedInvariant(top.key)
        return Inner(top.it)
    ex.loopspec = spec

    def post(st):
        ex.oblig(st, T.eq(ex.load(st, Ptr(a.len, 0), I64), a.P(a.n)), "as many results as entries")
        Log(a, lambda it: a.P(a.n)).check(ex, st, a.log, a.n, None, None)
    st = u.state()
    first = lambda st: Ptr(a.response(0), 0)
    st1 = st.clone()
    ex.assume(st1, T.lt(0, a.n))
    u.run(fn, st1, [hx, Ptr(res.r, 0), first(st1)], post)
    st0 = st.clone()
    ex.assume(st0, T.eq(a.n, 0))
    u.run(fn, st0, [hx, Ptr(res.r, 0), NULL], lambda st: ex.oblig(st, T.eq(ex.load(st, Ptr(a.len, 0), I64), 0), "nothing from nothing"))


UNITS = [Unit("Results::Add", u_add), Unit("Results::Append", u_append), Unit("position and size", u_walk)]
UNITS += [Unit("Results::" + n, u_plain("hxhim::Results::" + n, c, f, w)) for n, c, f, w in (("Op", "hxhim_result_op", "op", "operation"), ("Status", "hxhim_result_status", "status", "status"), ("RangeServer", "hxhim_result_range_server", "rs", "range server"))]
UNITS += [Unit("Results::" + x.capitalize(), u_value(x, "hxhim::Results::" + x.capitalize(), "hxhim_result_" + x)) for x in VALUES]
UNITS += [Unit("Results::Timestamps", u_timestamps), Unit("Results::Histogram", u_histogram)]
UNITS += [Unit("Result::init(%s)" % c.name, u_init(c)) for c in (ResPut, ResGet, ResGetOp, ResDelete, ResHist)] + [Unit("Result::init(null)", u_init_null)]
UNITS += [Unit("Message::next", u_next), Unit("Result::AddAll", u_addall)]
