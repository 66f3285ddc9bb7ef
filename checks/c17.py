"""C17: datastore histograms follow exactly the matching successful PUTs.

The loop over the entries of a PUT is taken one arbitrary entry at a time: the
names looked up and the values given to Histogram::add are recorded, and at the
end of the iteration they must be exactly what the entry asks for.  What
Histogram::add does with a value is C08's subject, how a response carries
histograms C02's and C03's."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from checks.stores import *
from checks import stores

SOURCES = stores.SOURCES
HARNESSES = [Harness("c17.cpp", full_sources(), FULL_LIBS, opt="-O0", san=["-fsanitize=address"], budget=8)]


def adds(u):
    """contract on Histogram::add: the value is recorded"""
    ex = u.ex

    def add(ex, st, a):
        ex.trusted.setdefault("Histogram::add", "contract: takes one value (C08 proves what it does with it)")
        event(st, "add", ex.resolve(a[0]), ex.load(st, a[1], ("f64",)))
        return ex.fresh("added", 0, 2 ** 32 - 1)

    def size(ex, st, a):
        return ex.fresh("pack_size", 0, 2 ** 40)
    for n, d in ex.demangled.items():
        if d.startswith("Histogram::Histogram::add("):
            ex.contracts[n] = add
        elif d.startswith("Histogram::Histogram::pack_size("):
            ex.contracts[n] = size
        elif d.startswith("Histogram::Histogram::") and "~" not in d and strip_args(d) != "Histogram::Histogram::Histogram":
            ex.contracts.setdefault(n, touched(d))


def touched(d):
    def h(ex, st, a):
        raise Unsupported("a histogram is used in a way the contract does not cover: " + d[:60])
    return h


def u_put(u):
    ex = u.ex
    strings.install(ex)
    fn = u.fn("Datastore::Datastore::operate(Message::Request::BPut*)")
    s = Store(u)
    adds(u)
    w, rw = ReqPut(u, "w"), ResPut(u, "res")
    rw.n = w.n
    req, res = message(u, w), message(u, rw)
    null = T.var("response.null", "Bool")
    s.impl("BPut", lambda st: NULL if ex.decide(st, null) else Ptr(res, 0))
    OK, BYTE, FLOAT, DOUBLE = (u.const(c) for c in ("ds_success", "type_BYTE", "type_FLOAT", "type_DOUBLE"))
    present = lambda k: T.app("named", (T.toint(k),), "Bool")

    def entries(st):
        k = st.ghost.get("done")
        return [] if k is None else [(w.s.len("predicates", k), (lambda j: w.s.byte("predicates", k, j)), present(k), k)]
    h = Hists(u, s, entries)
    raw = lambda st, k, ty: ex.load(st, Ptr(w.s.data("objects", k), 0), ty, check=False)

    def before(st, k):
        # numbers have the size of their type
        for t, n in ((FLOAT, 4), (DOUBLE, 8)):
            ex.assume(st, T.implies(T.eq(w.s.type("objects", k), t), T.eq(w.s.len("objects", k), n)))

    def judge(st, k, events):
        match = T.and_(T.eq(rw.status(k), OK), T.eq(w.s.type("predicates", k), BYTE), present(k))
        ot = w.s.type("objects", k)
        want = []
        if ex.decide(st, match):
            if ex.decide(st, T.eq(ot, FLOAT)):
                want = [T.app("fpext", (raw(st, k, ("f32",)),), "F64")]
            elif ex.decide(st, T.eq(ot, DOUBLE)):
                want = [raw(st, k, ("f64",))]
        got = [e for e in events if e[0] == "add"]
        if len(want) != len(got):
            ex.fail(st, "the histogram receives a value exactly if the PUT succeeded, is named by the predicate and has a number" if len(got) != 2 else "the histogram receives one value")
            return
        for v, e in zip(want, got):
            ex.oblig(st, ex.ptr_eq(st, e[1], Ptr(h.hist("hist", k), 0)), "the value goes to the histogram of that name")
            ex.oblig(st, T.eq(e[2], v), "the value is the object's")
        ex.oblig(st, T.B(len(got) == len(events)), "nothing else happens to the histograms")
    ex.loopspec = lambda ex, st, f, L: PerEntry(judge, before) if len(ex.running) <= 1 and not isinstance(f, str) else None

    def post(st):
        calls = st.ghost.get("impl", ())
        if not ex.decide(st, s.usable):
            ex.oblig(st, T.B(calls == ()), "an unusable datastore is not used")
            ex.oblig(st, ex.ptr_eq(st, st.ret, NULL), "an unusable datastore has no answer")
            handled(ex, st, I0 if st.ghost.get("done") is None else st.ghost["done"], "unusable")
            return
        if len(calls) != 1:
            ex.fail(st, "the PUT is done once")
            return
        ex.oblig(st, ex.ptr_eq(st, calls[0][1], Ptr(req, 0)), "the PUT is that of the request")
        if ex.decide(st, null):
            ex.oblig(st, ex.ptr_eq(st, st.ret, NULL), "the datastore's answer is returned")
            ex.oblig(st, T.B(st.ghost.get("events", ()) == ()), "without an answer nothing is counted")
            return
        ex.oblig(st, ex.ptr_eq(st, st.ret, Ptr(res, 0)), "the datastore's answer is returned")
        if st.ghost.get("done") is None:
            ex.oblig(st, T.or_(T.eq(h.size, 0), T.eq(w.n, 0)), "entries are only skipped when there are no histograms")
            ex.oblig(st, T.B(st.ghost.get("events", ()) == ()), "nothing is counted")
        else:
            handled(ex, st, w.n, "PUT")
        for r in list(rw.arr.values()) + [res]:
            ex.oblig(st, T.B(st.mem.get(r) is None), "the answer is left as it is")
    st = u.state()
    u.run(fn, st, [s.ptr, Ptr(req, 0)], post)


def u_other(cls, rcls):
    def f(u):
        ex = u.ex
        strings.install(ex)
        fn = u.fn("Datastore::Datastore::operate(Message::Request::%s*)" % cls.name)
        s = Store(u)
        adds(u)
        req = ex.new_region("request", "param", I(u.const("size_" + cls.name)), UFBase("request"))
        res = ex.new_region("response", "pheap", I(u.const("size_R" + cls.name)), UFBase("response"))
        s.impl(cls.name, lambda st: Ptr(res, 0))
        Hists(u, s, lambda st: [])

        def post(st):
            calls = st.ghost.get("impl", ())
            ex.oblig(st, T.B(st.ghost.get("events", ()) == ()), "only PUTs are counted")
            if not ex.decide(st, s.usable):
                ex.oblig(st, T.and_(T.B(calls == ()), ex.ptr_eq(st, st.ret, NULL)), "an unusable datastore is not used and has no answer")
                return
            ex.oblig(st, T.B(len(calls) == 1), "the operation is done once")
            ex.oblig(st, ex.ptr_eq(st, st.ret, Ptr(res, 0)), "the datastore's answer is returned")
        u.run(fn, u.state(), [s.ptr, Ptr(req, 0)], post)
    return f


def u_query(u):
    ex = u.ex
    strings.install(ex)
    fn = u.fn("Datastore::Datastore::operate(Message::Request::BHistogram*)")
    s = Store(u)
    adds(u)
    w = ReqHist(u, "w")
    req = message(u, w)
    OK, ERROR = u.const("ds_success"), u.const("ds_error")
    present = lambda k: T.app("named", (T.toint(k),), "Bool")

    def entries(st):
        k = st.ghost.get("done")
        return [] if k is None else [(w.s.len("names", k), (lambda j: w.s.byte("names", k, j)), present(k), k)]
    h = Hists(u, s, entries)
    res = ex.new_region("response", "pheap", I(u.const("size_RBHistogram")), UFBase("response"))

    def make(ex, st, a):
        ex.trusted.setdefault("construct<Response::BHistogram>", "contract: an empty response with room for the given number of entries (C03)")
        n = ex.load(st, a[0], I64)
        ex.oblig(st, T.and_(T.eq(n, w.n), T.B(not st.ghost.get("made"))), "one response with room for every entry")
        st.ghost["made"] = True
        return Ptr(res, 0)

    def add(ex, st, a):
        ex.trusted.setdefault("Response::BHistogram::add", "contract: appends an entry (C03)")
        ex.oblig(st, ex.ptr_eq(st, a[0], Ptr(res, 0)), "entries are added to the response")
        event(st, "entry", ex.resolve(ex.load(st, a[1], PTRT)), a[2])
        return ex.fresh("added", 0, 2 ** 64 - 1)
    for n, d in ex.demangled.items():
        if "* construct<Message::Response::BHistogram" in d:
            ex.contracts[n] = make
        elif d.startswith("Message::Response::BHistogram::add("):
            ex.contracts[n] = add

    def judge(st, k, events):
        if len(events) != 1 or events[0][0] != "entry":
            ex.fail(st, "each name gets one entry, and no histogram changes")
            return
        _, p, status = events[0]
        if ex.decide(st, present(k)):
            ex.oblig(st, T.eq(status, OK), "an existing name succeeds")
            ex.oblig(st, ex.ptr_eq(st, p, Ptr(h.hist("hist", k), 0)), "the entry refers to the histogram of that name")
        else:
            ex.oblig(st, T.eq(status, ERROR), "an unknown name fails")
            ex.oblig(st, ex.ptr_eq(st, p, NULL), "an unknown name has no histogram")
    ex.loopspec = lambda ex, st, f, L: PerEntry(judge)

    def post(st):
        ex.oblig(st, ex.ptr_eq(st, st.ret, Ptr(res, 0)), "the response is returned")
        handled(ex, st, w.n, "query")
    u.run(fn, u.state(), [s.ptr, Ptr(req, 0)], post)


def u_get(raw):
    """GetHistogram, both kinds"""
    def f(u):
        ex = u.ex
        strings.install(ex)
        fn = u.fn("Datastore::Datastore::GetHistogram(std::string const&, %s*) const" % ("Histogram::Histogram*" if raw else "std::shared_ptr<Histogram::Histogram>"))
        s = Store(u)
        adds(u)
        st = u.state()
        name, n, byte = known_string(u, st, "name")
        present = T.var("named", "Bool")
        h = Hists(u, s, lambda st: [(n, byte, present, I0)])
        OK, ERROR = u.const("ds_success"), u.const("ds_error")
        before = Ptr(ex.new_region("before", "pheap", I(64), UFBase("before")), 0)
        out = ex.new_region("out", "param", I(16), StructBase("out", {0: (PTRT, before if raw else NULL), 8: (PTRT, NULL)}))
        for null in (False, True):
            def post(st):
                ex.oblig(st, T.B(st.ghost.get("events", ()) == ()), "no histogram changes")
                if null:
                    ex.oblig(st, T.eq(st.ret, ERROR), "nowhere to put the histogram")
                    return
                p = ex.load(st, Ptr(out, 0), PTRT)
                if ex.decide(st, present):
                    ex.oblig(st, T.eq(st.ret, OK), "an existing name succeeds")
                    ex.oblig(st, ex.ptr_eq(st, p, Ptr(h.hist("hist", I0), 0)), "the histogram of that name is returned")
                else:
                    ex.oblig(st, T.eq(st.ret, ERROR), "an unknown name fails")
                    ex.oblig(st, ex.ptr_eq(st, p, before if raw else NULL), "an unknown name returns nothing")
            u.run(fn, st.clone(), [s.ptr, name, NULL if null else Ptr(out, 0)], post)
    return f


def u_register(u):
    """AddHistogram: the name refers to that histogram from now on"""
    ex = u.ex
    strings.install(ex)
    fn = u.fn("Datastore::Datastore::AddHistogram(std::string const&, Histogram::Histogram*)")
    s = Store(u)
    adds(u)
    st = u.state()
    name, n, byte = known_string(u, st, "name")
    h = Hists(u, s, lambda st: [])
    new = Ptr(ex.new_region("new", "heap", I(u.const("size_histogram")), UFBase("new")), 0)
    P = "std::shared_ptr<Histogram::Histogram>::"
    NOTE = "std::shared_ptr: takes over a pointer; moving passes it on"

    def own(ex, st, a):
        ex.trusted.setdefault("std::shared_ptr", NOTE)
        ex.store(st, a[0], a[1], PTRT)
        ex.store(st, Ptr(ex.resolve(a[0]).r, T.add(ex.resolve(a[0]).off, 8)), Ptr(ex.new_region("control", "pheap", I(64), UFBase("control")), 0), PTRT)
        return None

    def move(ex, st, a):
        for o in (0, 8):
            x, y = ex.resolve(a[0]), ex.resolve(a[1])
            ex.store(st, Ptr(x.r, T.add(x.off, o)), ex.load(st, Ptr(y.r, T.add(y.off, o)), PTRT), PTRT)
            ex.store(st, Ptr(y.r, T.add(y.off, o)), NULL, PTRT)
        return a[0]

    def drop(ex, st, a):
        if not isnull(ex.resolve(ex.load(st, a[0], PTRT))):
            raise Unsupported("a histogram may be released here")
        return None
    for k, d in ex.demangled.items():
        if d.startswith(P + "shared_ptr<Histogram::Histogram") and "(Histogram::Histogram*" in d:
            ex.contracts[k] = own
        elif d == P + "operator=(std::shared_ptr<Histogram::Histogram>&&)" or d == P + "shared_ptr(std::shared_ptr<Histogram::Histogram>&&)":
            ex.contracts[k] = move
        elif d == P + "~shared_ptr()":
            ex.contracts[k] = drop
    for null in (False, True):
        def post(st):
            ev = st.ghost.get("events", ())
            if null:
                ex.oblig(st, T.B(ev == ()), "nothing is registered")
                ex.oblig(st, T.eq(st.ret, u.const("ds_error")), "there must be a histogram")
                return
            ex.oblig(st, T.eq(st.ret, u.const("ds_success")), "registering succeeds")
            if len(ev) != 1:
                ex.fail(st, "one name is registered")
                return
            _, v, slot = ev[0]
            ex.oblig(st, T.eq(v.n, n), "the given name")
            J = ex.fresh("J", 0, None)
            s2 = st.clone()
            ex.assume(s2, T.lt(J, n))
            ex.oblig(s2, T.eq(ex.load(s2, Ptr(v.buf, J), I8), byte(J)), "the given name")
            ex.oblig(st, ex.ptr_eq(st, ex.load(st, slot, PTRT), new), "the name refers to the given histogram")
            ex.oblig(st, T.B(new.r not in st.dead), "the histogram is kept")
        u.run(fn, st.clone(), [s.ptr, name, NULL if null else new], post)


UNITS = [Unit("operate(BPut)", u_put), Unit("operate(BHistogram)", u_query), Unit("AddHistogram", u_register), Unit("GetHistogram(shared)", u_get(False)), Unit("GetHistogram(raw)", u_get(True))] + \
        [Unit("operate(%s)" % c.name, u_other(c, r)) for c, r in ((ReqGet, ResGet), (ReqGetOp, ResGetOp), (ReqDelete, ResDelete))]
