"""C03: a message never serializes past its reported size.

add() and steal() are proved to grow the reported size by exactly the size of
the entry in the wire layout that the packers are proved to write (C01/C02; at
least that size for GETOP responses), to store the entry behind the others and
to leave those alone.  Starting from an empty message (constructor units) the
reported size is E(count) for every history, and the packers' and unpackers'
units, whose buffers have exactly the reported size, oblige every access to lie
inside.  Those units are repeated here: an access outside fails this check."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from checks.msgs import *
from checks import c01, c02
from engine import terms as T

SOURCES = c01.SOURCES
HARNESSES = [Harness("c03.cpp", full_sources(), FULL_LIBS, opt="-O0", san=["-fsanitize=address"], budget=8)]
A = {"BPut": "Blob, Blob, Blob", "BGet": "Blob, Blob, hxhim_data_t", "BGetOp": "Blob, Blob, hxhim_data_t, unsigned long, hxhim_getop_t", "BDelete": "Blob, Blob", "BHistogram": "Blob"}
RA = {"BPut": "Blob, Blob, int", "BGet": "Blob, Blob, Blob&&, int", "BGetOp": "Blob*, Blob*, Blob*, unsigned long, int", "BDelete": "Blob, Blob, int",
      "BHistogram": "std::shared_ptr<Histogram::Histogram> const&, int"}


class Entry:
    """the new entry: value objects and numbers, by the names the layout uses"""

    def __init__(self, u, w, n):
        self.u, self.w, self.n = u, w, n
        self.facts = []

    def blob(self, f, b, st):
        s = self.w.s
        self.facts += [T.eq(s.len(f, self.n), b.len), T.eq(s.type(f, self.n), b.type)]
        return b

    def num(self, f, v):
        t = elem(self.u, self.w, "u64" if f == "num_recs" else "i32", f)(self.u.ex, None, self.n)[0][1]
        self.facts.append(T.eq(t, v))


def arrays_kept(u, st, w, w0, msg, at, emptied=()):
    """every entry but `at` is as before"""
    ex = u.ex
    k = ex.fresh("k", 0, None)
    s2 = st.clone()
    ex.assume(s2, T.and_(T.lt(k, w0.n), T.ne(k, at)))
    if not ex.feasible(s2):
        return
    for member, kind, f in w0.arrays():
        def one(s, member=member, kind=kind, f=f):
            r = w0.arr[member]
            for o, (ty, v) in elem(u, w0, kind, f)(ex, s, k).items():
                x = ex.load(s, Ptr(r, T.add(T.mulc(k, stride(u, kind)), o)), ty)
                if callable(v):
                    v = v(ex, s)
                ex.oblig(s, T.eq(x, v) if isinstance(x, T.Term) else ex.ptr_eq(s, x, v), "%s of the other entries are untouched" % member)
        ex.with_forks([s2.clone()], one)


def grown(u, st, w, w0, msg, S, n, at_least=False):
    ex = u.ex
    size = ex.load(st, Ptr(msg, off(u, w, "serialized_size")), I64)
    want = T.add(S, w.esz(n) if not isinstance(w, ResGetOp) else T.add(12, T.sub(w.R(n, w.nrec(n)), w.R(n, 0))))
    ex.oblig(st, T.le(want, size) if at_least else T.eq(size, want), "the reported size grows by %s what the entry needs" % ("at least" if at_least else "exactly"))
    ex.oblig(st, T.eq(ex.load(st, Ptr(msg, off(u, w, "count")), I64), T.add(n, 1)), "there is one entry more")
    for m, ty in (("direction", I32), ("op", I32), ("src", I32), ("dst", I32), ("max_count", I64)):
        v = {"direction": I(w.dir), "op": I(w.op), "src": w0.src, "dst": w0.dst, "max_count": w0.cap}[m]
        ex.oblig(st, T.eq(ex.load(st, Ptr(msg, off(u, w, m)), ty), v), "%s stays" % m)
    for member, kind, f in w0.arrays():
        ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(msg, off(u, w, member)), PTRT), Ptr(w0.arr[member], 0)), "%s stays in place" % member)


def prior(u, cls, tag="old", room=True):
    """a message with some entries and (room) space for more"""
    ex = u.ex
    w0 = cls(u, tag)
    S = ex.var(tag + ".size", HDR, 2 ** 55)
    cap = ex.var(tag + ".cap", 1, 2 ** 40)
    w0.cap = cap
    msg = message(u, w0, S, cap)
    return w0, msg, S


def stored(u, st, w0, f, n, b, what, owned=None):
    g = get(u, st, w0.arr[f], T.mulc(n, blob_size(u)))
    ex = u.ex
    ex.oblig(st, ex.ptr_eq(st, g.ptr, b.ptr), "%s: points at the given bytes" % what)
    ex.oblig(st, T.eq(g.len, b.len), "%s: length" % what)
    ex.oblig(st, T.eq(g.type, b.type), "%s: type" % what)


def num_at(u, st, w0, f, n, ty):
    return u.ex.load(st, Ptr(w0.arr[f], T.mulc(n, u.ex.mod_size(ty))), ty)


def u_add(cls):
    def fn(u):
        ex = u.ex
        blob_size(u)
        d = cls.dirn
        f = u.fn("Message::%s::%s::add(%s)" % (d, cls.name, (A if d == "Request" else RA)[cls.name]))
        for null in (False, True):
            w0, msg, S = prior(u, cls)
            w = cls(u, "w")
            n = w0.n
            st = u.state()
            ex.assume(st, T.lt(n, w0.cap))
            e = Entry(u, w, n)
            args, bl = [Ptr(msg, 0)], {}
            status = ex.var("status", 0, 2 ** 32 - 1)
            names = dict(subjects="osubj", predicates="opred") if isinstance(w, ResSP) else {}

            def value(f):
                r, b = mk(u, f, null=null)
                if null:
                    ex.assume(st, T.eq(b.len, 0))
                e.blob(names.get(f, f), b, st)
                bl[f] = b
                return Ptr(r, 0)
            if isinstance(w, ReqHist):
                args.append(value("names"))
            elif isinstance(w, ResHist):
                return u_add_hist(u, w0, w, f, msg, S)
            else:
                args += [value("subjects"), value("predicates")]
            if cls in (ReqPut, ResGet):
                args.append(value("objects"))
            if cls in (ReqGet, ReqGetOp):
                ot = ex.var("object_type", 0, 2 ** 32 - 1)
                args.append(ot)
            if cls is ReqGetOp:
                nr = ex.var("num_rec", 0, 2 ** 64 - 1)
                op = ex.var("op", 0, 2 ** 32 - 1)
                args += [nr, op]
                e.num("ops", op)
            if d == "Response":
                args.append(status)
                e.num("statuses", status)
            before = list(st.heap)

            def post(st):
                for g in e.facts:
                    ex.assume(st, g)
                if not ex.feasible(st):
                    return
                grown(u, st, w, w0, msg, S, n)
                arrays_kept(u, st, w, w0, msg, n)
                for f, b in bl.items():
                    if cls is ResGet and f == "objects" and not ex.decide(st, w.ok(n)):
                        continue
                    m = dict(subjects="orig_subjects", predicates="orig_predicates").get(f, f) if isinstance(w, ResSP) else f
                    stored(u, st, w0, m, n, b, "new " + f)
                if isinstance(w, ReqSP) and cls is not ReqGetOp:
                    for f in ("subjects", "predicates"):
                        ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(w0.arr["orig_" + f], T.mulc(n, 8)), PTRT), bl[f].ptr), "new caller address of " + f)
                if cls in (ReqGet, ReqGetOp):
                    ex.oblig(st, T.eq(num_at(u, st, w0, "object_types", n, I32), ot), "new object type")
                if cls is ReqGetOp:
                    ex.oblig(st, T.eq(num_at(u, st, w0, "num_recs", n, I64), nr), "new record count")
                    ex.oblig(st, T.eq(num_at(u, st, w0, "ops", n, I32), op), "new query operation")
                if d == "Response":
                    ex.oblig(st, T.eq(num_at(u, st, w0, "statuses", n, I32), status), "new status")
            u.run(f, st, args, post)
    return fn


def u_add_hist(u, w0, w, f, msg, S):
    ex = u.ex
    n = w0.n
    w.contracts(u)
    status = ex.var("status", 0, 2 ** 32 - 1)
    for some in (True, False):
        h, ctl, sp = shared(u, w, n, some)
        st = u.state()
        ex.assume(st, T.lt(n, w0.cap))
        if not some:
            ex.assume(st, T.ne(status, w.OK))

        def post(st):
            ex.assume(st, T.eq(w.status(n), status))
            grown(u, st, w, w0, msg, S, n)
            arrays_kept(u, st, w, w0, msg, n)
            ex.oblig(st, T.eq(num_at(u, st, w0, "statuses", n, I32), status), "new status")
            if ex.decide(st, w.ok(n)):
                ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(w0.arr["histograms"], T.mulc(n, 16)), PTRT), h), "new histogram")
        u.run(f, st, [Ptr(msg, 0), Ptr(sp, 0), status], post)


def shared(u, w, k, some):
    """a shared_ptr to histogram k (its control block: two counts behind a pointer)"""
    ex = u.ex
    h = Ptr(w.object(k), 0) if some else NULL
    if some:
        uses = ex.var("uses", 1, 2 ** 20)
        weak = ex.var("weak", 1, 2 ** 20)
        cb = ex.new_region("control", "param", I(64), StructBase("control", {8: (I32, uses), 12: (I32, weak)}))
        ctl = Ptr(cb, 0)
    else:
        ctl = NULL
    sp = ex.new_region("sp", "param", I(16), StructBase("sp", {0: (PTRT, h), 8: (PTRT, ctl)}))
    return h, ctl, sp


# ------------------------------------------------------------------ GETOP responses
def D(ex, tag, n, j):
    t = T.app("D." + tag, (T.toint(n), T.toint(j)))
    ex.setrange(t, 0, 2 ** 55)
    return t


def dstep(w, k, j):
    """the sum over the records with all three values counted"""
    s = w.s
    return T.eq(D(w.ex, w.tag, k, T.add(j, 1)), T.add(D(w.ex, w.tag, k, j), T.add(T.add(T.add(s.len("subjects", (k, j)), s.len("predicates", (k, j))), s.len("objects", (k, j))), 36)))


def lemma_d(u, w):
    ex = u.ex
    k, j = ex.var("k", 0, 2 ** 40), ex.var("j", 0, 2 ** 40)
    u.lemma("all three values of each record are enough space (base)", T.le(T.sub(w.R(k, I0), w.R(k, 0)), D(ex, w.tag, k, I0)), [T.eq(D(ex, w.tag, k, I0), 0)])
    u.lemma("all three values of each record are enough space (step)", T.le(T.sub(w.R(k, T.add(j, 1)), w.R(k, 0)), D(ex, w.tag, k, T.add(j, 1))),
            [dstep(w, k, j), w.rfacts(k, j)[0], T.le(T.sub(w.R(k, j), w.R(k, 0)), D(ex, w.tag, k, j))])


def record_array(u, w, k, f, n):
    """an array with the blobs f of the n records of entry k"""
    return u.ex.new_region("records." + f, "heap", T.mulc(n, blob_size(u)), ArrayBase("rec." + f, blob_size(u), lambda ex, st, j: rec_fields(u, w, f, (k, j))))


class SumSpec(LoopSpec):
    """sums over records: the size counted so far is one of the two sums, plus what was there at the start"""
    outer = None

    def __init__(self, w, k, bases):
        self.w, self.k = w, k
        ex = w.ex
        self.templates = []
        for b in bases:
            self.templates += [lambda it, b=b: T.add(b, D(ex, w.tag, k, it)), lambda it, b=b: T.add(b, T.sub(w.R(k, it), w.R(k, 0)))]

    def facts(self, ex, st, it):
        w, k = self.w, self.k
        for f in [T.eq(D(ex, w.tag, k, I0), 0), dstep(w, k, it), T.le(T.sub(w.R(k, it), w.R(k, 0)), D(ex, w.tag, k, it)), T.le(0, D(ex, w.tag, k, it))] + w.rfacts(k, it):
            ex.assume(st, f)
        return []


def sum_facts(w, k):
    n = w.nrec(k)
    return [T.le(T.sub(w.R(k, n), w.R(k, 0)), D(w.ex, w.tag, k, n)), T.implies(T.eq(n, 0), T.eq(w.R(k, n), w.R(k, 0))), T.eq(D(w.ex, w.tag, k, I0), 0)]


def u_add_getop(u):
    ex = u.ex
    f = u.fn("Message::Response::BGetOp::add(%s)" % RA["BGetOp"])
    w0, msg, S = prior(u, ResGetOp)
    w = ResGetOp(u, "w")
    lemma_d(u, w)
    n = w0.n
    st = u.state()
    ex.assume(st, T.lt(n, w0.cap))
    nr = w.nrec(n)
    arrs = {x: record_array(u, w, n, x, nr) for x in w.rec}
    bases = [I0, I(8), I(16), I(12), I(20)] + [T.add(S, c) for c in (0, 8, 12, 16, 20)]
    ex.assume(st, T.eq(D(ex, w.tag, n, I0), 0))
    ex.loopspec = lambda ex, st, f, L: SumSpec(w, n, bases)

    def post(st):
        for g in sum_facts(w, n):
            ex.assume(st, g)
        grown(u, st, w, w0, msg, S, n, at_least=True)
        arrays_kept(u, st, w, w0, msg, n)
        ex.oblig(st, T.eq(num_at(u, st, w0, "statuses", n, I32), w.status(n)), "new status")
        ex.oblig(st, T.eq(num_at(u, st, w0, "num_recs", n, I64), nr), "new record count")
        for x in w.rec:
            ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(w0.arr[x], T.mulc(n, 8)), PTRT), Ptr(arrs[x], 0)), "new %s" % x)
    u.run(f, st, [Ptr(msg, 0)] + [Ptr(arrs[x], 0) for x in w.rec] + [nr, w.status(n)], post)


def u_update_size(u):
    """records written into entry i after it was added as empty"""
    ex = u.ex
    f = u.fn("Message::Response::BGetOp::update_size(unsigned long)")
    w0, msg, S = prior(u, ResGetOp)
    w = w0
    lemma_d(u, w)
    i = ex.var("i", 0, 2 ** 40)
    st = u.state()
    ex.assume(st, T.and_(T.lt(i, w0.n), T.le(w0.n, w0.cap)))
    bases = [S, I0]
    ex.assume(st, T.eq(D(ex, w.tag, i, I0), 0))
    ex.loopspec = lambda ex, st, f, L: SumSpec(w, i, bases)

    def post(st):
        for g in sum_facts(w, i):
            ex.assume(st, g)
        size = ex.load(st, Ptr(msg, off(u, w, "serialized_size")), I64)
        ex.oblig(st, T.le(T.add(S, T.sub(w.R(i, w.nrec(i)), w.R(i, 0))), size), "the reported size grows by at least what the records need")
        ex.oblig(st, T.eq(ex.load(st, Ptr(msg, off(u, w, "count")), I64), w0.n), "the number of entries stays")
        arrays_kept(u, st, w, w0, msg, I(-1))
    u.run(f, st, [Ptr(msg, 0), i], post)


# ------------------------------------------------------------------ moving entries
def u_steal(cls):
    def fn(u):
        ex = u.ex
        blob_size(u)
        f = u.fn("Message::Response::%s::steal(Message::Response::%s*, unsigned long)" % (cls.name, cls.name))
        w0, msg, S = prior(u, cls)
        w = cls(u, "from")
        w.s.nullable = False
        w.cap = ex.var("from.cap", 1, 2 ** 40)
        src = message(u, w, ex.var("from.size", HDR, 2 ** 55), w.cap)
        if cls is ResHist:
            w.contracts(u)
        i = ex.var("i", 0, 2 ** 40)
        n = w0.n
        st = u.state()
        ex.assume(st, T.and_(T.lt(n, w0.cap), T.lt(i, w.n), T.le(w.n, w.cap)))
        if cls is ResGetOp:
            lemma_d(u, w)
            bases = [I0, I(8), I(16), I(12), I(20)] + [T.add(S, c) for c in (0, 8, 12, 16, 20)]
            ex.assume(st, T.eq(D(ex, w.tag, i, I0), 0))
            ex.loopspec = lambda ex, st, f, L: SumSpec(w, i, bases)

        def post(st):
            if cls is ResGetOp:
                for g in sum_facts(w, i):
                    ex.assume(st, g)
            size = ex.load(st, Ptr(msg, off(u, w, "serialized_size")), I64)
            if cls is ResGetOp:
                ex.oblig(st, T.le(T.add(S, T.add(12, T.sub(w.R(i, w.nrec(i)), w.R(i, 0)))), size), "the reported size grows by at least what the entry needs")
            else:
                ex.oblig(st, T.eq(size, T.add(S, w.esz(i))), "the reported size grows by exactly what the entry needs")
            ex.oblig(st, T.eq(ex.load(st, Ptr(msg, off(u, w, "count")), I64), T.add(n, 1)), "there is one entry more")
            ex.oblig(st, T.eq(num_at(u, st, w0, "statuses", n, I32), w.status(i)), "status of the moved entry")
            arrays_kept(u, st, w0, w0, msg, n)
            arrays_kept(u, st, w, w, src, i)
            for member, kind, x in w.arrays():
                if kind in ("blob", "ref"):
                    def one(s, member=member, kind=kind, x=x):
                        if x == "objects" and not ex.decide(s, w.ok(i)):
                            return
                        b = B(w.s.ptr(x, i)(ex, s) if kind == "blob" else IPtr(w.s.addr(x, i)), w.s.len(x, i), w.s.type(x, i), None)
                        stored(u, s, w0, member, n, b, "moved " + member)
                        g = get(u, s, w.arr[member], T.mulc(i, blob_size(u)))
                        new = get(u, s, w0.arr[member], T.mulc(n, blob_size(u)))
                        ex.oblig(s, T.not_(T.and_(g.clean, new.clean)), "moved %s: one owner" % member)
                    ex.with_forks([st.clone()], one)
                elif kind == "blobs":
                    def two(s, member=member, x=x):
                        v = elem(u, w, kind, x)(ex, s, i)[0][1](ex, s)
                        ex.oblig(s, ex.ptr_eq(s, ex.load(s, Ptr(w0.arr[member], T.mulc(n, 8)), PTRT), v), "moved " + member)
                        ex.oblig(s, T.B(isnull(ex.resolve(ex.load(s, Ptr(w.arr[member], T.mulc(i, 8)), PTRT)))), "moved %s: no longer in the source" % member)
                    ex.with_forks([st.clone()], two)
                elif kind == "hist":
                    def three(s, member=member):
                        if ex.decide(s, w.ok(i)):
                            ex.oblig(s, ex.ptr_eq(s, ex.load(s, Ptr(w0.arr[member], T.mulc(n, 16)), PTRT), Ptr(w.object(i), 0)), "moved histogram")
                    ex.with_forks([st.clone()], three)
        u.run(f, st, [Ptr(msg, 0), Ptr(src, 0), i], post)
    return fn


# ------------------------------------------------------------------ empty messages
def u_new(cls):
    def fn(u):
        ex = u.ex
        d = cls.dirn
        f = u.fn("Message::%s::%s::%s(unsigned long)" % (d, cls.name, cls.name))
        arrays_by_contract(u)
        w = cls(u, "w")
        size = u.const("size_%s%s" % ("R" if d == "Response" else "", cls.name))
        r = ex.new_region("this", "param", I(size), UninitBase())
        m = ex.var("max", 0, 2 ** 40)

        def post(st):
            ex.oblig(st, T.eq(ex.load(st, Ptr(r, off(u, w, "serialized_size")), I64), HDR), "an empty message needs the header")
            ex.oblig(st, T.eq(ex.load(st, Ptr(r, off(u, w, "count")), I64), 0), "no entries")
            ex.oblig(st, T.eq(ex.load(st, Ptr(r, off(u, w, "max_count")), I64), m), "room for the given number of entries")
            ex.oblig(st, T.eq(ex.load(st, Ptr(r, off(u, w, "direction")), I32), w.dir), "direction")
            ex.oblig(st, T.eq(ex.load(st, Ptr(r, off(u, w, "op")), I32), w.op), "operation")
            if ex.decide(st, T.eq(m, 0)):
                return
            seen = []
            for member, kind, x in w.arrays():
                p = ex.resolve(ex.load(st, Ptr(r, off(u, w, member)), PTRT))
                ok = isinstance(p, Ptr) and p.r in st.heap and p.r not in st.dead and p.r not in seen
                ex.oblig(st, T.eq(p.r.size, T.mulc(m, stride(u, kind))) if ok else T.FALSE, "%s has room for the entries" % member)
                seen.append(p.r if isinstance(p, Ptr) else None)
        u.run(f, u.state(), [Ptr(r, 0), m], post)
    return fn


ALLK = c01.REQS + c02.RESS
UNITS = [Unit("add %s %s" % (c.dirn, c.name), u_add(c)) for c in ALLK if c is not ResGetOp] + [Unit("add Response BGetOp", u_add_getop), Unit("update_size BGetOp", u_update_size)] + \
        [Unit("steal %s" % c.name, u_steal(c)) for c in c02.RESS] + [Unit("new %s %s" % (c.dirn, c.name), u_new(c)) for c in ALLK] + \
        [Unit("pack %s %s" % (c.dirn, c.name), u_pack(c), budget=200) for c in ALLK] + [Unit("unpack %s %s" % (c.dirn, c.name), u_unpack(c), budget=200) for c in ALLK]
