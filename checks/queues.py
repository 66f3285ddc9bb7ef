"""What the contracts know about the session's queues (C13, C14).

The queue of a kind of operation is a vector with one list of batches per
datastore.  Class invariant (assumed on entry, proved on exit): every batch has
room for the configured number of operations, holds one to that many, and a
batch of two or more is within the byte limit.  A queueing operation sees one
list (the hash's choice): it is empty or ends in an arbitrary batch; the real
list, batch and value code runs on it."""
from engine.session import *
from engine.loops import LoopSpec, RegionInv
from engine import terms as T
from checks.msgs import *
from checks.blobs import *
from checks.c03 import prior, Entry

SOURCES = ["src/hxhim/ops/impl.cpp", "src/hxhim/hash.cpp", "src/hxhim/accessors.cpp", "src/hxhim/hxhim.cpp", "src/hxhim/private.cpp"] + ["src/hxhim/ops/%s.cpp" % n for n in ("PUT", "GET", "GETOP", "DELETE", "HISTOGRAM", "BPUT", "BGET", "BGETOP", "BDELETE", "BHISTOGRAM", "double", "float", "single_type")] + \
          ["src/message/%s.cpp" % n for n in ("Message", "Request", "SubjectPredicate", "BPut", "BGet", "BGetOp", "BDelete", "BHistogram")] + \
          ["src/utils/Blob.cpp", "src/utils/memory.cpp", "specs/msgs.cpp", "specs/queue.cpp"]
MAXDS = 2 ** 24


def list_hook(u):
    """libstdc++'s only out-of-line list functions"""
    ex = u.ex

    def hook(ex, st, a):
        ex.trusted.setdefault("std::__detail::_List_node_base::_M_hook", "links a node in front of another one")
        n, pos = a
        prev = ex.load(st, Ptr(pos.r, T.add(pos.off, 8)), PTRT) if isinstance(pos, Ptr) else None
        pos = ex.resolve(pos)
        prev = ex.resolve(ex.load(st, Ptr(pos.r, T.add(pos.off, 8)), PTRT))
        n = ex.resolve(n)
        ex.store(st, n, pos, PTRT)
        ex.store(st, Ptr(n.r, T.add(n.off, 8)), prev, PTRT)
        ex.store(st, prev, n, PTRT)
        ex.store(st, Ptr(pos.r, T.add(pos.off, 8)), n, PTRT)
        return None
    ex.contracts["std::__detail::_List_node_base::_M_hook(std::__detail::_List_node_base*)"] = hook


def clock(u):
    ex = u.ex

    def now(ex, st, a):
        ex.trusted.setdefault("Stats::now", "returns some time; timestamps are not part of the property")
        return ex.fresh("now", 0, 2 ** 64 - 1)
    for n in ("Stats::now()", "std::chrono::_V2::system_clock::now()", "std::chrono::_V2::steady_clock::now()"):
        ex.contracts[n] = now


class Session:
    """hx with its private state"""

    def __init__(self, u):
        self.u, ex = u, u.ex
        self.ex = ex
        clock(u)
        list_hook(u)
        arrays_by_contract(u)
        o = lambda n: u.const("off_hp_" + n)
        self.o = o
        self.ops = ex.var("max_ops", 1, 2 ** 40)
        self.limit = ex.var("max_size", 0, 2 ** 50)
        self.total = ex.var("datastores", 1, MAXDS)
        self.args = Ptr(ex.new_region("hash_args", "param", I(8), UFBase("hash_args")), 0)
        self.fields = {o("ops"): (I64, self.ops), o("size"): (I64, self.limit), o("hash_func"): (PTRT, FuncPtr("user.hash", None)), o("hash_args"): (PTRT, self.args),
                       o("running"): (I8, I(1))}
        self.hp = ex.new_region("hp", "param", I(u.const("size_hp")), StructBase("hp", self.fields))
        self.hx = ex.new_region("hx", "param", I(u.const("size_hx")), StructBase("hx", {u.const("off_hx_p"): (PTRT, Ptr(self.hp, 0))}))
        self.values = {}

        def hasher(ex, st, a):
            ex.trusted.setdefault("user.hash", "contract (C07): a function of subject and predicate; a datastore ID or negative")
            ex.oblig(st, ex.ptr_eq(st, a[0], Ptr(self.hx, 0)), "the hash function is given the session")
            ex.oblig(st, ex.ptr_eq(st, a[5], self.args), "the hash function is given its argument")
            return self.hash_of(st, a[1], a[2], a[3], a[4])
        ex.contracts["user.hash"] = hasher

    def hash_of(self, st, sp, sl, pp, pl):
        """the value of the hash of these bytes: a variable per pair of values"""
        a, b = self.which(st, sp, sl), self.which(st, pp, pl)
        if a is None or b is None:
            n = len(st.ghost.get("hashes", ()))
            st.ghost["hashes"] = st.ghost.get("hashes", ()) + (n,)
            v = self.ex.var("hash!of other bytes.%d" % n, -2 ** 31, 2 ** 31 - 1)
        else:
            v = self.hash(a, b)
        st.ghost["hashed"] = st.ghost.get("hashed", ()) + ((a, b),)
        self.ex.assume(st, T.lt(v, self.total))
        return T.mod(v, 2 ** 32)

    def which(self, st, p, n):
        for name, b in self.values.items():
            p = self.ex.resolve(p)
            if isinstance(p, Ptr) and isinstance(b.ptr, Ptr) and p.r is b.ptr.r and self.ex.proved(st, T.and_(T.eq(p.off, b.ptr.off), T.eq(n, b.len))):
                return name
        return None

    def hash(self, a, b):
        return self.ex.var("hash(%s,%s)" % (a, b), -2 ** 31, MAXDS - 1)


class Queue:
    """the lists of one kind of operation, and the last batch of the one that is used"""

    def __init__(self, s, cls, field, tag="", lists=None):
        u, ex = s.u, s.ex
        self.s, self.u, self.ex, self.cls, self.tag = s, u, ex, cls, tag
        self.LS = u.const("size_list")
        self.w0, self.msg, self.S = prior(u, cls, "old" + tag)
        self.n = self.w0.n
        self.reqs = ex.new_region("reqs" + tag, "heap", T.mulc(self.w0.cap, u.const("size_send")), UFBase("reqs" + tag))
        self.msg.base.fields[off(u, self.w0, "reqs")] = (PTRT, Ptr(self.reqs, 0))
        self.node = ex.new_region("node" + tag, "heap", I(24), StructBase("node" + tag, {0: (PTRT, lambda ex, st: self.header(st, self.seen(st))), 16: (PTRT, Ptr(self.msg, 0))}))
        self.lists = lists if lists is not None else ex.new_region("lists" + tag, "heap", T.mulc(s.total, self.LS), ArrayBase("lists" + tag, self.LS, self.elem))
        self.vec = {0: (PTRT, Ptr(self.lists, 0)), 8: (PTRT, Ptr(self.lists, T.mulc(s.total, self.LS))), 16: (PTRT, Ptr(self.lists, T.mulc(s.total, self.LS)))}
        if field is not None:
            for k, v in self.vec.items():
                s.fields[s.o(field) + k] = v
            self.ptr = Ptr(s.hp, s.o(field))

    def seen(self, st):
        return st.ghost.get("index" + self.tag, I(-1))

    def empty(self, q):
        return T.eq(T.app("batches" + self.tag, (T.toint(q),)), 0)

    def header(self, st, q):
        return Ptr(self.lists, T.mulc(q, self.LS))

    def elem(self, ex, st, q):
        def end(ex, st):
            # whoever looks into a list uses it: there is one last batch in this state
            old = st.ghost.get("index" + self.tag)
            if old is not None and not ex.proved(st, T.eq(old, q)):
                raise Unsupported("more than one list is used")
            if ex.decide(st, self.empty(q)):
                return self.header(st, q)
            st.ghost["index" + self.tag] = q
            return Ptr(self.node, 0)

        def first(ex, st):
            if ex.decide(st, self.empty(q)):
                return self.header(st, q)
            return Ptr(self.ex.new_region("first" + self.tag, "heap", I(24), UFBase("first")), 0)
        ex.setrange(T.app("batches" + self.tag, (T.toint(q),)), 0, 2 ** 60)
        return {0: (PTRT, first), 8: (PTRT, end), 16: (I64, T.app("batches" + self.tag, (T.toint(q),)))}

    def pre(self, st):
        """the invariant on the last batch"""
        ex, s = self.ex, self.s
        ex.assume(st, T.and_(T.eq(self.w0.cap, s.ops), T.and_(T.le(1, self.n), T.le(self.n, s.ops))))
        ex.assume(st, T.or_(T.eq(s.limit, 0), T.or_(T.lt(self.n, 2), T.le(self.S, s.limit))))

    def untouched(self, st, d=None):
        """the list (any list but d) is as before"""
        ex = self.ex
        e = ex.fresh("e", 0, None)
        s2 = st.clone()
        ex.assume(s2, T.lt(e, self.s.total))
        if d is not None:
            ex.assume(s2, T.ne(e, d))
        if not ex.feasible(s2):
            return

        def one(s):
            s.ghost["index" + self.tag] = e
            last = ex.resolve(ex.load(s, Ptr(self.lists, T.add(T.mulc(e, self.LS), 8)), PTRT))
            want = self.header(s, e) if ex.decide(s, self.empty(e)) else Ptr(self.node, 0)
            ex.oblig(s, ex.ptr_eq(s, last, want), "queues of other datastores are untouched" if d is not None else "nothing is queued")
        ex.with_forks([s2], one)
        if d is None:
            self.same_batch(st)

    def same_batch(self, st):
        ex = self.ex
        ex.oblig(st, T.eq(ex.load(st, Ptr(self.msg, off(self.u, self.w0, "count")), I64), self.n), "nothing is added to the last batch")
        self.kept(st, self.msg, None)

    def kept(self, st, msg, at):
        u, ex, w0 = self.u, self.ex, self.w0
        k = ex.fresh("k", 0, None)
        s2 = st.clone()
        ex.assume(s2, T.lt(k, w0.n))
        for member, kind, f in w0.arrays():
            def one(s, member=member, kind=kind, f=f):
                r = w0.arr[member]
                for o, (ty, v) in elem(u, w0, kind, f)(ex, s, k).items():
                    x = ex.load(s, Ptr(r, T.add(T.mulc(k, stride(u, kind)), o)), ty)
                    if callable(v):
                        v = v(ex, s)
                    ex.oblig(s, T.eq(x, v) if isinstance(x, T.Term) else ex.ptr_eq(s, x, v), "operations queued before stay as they are (%s)" % member)
            ex.with_forks([s2.clone()], one)

    def check(self, st, d, vals, nums, addrs):
        """exactly one operation was added behind the others of datastore d.
        vals: array -> value object, nums: array -> (type, term), addrs: address array -> pointer"""
        u, ex, w0, s = self.u, self.ex, self.w0, self.s
        self.untouched(st, d)
        st.ghost["index" + self.tag] = d
        empty = ex.decide(st, self.empty(d))
        h = self.header(st, d)
        last = ex.resolve(ex.load(st, Ptr(h.r, T.add(h.off, 8)), PTRT))
        if not (isinstance(last, Ptr) and last.r is not self.lists):
            ex.fail(st, "the operation is queued for the datastore the hash selects")
            return
        new = last.r is not self.node
        msg = ex.resolve(ex.load(st, Ptr(last.r, T.add(last.off, 16)), PTRT))
        if new:
            ex.oblig(st, T.B(isinstance(msg, Ptr) and msg.r in st.heap and msg.r not in st.dead and last.r in st.heap and last.r not in st.dead), "the new batch is a new one")
            ex.oblig(st, ex.ptr_eq(st, ex.load(st, last, PTRT), h), "the new batch is the last one")
            before = ex.resolve(ex.load(st, Ptr(last.r, T.add(last.off, 8)), PTRT))
            ex.oblig(st, ex.ptr_eq(st, before, h if empty else Ptr(self.node, 0)), "earlier batches stay in front")
            nxt = ex.load(st, h if empty else Ptr(self.node, 0), PTRT)
            ex.oblig(st, ex.ptr_eq(st, nxt, last), "earlier batches stay in front")
            n, size0 = I0, I(HDR)
            self.same_batch(st)
        else:
            ex.oblig(st, T.B(not empty), "a batch to add to")
            ex.oblig(st, ex.ptr_eq(st, msg, Ptr(self.msg, 0)), "the last batch is used")
            n, size0 = self.n, self.S
            self.kept(st, msg, n)
        g = lambda m, ty=I64: ex.load(st, Ptr(msg.r, T.add(msg.off, off(u, w0, m))), ty)
        ex.oblig(st, T.eq(g("count"), T.add(n, 1)), "exactly one operation is added")
        ex.oblig(st, T.le(g("count"), s.ops), "no batch holds more than the configured number of operations")
        size = g("serialized_size")
        ex.oblig(st, T.or_(T.eq(s.limit, 0), T.or_(T.lt(g("count"), 2), T.le(size, s.limit))), "a batch of two or more operations is within the byte limit")
        # the size is what the entry needs on the wire (C03)
        w = self.cls(u, "entry" + self.tag)
        at = lambda m, st_, o: Ptr(ex.resolve(g(m, PTRT)).r, T.add(ex.resolve(g(m, PTRT)).off, T.add(T.mulc(n, st_), o)))
        for f, b in vals.items():
            p = at(f, blob_size(u), 0)
            got = get(u, st, p.r, p.off)
            ex.oblig(st, ex.ptr_eq(st, got.ptr, b.ptr), "%s: points at the given bytes" % f)
            ex.oblig(st, T.eq(got.len, b.len), "%s: length" % f)
            ex.oblig(st, T.eq(got.type, b.type), "%s: type" % f)
        for f, (ty, v) in nums.items():
            ex.oblig(st, T.eq(ex.load(st, at(f, ex.mod_size(ty), 0), ty), v), "%s as given" % f)
        for f, p in addrs.items():
            ex.oblig(st, ex.ptr_eq(st, ex.load(st, at("orig_" + f, 8, 0), PTRT), p), "caller's address of the %s" % f)
        for m in ("direction", "op"):
            ex.oblig(st, T.eq(g(m, I32), {"direction": I(w0.dir), "op": I(w0.op)}[m]), m)


def blob_arg(u, s, name, null=False):
    r, b = mk(u, name, null=null, clean=T.FALSE)
    b.type = u.ex.var(name + ".type", 1, 9)
    r.base = StructBase(name, fields(u, b))
    s.values[name] = b
    return Ptr(r, 0), b


class Reset(RegionInv):
    """an object of the arbitrary state at the head of the loop"""

    def produce(self, ex, st, r, it, entry):
        st.mem.pop(r, None)

    def check(self, ex, st, r, it, entry, head):
        pass


class PerIteration(RegionInv):
    """at the head of the loop the lists are in an arbitrary state (that of q);
    `each` judges what one iteration did to it"""

    def __init__(self, q, each):
        self.q, self.each = q, each

    def produce(self, ex, st, r, it, entry):
        q = self.q
        b = ArrayBase("lists.it", q.LS, q.elem)
        st.ghost.pop("index" + q.tag, None)
        st.ghost["it"] = it
        st.ghost.pop("hashed", None)
        ex.put(st, r, Node(st.mem.get(r), "G", I0, r.size, lambda ex, s, d, size, ty: b.read(ex, s, r, d, size, ty)))
        q.pre(st)

    def check(self, ex, st, r, it, entry, head):
        if it is I0 or (T.is_const(it) and T.cval(it) == 0):
            return
        self.each(st, T.sub(it, 1))


class QueueLoop(LoopSpec):
    logs = ("hashed",)

    def head(self, ex, st, it):
        st.ghost.pop("hashed", None)

    def __init__(self, q0, q, each):
        self.q0, self.q, self.each = q0, q, each
        self.force = not q.ex.running          # the loop over the permutations

    def region_inv(self, ex, st, r):
        q = self.q
        if r is q.lists:
            return PerIteration(q, self.each)
        if r in (q.msg, q.node, q.reqs) or r in q.w0.arr.values():
            return Reset()
        return None


def u_put(u):
    """PutImpl: one iteration per permutation, each queueing one triple or none.
    Which iteration deals with which triple is read off the code first (the
    property does not fix the order of the permutations)."""
    ex = u.ex
    fn = u.fn("hxhim::PutImpl")
    s = Session(u)
    q0 = Queue(s, ReqPut, "puts")
    q = Queue(s, ReqPut, None, ".it", q0.lists)
    st0 = u.state()
    q0.pre(st0)
    vals = {}
    args = [Ptr(s.hx, 0), q0.ptr]
    for x in ("subject", "predicate", "object"):
        p, vals[x[0].upper()] = blob_arg(u, s, x)
        args.append(p)
    names = {"S": "subject", "P": "predicate", "O": "object"}
    perms = ex.var("permutations", 0, 2 ** 64 - 1)
    args.append(perms)
    roles = ("SPO", "SOP", "PSO", "POS", "OSP", "OPS")
    flags = {r: u.const("flag_" + r) for r in roles}
    ex.oblig(u.state(), T.B(len(set(flags.values())) == 6 and all(f and f & (f - 1) == 0 for f in flags.values())), "every permutation has a flag of its own")
    order = {}

    def look(st, i):
        def one(st):
            k = next((k for k in range(7) if ex.decide(st, T.eq(i, k))), None)
            for a, b in st.ghost.get("hashed", ()):
                order.setdefault(k, set()).add((a, b))
        ex.with_forks([st.clone()], one)

    mark = len(ex.obligs)
    ex.loopspec = lambda ex, st, f, L: QueueLoop(q0, q, look)
    u.run(fn, st0.clone(), args, lambda st: None)
    del ex.obligs[mark:]
    back = {(names[r[0]], names[r[1]]): r for r in roles}
    table = {k: back[next(iter(v))] for k, v in order.items() if len(v) == 1 and next(iter(v)) in back}
    if sorted(table) != list(range(6)) or len(set(table.values())) != 6:
        count = u.const("perm_count")
        back = {f: r for r, f in flags.items()}
        table = {i: back.get(T.cval(u.spec("perm_at", I(i)))) for i in range(count)}

    def triple(st, i):
        """which triple iteration i is about, if its flag is set"""
        for k, r in table.items():
            if ex.decide(st, T.eq(i, k)):
                want = r is not None and ex.decide(st, T.eq(T.mod(T.div(perms, flags[r]), 2), 1))
                return r, want
        return None, False

    def each(st, i):
        def one(st):
            r, want = triple(st, i)
            if r is None:
                ex.fail(st, "an iteration for none of the permutations")
                return
            d = s.hash(names[r[0]], names[r[1]])
            if not want:
                q.untouched(st)
                return
            ex.oblig(st, T.le(0, d), "a rejected triple is reported")
            a, b, c = (vals[x] for x in r)
            q.check(st, d, {"subjects": a, "predicates": b, "objects": c}, {}, {"subjects": a.ptr, "predicates": b.ptr})
        ex.with_forks([st.clone()], one)
    ex.loopspec = lambda ex, st, f, L: QueueLoop(q0, q, each)

    def post(st):
        it = st.ghost.get("it")
        if it is None:
            raise Unsupported("no loop over the permutations")
        if ex.decide(st, T.eq(st.ret, u.const("hx_success"))):
            ex.oblig(st, T.eq(it, len(roles)), "every permutation is looked at")
            q.untouched(st)
            return
        ex.oblig(st, T.eq(st.ret, u.const("hx_error")), "success or error")
        r, want = triple(st, it)
        ex.oblig(st, T.lt(s.hash(names[r[0]], names[r[1]]), 0) if want else T.FALSE, "an error only if the hash rejects a requested triple")
        q.untouched(st)
    u.run(fn, st0, args, post)


# ------------------------------------------------------------------ the calls
IMPLS = {"Put": "sss", "Get": "ss", "GetOp": "ss", "Delete": "ss"}
ROLES = {"Put": ("subject", "predicate", "object"), "Get": ("subject", "predicate"), "GetOp": ("subject", "predicate"), "Delete": ("subject", "predicate"), "Histogram": ("name",)}
NUMS = {"Put": (("permutations", I64),), "Get": (("object_type", I32),), "GetOp": (("object_type", I32), ("num_records", I64), ("op", I32)), "Delete": (), "Histogram": (("id", I32),)}
FIELD = {"Put": "puts", "Get": "gets", "GetOp": "getops", "Delete": "deletes", "Histogram": "histograms"}


def is_list_of_stamps(d):
    return "Chronostamp" in d and d.startswith(("std::list<", "std::__cxx11::list<", "std::map<", "Stats::Chronostamp& std::list<", "Stats::Chronostamp& std::__cxx11::list<"))


class Calls(Session):
    """the queueing functions by contract: each call is one event"""

    def __init__(self, u):
        Session.__init__(self, u)
        ex = self.ex
        ex.demangle_all()
        self.log = ex.new_region("log", "param", I(1), UFBase("log"))
        for op in ROLES:
            fn = ex.find_fn("hxhim::%sImpl" % op)
            if fn is None:
                raise Unsupported("hxhim::%sImpl not found" % op)
            ex.contracts[fn.name] = self.impl(op)
        stamps = ex.new_region("stamps", "param", None, UFBase("stamps"))
        for n, d in ex.demangled.items():
            if d.startswith("hxhim::serial_puts("):
                ex.contracts[n] = self.sends
            elif "Chronostamp" in d and "emplace_back" in d:
                ex.contracts[n] = self.noop("statistics: appends a time stamp")
            elif "Chronostamp" in d and "std::map<" in d and "operator[]" in d:
                ex.contracts[n] = self.noop("statistics: the list of time stamps of an operation", Ptr(stamps, 0))
            elif d in ("std::condition_variable::notify_all()", "std::mutex::lock()", "std::mutex::unlock()"):
                ex.contracts[n] = self.noop("synchronisation: no effect in a sequential execution")
        for d in ("std::condition_variable::notify_all()",):
            ex.contracts[d] = self.noop("synchronisation: no effect in a sequential execution")

    def noop(self, what, ret=None):
        def h(ex, st, a):
            ex.trusted.setdefault(what.split(":")[0], what)
            return ret
        return h

    def sends(self, ex, st, a):
        ex.trusted.setdefault("hxhim::serial_puts", "contract: sends what is queued when there is enough (process(): C16); queues nothing")
        return None

    def impl(self, op):
        u = self.u

        def h(ex, st, a):
            ex.trusted.setdefault("hxhim::*Impl", "contract proved in their own units (C14)")
            ex.oblig(st, ex.ptr_eq(st, a[0], Ptr(self.hx, 0)), "the session is passed on")
            ex.oblig(st, ex.ptr_eq(st, a[1], Ptr(self.hp, self.o(FIELD[op]))), "the queue of this kind of operation is used")
            rest = list(a[2:])
            if op == "Histogram":
                vals = [B(ex.resolve(rest[1]), rest[2], I(u.const("type_byte")), None)]
                nums = [rest[0]]
            else:
                n = len(ROLES[op])
                vals = []
                for p in rest[:n]:
                    p = ex.resolve(p)
                    vals.append(get(u, st, p.r, p.off))
                nums = rest[n:]
            st.ghost["calls"] = st.ghost.get("calls", ()) + ((op, vals, nums),)
            ex.put(st, self.log, Node(st.mem.get(self.log), "S", I0, I(1), ex.var("logged", 0, 255), I8))
            ok = T.var("queued", "Bool")
            return T.ite(ok, u.const("hx_success"), u.const("hx_error"))
        return h

    def expect(self, st, call, op, vals, nums):
        ex = self.ex
        ex.oblig(st, T.B(call[0] == op), "the right kind of operation is queued")
        if call[0] != op:
            return
        for r, got, want in zip(ROLES[op], call[1], vals):
            ex.oblig(st, ex.ptr_eq(st, got.ptr, want.ptr), "%s: the caller's bytes" % r)
            ex.oblig(st, T.eq(got.len, want.len), "%s: the caller's length" % r)
            ex.oblig(st, T.eq(got.type, want.type), "%s: the caller's type" % r)
        for (r, ty), got, want in zip(NUMS[op], call[2], nums):
            ex.oblig(st, T.eq(got, want), "%s as given" % r)


FILLED = "unsigned long* alloc_array<unsigned long, unsigned long>"


def filled_by_contract(u):
    """alloc_array<unsigned long>(count, value)"""
    ex = u.ex

    def h(ex, st, a):
        ex.trusted.setdefault("alloc_array<unsigned long, unsigned long>", "contract proved in its own unit")
        if ex.decide(st, T.eq(a[0], 0)):
            return NULL
        v = ex.load(st, ex.resolve(a[1]), I64)
        return Ptr(ex.alloc(st, T.mulc(a[0], 8), "heap", "lengths", ArrayBase("filled", 8, lambda ex, st, q: {0: (I64, v)})), 0)

    def free(ex, st, a):
        ex.free(st, a[0])
    for n, d in ex.demangled.items():
        if d.startswith(FILLED + "("):
            ex.contracts[n] = h
        elif d.startswith("void dealloc_array<unsigned long>("):
            ex.trusted.setdefault("dealloc_array<>", "contract proved in its own units (C10)")
            ex.contracts[n] = free


def u_filled(u):
    ex = u.ex
    fn = u.fn(FILLED)
    n = ex.var("count", 0, 2 ** 40)
    v = ex.var("value", 0, 2 ** 64 - 1)
    arg = ex.new_region("value", "param", I(8), StructBase("value", {0: (I64, v)}))

    class Inv(RegionInv):
        def produce(self, ex, st, r, it, entry):
            ex.put(st, r, Node(st.mem.get(r), "G", I0, r.size, self.read))

        def read(self, ex, st, rel, size, ty):
            q = T.div(rel, 8)
            if size != 8 or ty != I64 or not ex.proved(st, T.eq(T.mod(rel, 8), 0)):
                raise Unsupported("odd access to the new array")
            return v if ex.decide(st, T.lt(q, st.ghost["it"])) else ex.var("uninitialized", 0, 2 ** 64 - 1)

        def check(self, ex, st, r, it, entry, head):
            k = ex.fresh("k", 0, None)
            ex.assume(st, T.lt(k, it))
            if ex.feasible(st):
                ex.with_forks([st.clone()], lambda s: ex.oblig(s, T.eq(ex.load(s, Ptr(r, T.mulc(k, 8)), I64), v), "every element so far is the value"))

    class Spec(LoopSpec):
        def region_inv(self, ex, st, r):
            return Inv() if r.kind == "heap" else None

        def facts(self, ex, st, it):
            st.ghost["it"] = it
            return []
    ex.loopspec = lambda ex, st, f, L: Spec()

    def post(st):
        p = ex.resolve(st.ret)
        if isnull(p):
            ex.oblig(st, T.eq(n, 0), "null only for no elements")
            return
        ex.oblig(st, T.and_(T.eq(p.r.size, T.mulc(n, 8)), T.eq(p.off, 0), T.B(p.r in st.heap)), "a new array of the requested length")
        k = ex.fresh("k", 0, None)
        ex.assume(st, T.lt(k, n))
        if ex.feasible(st):
            ex.with_forks([st.clone()], lambda s: ex.oblig(s, T.eq(ex.load(s, Ptr(p.r, T.mulc(k, 8)), I64), v), "every element is the value"))
    u.run(fn, u.state(), [n, Ptr(arg, 0)], post)


class LogInv(RegionInv):
    def __init__(self, each):
        self.each = each

    def produce(self, ex, st, r, it, entry):
        st.ghost["calls"] = ()
        st.ghost["it"] = it

    def check(self, ex, st, r, it, entry, head):
        if T.is_const(it) and T.cval(it) == 0:
            ex.oblig(st, T.B(not st.ghost.get("calls")), "nothing is queued before the first one")
            return
        self.each(st, T.sub(it, 1))


class CallLoop(LoopSpec):
    logs = ("calls",)

    def __init__(self, s, each):
        self.s, self.each = s, each

    def region_inv(self, ex, st, r):
        return LogInv(self.each) if r is self.s.log else None


PT, LEN, TY, N = "ptr", "len", "type", "num"


def params(op, typed, bulk):
    """parameters behind hx: (name, role, part); typed: "Double"/"Float" (length and type fixed), "SingleType" (one type)"""
    out = []
    if op == "Histogram":
        return [("id", "id", I32), ("name", "name", PT), ("len", "name", LEN)]
    for r in ROLES[op]:
        out.append((r, r, PT))
        if not (r == "object" and typed in ("Double", "Float")):
            out.append((r + ".len", r, LEN))
        if not (r == "object" and typed in ("Double", "Float")):
            out.append((r + ".type", r, TY if not (r == "object" and typed == "SingleType") else "one type"))
    for n, ty in NUMS[op]:
        if n == "object_type" and typed in ("Double", "Float"):
            continue
        out.append((n, n, "one " + str(ty[1]) if n == "object_type" and typed == "SingleType" else ty))
    return out


def u_call(op, typed, bulk, c, setup=None):
    """one call of the user's interface: exactly the given operations are queued, in order"""
    def f(u):
        ex = u.ex
        if typed in ("Double", "Float") and op in ("Put", "Get", "GetOp", "Delete"):
            name = ("B" if bulk else "") + op + typed
        else:
            name = ("B" if bulk else "") + op + typed
        if c:
            name = {"hxhimBGetOpSingleType": "hxhimBGetOPSingleType"}.get("hxhim" + name, "hxhim" + name)
        else:
            name = "hxhim::" + name
        fn = u.fn(name)
        s = Calls(u)
        filled_by_contract(u)
        more = setup(u, s) if setup else None
        st = u.state()
        args, at = [Ptr(s.hx, 0)], {}
        for n, role, part in params(op, typed, bulk):
            ty = {PT: PTRT, LEN: I64, TY: I32, "one type": I32, "one 32": I32}.get(part, part)
            lo, hi = 0, 2 ** 64 - 1 if ty == I64 else 2 ** 32 - 1
            if part == LEN:
                lo, hi = 1, 2 ** 40
            if role == "id":
                hi = 2 ** 31 - 1
            if bulk and not str(part).startswith("one"):
                w = ex.mod_size(ty)
                cnt = ex.var("count", 0, 2 ** 40)

                def el(i, n=n, ty=ty, lo=lo, hi=hi):
                    t = T.app("arg." + n, (T.toint(i),))
                    ex.setrange(t, lo if ty != PTRT else 4096, hi if ty != PTRT else 2 ** 47)
                    return IPtr(t) if ty == PTRT else t
                r = ex.new_region("arg." + n, "param", T.mulc(cnt, w), ArrayBase("arg." + n, w, lambda ex, st, q, el=el, ty=ty: {0: (ty, el(q))}))
                args.append(Ptr(r, 0))
                at[n] = el
            else:
                v = Ptr(ex.new_region("arg." + n, "param", ex.var("size of " + n, 1, 2 ** 40), UFBase("arg." + n)), 0) if part == PT else ex.var("arg." + n, lo, hi)
                args.append(v)
                at[n] = lambda i, v=v: v
        if bulk:
            args.append(ex.var("count", 0, 2 ** 40))
        if op == "Histogram":
            # ids are checked first
            total = u.const("off_hp_servers")
            s.fields[total] = (I64, s.total)
        fixed = {"Double": 8, "Float": 4}.get(typed)
        ftype = u.const("type_" + typed.lower()) if fixed else None

        def want(i):
            vals = []
            for r in ROLES[op]:
                if op == "Histogram":
                    vals.append(B(at["name"](i), at["len"](i), I(u.const("type_byte")), None))
                elif r == "object" and fixed:
                    vals.append(B(at[r](i), I(fixed), I(ftype), None))
                else:
                    vals.append(B(at[r](i), at[r + ".len"](i), at[r + ".type"](i), None))
            nums = [I(ftype) if n == "object_type" and fixed else at[n](i) for n, ty in NUMS[op]]
            return vals, nums

        def each(st, i):
            def one(st):
                calls = st.ghost.get("calls", ())
                ex.oblig(st, T.B(len(calls) == 1), "exactly one operation is queued per entry")
                if len(calls) == 1:
                    s.expect(st, calls[0], op, *want(i))
            ex.with_forks([st.clone()], one)
        if op == "Histogram":
            class Spec(CallLoop):
                def facts(self, ex, st, it):
                    return []
            ex.loopspec = lambda ex, st, f, L: Spec(s, each)
        else:
            ex.loopspec = lambda ex, st, f, L: CallLoop(s, each)

        def post(st):
            if more:
                more(st)
            calls = st.ghost.get("calls", ())
            if not bulk:
                if op == "Histogram" and not ex.decide(st, T.lt(at["id"](I0), s.total)):
                    ex.oblig(st, T.B(not calls), "an ID that does not exist queues nothing")
                    return
                ex.oblig(st, T.B(len(calls) == 1), "exactly one operation is queued")
                if len(calls) == 1:
                    s.expect(st, calls[0], op, *want(I0))
                    ex.oblig(st, T.eq(st.ret, T.ite(T.var("queued", "Bool"), u.const("hx_success"), u.const("hx_error"))), "the outcome is reported")
                return
            it = st.ghost.get("it")
            if it is None and calls:
                raise Unsupported("no loop over the entries")
            ex.oblig(st, T.B(not calls), "nothing else is queued")
            if it is None and op != "Histogram":
                # no entries: nothing to queue, either way
                ex.oblig(st, T.eq(ex.var("count", 0, 2 ** 40), 0), "every entry is queued")
                return
            if op == "Histogram" and (it is None or not ex.proved(st, T.eq(st.ret, u.const("hx_success")))):
                # an ID that does not exist
                ex.oblig(st, T.and_(T.B(it is None), T.eq(st.ret, u.const("hx_error"))), "refused before anything is queued")
                return
            ex.oblig(st, T.eq(it, ex.var("count", 0, 2 ** 40)) if it is not None else T.FALSE, "every entry is queued")
            ex.oblig(st, T.eq(st.ret, u.const("hx_success")), "success")
        u.run(fn, st, args, post)
    return f


CALLS = [(op, t, b, c) for op in ROLES for t in ("", "Double", "Float", "SingleType") for b in (False, True) for c in (False, True)
         if not (op in ("Delete", "Histogram") and t) and not (t == "SingleType" and not b)]


def call_name(op, t, b, c):
    return ("hxhim" if c else "hxhim::") + ("B" if b else "") + op + t
