"""C12: ordered queries return the right records in the right order.

The map is a sorted sequence of records by contract; BGetOpImpl is proved one
arbitrary query at a time: which positions of the sequence it copies into the
answer, in which order, when it stops, and when the query fails.  Inner loops
walk the sequence by an invariant (position = start +- iteration).  What is
copied (BGetOp_copy_response), where a query starts (BGetOp_loop_init,
BGetOp_get_seek, BGetOp_get_end) and how it fails (BGetOp_error_response) are
proved in their own units, and lemmas about the order of byte strings connect
those positions with "the records whose keys begin with ..."."""
from engine.session import *
from engine.loops import StrInv
from engine.harness import Harness, full_sources, FULL_LIBS
from checks.stores import *
from checks import stores, c17, pstores

SOURCES = pstores.SOURCES
HARNESSES = [Harness("c12.cpp", full_sources(), FULL_LIBS, opt="-O0", san=["-fsanitize=address"], budget=12)]
DS = "Datastore::Datastore::"
NUMERIC = ("INT32", "INT64", "UINT32", "UINT64", "FLOAT", "DOUBLE")


def kfun(ex, name, k, lo, hi):
    t = T.app(name, (T.toint(k),))
    ex.setrange(t, lo, hi)
    return t


class Q:
    """a request of queries, the datastore it goes to and the response"""

    def __init__(self, u, ns=None):
        self.u, self.ex = u, u.ex
        ex = self.ex
        strings.install(ex)
        self.store = pstores.PStore(u, ns) if ns else Memory(u)
        w = self.w = ReqGetOp(u, "w")
        w.mode = "unpack"
        self.req = message(u, w)
        self.UNSET, self.ERROR, self.OK = (u.const(c) for c in ("ds_unset", "ds_error", "ds_success"))
        self.answer = Answer(u, w, ResGetOp)
        rw = self.answer.rw
        self.BS = blob_size(u)
        f = self.answer.r.base.fields
        self.arr = {m: f[off(u, rw, m)][1].r for m, kind, _ in rw.arrays()}
        self.statuses, self.nrecs = self.arr["statuses"], self.arr["num_recs"]
        for r in ("subjects", "predicates", "objects"):
            self.arr[r].base = ArrayBase("slots." + r, 8, lambda ex, st, q, r=r: {0: (PTRT, Ptr(self.slots(r, q), 0))})

    def slots(self, r, k):
        """the records of entry k: as many as asked for, at least one; empty"""
        u = self.u
        return self.ex.family("records." + r, T.toint(k), T.mulc(self.room(k), self.BS), ArrayBase("records." + r, self.BS, lambda ex, st, j: fields(u, empty())), kind="pheap")

    def op(self, k):
        return self.w.s.num("ops", k, 0, 2 ** 32 - 1)

    def isop(self, k, *names):
        return T.or_(*[T.eq(self.op(k), self.u.const("getop_" + n)) for n in names])

    def wanted(self, k):
        return self.w.s.num("num_recs", k)

    def room(self, k):
        n = self.wanted(k)
        return T.ite(T.eq(n, 0), I(1), n)

    def status(self, st, k):
        return self.ex.load(st, Ptr(self.statuses, T.mulc(k, 4)), I32)

    def set_status(self, st, k, v):
        self.ex.store(st, Ptr(self.statuses, T.mulc(k, 4)), T.toint(v), I32)

    def nrec(self, st, k):
        return self.ex.load(st, Ptr(self.nrecs, T.mulc(k, 8)), I64)

    def set_nrec(self, st, k, v):
        self.ex.store(st, Ptr(self.nrecs, T.mulc(k, 8)), T.toint(v), I64)

    # what the pair of a query is encoded as: a predicate that cannot be encoded counts as empty
    def usable(self, k):
        return T.or_(self.isop(k, "FIRST", "LAST"), self.codec.ok("encode", "subjects", k))

    def slen(self, k):
        return self.codec.len("encode", "subjects", k)

    def plen(self, k):
        return T.ite(self.codec.ok("encode", "predicates", k), self.codec.len("encode", "predicates", k), I0)

    def prefix_len(self, k):
        return T.add(self.slen(k), self.plen(k))

    def key_len(self, k):
        t = kfun(self.ex, "key.len", k, 19, 2 ** 42)
        self.ex.facts_of.setdefault(t, [T.le(T.add(self.prefix_len(k), 19), t)])
        return t

    def key_byte(self, k):
        return byte_fn(self.ex, "key.byte", k)

    def str_fn(self, name, k):
        """length and bytes of the string called name of query k"""
        if name == "prefix":
            return self.prefix_len(k), self.key_byte(k)
        t = kfun(self.ex, name + ".len", k, 0, 2 ** 42)
        return t, byte_fn(self.ex, name + ".byte", k)


def current(st):
    return st.ghost.get("done")


# ------------------------------------------------------------------ the sequence
class Sequence:
    """std::map<string, string> by contract: records 0 .. n-1 in the order of their keys"""
    below = 0                     # the first position a walk may get to

    def __init__(self, q):
        self.q, self.u, self.ex = q, q.u, q.ex
        u, ex = self.u, self.ex
        self.n = ex.var("map.size", 0, 2 ** 40)
        self.second = u.const("off_entry_second")
        self.steps = []
        self.container()

    def container(self):
        q, u, ex = self.q, self.u, self.ex
        self.endp = Ptr(q.store.r, T.toint(u.const("off_ds_db") + 8))
        NOTE = "std::map<string, string>: as the standard says: records in the order of their keys' bytes, lower_bound is the first record not below"
        CMP = "std::string::compare(pos, n, s) is 0 exactly if the n bytes at pos (as many as there are) are those of s"
        FN = {"prefix": "prefix", "seek": "seek", "end": "end"}

        def content(st, r, off):
            if r.fam == "rec" and T.is_const(off):
                f = {0: "rec.key", self.second: "rec.value"}.get(T.cval(off))
                if f:
                    n, byte = self.text(f, r.idx)
                    return SV(ex.family(f + ".chars", r.idx, T.add(n, 1), Bytes(byte, self.special(f, r.idx)), kind="pheap"), n)
            return None
        ex.unknown_string = content

        def mine(st, p):
            ex.trusted.setdefault("std::map<string, string>", NOTE)
            ex.oblig(st, ex.ptr_eq(st, p, q.store.db), "the map of this datastore")

        def at(st, i):
            return self.node(i) if ex.decide(st, T.lt(i, self.n)) else self.endp

        def begin(ex, st, a):
            mine(st, a[0])
            return at(st, I0)

        def end(ex, st, a):
            mine(st, a[0])
            return self.endp

        def size(ex, st, a):
            mine(st, a[0])
            return self.n

        def empty_(ex, st, a):
            mine(st, a[0])
            return T.eq(self.n, 0)

        def lower(ex, st, a):
            mine(st, a[0])
            v = sget(ex, st, a[1])
            k = current(st)
            for name in FN:
                n, byte = q.str_fn(name, k)
                if string_is(ex, st, v, n, byte):
                    return at(st, self.lower(name, k))
            raise Unsupported("lower_bound of a string the contract does not know")

        def deref(ex, st, a):
            p = ex.resolve(ex.load(st, a[0], PTRT))
            if not (isinstance(p, Ptr) and p.r.fam == "rec"):
                ex.fail(st, "the record looked at exists")
                raise Dead()
            return p

        def step(d, post):
            def h(ex, st, a):
                p = ex.resolve(ex.load(st, a[0], PTRT))
                if isinstance(p, Ptr) and p.r.fam == "rec":
                    i = p.r.idx
                elif isinstance(p, Ptr) and ex.proved(st, ex.ptr_eq(st, p, self.endp)):
                    i = self.n
                else:
                    raise Unsupported("a step of an unknown iterator")
                if d > 0:
                    ex.oblig(st, T.lt(i, self.n), "no step beyond the last record")
                    new = at(st, T.add(i, 1))
                else:
                    ex.oblig(st, T.lt(0, i), "no step before the first record")
                    new = self.node(T.sub(i, 1))
                self.steps.append(d)
                ex.store(st, a[0], new, PTRT)
                return p if post else a[0]
            return h
        methods(ex, "std::map<string,string>::", {"begin": begin, "cbegin": begin, "end": end, "cend": end, "size": size, "empty": empty_, "lower_bound": lower}, "the map")
        for n, d in ex.demangled.items():
            s = plain(d)
            for c in ("std::_Rb_tree_iterator<std::pair<string const,string>>::", "std::_Rb_tree_const_iterator<std::pair<string const,string>>::"):
                if not s.startswith(c):
                    continue
                m = s[len(c):]
                if m.startswith("operator->") or m.startswith("operator*"):
                    ex.contracts[n] = deref
                elif m.startswith("operator++") or m.startswith("operator--"):
                    ex.contracts[n] = step(1 if "++" in m else -1, "(int)" in m)

        def compare(ex, st, a):
            p = ex.resolve(a[0])
            k = current(st)
            n, byte = q.str_fn("prefix", k)
            if not (isinstance(p, Ptr) and p.r.fam == "rec" and ex.proved(st, T.eq(p.off, 0)) and ex.proved(st, T.and_(T.eq(a[1], 0), T.eq(a[2], n))) and string_is(ex, st, sget(ex, st, a[3]), n, byte)):
                raise Unsupported("a comparison of strings the contract does not cover")
            ex.trusted.setdefault("std::string::compare", CMP)
            t = kfun(ex, "compared", (k), 1, 2 ** 32 - 1)
            return T.ite(self.match(p.r.idx, k), I0, t)
        ex.contracts["std::string::compare(unsigned long, unsigned long, std::string const&) const"] = compare

    def at(self, st, i):
        return self.node(i) if self.ex.decide(st, T.and_(T.le(0, i), T.lt(i, self.n))) else self.endp

    def copied_record(self, st, kp, vp):
        """the record whose key and value are given"""
        ex = self.ex
        kp, vp = ex.resolve(kp), ex.resolve(vp)
        if not (isinstance(kp, Ptr) and kp.r.fam == "rec" and isinstance(vp, Ptr) and vp.r.fam == "rec"):
            raise Unsupported("a copy of something that is not a record of the map")
        ex.oblig(st, T.and_(T.eq(kp.r.idx, vp.r.idx), T.eq(kp.off, 0), T.eq(vp.off, self.second)), "key and value of one record are copied")
        return kp.r.idx

    def record(self, i):
        """the arguments that stand for record i"""
        n = self.node(i)
        return [n, Ptr(n.r, self.second)]

    def text(self, f, i):
        t = T.app(f + ".len", (T.toint(i),))
        self.ex.setrange(t, 4 if f == "rec.value" else 19, MAXLEN)
        return t, byte_fn(self.ex, f + ".byte", i)

    def vtype(self, i):
        t = T.app("rec.type", (T.toint(i),))
        self.ex.setrange(t, 0, 2 ** 32 - 1)
        return t

    def special(self, f, i):
        if f != "rec.value":
            return None
        n = self.text(f, i)[0]
        return lambda ex, st, off, size, ty: self.vtype(i) if size == 4 and ex.proved(st, T.eq(off, T.sub(n, 4))) else None

    def node(self, i):
        return Ptr(self.ex.family("rec", T.toint(i), I(64), UFBase("rec"), kind="pheap"), 0)

    def lower(self, name, k):
        t = T.app("lower." + name, (T.toint(k),))
        self.ex.setrange(t, 0, 2 ** 40)
        self.ex.facts_of.setdefault(t, [T.le(t, self.n)])
        return t

    def match(self, i, k):
        """the key of record i begins with the bytes of query k's pair"""
        return T.app("begins", (T.toint(i), T.toint(k)), "Bool")

    def decodes(self, i):
        return T.app("decodes", (T.toint(i),), "Bool")


class Step(PtrInv):
    """an iterator that walks the sequence"""

    def __init__(self, seq, start, d):
        self.seq, self.start, self.d = seq, start, d

    def pos(self, it):
        return T.add(self.start, it) if self.d > 0 else T.sub(self.start, it)

    def inside(self, it):
        return T.le(self.pos(it), self.seq.n) if self.d > 0 else T.le(self.seq.below, self.pos(it))

    def produce(self, ex, st, it):
        ex.assume(st, self.inside(it))
        return self.at(ex, st, it)

    def at(self, ex, st, it):
        if self.d > 0 and not ex.decide(st, T.lt(self.pos(it), self.seq.n)):
            return self.seq.endp
        if self.d < 0 and self.seq.below < 0 and not ex.decide(st, T.le(0, self.pos(it))):
            return self.seq.endp
        return self.seq.node(self.pos(it))

    def check(self, ex, st, v, it):
        ex.oblig(st, self.inside(it), "the walk stays within the records")
        ex.oblig(st, ex.ptr_eq(st, v, self.at(ex, st, it)), "the walk goes from record to record")


def copied(k, j):
    """the first j records of query k could be copied"""
    return T.app("copied", (T.toint(k), T.toint(j)), "Bool")


class CellInv(RegionInv):
    """one element of an array (of entry k) changes, as given"""

    def __init__(self, walk, k, size, ty, value, holds):
        self.walk, self.k, self.size, self.ty, self.value, self.holds = walk, k, size, ty, value, holds

    def produce(self, ex, st, r, it, entry):
        ex.put(st, r, Node(st.mem.get(r), "S", T.mulc(self.k, self.size), I(self.size), self.value(ex, st, it), self.ty))

    def check(self, ex, st, r, it, entry, head):
        for f in self.walk.defs(it):
            ex.assume(st, f)
        v = ex.load(st, Ptr(r, T.mulc(self.k, self.size)), self.ty, check=False)
        ex.oblig(st, self.holds(ex, st, v, it), "status and number of records follow the records copied so far")
        if head is None:
            return
        from engine.loops import new_nodes
        for x in new_nodes(st.mem.get(r), head)[0]:
            ex.oblig(st, T.and_(T.eq(x.off, T.mulc(self.k, self.size)), T.eq(x.n, self.size)), "the other entries are left alone")


class Walk(LoopSpec):
    """the loop over the records of query k"""
    force = True

    def __init__(self, q, seq, k):
        self.q, self.seq, self.k = q, seq, k
        self.inv = None
        self.mark = len(seq.steps)
        self.before = None

    def pointer(self, ex, st, key, v0):
        v0 = ex.resolve(v0)
        if not (isinstance(v0, Ptr) and v0.r.fam == "rec"):
            return None
        ds = set(self.seq.steps[self.mark:])
        if len(ds) != 1 or self.inv is not None:
            raise Unsupported("a walk that goes forward and backward, or by several iterators")
        self.inv = Step(self.seq, v0.r.idx, ds.pop())
        return self.inv

    def defs(self, it):
        """definition of copied()"""
        out = [copied(self.k, I0)]
        if not (T.is_const(it) and T.cval(it) == 0) and self.inv:
            p = T.sub(it, 1)
            out.append(same_bool(copied(self.k, it), T.and_(copied(self.k, p), self.seq.decodes(self.inv.pos(p)))))
        return out

    def region_inv(self, ex, st, r):
        q, k = self.q, self.k
        if r is q.statuses:
            v = lambda it: T.ite(copied(k, it), I(q.UNSET), I(q.ERROR))
            return CellInv(self, k, 4, I32, lambda ex, st, it: v(it), lambda ex, st, x, it: T.eq(x, v(it)))
        if r is q.nrecs:
            def val(ex, st, it):
                bad = T.app("copied.failed", (T.toint(k), it))
                ex.setrange(bad, 0, 2 ** 64 - 1)
                ex.assume(st, T.implies(T.not_(copied(k, it)), T.lt(bad, it)))
                return T.ite(copied(k, it), it, bad)
            return CellInv(self, k, 8, I64, val, lambda ex, st, x, it: T.ite(copied(k, it), T.eq(x, it), T.lt(x, it)))
        return None

    def head(self, ex, st, it):
        if self.before is None:
            self.before = st.ghost.get("events", ())
        for f in self.defs(it):
            ex.assume(st, f)
        st.ghost["events"] = self.before + (("walk", self.inv, it),)

    def back(self, ex, st, it):
        es = st.ghost.get("events", ())[len(self.before) + 1:]
        if len(es) != 1 or es[0][0] != "copy" or self.inv is None:
            ex.fail(st, "each step of the walk copies one record")
            return
        _, i, k, j = es[0]
        ex.oblig(st, T.and_(T.eq(k, self.k), T.eq(j, it), T.eq(i, self.inv.pos(it))), "each step of the walk copies the record it is at")


class Records(Sequence):
    """the records of a LevelDB or RocksDB database as an iterator shows them:
    a position is a record, or none (before the first and after the last one)"""
    below = -1

    def container(self):
        q, u, ex = self.q, self.u, self.ex
        s = q.store
        ns, c = s.ns, s.c
        self.second = None
        names = ("valid", "first", "last", "seek", "next", "prev", "key", "value")
        vt = {c("v" + n): (PTRT, FuncPtr("iter." + n, None)) for n in names}
        vt[8] = (PTRT, FuncPtr("iter.delete", None))
        vt = ex.new_region("iterator.vtable", "const", None, StructBase("vtable", vt))
        s.vtable.base.fields[c("vnewiter")] = (PTRT, FuncPtr("db.NewIterator", None))
        self.endp = Ptr(ex.new_region("no.record", "pheap", I(8), UninitBase()), 0)
        self.it = None
        NOTE = "contract: an iterator shows the records as they were when it was made, in the order of their keys' bytes; Seek: the first record not below; Next and Prev: the neighbour, none at the ends"

        def make(ex, st, a):
            ex.trusted.setdefault("%s::Iterator" % ns, NOTE)
            ex.oblig(st, ex.ptr_eq(st, a[0], s.db), "the datastore's database is read")
            o = ex.resolve(a[1])
            snap = ex.load(st, Ptr(o.r, T.add(o.off, c("snapshot"))), PTRT)
            ex.oblig(st, ex.ptr_eq(st, snap, NULL), "the current records are read")
            if self.it is not None and self.it in st.heap or st.ghost.get("iterator"):
                raise Unsupported("more than one iterator")
            st.ghost["iterator"] = ("made",)
            r = self.it = ex.alloc(st, I(16), "pheap", "iterator", StructBase("iterator", {0: (PTRT, Ptr(vt, 0)), 8: (PTRT, self.endp)}))      # at no record
            return Ptr(r, 0)

        def mine(st, p):
            p = ex.resolve(p)
            if not isinstance(p, Ptr) or self.it is None or p.r is not self.it or not ex.proved(st, T.eq(p.off, 0)):
                raise Unsupported("an iterator the contract does not know")
            if st.ghost.get("iterator") != ("made",):
                ex.fail(st, "the iterator is not used after its end")
                raise Dead()

        def pos(st):
            p = ex.resolve(ex.load(st, Ptr(self.it, 8), PTRT))
            if isinstance(p, Ptr) and p.r.fam == "rec":
                return p.r.idx
            if isinstance(p, Ptr) and p.r is self.endp.r:
                return None
            raise Unsupported("an iterator at an unknown position")

        def go(st, i):
            ex.store(st, Ptr(self.it, 8), self.at(st, i), PTRT)

        def method(name, f):
            def h(ex, st, a):
                x = a
                if name in ("key", "value") and len(a) == 2:
                    raise Unsupported("a slice returned in memory")
                mine(st, x[0])
                return f(st, *x[1:])
            ex.contracts["iter." + name] = h

        def seek(st, p):
            data, n = s.slice(ex, st, p)
            k = current(st)
            for name in ("prefix", "seek", "end"):
                m, byte = q.str_fn(name, k)
                if s.is_(st, data, n, m, byte):
                    go(st, self.lower(name, k))
                    return None
            raise Unsupported("Seek to a text the contract does not know")

        def step(d):
            def f(st):
                i = pos(st)
                if i is None:
                    ex.fail(st, "an iterator that is at no record does not go on")
                    raise Dead()
                self.steps.append(d)
                go(st, T.add(i, 1) if d > 0 else T.sub(i, 1))
                return None
            return f

        def part(what):
            def f(st):
                i = pos(st)
                if i is None:
                    ex.fail(st, "the record looked at exists")
                    raise Dead()
                n, byte = self.text(what, i)
                return Agg([Ptr(self.chars(what, i), 0), n])
            return f
        method("valid", lambda st: T.B(pos(st) is not None))
        method("first", lambda st: go(st, I0))
        method("last", lambda st: go(st, T.sub(self.n, 1)))
        method("seek", seek)
        method("next", step(1))
        method("prev", step(-1))
        method("key", part("rec.key"))
        method("value", part("rec.value"))

        def delete(ex, st, a):
            mine(st, a[0])
            st.ghost["iterator"] = ("gone",)
            return None
        ex.contracts["iter.delete"] = delete
        ex.contracts["db.NewIterator"] = make

        def starts(ex, st, a):
            ex.trusted.setdefault("%s::Slice::starts_with" % ns, "contract: whether the bytes begin with the other's")
            data, n = s.slice(ex, st, a[0])
            k = current(st)
            i = self.whole(st, data, n, "rec.key")
            data, n = s.slice(ex, st, a[1])
            m, byte = q.str_fn("prefix", k)
            if i is None or not s.is_(st, data, n, m, byte):
                raise Unsupported("a comparison of strings the contract does not cover")
            return self.match(i, k)
        for n, d in ex.demangled.items():
            if plain(d) == "%s::Slice::starts_with(%s::Slice const&) const" % (ns, ns):
                ex.contracts[n] = starts

    def chars(self, what, i):
        n, byte = self.text(what, i)
        return self.ex.family(what + ".chars", T.toint(i), n, Bytes(byte, self.special(what, i)), kind="pheap")

    def whole(self, st, data, n, what):
        """which record's key (value) these bytes are"""
        ex = self.ex
        if not (isinstance(data, Ptr) and data.r.fam == what + ".chars" and ex.proved(st, T.and_(T.eq(data.off, 0), T.eq(n, self.text(what, data.r.idx)[0])))):
            return None
        return data.r.idx

    def copied_record(self, st, kp, vp):
        s, ex = self.q.store, self.ex
        i, j = (self.whole(st, *s.slice(ex, st, p), what) for p, what in ((kp, "rec.key"), (vp, "rec.value")))
        if i is None or j is None:
            raise Unsupported("a copy of something that is not a record of the database")
        ex.oblig(st, T.eq(i, j), "key and value of one record are copied")
        return i

    def record(self, i):
        out = []
        for w in ("rec.key", "rec.value"):
            out.append(Ptr(self.ex.new_region("slice." + w, "param", I(16), StructBase("slice", {0: (PTRT, Ptr(self.chars(w, i), 0)), 8: (I64, self.text(w, i)[0])})), 0))
        return out


class Anywhere(RegionInv):
    """the iterator: an iteration finds it at any position"""

    def __init__(self, seq):
        self.seq = seq

    def produce(self, ex, st, r, it, entry):
        t = T.app("left.at", (T.toint(it),))
        ex.setrange(t, 0, 2 ** 40)
        ex.put(st, r, Node(st.mem.get(r), "G", I(8), I(8), lambda ex, s, rel, size, ty: self.seq.at(s, t)))

    def check(self, ex, st, r, it, entry, head):
        pass


def sequence(q):
    return Records(q) if isinstance(q.store, pstores.PStore) else Sequence(q)


def u_impl(*ops, case=None, ns=None):
    def f(u):
        impl(u, ops, case, ns)
    return f


def impl(u, ops, case=None, ns=None):
    q = Q(u, ns)
    ex, w = u.ex, q.w
    q.codec = Codec(u, q.store, w)
    seq = sequence(q)
    fn = u.fn((q.store.cls if ns else "Datastore::InMemory::") + "BGetOpImpl(Message::Request::BGetOp*)")
    resp = q.answer.ptr

    def here(st, req, res, i):
        k = current(st)
        ex.oblig(st, T.B(ex.ptr_eq(st, res, resp) is T.TRUE or ex.proved(st, ex.ptr_eq(st, res, resp))), "the answer of this request")
        if req is not None:
            ex.oblig(st, ex.ptr_eq(st, req, Ptr(q.req, 0)), "this request")
        ex.oblig(st, T.eq(i, k), "the query at hand")
        return k

    def loop_init(ex, st, a):
        ex.trusted.setdefault(DS + "BGetOp_loop_init", "contract proved in its own unit")
        _, req, res, i, sp, sl, pp, pl, keyp, prefp = a
        k = here(st, req, res, i)
        cnt = Ptr(q.answer.r, q.answer.count)
        n = ex.load(st, cnt, I64)
        ex.oblig(st, T.and_(T.eq(n, k), T.lt(n, w.n)), "there is room for the entry, and it is the next one")
        ex.store(st, cnt, T.add(n, 1), I64)
        q.set_nrec(st, k, 0)
        for p in (sp, pp):
            ex.store(st, p, NULL, PTRT)
        for p in (sl, pl, prefp):
            ex.store(st, p, I0, I64)
        if ex.decide(st, q.isop(k, "FIRST", "LAST")):
            q.set_status(st, k, q.UNSET)
            event(st, "init", k)
            return None
        for f, p, l in (("subjects", sp, sl), ("predicates", pp, pl)):
            if ex.decide(st, q.codec.ok("encode", f, k)):
                n = q.codec.len("encode", f, k)
                if not ex.decide(st, T.and_(T.eq(n, 0), T.app("encode.null." + f, (T.toint(k),), "Bool"))):
                    ex.store(st, p, Ptr(ex.alloc(st, n, "heap", "encode." + f, Bytes(q.codec.byte("encode", f, k))), 0), PTRT)
                ex.store(st, l, n, I64)
        if ex.decide(st, q.codec.ok("encode", "subjects", k)):
            q.set_status(st, k, q.UNSET)
            kp = ex.resolve(keyp)
            r = ex.alloc(st, q.key_len(k), "heap", "key", Bytes(q.key_byte(k)))
            for o, (ty, v) in fields(u, B(Ptr(r, 0), q.key_len(k), I(u.const("type_BYTE")), T.TRUE)).items():
                ex.store(st, Ptr(kp.r, T.add(kp.off, o)), v, ty)
            ex.store(st, prefp, q.prefix_len(k), I64)
        else:
            q.set_status(st, k, q.ERROR)
        event(st, "init", k)
        return None

    def bound(name):
        def h(ex, st, a):
            ex.trusted.setdefault(DS + "BGetOp_get_" + name, "contract proved in its own unit")
            ret, this, keyp, preflen, predlen, predtype = a
            k = current(st)
            kp = ex.resolve(keyp)
            b = get(u, st, kp.r, kp.off)
            p = ex.resolve(b.ptr)
            if not (isinstance(p, Ptr) and ex.proved(st, T.eq(b.len, q.key_len(k))) and same_bytes(ex, st, lambda s, j: ex.load(s, Ptr(p.r, T.add(p.off, j)), I8, check=False), b.len, q.key_byte(k))
                    and ex.proved(st, T.and_(T.eq(preflen, q.prefix_len(k)), T.eq(predlen, q.plen(k)), T.eq(predtype, w.s.type("predicates", k))))):
                raise Unsupported("a bound for something else than the query's pair")
            n, byte = q.str_fn(name, k)
            rp = ex.resolve(ret)
            st.ghost[("str", rp.r, T.toint(rp.off))] = SV(ex.alloc(st, T.add(n, 1), "heap", name, Bytes(byte)), n)
            return None
        return h

    def copy(ex, st, a):
        ex.trusted.setdefault(DS + "BGetOp_copy_response", "contract proved in its own unit")
        cbs, keyp, valp, req, res, i, j, ev = a[-8:]
        ex.oblig(st, ex.ptr_eq(st, cbs, q.store.callbacks), "the datastore's callbacks are used")
        k = here(st, req, res, i)
        rec = seq.copied_record(st, keyp, valp)
        ex.oblig(st, T.lt(j, q.room(k)), "there is room for the record")
        event(st, "copy", rec, k, j)
        if ex.decide(st, T.eq(q.status(st, k), q.UNSET)):
            n = q.nrec(st, k)
            ex.oblig(st, T.eq(j, n), "records are stored one behind the other")
            if ex.decide(st, seq.decodes(rec)):
                q.set_nrec(st, k, T.add(n, 1))
            else:
                q.set_status(st, k, q.ERROR)
        return None

    def error(ex, st, a):
        ex.trusted.setdefault(DS + "BGetOp_error_response", "contract proved in its own unit")
        _, res, i, sub, pred, ev = a
        k = here(st, None, res, i)
        n = q.nrec(st, k)
        ex.oblig(st, T.lt(n, q.room(k)), "there is room for the record that reports the failure")
        for p, f in ((sub, "subjects"), (pred, "predicates")):
            ex.oblig(st, ex.ptr_eq(st, p, Ptr(w.arr[f], T.mulc(k, q.BS))), "the failure is reported with the query's own %s" % f)
            p = ex.resolve(p)
            for o, (ty, v) in fields(u, empty()).items():
                ex.store(st, Ptr(p.r, T.add(p.off, o)), v, ty)
        q.set_nrec(st, k, T.add(n, 1))
        event(st, "error", k)
        return None

    def update(ex, st, a):
        ex.trusted.setdefault("Message::Response::BGetOp::update_size", "contract: counts the entry's records (C03)")
        here(st, None, a[0], a[1])
        event(st, "update", current(st))
        return ex.fresh("size", 0, 2 ** 64 - 1)
    for n, d in ex.demangled.items():
        if d.startswith(DS + "BGetOp_loop_init("):
            ex.contracts[n] = loop_init
        elif d.startswith(DS + "BGetOp_get_seek"):
            ex.contracts[n] = bound("seek")
        elif d.startswith(DS + "BGetOp_get_end"):
            ex.contracts[n] = bound("end")
        elif "BGetOp_copy_response<" in d:
            ex.contracts[n] = copy
        elif d.startswith(DS + "BGetOp_error_response("):
            ex.contracts[n] = error
        elif d.startswith("Message::Response::BGetOp::update_size("):
            ex.contracts[n] = update

    def before(st, k):
        ex.assume(st, q.isop(k, *ops) if ops != ("other",) else T.not_(q.isop(k, "EQ", "NEXT", "PREV", "FIRST", "LAST", "LOWEST", "HIGHEST")))
        if case is not None:
            # one of the cases the unit is split into: which values of the query have no buffer
            for f, null in zip(("subjects", "predicates"), case):
                c = T.and_(w.s.null(f, k), T.eq(w.s.len(f, k), 0))
                ex.assume(st, c if null else T.not_(c))
        # nothing about the space for records but what was asked for
        ex.assume(st, T.le(q.wanted(k), 2 ** 40))

    def plan(st, k):
        """(start, direction, keep only matching ones, limit)"""
        n = q.wanted(k)
        op = next((o for o in ("EQ", "NEXT", "PREV", "FIRST", "LAST", "LOWEST", "HIGHEST") if ex.decide(st, q.isop(k, o))), None)
        if op == "EQ":
            return seq.lower("prefix", k), 1, True, I(1)
        if op == "NEXT":
            return seq.lower("prefix", k), 1, False, n
        if op == "PREV":
            return seq.lower("prefix", k), -1, False, n
        if op == "FIRST":
            return I0, 1, False, n
        if op == "LAST":
            return T.sub(seq.n, 1), -1, False, n
        if op == "LOWEST":
            return seq.lower("seek", k), 1, True, n
        if op == "HIGHEST":
            e = seq.lower("end", k) if ex.decide(st, T.lt(0, q.str_fn("end", k)[0])) else seq.n
            return T.sub(e, 1), -1, True, n
        return None

    def judge(st, k, events):
        es = [e for e in events if e[0] not in ("walk", "copy")]
        copies = [e for e in events if e[0] == "copy"]
        walks = [e for e in events if e[0] == "walk"]
        inits = [e for e in es if e[0] == "init"]
        errors = [e for e in es if e[0] == "error"]
        ex.oblig(st, T.B(len(inits) == 1 and events[0][0] == "init"), "the entry of the query is made once, before anything else")
        ex.oblig(st, T.B(len(es) > 0 and es[-1][0] == "update" and events[-1][0] == "update"), "the size of the entry is brought up to date at the end")
        final = q.status(st, k)
        n = q.nrec(st, k)
        if len(walks) > 1:
            raise Unsupported("a query that walks the records more than once")
        p = plan(st, k) if ex.decide(st, q.usable(k)) else None
        J = I0
        good = T.TRUE
        if walks:
            _, inv, J = walks[0]
            if inv is None:
                # the first pass through the loop is never judged
                raise Unsupported("a loop over records that does not walk")
            good = copied(k, J)
        if p is not None:
            start, d, keep, limit = p
            exists = lambda i: T.and_(T.le(0, i), T.lt(i, seq.n), seq.match(i, k) if keep else T.TRUE)
            found = exists(start)
        if p is None or not ex.decide(st, found):
            ex.oblig(st, T.B(not copies and not walks), "a query that finds nothing returns no records")
            ex.oblig(st, T.eq(final, q.ERROR), "a query that finds nothing fails")
            ex.oblig(st, T.B(len(errors) == 1), "the failure is reported once")
            return
        at = lambda j: T.add(start, j) if d > 0 else T.sub(start, j)
        if walks:
            ex.oblig(st, T.eq(inv.start, start), "the first record is the one the query asks for")
            ex.oblig(st, T.or_(T.B(inv.d == d), T.eq(J, 0), *([T.eq(J, 1)] if not copies else [])), "the records come in the order the query asks for")
        for c in copies:
            ex.oblig(st, T.and_(T.eq(c[1], at(J)), T.eq(c[2], k), T.eq(c[3], J)), "the records are those the query asks for, in its order")
            ex.oblig(st, exists(c[1]), "only records the query asks for")
            good = T.and_(good, seq.decodes(c[1]))
            J = T.add(J, 1)
        ex.oblig(st, T.le(J, limit), "at most the requested number of records")
        if ex.decide(st, T.lt(J, limit)):
            ex.oblig(st, T.not_(exists(at(J))), "the records go on until there are no more or the number is reached")
        if walks:
            ex.oblig(st, T.or_(T.eq(J, 0), exists(at(T.sub(J, 1)))), "only records the query asks for")
        if ex.decide(st, good):
            ex.oblig(st, T.eq(final, q.OK), "a query that finds records succeeds")
            ex.oblig(st, T.eq(n, J), "the entry has the records found")
            ex.oblig(st, T.B(not errors), "a query that succeeds reports no failure")
        else:
            ex.oblig(st, T.eq(final, q.ERROR), "a query whose records cannot be decoded fails")
            ex.oblig(st, T.B(len(errors) == 1), "the failure is reported once")

    class Own(RegionInv):
        """an iteration only touches what belongs to its entry"""

        def __init__(self, stride):
            self.stride = stride

        def produce(self, ex, st, r, it, entry):
            def gone(ex, s, rel, size, ty):
                raise Unsupported("an entry that was already handled is looked at again")
            ex.put(st, r, Node(st.mem.get(r), "G", I0, T.mulc(it, self.stride), gone))

        def check(self, ex, st, r, it, entry, head):
            if head is None:
                return
            from engine.loops import new_nodes
            lo = T.mulc(T.sub(it, 1), self.stride)
            for x in new_nodes(st.mem.get(r), head)[0]:
                ex.oblig(st, T.and_(T.le(lo, x.off), T.le(T.add(x.off, x.n), T.add(lo, self.stride))), "the other entries are left alone")

    def regions(st, r):
        if r in (w.arr["subjects"], w.arr["predicates"]):
            return Own(q.BS)
        if r is q.statuses:
            return Own(4)
        if r is q.nrecs:
            return Own(8)
        if ns and r is seq.it:
            return Anywhere(seq)
        return None

    def spec(ex, st, f, L):
        if not ex.running:
            return PerEntry(judge, before, regions)
        if len(ex.running) == 1:
            return Walk(q, seq, ex.running[0].it)
        return None
    ex.loopspec = spec

    def post(st):
        ex.oblig(st, ex.ptr_eq(st, st.ret, resp), "the response is returned")
        handled(ex, st, w.n, "BGetOp")
        ex.oblig(st, T.eq(ex.load(st, Ptr(q.answer.r, q.answer.count), I64), w.n), "the response has one entry per query")
    u.run(fn, u.state(), [q.store.ptr, Ptr(q.req, 0)], post)





# ------------------------------------------------------------------ what BGetOpImpl relies on
def u_loop_init(u):
    q = Q(u)
    ex, w = u.ex, q.w
    q.codec = Codec(u, q.store, w)
    arrays_by_contract(u)
    k = ex.var("i", 0, None)
    q.codec.enc_sources = lambda st: [("subjects", k), ("predicates", k)]
    fn = u.fn(DS + "BGetOp_loop_init(Message::Request::BGetOp*, Message::Response::BGetOp*, unsigned long, void*&, unsigned long&, void*&, unsigned long&, Blob&, unsigned long&)")
    q.answer.r.base.fields[q.answer.count] = (I64, k)

    def add(ex, st, a):
        ex.trusted.setdefault("Response::BGetOp::add", "contract: appends an entry (C03)")
        res, sub, pred, obj, n, status = a
        ex.oblig(st, ex.ptr_eq(st, res, q.answer.ptr), "the entry is added to the response")
        c = ex.load(st, Ptr(q.answer.r, q.answer.count), I64)
        ex.oblig(st, T.lt(c, w.n), "there is room for the entry")
        q.set_status(st, c, status)
        q.set_nrec(st, c, n)
        ex.store(st, Ptr(q.answer.r, q.answer.count), T.add(c, 1), I64)
        event(st, "add", c, [ex.resolve(x) for x in (sub, pred, obj)])
        return ex.fresh("added", 0, 2 ** 64 - 1)

    def to_key(ex, st, a):
        ex.trusted.setdefault("sp_to_key", "contract: a new key that begins with the bytes of the pair and is at least 19 bytes longer (C04)")
        vs = [get(u, st, ex.resolve(p).r, ex.resolve(p).off) for p in a[:2]]
        event(st, "key", vs, ex.resolve(a[2]))
        return I(u.const("key_success"))
    for n, d in ex.demangled.items():
        if d.startswith("Message::Response::BGetOp::add("):
            ex.contracts[n] = add
        elif d.startswith("sp_to_key("):
            ex.contracts[n] = to_key
    out = {n: Ptr(ex.new_region(n, "param", I(8), UFBase(n)), 0) for n in ("subject", "slen", "predicate", "plen", "prefix")}
    keyr = ex.new_region("key", "param", I(q.BS), StructBase("key", fields(u, empty())))

    def post(st):
        es = st.ghost.get("events", ())
        adds = [e for e in es if e[0] == "add"]
        keys = [e for e in es if e[0] == "key"]
        if len(adds) != 1:
            ex.fail(st, "the query gets one entry")
            return
        ex.oblig(st, T.eq(adds[0][1], k), "the entry is the next one")
        for p in adds[0][2]:
            if not isinstance(p, Ptr) or p.r not in st.heap or p.r in st.dead:
                ex.fail(st, "the entry has new arrays for its records")
                return
            ex.oblig(st, T.and_(T.eq(p.off, 0), T.le(T.mulc(q.room(k), q.BS), p.r.size)), "the entry has room for the records asked for, and for one in any case")
        ex.oblig(st, T.B(len({p.r for p in adds[0][2]}) == 3), "the arrays are different ones")
        ex.oblig(st, T.eq(q.nrec(st, k), 0), "the entry has no records yet")
        v = {n: ex.load(st, p, PTRT if n in ("subject", "predicate") else I64) for n, p in out.items()}
        s = q.status(st, k)
        if ex.decide(st, q.isop(k, "FIRST", "LAST")):
            ex.oblig(st, T.eq(s, q.UNSET), "the query can go on")
            for n in ("subject", "predicate"):
                ex.oblig(st, ex.ptr_eq(st, v[n], NULL), "no pair is encoded")
            return
        enc = q.codec.ok("encode", "subjects", k)
        ps = q.codec.ok("encode", "predicates", k)
        if ex.decide(st, enc):
            ex.oblig(st, T.B(q.codec.is_result(st, "encode", "subjects", k, v["subject"], v["slen"])), "the subject is encoded")
        else:
            ex.oblig(st, T.and_(ex.ptr_eq(st, v["subject"], NULL), T.eq(v["slen"], 0)), "there is no encoded subject")
        if ex.decide(st, ps):
            ex.oblig(st, T.B(q.codec.is_result(st, "encode", "predicates", k, v["predicate"], v["plen"])), "the predicate is encoded")
        else:
            ex.oblig(st, T.and_(ex.ptr_eq(st, v["predicate"], NULL), T.eq(v["plen"], 0)), "there is no encoded predicate")
        if not ex.decide(st, enc):
            ex.oblig(st, T.eq(s, q.ERROR), "a subject that cannot be encoded is an error")
            return
        ex.oblig(st, T.eq(s, q.UNSET), "the query can go on")
        ex.oblig(st, T.eq(v["prefix"], q.prefix_len(k)), "the length of the pair's bytes")
        if len(keys) != 1:
            ex.fail(st, "the pair is made a key")
            return
        _, (a, b), p = keys[0]
        ex.oblig(st, ex.ptr_eq(st, p, Ptr(keyr, 0)), "the caller's key is set")
        ex.oblig(st, T.B(q.codec.is_result(st, "encode", "subjects", k, a.ptr, a.len)), "the key has the encoded subject")
        ex.oblig(st, T.and_(T.eq(a.type, w.s.type("subjects", k)), T.eq(b.type, w.s.type("predicates", k))), "the key has the pair's types")
        if ex.decide(st, ps):
            ex.oblig(st, T.B(q.codec.is_result(st, "encode", "predicates", k, b.ptr, b.len)), "the key has the encoded predicate")
        else:
            ex.oblig(st, T.eq(b.len, 0), "the key has no predicate")
    st = u.state()
    ex.assume(st, T.lt(k, w.n))
    ex.assume(st, T.le(q.wanted(k), 2 ** 40))
    u.run(fn, st, [q.store.ptr, Ptr(q.req, 0), q.answer.ptr, k] + [out[n] for n in ("subject", "slen", "predicate", "plen")] + [Ptr(keyr, 0), out["prefix"]], post)


def bounds_setup(u, name):
    """arguments of BGetOp_get_seek / BGetOp_get_end"""
    ex = u.ex
    strings.install(ex)
    s = Memory(u)
    neg, pos = (ex.var(n, 0, 255) for n in ("neg", "pos"))
    s.callbacks.r.base.fields.update({u.const("off_cb_neg"): (I8, neg), u.const("off_cb_pos"): (I8, pos)})
    n, pl, ty = ex.var("prefix.len", 0, MAXLEN), ex.var("predicate.len", 0, MAXLEN), ex.var("predicate.type", 0, 2 ** 32 - 1)
    kl = ex.var("key.len", 19, 2 ** 42)
    byte = byte_fn(ex, "key.byte", I0)
    buf = ex.new_region("key.data", "heap", kl, Bytes(byte))
    key = ex.new_region("key", "param", I(blob_size(u)), StructBase("key", fields(u, B(Ptr(buf, 0), kl, I(u.const("type_BYTE")), T.TRUE))))
    ret = ex.new_region("result", "param", I(32), UninitBase())
    numeric = T.and_(T.eq(pl, 0), T.or_(*[T.eq(ty, u.const("type_" + t)) for t in NUMERIC]))
    st = u.state()
    ex.assume(st, T.le(T.add(n, 19), kl))
    fn = next((f for f in (ex.find_fn(DS + "BGetOp_get_%s%s(Blob const&, unsigned long, unsigned long, hxhim_data_t)" % (name, x)) for x in ("[abi:cxx11]", "")) if f), None)
    if fn is None:
        raise Unsupported("BGetOp_get_%s not found" % name)
    u.functions.append(DS + "BGetOp_get_" + name)
    args = [Ptr(ret, 0), s.ptr, Ptr(key, 0), n, pl, ty]
    return st, fn, args, ret, n, byte, numeric, neg, pos


def u_seek(u):
    ex = u.ex
    st, fn, args, ret, n, byte, numeric, neg, pos = bounds_setup(u, "seek")

    def post(st):
        v = sget(ex, st, Ptr(ret, 0))
        J = ex.var("skolem.J", 0, None)
        num = ex.decide(st, numeric)
        want = (lambda j: T.ite(T.lt(j, n), byte(j), T.ite(T.eq(j, n), neg, I0))) if num else (lambda j: T.ite(T.lt(j, n), byte(j), I0))
        m = T.add(n, 2 if num else 1)
        what = "of a numeric subject: the pair's bytes, the sign of negative numbers and a zero" if num else "the pair's bytes and a zero"
        ex.oblig(st, T.eq(v.n, m), "start: %s (length)" % what)
        ex.assume(st, T.lt(J, m))
        ex.oblig(st, T.eq(ex.load(st, Ptr(v.buf, J), I8), want(J)), "start: " + what)
    u.run(fn, st, args, post)


def u_end(u):
    ex = u.ex
    st, fn, args, ret, n, byte, numeric, neg, pos = bounds_setup(u, "end")
    # the text that everything has to begin with: P, of length m0
    m0 = T.add(n, T.ite(numeric, 1, 0))
    P = lambda j: T.ite(T.lt(j, n), byte(j), pos)
    J = ex.var("skolem.J", 0, None)          # an arbitrary position

    class Cut(StrInv):
        """after `it` steps the string is P without its last `it` characters, which were all 0xff"""

        def produce(self, ex, st, it):
            ex.assume(st, T.le(it, m0))
            ex.assume(st, self.high(it))
            return SV(ex.alloc(st, T.add(m0, 1), "heap", "cut", Bytes(P)), T.sub(m0, it))

        def high(self, it):
            return T.implies(T.and_(T.le(T.sub(m0, it), J), T.lt(J, m0)), T.eq(P(J), 255))

        def check(self, ex, st, v, it):
            ex.oblig(st, T.and_(T.le(it, m0), T.eq(v.n, T.sub(m0, it))), "one character less each time")
            ex.oblig(st, self.high(it), "what is cut off was the greatest character")
            K = ex.var("skolem.K", 0, None)
            s2 = st.clone()
            ex.assume(s2, T.lt(K, v.n))
            if ex.feasible(s2):
                ex.with_forks([s2], lambda t: ex.oblig(t, T.eq(ex.load(t, Ptr(v.buf, K), I8, check=False), P(K)), "the rest is left alone"))

    class Loop(LoopSpec):
        force = True

        def string(self, ex, st, key, v0):
            return Cut() if key[1] is ret else None
    ex.loopspec = lambda ex, st, f, L: Loop()

    def post(st):
        v = sget(ex, st, Ptr(ret, 0))
        ex.oblig(st, T.le(v.n, m0), "end: not longer than the text")
        ex.oblig(st, T.implies(T.and_(T.le(v.n, J), T.lt(J, m0)), T.eq(P(J), 255)), "end: only the greatest characters are dropped")
        K = ex.var("skolem.K", 0, None)
        last = T.sub(v.n, 1)
        if ex.decide(st, T.lt(0, v.n)):
            ex.oblig(st, T.and_(T.lt(P(last), 255), T.eq(ex.load(st, Ptr(v.buf, last), I8), T.add(P(last), 1))), "end: the last character that can be is increased by one")
            ex.assume(st, T.lt(K, last))
            if ex.feasible(st):
                ex.oblig(st, T.eq(ex.load(st, Ptr(v.buf, K), I8), P(K)), "end: the others are those of the text")
    u.run(fn, st, args, post)


def u_error(u):
    q = Q(u)
    ex, w = u.ex, q.w
    fn = u.fn(DS + "BGetOp_error_response(Message::Response::BGetOp*, unsigned long, Blob&, Blob&, Datastore::Datastore::Stats::Event&)")
    k = ex.var("i", 0, None)
    n0 = T.app("count.before", (k,))
    ex.setrange(n0, 0, 2 ** 40)
    q.nrecs.base = ArrayBase("num_recs", 8, lambda ex, st, x: {0: (I64, self_n(x))})

    def self_n(x):
        t = T.app("count.before", (T.toint(x),))
        ex.setrange(t, 0, 2 ** 40)
        return t
    rs = {f: mk(u, f) for f in ("subject", "predicate")}
    ev = ex.new_region("event", "param", I(64), UFBase("event"))

    def post(st):
        ex.oblig(st, T.eq(q.nrec(st, k), T.add(n0, 1)), "the entry has one record more")
        for f, name in (("subjects", "subject"), ("predicates", "predicate")):
            r, b = rs[name]
            got = get(u, st, q.slots(f, k), T.mulc(n0, q.BS))
            expect(u, st, got, b, "the record that reports the failure has the query's " + name)
            src = get(u, st, r)
            ex.oblig(st, T.B(not isinstance(ex.resolve(b.ptr), Ptr) or ex.resolve(b.ptr).r not in st.dead), "its bytes are still there: " + name)
            if ex.decide(st, b.clean):
                ex.oblig(st, T.not_(src.clean), "one owner: " + name)
        ex.oblig(st, T.B(st.mem.get(q.statuses) is None), "no status changes")
        for r, at, size in ((q.nrecs, T.mulc(k, 8), 8),) + tuple((q.slots(f, k), T.mulc(n0, q.BS), q.BS) for f in ("subjects", "predicates", "objects")):
            node = next((st.mem[x] for x in st.mem if x is r or (r.fam is not None and x.fam == r.fam and ex.proved(st, T.eq(x.idx, r.idx)))), None)
            while node is not None:
                ex.oblig(st, T.and_(T.le(at, node.off), T.le(T.add(node.off, node.n), T.add(at, size))), "the other entries and records are left alone")
                node = node.prev
    st = u.state()
    ex.assume(st, T.lt(k, w.n))
    ex.assume(st, T.lt(n0, q.room(k)))
    ex.assume(st, T.le(q.wanted(k), 2 ** 40))
    u.run(fn, st, [q.store.ptr, q.answer.ptr, k, Ptr(rs["subject"][0], 0), Ptr(rs["predicate"][0], 0), Ptr(ev, 0)], post)


def u_copy(ns=None):
    return lambda u: copy_response(u, ns)


def copy_response(u, ns):
    q = Q(u, ns)
    ex, w = u.ex, q.w
    q.codec = codec = Codec(u, q.store, w)
    seq = sequence(q)
    t = "%s::Slice" % ns if ns else "std::string"
    fns = [(n, d) for n, d in ex.demangled.items() if "BGetOp_copy_response<%s, %s >" % (t, t) in d or "BGetOp_copy_response<%s, %s>" % (t, t) in d]
    if len(fns) != 1:
        raise Unsupported("BGetOp_copy_response<%s, %s> not found" % (t, t))
    fn = u.fn(fns[0][0])
    k, j, i = ex.var("i", 0, None), ex.var("j", 0, 2 ** 40), ex.var("record", 0, 2 ** 40)
    status0 = lambda x: kfun(ex, "status.before", x, 0, 2 ** 32 - 1)
    count0 = lambda x: kfun(ex, "count.before", x, 0, 2 ** 40)
    q.statuses.base = ArrayBase("statuses", 4, lambda ex, st, x: {0: (I32, status0(x))})
    q.nrecs.base = ArrayBase("num_recs", 8, lambda ex, st, x: {0: (I64, count0(x))})
    last = u.const("type_MAX")

    class Rec:
        """the encoded parts of the record, as key_to_sp() and the value give them"""

        def len(self, f, x):
            return T.sub(seq.text("rec.value", x)[0], 4) if f == "rec.objects" else kfun(ex, f + ".len", x, 0, MAXLEN)

        def type(self, f, x):
            return seq.vtype(x) if f == "rec.objects" else kfun(ex, f + ".type", x, 0, last - 1)

        def byte(self, f, x, y):
            return seq.text("rec.value", x)[1](y) if f == "rec.objects" else byte_fn(ex, f + ".byte", x)(y)
    rec = Rec()
    F = ("subjects", "predicates", "objects")
    for f in F:
        codec.syms["rec." + f] = rec
    codec.dec_sources = lambda st: [("rec." + f, i) for f in F]
    parts = {f: ex.family("rec.part." + f, i, rec.len("rec." + f, i), Bytes(lambda y, f=f: rec.byte("rec." + f, i, y)), kind="pheap") for f in F[:2]}

    def split(ex, st, a):
        ex.trusted.setdefault("key_to_sp", "contract: the subject and the predicate the key was made of, referring to the key's bytes (C04)")
        kp = ex.resolve(a[0])
        b = get(u, st, kp.r, kp.off)
        p = ex.resolve(b.ptr)
        n, byte = seq.text("rec.key", i)
        ex.oblig(st, T.B(isinstance(p, Ptr) and p.r.fam == "rec.key.chars") if isinstance(p, Ptr) else T.FALSE, "the record's key is taken apart")
        ex.oblig(st, T.and_(T.eq(p.r.idx, i), T.eq(p.off, 0), T.eq(b.len, n)) if isinstance(p, Ptr) and p.r.idx is not None else T.FALSE, "the whole key is taken apart")
        for f, x in zip(F, a[1:3]):
            x = ex.resolve(x)
            ex.oblig(st, T.not_(get(u, st, x.r, x.off).clean), "the results are empty values")
            if ex.decide(st, T.eq(a[3], 0) if a[3].sort != "Bool" else T.not_(a[3])):
                for o, (ty, v) in fields(u, B(Ptr(parts[f], 0), rec.len("rec." + f, i), rec.type("rec." + f, i), T.FALSE)).items():
                    ex.store(st, Ptr(x.r, T.add(x.off, o)), v, ty)
            else:
                raise Unsupported("copies of the parts of a key")
        return I(u.const("key_success"))
    for n, d in ex.demangled.items():
        if d.startswith("key_to_sp("):
            ex.contracts[n] = split
    ev = ex.new_region("event", "param", I(64), UFBase("event"))

    def post(st):
        s, n = q.status(st, k), q.nrec(st, k)
        slots = {f: q.slots(f, k) for f in F}
        got = {f: get(u, st, slots[f], T.mulc(j, q.BS)) for f in F}

        def untouched(fs, what):
            for r in fs:
                for x in st.mem:
                    if x is r or (r.fam is not None and x.fam == r.fam):
                        ex.oblig(st, T.B(st.mem[x] is None), what)
        if not ex.decide(st, T.eq(status0(k), q.UNSET)):
            ex.oblig(st, T.and_(T.eq(s, status0(k)), T.eq(n, count0(k))), "after a failure nothing more is added")
            untouched(list(slots.values()), "after a failure no record is written")
            return
        ok = T.and_(*[codec.ok("decode", "rec." + f, i) for f in F])
        if not ex.decide(st, ok):
            ex.oblig(st, T.and_(T.eq(s, q.ERROR), T.eq(n, count0(k))), "a record that cannot be decoded makes the query fail")
            untouched(list(slots.values()), "a record that cannot be decoded is not added")
            return
        ex.oblig(st, T.and_(T.eq(s, q.UNSET), T.eq(n, T.add(count0(k), 1))), "the entry has one record more")
        for f in F:
            b = got[f]
            ex.oblig(st, T.B(codec.is_result(st, "decode", "rec." + f, i, b.ptr, b.len)), "the record has the decoded " + f)
            ex.oblig(st, T.eq(b.type, rec.type("rec." + f, i)), "the record has the stored type: " + f)
            ex.oblig(st, b.clean, "the record belongs to the answer: " + f)
        for r, at, size in ((q.nrecs, T.mulc(k, 8), 8), (q.statuses, T.mulc(k, 4), 4)) + tuple((slots[f], T.mulc(j, q.BS), q.BS) for f in F):
            node = next((st.mem[x] for x in st.mem if x is r or (r.fam is not None and x.fam == r.fam)), None)
            while node is not None:
                ex.oblig(st, T.and_(T.le(at, node.off), T.le(T.add(node.off, node.n), T.add(at, size))), "the other entries and records are left alone")
                node = node.prev
    st = u.state()
    for f in (T.lt(k, w.n), T.lt(j, q.room(k)), T.le(q.wanted(k), 2 ** 40), T.lt(i, seq.n), T.lt(seq.vtype(i), last), T.lt(w.s.type("subjects", k), last), T.lt(w.s.type("predicates", k), last),
              T.lt(w.s.num("object_types", k, 0, 2 ** 32 - 1), last),
              # proved where it is called: records are stored one behind the other
              T.implies(T.eq(status0(k), q.UNSET), T.eq(count0(k), j))):
        ex.assume(st, f)
    u.run(fn, st, [q.store.callbacks] + seq.record(i) + [Ptr(q.req, 0), q.answer.ptr, k, j, Ptr(ev, 0)], post)


# ------------------------------------------------------------------ the order of byte strings
class Str:
    def __init__(self, u, name, n=None, byte=None):
        ex = u.ex
        self.n = n if n is not None else ex.var(name + ".n", 0, MAXLEN)
        self.byte = byte or byte_fn(ex, name + ".byte", I0)


def below(a, b, d, at, strict):
    """a < b (a <= b), the first difference (or the end of a) being at d; agreement instantiated at the positions `at`"""
    f = [T.le(0, d), T.le(d, a.n), T.le(d, b.n)]
    f += [T.implies(T.and_(T.le(0, x), T.lt(x, d)), T.eq(a.byte(x), b.byte(x))) for x in at]
    end = T.and_(T.eq(d, a.n), T.lt(d, b.n) if strict else T.le(d, b.n))
    f.append(T.or_(end, T.and_(T.lt(d, a.n), T.lt(d, b.n), T.lt(a.byte(d), b.byte(d)))))
    return T.and_(*f)


def begins(s, p, at):
    return T.and_(T.le(p.n, s.n), *[T.implies(T.and_(T.le(0, x), T.lt(x, p.n)), T.eq(s.byte(x), p.byte(x))) for x in at])


def u_order(u):
    ex = u.ex
    s, r, t, p = (Str(u, x) for x in "srtp")
    d1, d2, x = (ex.var(n, 0, MAXLEN) for n in ("d1", "d2", "x"))
    pts = [d1, d2, x, p.n]
    # what begins with p lies together: between two such strings, and from p on
    u.lemma("what lies between two strings that begin with p begins with p: length", T.le(p.n, s.n), [below(r, s, d1, pts, False), below(s, t, d2, pts, False), begins(r, p, pts), begins(t, p, pts)])
    u.lemma("what lies between two strings that begin with p begins with p", T.implies(T.lt(x, p.n), T.eq(s.byte(x), p.byte(x))),
            [below(r, s, d1, pts, False), below(s, t, d2, pts, False), begins(r, p, pts), begins(t, p, pts)])
    u.lemma("what begins with p is not below p", below(p, s, p.n, [x], False), [begins(s, p, [x, p.n])])
    # get_seek: p and a zero
    z = Str(u, "z", T.add(p.n, 1), lambda j: T.ite(T.lt(j, p.n), p.byte(j), I0))
    u.lemma("a key that begins with p and is longer is not below p and a zero", T.or_(below(z, s, p.n, [x], False), below(z, s, z.n, [x, p.n], False)), [begins(s, p, [x, p.n]), T.lt(p.n, s.n)])
    u.lemma("what is not below p and a zero is not below p", below(p, s, T.ite(T.lt(d1, p.n), d1, p.n), [x], False), [below(z, s, d1, [x, d1, p.n], False)])
    # get_end: m characters, the last one increased; what follows in p is 0xff
    m = ex.var("m", 0, MAXLEN)
    e = Str(u, "e", m, lambda j: T.ite(T.lt(j, T.sub(m, 1)), p.byte(j), T.add(p.byte(j), 1)))
    hi = lambda j: T.implies(T.and_(T.le(m, j), T.lt(j, p.n)), T.eq(p.byte(j), 255))
    last = T.sub(m, 1)
    facts = [T.le(m, p.n), T.implies(T.lt(0, m), T.lt(p.byte(last), 255)), hi(d1), hi(d2), hi(x)]
    u.lemma("what begins with p is below the end", T.implies(T.lt(0, m), below(s, e, last, [x], True)), facts + [begins(s, p, [x, last])])
    u.lemma("what is not below p and below the end begins with p: length", T.le(p.n, s.n), facts + [T.lt(0, m), below(p, s, d1, pts + [last], False), below(s, e, d2, pts + [last, d1], True)])
    u.lemma("what is not below p and below the end begins with p", T.implies(T.lt(x, p.n), T.eq(s.byte(x), p.byte(x))), facts + [T.lt(0, m), below(p, s, d1, pts + [last], False), below(s, e, d2, pts + [last, d1], True)])
    u.lemma("without an end, what is not below p begins with p", T.and_(T.le(p.n, s.n), T.implies(T.lt(x, p.n), T.eq(s.byte(x), p.byte(x)))), facts + [T.eq(m, 0), below(p, s, d1, pts, False)])


OPS = (("EQ",), ("NEXT",), ("PREV",), ("FIRST",), ("LAST",), ("LOWEST",), ("HIGHEST",), ("other",))
CASES = ((True, True), (True, False), (False, True), (False, False))
UNITS = [Unit("BGetOpImpl(%s)" % o[0], u_impl(*o), budget=300) for o in OPS if o[0] != "HIGHEST"] + [
    Unit("BGetOpImpl(HIGHEST), %s" % " and ".join("%s %s" % (f, "null" if n else "not null") for f, n in zip(("subject", "predicate"), c)), u_impl("HIGHEST", case=c), budget=300) for c in CASES] + [
    Unit("BGetOp_loop_init", u_loop_init), Unit("BGetOp_get_seek", u_seek), Unit("BGetOp_get_end", u_end), Unit("BGetOp_copy_response", u_copy()), Unit("BGetOp_error_response", u_error),
    Unit("order of keys", u_order, kind="lemma"), Unit("operate(BGetOp)", c17.u_other(ReqGetOp, ResGetOp))]
for ns, cls in pstores.CLASS.items():
    UNITS += [Unit("%s: BGetOpImpl(%s)" % (cls, o[0]), u_impl(*o, ns=ns), budget=300) for o in OPS if o[0] != "HIGHEST"] + [
        Unit("%s: BGetOpImpl(HIGHEST), %s" % (cls, " and ".join("%s %s" % (f, "null" if n else "not null") for f, n in zip(("subject", "predicate"), c))), u_impl("HIGHEST", case=c, ns=ns), budget=300) for c in CASES] + [
        Unit("%s: BGetOp_copy_response" % cls, u_copy(ns))]
