"""What the contracts know about datastores (C11, C12, C17): the object, its
histograms and its map, request and response messages, and the events of one
pass through the loop over the entries."""
from engine.session import *
from engine.loops import LoopSpec, RegionInv, PtrInv, Chain
from engine import terms as T
from engine import strings
from engine.exec import strip_args
from engine.strings import SV, sget, sput
from checks.msgs import *
from checks.blobs import *
from checks.queues import clock, list_hook

SOURCES = ["src/datastore/datastore.cpp", "src/datastore/InMemory.cpp", "src/datastore/triplestore.cpp", "src/datastore/transform.cpp", "src/utils/Blob.cpp", "src/utils/memory.cpp", "src/hxhim/hxhim.cpp", "specs/msgs.cpp", "specs/store.cpp"] + \
          ["src/message/%s.cpp" % n for n in ("Message", "Request", "Response", "SubjectPredicate", "BPut", "BGet", "BGetOp", "BDelete", "BHistogram")]


def event(st, *e):
    st.ghost["events"] = st.ghost.get("events", ()) + (e,)


class PerEntry(LoopSpec):
    """iteration k of the loop does what entry k asks for: judged at its end
    with the events it caused; whoever leaves the loop has handled `done` entries"""
    force = True

    def __init__(self, judge, before=None, regions=None):
        self.judge, self.before, self.regions = judge, before, regions

    def head(self, ex, st, it):
        st.ghost["done"] = it
        st.ghost["events"] = ()
        if self.before:
            self.before(st, it)

    def back(self, ex, st, it):
        self.judge(st, it, st.ghost.get("events", ()))

    def region_inv(self, ex, st, r):
        return self.regions(st, r) if self.regions else None


def handled(ex, st, n, what):
    """every entry has been handled, and nothing else was done"""
    d = st.ghost.get("done")
    ex.oblig(st, T.eq(d, n) if d is not None else T.eq(n, 0), "every entry is handled: " + what)
    ex.oblig(st, T.B(st.ghost.get("events", ()) == ()), "nothing is done besides the entries: " + what)


def ignored(u):
    """time keeping: not part of any property"""
    ex = u.ex
    clock(u)
    list_hook(u)
    ex.demangle_all()
    note = "statistics; not part of the property"

    def nothing(ex, st, a):
        ex.trusted.setdefault("statistics", note)
        return None

    def zero(ex, st, a):
        return I0
    for n, d in ex.demangled.items():
        s = strip_args(d)
        if "std::list<Datastore::Datastore::Stats::Event" in s and ("::emplace_back" in s or "::push_back" in s):
            ex.contracts[n] = nothing
    ex.contracts["clock_gettime"] = zero


def plain(d):
    """a demangled name without the parts that say nothing"""
    d = d.replace(" >", ">").replace(" >", ">").replace("std::string", "string").replace("std::shared_ptr", "shared_ptr").replace(", ", ",")
    for junk in (",std::less<string>,std::allocator<std::pair<string const,string>>", ",std::less<string>,std::allocator<std::pair<string const,shared_ptr<Histogram::Histogram>>>"):
        d = d.replace(junk, "")
    if ",std::less<hxhim_data_t>,std::allocator<" in d:
        i = d.index(",std::less<hxhim_data_t>,std::allocator<")
        depth, j = 0, i + 1
        j = d.index("std::allocator<", i)
        for x in range(j, len(d)):
            depth += {"<": 1, ">": -1}.get(d[x], 0)
            if d[x] == ">" and depth == 0 and d[x - 1] != "-":
                d = d[:i] + d[x + 1:]
                break
    return d


def methods(ex, cls, table, what=None):
    """contracts on the member functions of a class; with `what`, its other
    members are not covered (constructors and destructors aside)"""
    for n, d in ex.demangled.items():
        q = plain(d)
        if not q.startswith(cls):
            continue
        m = q[len(cls):]
        m = m[:m.index("(", 10 if m.startswith("operator()") else 0)] if "(" in m else m
        m = m.split("<")[0] if not m.startswith("operator") else m
        if m in table:
            ex.contracts[n] = table[m]
        elif what and not m.startswith("~") and m != cls.split("::")[-2].split("<")[0]:
            ex.contracts[n] = not_covered(what, q)


def not_covered(what, d):
    def h(ex, st, a):
        raise Unsupported("%s: used in a way the contract does not cover (%s)" % (what, d[:80]))
    return h


class Store:
    """a datastore of some kind: its own operations are only known by contract"""

    def __init__(self, u):
        self.u, self.ex = u, u.ex
        ex = self.ex
        ignored(u)
        m = ex.find_fn("any_store").module
        vt = ex.global_ptr(m, "_ZTV8AnyStore")
        f = {0: (PTRT, Ptr(vt.r, T.add(vt.off, 16)))}
        self.callbacks = ex.new_region("callbacks", "pheap", I(u.const("size_cb")), StructBase("callbacks", {}))
        f[u.const("off_ds_callbacks")] = (PTRT, Ptr(self.callbacks, 0))
        self.r = ex.new_region("datastore", "param", I(u.const("size_store")), StructBase("datastore", f))
        self.ptr = Ptr(self.r, 0)
        self.usable = T.var("usable", "Bool")

        def usable(ex, st, a):
            ex.oblig(st, ex.ptr_eq(st, a[0], self.ptr), "the question is about this datastore")
            return self.usable
        ex.contracts["AnyStore::UsableImpl() const"] = usable

    def impl(self, name, response):
        """contract on the datastore's own operation: logs the call, response(st) is its result"""
        def h(ex, st, a):
            ex.oblig(st, ex.ptr_eq(st, a[0], self.ptr), "the operation runs on this datastore")
            st.ghost["impl"] = st.ghost.get("impl", ()) + ((name, ex.resolve(a[1])),)
            return response(st)
        self.ex.contracts["AnyStore::%sImpl(Message::Request::%s*)" % (name, name)] = h


class Hists:
    """the histograms of a datastore, by contract on std::map: `entries(st)` are
    the names the caller may ask for: (length, byte(j), present, index)"""

    def __init__(self, u, store, entries):
        self.u, self.ex, self.store, self.entries = u, u.ex, store, entries
        ex = self.ex
        self.at = u.const("off_ds_hists")
        self.obj = Ptr(store.r, self.at)
        self.endp = Ptr(store.r, self.at + 8)
        self.second = u.const("off_hentry_second")
        self.size = ex.var("hists.size", 0, 2 ** 40)
        self.others = 0
        NOTE = "std::map of histograms: find/count/size/end/iterators as the standard says, keys compared by their bytes"

        def mine(ex, st, a):
            ex.trusted.setdefault("std::map<string, shared_ptr<Histogram>>", NOTE)
            ex.oblig(st, ex.ptr_eq(st, a, self.obj), "the histograms of this datastore")

        def which(ex, st, p):
            """(present, node) for the name in the string at p"""
            v = sget(ex, st, p)
            for n, byte, present, idx in self.entries(st):
                if not ex.proved(st, T.eq(v.n, n)):
                    continue
                J = ex.var("name.J", 0, None)
                s2 = st.clone()
                try:
                    ex.assume(s2, T.lt(J, n))
                except Dead:
                    return present, self.node(idx)
                if not ex.feasible(s2):
                    return present, self.node(idx)
                if ex.proved(s2, T.eq(ex.load(s2, Ptr(v.buf, J), I8), byte(J))):
                    return present, self.node(idx)
            # a name the entry did not ask for: anything may be there
            t = T.var("other.present", "Bool")
            return t, Ptr(ex.family("other.hist.node", I0, I(64), self.fields("other", I0), kind="pheap"), 0)

        def find(ex, st, a):
            mine(ex, st, a[0])
            present, node = which(ex, st, a[1])
            if ex.decide(st, present):
                ex.assume(st, T.lt(0, self.size))
                return node
            return self.endp

        def count(ex, st, a):
            mine(ex, st, a[0])
            present, node = which(ex, st, a[1])
            if ex.decide(st, present):
                ex.assume(st, T.lt(0, self.size))
                return I(1)
            return I(0)

        def end(ex, st, a):
            mine(ex, st, a[0])
            return self.endp

        def size(ex, st, a):
            mine(ex, st, a[0])
            return self.size

        def empty(ex, st, a):
            mine(ex, st, a[0])
            return T.eq(self.size, 0)

        def index(ex, st, a):
            """operator[]: the slot of the name"""
            mine(ex, st, a[0])
            v = sget(ex, st, a[1])
            slot = ex.new_region("slot", "pheap", I(16), StructBase("slot", {0: (PTRT, NULL), 8: (PTRT, NULL)}))
            event(st, "slot", v, Ptr(slot, 0))
            return Ptr(slot, 0)

        def deref(ex, st, a):
            p = ex.resolve(ex.load(st, a[0], PTRT))
            ex.oblig(st, T.B(isinstance(p, Ptr) and p.r.fam is not None and p.r.fam.endswith("hist.node")), "the entry looked at exists")
            return p
        methods(ex, "std::map<string,shared_ptr<Histogram::Histogram>>::", {
            "find": find, "count": count, "operator[]": index, "end": end, "cend": end, "size": size, "empty": empty}, "the histograms")
        for i in ("std::_Rb_tree_iterator<std::pair<string const,shared_ptr<Histogram::Histogram>>>::", "std::_Rb_tree_const_iterator<std::pair<string const,shared_ptr<Histogram::Histogram>>>::"):
            methods(ex, i, {"operator->": deref, "operator*": deref})

    def fields(self, fam, k):
        return StructBase(fam, {self.second: (PTRT, Ptr(self.hist(fam, k), 0)), self.second + 8: (PTRT, Ptr(self.control(fam, k), 0))})

    def node(self, k, fam="hist"):
        return Ptr(self.ex.family(fam + ".node", k, I(64), self.fields(fam, k), kind="pheap"), 0)

    def hist(self, fam, k):
        class Opaque(Base):
            def read(self, ex, st, r, off, size, ty):
                raise Unsupported("the inside of a histogram is not this check's business")
        return self.ex.family(fam + ".object", k, I(self.u.const("size_histogram")), Opaque(), kind="pheap")

    def control(self, fam, k):
        t = lambda n: T.app("%s.%s" % (fam, n), (T.toint(k),))
        self.ex.setrange(t("owners"), 1, 2 ** 20)
        self.ex.setrange(t("watchers"), 1, 2 ** 20)
        return self.ex.family(fam + ".control", k, I(64), StructBase("control", {8: (I32, t("owners")), 12: (I32, t("watchers"))}), kind="pheap")


def known_string(u, st, name):
    """a std::string parameter with arbitrary content"""
    ex = u.ex
    n = ex.var(name + ".len", 0, 2 ** 40)
    r = ex.new_region(name, "param", I(32), UninitBase())
    buf = ex.new_region(name + ".chars", "param", T.add(n, 1), UFBase(name + ".chars"))
    st.ghost[("str", r, I0)] = SV(buf, n)
    return Ptr(r, 0), n, (lambda j: ex.load(st, Ptr(buf, j), I8, check=False))


# ------------------------------------------------------------------ the in-memory datastore
class Memory:
    """an InMemory object: callbacks and the map"""

    def __init__(self, u):
        self.u, self.ex = u, u.ex
        ex = self.ex
        ignored(u)
        self.callbacks = Ptr(ex.new_region("callbacks", "pheap", I(u.const("size_cb")), StructBase("callbacks", {})), 0)
        self.r = ex.new_region("datastore", "param", I(u.const("size_memstore")), StructBase("datastore", {u.const("off_ds_callbacks"): (PTRT, self.callbacks)}))
        self.ptr = Ptr(self.r, 0)
        self.db = Ptr(self.r, u.const("off_ds_db"))


class Bytes(Base):
    """n bytes given by a function"""

    def __init__(self, byte, special=None):
        self.byte, self.special = byte, special

    def read(self, ex, st, r, off, size, ty):
        if self.special:
            v = self.special(ex, st, off, size, ty)
            if v is not None:
                return v
        t = I0
        for i in range(size):
            t = T.add(t, T.mulc(self.byte(T.add(off, i)), 256 ** i))
        return ex.from_int(st, t, ty)


def byte_fn(ex, name, k):
    k = k if isinstance(k, tuple) else (T.toint(k),)

    def f(j):
        t = T.app(name, k + (j,))
        ex.setrange(t, 0, 255)
        return t
    return f


def same_bytes(ex, st, read, n, byte):
    """proved: the n bytes read(j) are byte(j)"""
    J = ex.var("same.J", 0, None)
    s2 = st.clone()
    try:
        ex.assume(s2, T.lt(J, n))
    except Dead:
        return True
    if not ex.feasible(s2):
        return True
    return ex.proved(s2, T.eq(read(s2, J), byte(J)))


def string_is(ex, st, v, n, byte):
    return ex.proved(st, T.eq(v.n, n)) and same_bytes(ex, st, lambda s, j: ex.load(s, Ptr(v.buf, j), I8, check=False), n, byte)


class Codec:
    """encode() and decode() at calls (their own units prove what they do with
    the callbacks): the result is determined by bytes and type of the value"""

    def __init__(self, u, store, w):
        self.u, self.ex, self.store, self.w = u, u.ex, store, w
        ex = self.ex
        OK = u.const("ds_success")
        NOTE = "contract: the registered callback's result, or a copy when there is none (own units); the same value gives the same result, in a new buffer; a failing callback leaves no buffer"
        self.made = {}

        def same(st, v, sym, f, k):
            """value v has bytes and type of sym's f of entry k"""
            if not ex.proved(st, T.and_(T.eq(v.len, sym.len(f, k)), T.eq(v.type, sym.type(f, k)))):
                return False
            p = ex.resolve(v.ptr)
            if not isinstance(p, Ptr):
                return ex.proved(st, T.eq(v.len, 0))
            return same_bytes(ex, st, lambda s, j: ex.load(s, Ptr(p.r, T.add(p.off, j)), I8, check=False), v.len, lambda j: sym.byte(f, k, j))

        def run(way, sources):
            def h(ex, st, a):
                ex.trusted.setdefault("Datastore::" + way, NOTE)
                ex.oblig(st, ex.ptr_eq(st, a[0], store.callbacks), "the datastore's callbacks are used")
                p = ex.resolve(a[1])
                v = get(u, st, p.r, p.off)
                src = None
                for f, k in sources(st):
                    at = self.w.arr.get(f)
                    if (p.r is at and ex.proved(st, T.eq(p.off, T.mulc(k, blob_size(u))))) or same(st, v, self.syms[f], f, k):
                        src = (f, k)
                        break
                if src is None:
                    src = ("other", (I(len(st.trace)),))
                f, k = src
                ok = self.ok(way, f, k)
                if not ex.decide(st, ok):
                    bad = ex.var("%s.error.%s" % (way, f), 0, 2 ** 32 - 1)
                    ex.assume(st, T.ne(bad, OK))
                    return bad
                n = self.len(way, f, k)
                if ex.decide(st, T.and_(T.eq(n, 0), T.app("%s.null.%s" % (way, f), self.idx(k), "Bool"))):
                    buf = NULL
                else:
                    r = ex.alloc(st, n, "heap", "%s.%s" % (way, f), Bytes(self.byte(way, f, k)))
                    st.ghost[(way, r)] = (f, k)
                    buf = Ptr(r, 0)
                ex.store(st, a[2], buf, PTRT)
                ex.store(st, a[3], n, I64)
                return I(OK)
            return h
        self.syms = {f: w.s for f in ("subjects", "predicates", "objects")}
        self.enc_sources = lambda st: []
        self.dec_sources = lambda st: []
        for n, d in ex.demangled.items():
            if d.startswith("Datastore::Datastore::encode("):
                ex.contracts[n] = run("encode", lambda st: self.enc_sources(st))
            elif d.startswith("Datastore::Datastore::decode("):
                ex.contracts[n] = run("decode", lambda st: self.dec_sources(st))

    def idx(self, k):
        return k if isinstance(k, tuple) else (T.toint(k),)

    def ok(self, way, f, k):
        return T.app("%s.ok.%s" % (way, f), self.idx(k), "Bool")

    def len(self, way, f, k):
        t = T.app("%s.len.%s" % (way, f), self.idx(k))
        self.ex.setrange(t, 0, MAXLEN)
        return t

    def byte(self, way, f, k):
        return byte_fn(self.ex, "%s.byte.%s" % (way, f), k)

    def is_result(self, st, way, f, k, ptr, n):
        """ptr, n are the result for that value (proved or false)"""
        ex = self.ex
        p = ex.resolve(ptr)
        if not ex.proved(st, T.eq(n, self.len(way, f, k))):
            return False
        if not isinstance(p, Ptr):
            return ex.proved(st, T.eq(n, 0))
        if p.r in st.dead:
            return False
        return same_bytes(ex, st, lambda s, j: ex.load(s, Ptr(p.r, T.add(p.off, j)), I8, check=False), n, self.byte(way, f, k))


class Keys:
    """sp_to_key at calls: the key of an entry's encoded pair (C04 proves that
    it succeeds, that keys of different pairs differ and what they begin with)"""

    def __init__(self, u, codec, w, sources):
        self.u, self.ex, self.codec, self.w, self.sources = u, u.ex, codec, w, sources
        ex = self.ex

        def h(ex, st, a):
            ex.trusted.setdefault("sp_to_key", "contract: a new key, the same for the same pair (C04)")
            vs = [get(u, st, ex.resolve(p).r, ex.resolve(p).off) for p in a[:2]]
            k = None
            for c in sources(st):
                if all(codec.is_result(st, "encode", f, c, v.ptr, v.len) and ex.proved(st, T.eq(v.type, w.s.type(f, c))) for f, v in zip(("subjects", "predicates"), vs)):
                    k = c
                    break
            if k is None:
                n, byte = ex.var("otherkey.len", 0, MAXLEN), byte_fn(ex, "otherkey", I(len(st.trace)))
            else:
                n, byte = self.len(k), self.byte(k)
            r = ex.alloc(st, n, "heap", "key", Bytes(byte))
            p = ex.resolve(a[2])
            old = get(u, st, p.r, p.off)
            if ex.decide(st, old.clean):
                ex.free(st, old.ptr)
            for o, (ty, v) in fields(u, B(Ptr(r, 0), n, I(u.const("type_BYTE")), T.TRUE)).items():
                ex.store(st, Ptr(p.r, T.add(p.off, o)), v, ty)
            return I(u.const("key_success"))
        for n, d in ex.demangled.items():
            if d.startswith("sp_to_key("):
                ex.contracts[n] = h

    def len(self, k):
        t = T.app("key.len", (T.toint(k),))
        self.ex.setrange(t, 19, MAXLEN)
        return t

    def byte(self, k):
        return byte_fn(self.ex, "key.byte", k)


class DB:
    """std::map<string, string> by contract: keys are compared by their bytes;
    the caller's key is that of entry k (or some other); writes are recorded"""

    def __init__(self, u, store, keys):
        self.u, self.ex, self.store, self.keys = u, u.ex, store, keys
        ex = self.ex
        self.second = u.const("off_entry_second")
        self.endp = Ptr(store.r, T.toint(u.const("off_ds_db") + 8))
        NOTE = "std::map<string, string>: as the standard says, keys compared by their bytes"
        old_hook = getattr(ex, "unknown_string", None)

        def content(st, r, off):
            if r.fam == "stored" and T.is_const(off):
                k = r.idx
                if T.cval(off) == self.second:
                    buf = ex.family("stored.value", k, T.add(self.vlen(k), 1), Bytes(byte_fn(ex, "value.byte", k), lambda ex, st, off, size, ty: self.vtype(k) if size == 4 and ex.proved(st, T.eq(off, T.sub(self.vlen(k), 4))) else None), kind="pheap")
                    return SV(buf, self.vlen(k))
                if T.cval(off) == 0:
                    return SV(ex.family("stored.key", k, T.add(self.keys.len(k), 1), Bytes(self.keys.byte(k)), kind="pheap"), self.keys.len(k))
            return old_hook(st, r, off) if old_hook else None
        ex.unknown_string = content

        def mine(st, p):
            ex.trusted.setdefault("std::map<string, string>", NOTE)
            ex.oblig(st, ex.ptr_eq(st, p, store.db), "the map of this datastore")

        def which(st, p):
            v = sget(ex, st, p)
            for k in keys.sources(st):
                if string_is(ex, st, v, keys.len(k), keys.byte(k)):
                    return self.present(k), k
            return T.var("other.present", "Bool"), I(-1)

        def find(ex, st, a):
            mine(st, a[0])
            there, k = which(st, a[1])
            return Ptr(self.node(k), 0) if ex.decide(st, there) else self.endp

        def count(ex, st, a):
            mine(st, a[0])
            there, k = which(st, a[1])
            return I(1) if ex.decide(st, there) else I(0)

        def end(ex, st, a):
            mine(st, a[0])
            return self.endp

        def index(ex, st, a):
            mine(st, a[0])
            v = sget(ex, st, a[1])
            slot = Ptr(ex.new_region("slot", "pheap", I(32), UFBase("slot")), 0)
            event(st, "write", v, slot)
            return slot

        def erase(ex, st, a):
            mine(st, a[0])
            d = plain(ex.callname)
            if "_iterator" in d:
                p = ex.resolve(a[1])
                if isinstance(p, Ptr) and p.r.fam == "stored":
                    event(st, "erase", p.r.idx)
                    return ex.fresh_of(PTRT, "next") if ex.callins.ty == PTRT else None
                ex.fail(st, "only entries of the map are erased")
                return self.endp
            there, k = which(st, a[1])
            if ex.decide(st, there):
                event(st, "erase", k)
                return I(1)
            return I(0)

        def deref(ex, st, a):
            p = ex.resolve(ex.load(st, a[0], PTRT))
            ex.oblig(st, T.B(isinstance(p, Ptr) and p.r.fam == "stored"), "the entry looked at exists")
            return p
        methods(ex, "std::map<string,string>::", {"find": find, "count": count, "operator[]": index, "end": end, "cend": end, "erase": erase}, "the map")
        for i in ("std::_Rb_tree_iterator<std::pair<string const,string>>::", "std::_Rb_tree_const_iterator<std::pair<string const,string>>::"):
            methods(ex, i, {"operator->": deref, "operator*": deref})

    def present(self, k):
        return T.app("stored", (T.toint(k),), "Bool")

    def vlen(self, k):
        t = T.app("value.len", (T.toint(k),))
        self.ex.setrange(t, 4, MAXLEN)
        return t

    def vtype(self, k):
        t = T.app("value.type", (T.toint(k),))
        self.ex.setrange(t, 0, 2 ** 32 - 1)
        return t

    def node(self, k):
        return self.ex.family("stored", T.toint(k), I(64), UFBase("stored"), kind="pheap")


class Answer:
    """the response: made once, entries added in order (add() is C03's subject)"""

    def __init__(self, u, w, rcls):
        self.u, self.ex, self.w = u, u.ex, w
        ex = self.ex
        rw = self.rw = rcls(u, "res")
        name = rcls.name
        size = u.const("size_R" + name)
        arrs = {}
        for member, kind, f in rw.arrays():
            arrs[off(u, rw, member)] = (PTRT, Ptr(ex.new_region("response." + member, "pheap", T.mulc(w.n, stride(u, kind)), UFBase("response." + member)), 0))
        self.count = off(u, rw, "count")
        f = dict(arrs)
        f[self.count] = (I64, I0)
        f[off(u, rw, "max_count")] = (I64, w.n)
        self.r = ex.new_region("response", "pheap", I(size), StructBase("response", f))
        self.ptr = Ptr(self.r, 0)
        OK = u.const("ds_success")

        def make(ex, st, a):
            ex.trusted.setdefault("construct<Response::%s>" % name, "contract: an empty response with room for the given number of entries (C03)")
            n = ex.load(st, a[0], I64)
            ex.oblig(st, T.and_(T.eq(n, w.n), T.B(not st.ghost.get("made"))), "one response with room for every entry")
            st.ghost["made"] = True
            return self.ptr

        def add(ex, st, a):
            ex.trusted.setdefault("Response::%s::add" % name, "contract: appends an entry; takes over the object of a successful one (C03)")
            ex.oblig(st, ex.ptr_eq(st, a[0], self.ptr), "entries are added to the response")
            n = ex.load(st, Ptr(self.r, self.count), I64)
            ex.oblig(st, T.lt(n, w.n), "there is room for the entry")
            vs = []
            for p in a[1:-1]:
                p = ex.resolve(p)
                vs.append(get(u, st, p.r, p.off))
            if len(vs) == 3 and ex.decide(st, T.eq(a[-1], OK)):
                p = ex.resolve(a[3])
                for o, (ty, v) in fields(u, empty()).items():
                    ex.store(st, Ptr(p.r, T.add(p.off, o)), v, ty)
            event(st, "entry", n, vs, a[-1])
            ex.store(st, Ptr(self.r, self.count), T.add(n, 1), I64)
            return ex.fresh("added", 0, 2 ** 64 - 1)
        for n, d in ex.demangled.items():
            if "* construct<Message::Response::%s," % name in d or "* construct<Message::Response::%s>" % name in d:
                ex.contracts[n] = make
            elif d.startswith("Message::Response::%s::add(" % name):
                ex.contracts[n] = add

    def entry(self, st, k, events, ok, what):
        """exactly one entry, that of k, successful exactly if ok; its object"""
        u, ex, w = self.u, self.ex, self.w
        es = [e for e in events if e[0] == "entry"]
        if len(es) != 1:
            ex.fail(st, "each entry gets one answer: " + what)
            return None
        _, n, vs, status = es[0]
        ex.oblig(st, T.eq(n, k), "answers are in the order of the entries: " + what)
        for f, v in zip(("subjects", "predicates"), vs):
            want = w.origv(f, k)
            want = want(ex, st) if callable(want) else want
            ex.oblig(st, ex.ptr_eq(st, v.ptr, want), "the answer refers to the caller's %s" % f)
            ex.oblig(st, T.and_(T.eq(v.len, w.s.len(f, k)), T.eq(v.type, w.s.type(f, k))), "the answer refers to the caller's %s: length and type" % f)
        OK = u.const("ds_success")
        if ex.decide(st, ok):
            ex.oblig(st, T.eq(status, OK), what + " succeeds")
        else:
            ex.oblig(st, T.ne(status, OK), what + " fails")
        return vs[2] if len(vs) > 2 else None
