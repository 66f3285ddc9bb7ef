"""What the contracts know about results (C15, C16): std::deque as a sequence,
result objects, response chains."""
from engine.session import *
from engine.loops import LoopSpec, RegionInv, PtrInv, Chain
from engine import terms as T
from engine.exec import strip_args
from checks.msgs import *
from checks.blobs import *
from checks.queues import clock

SOURCES = ["src/hxhim/Results.cpp", "src/message/Messages.cpp", "src/utils/Blob.cpp", "src/utils/memory.cpp", "specs/msgs.cpp", "specs/results.cpp", "specs/queue.cpp"] + \
          ["src/message/%s.cpp" % n for n in ("Message", "Response", "SubjectPredicate", "BPut", "BGet", "BGetOp", "BDelete", "BHistogram")]


# ------------------------------------------------------------------ sequences
class Seq:
    """contents of a std::deque<T*>: n elements in region r, 8 bytes each"""

    def __init__(self, r, n):
        self.r, self.n = r, n


def deque_fields(at, seq, n):
    """a deque object as the contract knows it: where its elements are, and how many"""
    return {at: (PTRT, Ptr(seq, 0)), T.add(at, 8) if isinstance(at, T.Term) else at + 8: (I64, n)}


def deque_state(ex, st, p):
    p = ex.resolve(p)
    s = ex.resolve(ex.load(st, p, PTRT))
    if isnull(s):
        s = Ptr(ex.new_region("deque", "heap", None, UninitBase()), I0)
        ex.store(st, p, s, PTRT)
    if not isinstance(s, Ptr):
        raise Unsupported("a deque the contract does not know")
    return Seq(s.r, ex.load(st, Ptr(p.r, T.add(p.off, 8)), I64))


def deque_by_contract(u, elem="hxhim::Result::Result*"):
    """std::deque<elem>: a sequence in one region; an iterator's current
    position is a place in it (its other members are never looked at)"""
    ex = u.ex
    NOTE = "std::deque and its iterators: a sequence of elements"
    D = "std::deque<%s, std::allocator<%s> >::" % (elem, elem)
    C = "std::_Deque_iterator<%s, %s const&, %s const*>" % (elem, elem, elem)
    M = "std::_Deque_iterator<%s, %s&, %s*>" % (elem, elem, elem)

    def seq(st, p):
        return deque_state(ex, st, p)

    def setseq(st, p, s):
        p = ex.resolve(p)
        ex.store(st, p, Ptr(s.r, I0), PTRT)
        ex.store(st, Ptr(p.r, T.add(p.off, 8)), s.n, I64)

    def trust():
        ex.trusted.setdefault("std::deque", NOTE)

    def put_it(st, p, r, at):
        p = ex.resolve(p)
        ex.store(st, p, Ptr(r, at), PTRT)
        for o in (8, 16, 24):
            ex.store(st, Ptr(p.r, T.add(p.off, o)), NULL, PTRT)

    def new(ex, st, a):
        trust()
        setseq(st, a[0], Seq(ex.new_region("deque", "heap", None, UninitBase()), I0))
        return None

    def drop(ex, st, a):
        trust()
        return None

    def begin(ex, st, a):
        trust()
        put_it(st, a[0], seq(st, a[1]).r, I0)
        return None

    def end(ex, st, a):
        trust()
        s = seq(st, a[1])
        put_it(st, a[0], s.r, T.mulc(s.n, 8))
        return None

    def push(ex, st, a):
        trust()
        s = seq(st, a[0])
        v = ex.load(st, ex.resolve(a[1]), PTRT)
        ex.store(st, Ptr(s.r, T.mulc(s.n, 8)), v, PTRT)
        setseq(st, a[0], Seq(s.r, T.add(s.n, 1)))
        return Ptr(s.r, T.mulc(s.n, 8))

    def size(ex, st, a):
        trust()
        return seq(st, a[0]).n

    def empty(ex, st, a):
        trust()
        return T.eq(seq(st, a[0]).n, 0)

    def clear(ex, st, a):
        trust()
        setseq(st, a[0], Seq(ex.new_region("deque", "heap", None, UninitBase()), I0))
        return None

    def at(ex, st, a):
        trust()
        s = seq(st, a[0])
        ex.oblig(st, T.lt(a[1], s.n), "element within the list")
        return Ptr(s.r, T.mulc(a[1], 8))

    def front(ex, st, a):
        trust()
        s = seq(st, a[0])
        ex.oblig(st, T.lt(0, s.n), "the list is not empty")
        return Ptr(s.r, I0)

    def back(ex, st, a):
        trust()
        s = seq(st, a[0])
        ex.oblig(st, T.lt(0, s.n), "the list is not empty")
        return Ptr(s.r, T.mulc(T.sub(s.n, 1), 8))

    def insert(ex, st, a):
        """insert(end, first, last)"""
        trust()
        s = seq(st, a[1])
        cur = [ex.resolve(ex.load(st, ex.resolve(x), PTRT)) for x in a[2:5]]
        if not all(isinstance(c, Ptr) for c in cur) or cur[0].r is not s.r or cur[1].r is not cur[2].r or not ex.proved(st, T.eq(cur[0].off, T.mulc(s.n, 8))):
            raise Unsupported("insertion elsewhere than at the end")
        if cur[1].r is s.r:
            raise Unsupported("insertion of a list into itself")
        src, lo, hi = cur[1].r, cur[1].off, cur[2].off
        node = st.mem.get(src)
        n = T.sub(hi, lo)
        ex.put(st, s.r, Node(st.mem.get(s.r), "G", T.mulc(s.n, 8), n, lambda ex, s2, d, size, ty: ex.read(s2, src, node, T.add(lo, d), size, ty)))
        q = T.div(n, 8)
        setseq(st, a[1], Seq(s.r, T.add(s.n, q)))
        put_it(st, a[0], s.r, T.mulc(s.n, 8))
        return None

    def inc(ex, st, a):
        trust()
        p = ex.resolve(a[0])
        c = ex.resolve(ex.load(st, p, PTRT))
        ex.store(st, p, Ptr(c.r, T.add(c.off, 8)), PTRT)
        return p

    def postinc(ex, st, a):
        trust()
        p = ex.resolve(a[1])
        ex.copy_mem(st, a[0], p, I(32))
        c = ex.resolve(ex.load(st, p, PTRT))
        ex.store(st, p, Ptr(c.r, T.add(c.off, 8)), PTRT)
        return None
    ex.demangle_all()
    for n, d in ex.demangled.items():
        s = strip_args(d)
        if s.startswith(D):
            f = s[len(D):]
            h = {"~deque": drop, "begin": begin, "cbegin": begin, "end": end, "cend": end, "push_back": push, "size": size, "empty": empty, "clear": clear, "operator[]": at, "at": at, "front": front, "back": back, "deque": new}.get(f)
            if h is new and not d.endswith("::deque()"):
                continue
            if h:
                ex.contracts[n] = h
        elif "%s& " % elem in s and D + "emplace_back" in s:
            ex.contracts[n] = push
        elif D + "insert<" in s:
            ex.contracts[n] = insert
        elif s in (C + "::operator++", M + "::operator++"):
            ex.contracts[n] = postinc if d.endswith("(int)") else inc


# ------------------------------------------------------------------ results
class Results:
    """a Results object holding n results, its iterator at position p"""

    def __init__(self, u, tag="r", fields=None, element=None):
        self.u, self.ex, self.tag = u, u.ex, tag
        ex = self.ex
        self.n = ex.var(tag + ".size", 0, 2 ** 40)
        self.p = ex.var(tag + ".at", 0, 2 ** 40)
        self.element = element or (lambda k: Ptr(self.result(k), 0))
        self.seq = ex.new_region(tag + ".seq", "heap", None, ArrayBase(tag + ".seq", 8, lambda ex, st, q: {0: (PTRT, self.element(q))}))
        it = u.const("off_results_it")
        self.at_list = u.const("off_results_list")
        f = deque_fields(self.at_list, self.seq, self.n)
        f[it] = (PTRT, Ptr(self.seq, T.mulc(self.p, 8)))
        self.r = ex.new_region(tag, "param", I(u.const("size_results")), StructBase(tag, f))
        self.list = Ptr(self.r, self.at_list)
        self.fields = fields

    def result(self, k):
        return self.ex.family(self.tag + ".result", T.toint(k), I(4096), StructBase(self.tag + ".result", self.fields(k)) if self.fields else UFBase(self.tag + ".result"), kind="pheap")

    def pre(self, st):
        self.ex.assume(st, T.le(self.p, self.n))

    def now(self, st):
        return deque_state(self.ex, st, self.list)

    def position(self, st):
        """where the iterator is"""
        return self.ex.resolve(self.ex.load(st, Ptr(self.r, self.u.const("off_results_it")), PTRT))

    def kept(self, st, n=None):
        """the first n elements are those of before"""
        ex = self.ex
        s = self.now(st)
        k = ex.fresh("k", 0, None)
        s2 = st.clone()
        ex.assume(s2, T.lt(k, self.n if n is None else n))
        if ex.feasible(s2):
            ex.with_forks([s2], lambda t: ex.oblig(t, ex.ptr_eq(t, ex.load(t, Ptr(s.r, T.mulc(k, 8)), PTRT), self.element(k)), "results already in the list stay where they are"))

    def wrapped(self):
        """the C handle"""
        u, ex = self.u, self.ex
        return Ptr(ex.new_region("handle", "param", I(u.const("size_cresults")), StructBase("handle", {u.const("off_cresults_res"): (PTRT, Ptr(self.r, 0))})), 0)


# ------------------------------------------------------------------ from responses
def moved(u, s, f, q):
    """a value object something was moved out of: it owns nothing any more"""
    return fields(u, B(IPtr(s.num("left.ptr." + f, q)), s.num("left.len." + f, q), s.num("left.type." + f, q, 0, 2 ** 32 - 1), T.FALSE))


def value(st, v, ex):
    return v(ex, st) if callable(v) else v


class Records:
    """the result nodes a GETOP entry becomes.  While the loop runs: the first
    node, then nodes named node(1), ..., node(it-1), each holding its record
    and followed by the next; the loop only sees the first and the last"""

    def __init__(self, u, w, i, msg):
        self.u, self.ex, self.w, self.i, self.msg = u, u.ex, w, i, msg
        self.nodes = {}

    def expected(self, k):
        """members of the node of record k, without next: offset -> (type, value)"""
        u, w, i = self.u, self.w, self.i
        c = u.const
        out = {c("off_res_op"): (I32, I(w.op)), c("off_res_range_server"): (I32, w.src),
               c("off_res_status"): (I32, T.ite(w.ok(i), I(c("hx_success")), I(c("hx_error"))))}
        for f, m in (("subjects", "subject"), ("predicates", "predicate"), ("objects", "object")):
            for o, (ty, v) in rec_fields(u, w, f, (i, k)).items():
                if f == "objects":
                    alone = fields(u, empty())[o][1]
                    v = (lambda v, alone: lambda ex, st: value(st, v, ex) if ex.decide(st, w.ok(i)) else alone)(v, alone)
                out[c("off_res_" + m) + o] = (ty, v)
        return out

    def same(self, st, p, k, what="record"):
        """node p holds record k"""
        ex, u, w = self.ex, self.u, self.w
        ok = ex.decide(st, w.ok(self.i))
        skip = set()
        if not ok:
            # a failed operation has no object: only that nothing is owned
            at = u.const("off_res_object")
            skip = {at + o for o in fields(u, empty())}
            ex.oblig(st, T.not_(get(u, st, p.r, T.add(p.off, at)).clean), "a failed operation's result has no object")
        for o, (ty, v) in self.expected(k).items():
            if o in skip:
                continue
            v = value(st, v, ex)
            x = ex.load(st, Ptr(p.r, T.add(p.off, o)), ty)
            ex.oblig(st, T.eq(x, v) if isinstance(v, T.Term) else ex.ptr_eq(st, x, v), "%s: each result holds what the response holds" % what)

    def next(self, st, p):
        return self.ex.resolve(self.ex.load(st, Ptr(p.r, T.add(p.off, self.u.const("off_res_getop_next"))), PTRT))

    def node(self, k, it):
        """node k >= 1 at the head of iteration it"""
        k = T.toint(k)
        f = dict(self.expected(k))
        f[self.u.const("off_res_getop_next")] = (PTRT, lambda ex, st: Ptr(self.node(T.add(k, 1), it), 0) if ex.decide(st, T.lt(T.add(k, 1), it)) else NULL)
        fam = "getop.node.%d" % it.id
        self.nodes[fam] = it
        return self.ex.family(fam, k, I(self.u.const("size_res_GetOp")), StructBase("getop.node", f), kind="pheap")


class First(RegionInv):
    """the first node"""

    def __init__(self, c):
        self.c = c

    def produce(self, ex, st, r, it, entry):
        c = self.c
        if it is I0 or ex.decide(st, T.eq(it, 0)):
            return
        at = lambda o, ty, v: ex.put(st, r, Node(st.mem.get(r), "S", T.toint(o), I(ex.mod_size(ty)), v, ty))
        for o, (ty, v) in c.expected(I0).items():
            at(o, ty, value(st, v, ex))
        at(c.u.const("off_res_getop_next"), PTRT, Ptr(c.node(1, it), 0) if ex.decide(st, T.lt(1, it)) else NULL)

    def check(self, ex, st, r, it, entry, head):
        c = self.c
        if it is I0 or ex.decide(st, T.eq(it, 0)):
            return
        c.same(st, Ptr(r, 0), I0, "first record")
        nxt = c.next(st, Ptr(r, 0))
        if ex.decide(st, T.eq(it, 1)):
            ex.oblig(st, ex.ptr_eq(st, nxt, NULL), "a single record has no successor")
        elif ex.decide(st, T.eq(it, 2)):
            ex.oblig(st, ex.ptr_eq(st, nxt, c.last(st)), "the second record follows the first")
        else:
            ex.oblig(st, T.B(isinstance(nxt, Ptr) and nxt.r.fam is not None and nxt.r.fam.startswith("getop.node.")), "the second record follows the first")


class Last(PtrInv):
    """the node of the last record so far"""

    def __init__(self, c, top, key):
        self.c, self.top, self.key = c, top, key

    def produce(self, ex, st, it):
        c = self.c
        if it is I0 or ex.decide(st, T.le(it, 1)):
            return Ptr(self.top, 0)
        c.head = Ptr(c.node(T.sub(it, 1), it), 0)
        return c.head

    def check(self, ex, st, v, it):
        c = self.c
        v = ex.resolve(v)
        if it is I0 or ex.decide(st, T.le(it, 1)):
            ex.oblig(st, ex.ptr_eq(st, v, Ptr(self.top, 0)), "the first record is in the first node")
            return
        if not (isinstance(v, Ptr) and v.r in st.heap and v.r not in st.dead and v.r is not self.top):
            ex.fail(st, "every further record has a node of its own")
            return
        ex.oblig(st, T.eq(v.off, 0), "a node's address")
        c.same(st, v, T.sub(it, 1))
        ex.oblig(st, ex.ptr_eq(st, c.next(st, v), NULL), "the last record has no successor")
        # the node before it
        j = T.sub(it, 1)
        if not ex.decide(st, T.eq(j, 1)):
            p = Ptr(c.node(T.sub(j, 1), j), 0)
            c.same(st, p, T.sub(j, 1))
            ex.oblig(st, ex.ptr_eq(st, c.next(st, p), v), "each record is followed by the next")
        else:
            ex.oblig(st, ex.ptr_eq(st, c.next(st, Ptr(self.top, 0)), v), "each record is followed by the next")


class Middle(RegionInv):
    """a node of an earlier iteration: only the last one is looked at, and judged with the position"""

    def produce(self, ex, st, r, it, entry):
        st.mem.pop(r, None)

    def check(self, ex, st, r, it, entry, head):
        pass
