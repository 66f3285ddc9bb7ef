"""What the contracts know about sending what is queued (C16): queues as lists
of batches known by contract on std::list, one round as events."""
from engine.session import *
from engine.loops import LoopSpec, RegionInv, PtrInv
from engine import terms as T
from checks.msgs import *
from checks.queues import clock, Reset, MAXDS
from checks.stores import methods, not_covered, plain

KINDS = {"BPut": ReqPut, "BGet": ReqGet, "BGetOp": ReqGetOp, "BDelete": ReqDelete, "BHistogram": ReqHist}
OPS = {"BPut": "op_put", "BGet": "op_get", "BGetOp": "op_getop", "BDelete": "op_delete", "BHistogram": "op_histogram"}
SOURCES = ["src/hxhim/ops/FLUSH.cpp", "src/hxhim/private.cpp", "src/hxhim/init.cpp", "src/hxhim/Results.cpp", "src/hxhim/accessors.cpp", "src/transport/backend/local/RangeServer.cpp", "src/message/Message.cpp", "specs/msgs.cpp", "specs/queue.cpp", "specs/results.cpp", "specs/flush.cpp"]


def pair(a, *b):
    return T.app("pair", (T.toint(a),) + tuple(T.toint(x) for x in b))


def events(st):
    return st.ghost.get("events", ())


def add(st, *e):
    st.ghost["events"] = events(st) + (e,)


class Opaque(Base):
    def __init__(self, what):
        self.what = what

    def read(self, ex, st, r, off, size, ty):
        raise Unsupported("the inside of %s is only known by contract" % self.what)


class Pass(LoopSpec):
    """one of the loops of a round: iteration `it` is judged by the events it caused"""
    force = True

    def __init__(self, p, st):
        self.p, self.base = p, events(st)

    def head(self, ex, st, it):
        st.ghost["events"] = self.base + (("loop", it),)

    def back(self, ex, st, it):
        self.p.judge(st, it, self.base, events(st)[len(self.base) + 1:])

    def region_inv(self, ex, st, r):
        return self.p.region_inv(r)

    def pointer(self, ex, st, key, v0):
        v = ex.resolve(v0)
        if not isinstance(v, Ptr) or v.r.kind == "stack":
            return None     # not an iterator yet
        return self.p.position(st, self.base)

    def facts(self, ex, st, it):
        k = self.p.walks(self.base)
        return [T.le(it, st.ghost[k + ".n"])] if k != "queues" else []


class Rounds(LoopSpec):
    """the loop over the rounds: arbitrary queues at its head"""
    force = True

    def __init__(self, p, st):
        self.p, self.base = p, events(st)

    def head(self, ex, st, it):
        st.ghost["round"] = it
        st.ghost["events"] = ()

    def back(self, ex, st, it):
        self.p.round_done(st, events(st))

    def region_inv(self, ex, st, r):
        return self.p.region_inv(r)


class At(PtrInv):
    """an iterator runs through node(0), ..., node(n-1), end"""

    def __init__(self, node, n, end):
        self.node, self.n, self.end = node, n, end

    def produce(self, ex, st, it):
        return self.node(st, it) if ex.decide(st, T.lt(it, self.n)) else self.end

    def check(self, ex, st, v, it):
        ex.oblig(st, ex.ptr_eq(st, v, self.produce(ex, st, it)), "the elements are taken one by one")


class Process:
    """process<Request, Response>: everything around it by contract"""

    def __init__(self, u, X):
        self.u, self.X = u, X
        ex = self.ex = u.ex
        clock(u)
        ex.demangle_all()
        o = lambda n: u.const("off_hp_" + n)
        self.req = "Message::Request::%s" % X
        self.w = KINDS[X](u, "w")
        self.N = ex.var("datastores", 1, MAXDS)
        self.me = ex.var("rank", 0, 2 ** 31 - 1)
        self.Q = ex.var("Q", 0, MAXDS)
        LS = self.LS = u.const("size_list")
        self.lists = ex.new_region("queues", "heap", T.mulc(self.N, LS), Opaque("a queue"))
        end = Ptr(self.lists, T.mulc(self.N, LS))
        self.queues = Ptr(ex.new_region("queue vector", "param", I(24), StructBase("queue vector", {0: (PTRT, Ptr(self.lists, 0)), 8: (PTRT, end), 16: (PTRT, end)})), 0)
        self.ranks = ex.new_region("ds_to_rank", "heap", T.mulc(self.N, 4), ArrayBase("ds_to_rank", 4, lambda ex, st, q: {0: (I32, self.rank_of(q))}))
        rend = Ptr(self.ranks, T.mulc(self.N, 4))
        self.transport = Ptr(ex.new_region("transport", "pheap", None, Opaque("the transport")), 0)
        f = {o("comm_rank"): (I32, self.me), o("ds_to_rank"): (PTRT, Ptr(self.ranks, 0)), o("ds_to_rank") + 8: (PTRT, rend), o("ds_to_rank") + 16: (PTRT, rend), o("transport"): (PTRT, self.transport)}
        self.hp = ex.new_region("hp", "param", I(u.const("size_hp")), StructBase("hp", f))
        self.hx = Ptr(ex.new_region("hx", "param", I(u.const("size_hx")), StructBase("hx", {u.const("off_hx_p"): (PTRT, Ptr(self.hp, 0))})), 0)
        self.stats()
        self.lists_by_contract()
        self.remote_by_contract()
        self.effects()

    def rank_of(self, q):
        t = T.app("ds_to_rank", (T.toint(q),))
        self.ex.setrange(t, 0, 2 ** 31 - 1)
        return t

    def left(self, rnd, q):
        t = T.app("left", (T.toint(rnd), T.toint(q)))
        self.ex.setrange(t, 0, 2 ** 38)
        return t

    def has(self, rnd, it, rank):
        return T.eq(T.app("has", (T.toint(rnd), T.toint(it), T.toint(rank))), 1)

    def region_inv(self, r):
        return Reset() if r.fam == "batch" else None

    # ------------------------------------------------------------ packets and containers
    def packet(self, fam, idx):
        u, w = self.u, self.w
        return Ptr(self.ex.family(fam, idx, I(u.const("size_" + self.X)), StructBase(fam, {off(u, w, "op"): (I32, I(u.const(OPS[self.X])))}, (idx,)), kind="pheap"), 0)

    def local_node(self, st, j):
        n = st.ghost["local.n"]
        at = self.local_at(st)
        k = pair(st.ghost["round"], j)
        nxt = lambda ex, s: self.local_node(s, T.add(j, 1)) if ex.decide(s, T.lt(T.add(j, 1), n)) else at
        return Ptr(self.ex.family("local.node", k, I(24), StructBase("local.node", {0: (PTRT, nxt), 16: (PTRT, self.packet("local.packet", k))}, (k,)), kind="pheap"), 0)

    def remote_node(self, st, j):
        n = st.ghost["remote.n"]
        k = pair(st.ghost["round"], j)
        nxt = lambda ex, s: self.remote_node(s, T.add(j, 1)) if ex.decide(s, T.lt(T.add(j, 1), n)) else NULL
        return Ptr(self.ex.family("remote.node", k, I(24), StructBase("remote.node", {0: (PTRT, nxt), 16: (PTRT, self.packet("remote.packet", k))}, (k,)), kind="pheap"), 0)

    def the(self, st, what):
        r = [e[1] for e in events(st) if e[0] == what]
        if len(r) != 1:
            raise Unsupported("%d containers (%s) in one round" % (len(r), what))
        return r[0]

    def local_at(self, st):
        return self.the(st, "local")

    def where(self, st, p):
        """queue number, or None for the list of a round's local packets"""
        p = self.ex.resolve(p)
        if not isinstance(p, Ptr):
            raise Unsupported("which list?")
        if p.r is self.lists:
            q, d = self.ex.split_index(st, p.off, self.LS)
            if q is None or d != 0:
                raise Unsupported("which queue?")
            self.ex.oblig(st, T.lt(q, self.N), "a queue that exists")
            return q
        at = self.local_at(st)
        if not (p.r is at.r and self.ex.proved(st, T.eq(p.off, at.off))):
            raise Unsupported("which list?")
        return None

    def now(self, st, q):
        """(round, batches of queue q taken in it so far)"""
        ex, ev = self.ex, events(st)
        loops = [i for i, e in enumerate(ev) if e[0] == "loop"]
        if not loops:
            return st.ghost.get("round", I0), 0          # between rounds
        if len(loops) > 1 or any(e[0] == "begin" for e in ev):
            raise Unsupported("queues are looked at after the packets of the round were taken")
        mine = [e[1] for e in ev[loops[0] + 1:] if e[0] == "touch"]
        if not mine:
            add(st, "touch", q)
        elif not ex.proved(st, T.eq(mine[0], q)):
            raise Unsupported("several queues are looked at together")
        return st.ghost["round"], len([e for e in ev if e[0] == "pop"])

    def lists_by_contract(self):
        ex = self.ex
        NOTE = "std::list of batches: a sequence; push_back appends, pop_front removes the first, front/size/empty/begin/end and the iterators as the standard says"

        def trust():
            ex.trusted.setdefault("std::list<Request *>", NOTE)

        def new(ex, st, a):
            trust()
            p = ex.resolve(a[0])
            if any(e[0] == "loop" for e in events(st)):
                raise Unsupported("a list made in the middle of a round")
            add(st, "local", p)
            st.ghost["local.n"] = I0
            return None

        def drop(ex, st, a):
            trust()
            self.where(st, a[0])
            add(st, "drop local")
            return None

        def size(ex, st, a):
            trust()
            q = self.where(st, a[0])
            if q is None:
                return st.ghost["local.n"]
            r, k = self.now(st, q)
            return T.sub(self.left(r, q), k)

        def empty(ex, st, a):
            return T.eq(size(ex, st, a), 0)

        def front(ex, st, a):
            trust()
            q = self.where(st, a[0])
            if q is None:
                raise Unsupported("front of the local packets")
            r, k = self.now(st, q)
            ex.oblig(st, T.lt(k, self.left(r, q)), "only what is queued is taken")
            i = pair(r, q, k)
            return Ptr(ex.family("front", i, I(8), StructBase("front", {0: (PTRT, self.packet("batch", i))}, (i,))), 0)

        def pop(ex, st, a):
            trust()
            q = self.where(st, a[0])
            if q is None:
                raise Unsupported("pop of the local packets")
            r, k = self.now(st, q)
            ex.oblig(st, T.lt(k, self.left(r, q)), "only what is queued is taken")
            add(st, "pop", q, self.packet("batch", pair(r, q, k)))
            return None

        def push(ex, st, a):
            trust()
            q = self.where(st, a[0])
            if q is not None:
                ex.fail(st, "nothing is put into the queues")
                return None
            add(st, "push", ex.resolve(ex.load(st, ex.resolve(a[1]), PTRT)))
            st.ghost["local.n"] = T.add(st.ghost["local.n"], 1)
            return None

        def begin(ex, st, a):
            trust()
            if self.where(st, a[0]) is not None:
                raise Unsupported("a queue is walked through")
            add(st, "begin", "local")
            return self.local_node(st, I0) if ex.decide(st, T.lt(0, st.ghost["local.n"])) else self.local_at(st)

        def end(ex, st, a):
            trust()
            if self.where(st, a[0]) is not None:
                raise Unsupported("a queue is walked through")
            return self.local_at(st)
        methods(ex, "std::list<%s*,std::allocator<%s*>>::" % (self.req, self.req), {"list": new, "~list": drop, "size": size, "empty": empty, "front": front, "pop_front": pop, "push_back": push, "emplace_back": push,
                "begin": begin, "end": end, "cbegin": begin, "cend": end}, "a list of batches")

    def remote_by_contract(self):
        ex = self.ex
        NOTE = "std::unordered_map of the packets of a round by rank: as the standard says"

        def mine(st, p):
            ex.trusted.setdefault("std::unordered_map<int, Request *>", NOTE)
            ex.oblig(st, ex.ptr_eq(st, p, self.the(st, "remote")), "the packets of this round")

        def new(ex, st, a):
            if any(e[0] == "loop" for e in events(st)):
                raise Unsupported("a map made in the middle of a round")
            add(st, "remote", ex.resolve(a[0]))
            st.ghost["remote.n"] = I0
            return None

        def drop(ex, st, a):
            mine(st, a[0])
            return None

        def there(st, rank):
            ev = events(st)
            loops = [i for i, e in enumerate(ev) if e[0] == "loop"]
            if len(loops) != 1 or any(e[0] == "begin" for e in ev):
                raise Unsupported("the packets of the round are searched outside the loop that takes them")
            for e in ev[loops[0]:]:
                if e[0] == "slot" and ex.decide(st, T.eq(e[1], rank)):
                    return True
            return ex.decide(st, self.has(st.ghost["round"], ev[loops[0]][1], rank))

        def find(ex, st, a):
            mine(st, a[0])
            rank = ex.load(st, ex.resolve(a[1]), I32)
            if not there(st, rank):
                return NULL
            k = pair(st.ghost["round"], rank)
            return Ptr(ex.family("found", k, I(24), Opaque("an earlier packet"), kind="pheap"), 0)

        def count(ex, st, a):
            mine(st, a[0])
            return I(1) if there(st, ex.load(st, ex.resolve(a[1]), I32)) else I0

        def index(ex, st, a):
            mine(st, a[0])
            rank = ex.load(st, ex.resolve(a[1]), I32)
            if there(st, rank):
                ex.fail(st, "a packet of this round for the same rank would be replaced")
                raise Dead()
            slot = Ptr(ex.new_region("slot", "pheap", I(8), StructBase("slot", {0: (PTRT, NULL)})), 0)
            add(st, "slot", rank, slot)
            st.ghost["remote.n"] = T.add(st.ghost["remote.n"], 1)
            return slot

        def size(ex, st, a):
            mine(st, a[0])
            return st.ghost["remote.n"]

        def empty(ex, st, a):
            mine(st, a[0])
            return T.eq(st.ghost["remote.n"], 0)

        def begin(ex, st, a):
            mine(st, a[0])
            add(st, "begin", "remote")
            return self.remote_node(st, I0) if ex.decide(st, T.lt(0, st.ghost["remote.n"])) else NULL

        def end(ex, st, a):
            mine(st, a[0])
            return NULL
        methods(ex, "std::unordered_map<int,%s*,std::hash<int>,std::equal_to<int>,std::allocator<std::pair<int const,%s*>>>::" % (self.req, self.req), {"unordered_map": new, "~unordered_map": drop, "find": find, "count": count,
                "operator[]": index, "size": size, "empty": empty, "begin": begin, "end": end, "cbegin": begin, "cend": end}, "the packets of a round")

    # ------------------------------------------------------------ statistics
    def stats(self):
        ex = self.ex

        def place(ex, st, a):
            ex.trusted.setdefault("statistics", "not part of the property")
            return Ptr(ex.new_region("statistic", "pheap", I(64), UFBase("statistic")), 0)

        def nothing(ex, st, a):
            return None
        for n, d in ex.demangled.items():
            q = plain(d)
            if q.startswith("std::map<") and q.endswith(("::operator[](hxhim_op_t const&)", "::operator[](hxhim_op_t&&)", "::operator[](int const&)", "::operator[](int&&)")):
                ex.contracts[n] = place
            elif q.startswith("std::list<unsigned long,") and "::push_back(" in q or q.startswith(("void std::list<unsigned long,", "unsigned long& std::list<unsigned long,")) and "emplace_back" in q:
                ex.contracts[n] = nothing
            elif d == "Message::Message::filled() const":
                ex.contracts[n] = lambda ex, st, a: ex.fresh("filled", 0, 2 ** 64 - 1)

    # ------------------------------------------------------------ effects
    def effects(self):
        ex, u, X = self.ex, self.u, self.X
        R = "Message::Response::%s" % X

        def construct(ex, st, a):
            ex.trusted.setdefault("construct<hxhim::Results>", "a new, empty list of results (C15)")
            r = Ptr(ex.alloc(st, I(u.const("size_res_list")), "heap", "results", Opaque("the results")), 0)
            if "results" in st.ghost:
                raise Unsupported("several lists of results")
            st.ghost["results"] = r
            return r

        def remaining(ex, st, a):
            ex.trusted.setdefault("hxhim::remaining", "contract proved in its own unit")
            ex.oblig(st, ex.ptr_eq(st, a[0], self.queues), "the queues that are sent")
            rnd = self.settled(st)
            t = T.app("remaining", (T.toint(rnd),))
            ex.setrange(t, 0, 2 ** 63)
            if ex.decide(st, T.eq(t, 0)):
                ex.assume(st, T.eq(self.left(rnd, self.Q), 0))
                return I0
            return t

        def serve(ex, st, a):
            ex.trusted.setdefault("Transport::local::range_server", "contract proved in its own unit")
            ex.oblig(st, ex.ptr_eq(st, a[0], self.hx), "the session")
            r = Ptr(ex.new_region("response", "pheap", None, Opaque("a response")), 0)
            add(st, "served", ex.resolve(a[1]), r)
            return r

        def communicate(ex, st, a):
            ex.trusted.setdefault("Transport::communicate", "contract: sends every packet to its rank, returns the responses (null: none)")
            ex.oblig(st, ex.ptr_eq(st, a[0], self.transport), "the transport of the session")
            ex.oblig(st, ex.ptr_eq(st, a[1], self.the(st, "remote")), "the packets of this round are sent")
            got = T.eq(T.app("answered", (T.toint(st.ghost["round"]),)), 1)
            r = Ptr(ex.new_region("response", "pheap", None, Opaque("a response")), 0) if ex.decide(st, got) else NULL
            add(st, "sent", r)
            return r

        def addall(ex, st, a):
            ex.trusted.setdefault("hxhim::Result::AddAll", "contract proved in C15: one result per entry of every response")
            ex.oblig(st, ex.ptr_eq(st, a[0], self.hx), "the session")
            ex.oblig(st, ex.ptr_eq(st, a[1], st.ghost.get("results", NULL)), "results go to the list that is returned")
            add(st, "added", ex.resolve(a[2]))
            return None

        def destroy(ex, st, a):
            add(st, "destroyed", ex.resolve(a[0]))
            return None
        for n, d in ex.demangled.items():
            q = plain(d)
            if q.startswith("hxhim::Results* construct<hxhim::Results>"):
                ex.contracts[n] = construct
            elif q.startswith("unsigned long hxhim::remaining<%s," % self.req):
                ex.contracts[n] = remaining
            elif q.startswith("%s* Transport::local::range_server<%s,%s," % (R, R, self.req)):
                ex.contracts[n] = serve
            elif q.startswith("Transport::Transport::communicate(") and self.req + "*" in q:
                ex.contracts[n] = communicate
            elif q.startswith("hxhim::Result::AddAll("):
                ex.contracts[n] = addall
            elif q.startswith("void destruct<%s>(" % self.req):
                ex.contracts[n] = destroy

    def settled(self, st):
        """the number of the round that has not begun"""
        ev = events(st)
        if not any(e[0] == "loop" for e in ev):
            return st.ghost.get("round", I0)
        return T.add(st.ghost["round"], 1)

    # ------------------------------------------------------------ judgement
    def loopspec(self, ex, st, f, L):
        if not ex.running:
            return Rounds(self, st)
        if len(ex.running) > 1:
            raise Unsupported("loops nested deeper than the contract knows")
        return Pass(self, st)

    def walks(self, base):
        """which container a loop walks through"""
        b = [e[1] for e in base if e[0] == "begin"]
        return b[-1] if b else "queues"

    def position(self, st, base):
        k = self.walks(base)
        if k == "local":
            return At(lambda st, j: self.local_node(st, j), st.ghost["local.n"], self.local_at(st))
        if k == "remote":
            return At(lambda st, j: self.remote_node(st, j), st.ghost["remote.n"], NULL)
        return None

    def judge(self, st, it, base, ev):
        k = self.walks(base)
        if k == "queues":
            self.turn(st, it, ev)
        elif k == "local":
            self.served(st, it, ev)
        else:
            self.released(st, it, ev)

    def pick(self, ev, *kinds):
        return [e for e in ev if e[0] in kinds]

    def turn(self, st, it, ev):
        """one queue's turn: its first batch is taken, and goes to exactly one place"""
        ex, u, w = self.ex, self.u, self.w
        D = [e[1] for e in ev if e[0] == "touch"]
        if not D:
            ex.fail(st, "every queue gets its turn")
            return
        D = D[0]
        if not (ex.proved(st, T.eq(D, it)) or ex.proved(st, T.eq(D, T.sub(T.sub(self.N, 1), it)))):
            raise Unsupported("the order of the turns")
        odd = self.pick(ev, "served", "sent", "added", "destroyed", "begin")
        ex.oblig(st, T.B(not odd), "batches are only collected here")
        pops, pushes, slots = self.pick(ev, "pop"), self.pick(ev, "push"), self.pick(ev, "slot")
        rank, rnd = self.rank_of(D), st.ghost["round"]
        if not pops:
            ex.oblig(st, T.B(not pushes and not slots), "only what is taken off a queue is sent")
            ex.oblig(st, T.or_(T.eq(self.left(rnd, D), 0), T.and_(T.not_(T.eq(rank, self.me)), self.has(rnd, it, rank))), "a batch waits only while another one goes to the same rank")
            return
        ex.oblig(st, T.B(len(pops) == 1 and len(pushes) + len(slots) == 1), "the batch taken goes to exactly one place")
        if not (len(pops) == 1 and len(pushes) + len(slots) == 1):
            return
        P = pops[0][2]
        if pushes:
            ex.oblig(st, T.eq(rank, self.me), "the batch is served where its datastore is")
            got = pushes[0][1]
        else:
            ex.oblig(st, T.not_(T.eq(rank, self.me)), "the batch is served where its datastore is")
            ex.oblig(st, T.eq(slots[0][1], rank), "the batch is sent to the rank of its datastore")
            got = ex.resolve(ex.load(st, slots[0][2], PTRT))
        ex.oblig(st, ex.ptr_eq(st, got, P), "what is sent is the batch taken off the queue")
        f = lambda m: ex.load(st, Ptr(P.r, u.const("off_%s_dst_rank" % self.X) if m == "dst_rank" else off(u, w, m)), I32)
        ex.oblig(st, T.eq(f("src"), self.me), "the sender is this rank")
        ex.oblig(st, T.eq(f("dst"), D), "the destination is the datastore the batch was queued for")
        ex.oblig(st, T.eq(f("dst_rank"), rank), "the destination's rank is that of the datastore")

    def served(self, st, it, ev):
        ex = self.ex
        P = self.packet("local.packet", pair(st.ghost["round"], it))
        s, a, d = self.pick(ev, "served"), self.pick(ev, "added"), self.pick(ev, "destroyed")
        ex.oblig(st, T.B(not self.pick(ev, "pop", "push", "slot", "sent", "begin")), "packets are only served here")
        ex.oblig(st, T.B(len(s) == 1), "a packet is served exactly once")
        ex.oblig(st, T.B(len(a) == 1), "the response of a packet is turned into results exactly once")
        ex.oblig(st, T.B(len(d) == 1), "a packet is released exactly once")
        if not (len(s) == len(a) == len(d) == 1):
            return
        ex.oblig(st, ex.ptr_eq(st, s[0][1], P), "the packet whose turn it is is served")
        ex.oblig(st, ex.ptr_eq(st, a[0][1], s[0][2]), "its response is turned into results")
        ex.oblig(st, ex.ptr_eq(st, d[0][1], P), "it is released")
        ex.oblig(st, T.B(ev.index(s[0]) < ev.index(d[0])), "a packet is not released before it is served")

    def released(self, st, it, ev):
        ex = self.ex
        P = self.packet("remote.packet", pair(st.ghost["round"], it))
        d = self.pick(ev, "destroyed")
        ex.oblig(st, T.B(not self.pick(ev, "pop", "push", "slot", "sent", "begin", "served", "added")), "packets are only released here")
        ex.oblig(st, T.B(len(d) == 1), "a packet is released exactly once")
        if len(d) == 1:
            ex.oblig(st, ex.ptr_eq(st, d[0][1], P), "the packet whose turn it is is released")

    def round_done(self, st, ev):
        """what a whole round did"""
        ex = self.ex
        sent, added, served, destroyed = self.pick(ev, "sent"), self.pick(ev, "added"), self.pick(ev, "served"), self.pick(ev, "destroyed")
        ex.oblig(st, T.B(not self.pick(ev, "pop", "push", "slot")), "batches are taken in turn")
        ex.oblig(st, T.B(not served and not destroyed), "packets are served and released one by one")
        # the loops, in order, and what they walked through
        loops, kind = [], "queues"
        for i, e in enumerate(ev):
            if e[0] == "begin":
                kind = e[1]
            elif e[0] == "loop":
                loops.append((kind, e[1], i))
        n = {"local": st.ghost.get("local.n", I0), "remote": st.ghost.get("remote.n", I0)}
        names = [k for k, _, _ in loops]
        ex.oblig(st, T.B(names.count("queues") == 1 and names[0] == "queues" if names else False), "every queue gets its turn once")
        if names and names[0] == "queues":
            ex.oblig(st, T.eq(loops[0][1], self.N), "every queue gets its turn")
        for k in ("local", "remote"):
            mine = [l for l in loops if l[0] == k]
            if not mine:
                ex.oblig(st, T.eq(n[k], 0), "every %s packet is handled" % k)
                continue
            ex.oblig(st, T.B(len(mine) == 1), "%s packets are handled once" % k)
            ex.oblig(st, T.eq(mine[0][1], n[k]), "every %s packet is handled" % k)
        ex.oblig(st, T.B(len(sent) <= 1) if sent else T.eq(n["remote"], 0), "packets for other ranks are sent exactly once")
        if sent:
            i = ev.index(sent[0])
            ex.oblig(st, T.B(all(l[2] < i for l in loops if l[0] == "queues") and all(l[2] > i for l in loops if l[0] == "remote")), "packets are sent when all are collected, and before they are released")
            if isnull(sent[0][1]):
                ex.oblig(st, T.B(all(isnull(e[1]) for e in added)), "only responses are turned into results")
            else:
                ex.oblig(st, T.B(len(added) == 1), "the responses are turned into results exactly once")
                if len(added) == 1:
                    ex.oblig(st, ex.ptr_eq(st, added[0][1], sent[0][1]), "the responses are turned into results")
        else:
            ex.oblig(st, T.B(all(isnull(e[1]) for e in added)), "only responses are turned into results")


def u_process(X):
    def f(u):
        ex = u.ex
        p = Process(u, X)
        fn = u.fn("hxhim::Results* hxhim::process<Message::Request::%s, Message::Response::%s, void>" % (X, X))
        ex.loopspec = p.loopspec
        st = u.state()
        ex.assume(st, T.lt(p.Q, p.N))

        def post(st):
            if any(e[0] == "loop" for e in events(st)):
                p.round_done(st, events(st))
            ex.oblig(st, T.eq(p.left(p.settled(st), p.Q), 0), "nothing is left in any queue")
            r = st.ghost.get("results")
            ex.oblig(st, T.B(False) if r is None else ex.ptr_eq(st, st.ret, r), "the results are returned")
            ex.oblig(st, T.B(r is not None and r.r not in st.dead), "the results are kept")
        u.run(fn, st, [p.hx, p.queues], post)
    return f


def u_remaining(X):
    """remaining: nothing is only reported when every queue is empty"""
    def f(u):
        ex = u.ex
        p = Process(u, X)
        fn = u.fn("unsigned long hxhim::remaining<Message::Request::%s, void>" % X)
        left = lambda q: p.left(I0, q)

        def S(i):
            if T.is_const(T.toint(i)) and T.cval(T.toint(i)) == 0:
                return I0
            t = T.app("S", (T.toint(i),))
            ex.setrange(t, 0, 2 ** 63)
            return t

        def step(i):
            return T.eq(S(T.add(i, 1)), T.add(S(i), left(i)))

        def queue(st, a):
            q = p.where(st, a[0])
            if q is None:
                raise Unsupported("which queue?")
            return q
        Q, k = p.Q, ex.var("k", 0, MAXDS)
        u.lemma("sizes are not negative, so the sum grows", T.le(S(k), S(T.add(k, 1))), [step(k)])
        u.lemma("a sum of at most as many sizes stays in range", T.le(S(T.add(k, 1)), T.mulc(T.add(k, 1), 2 ** 38)), [step(k), T.le(S(k), T.mulc(k, 2 ** 38))])
        methods(ex, "std::list<%s*,std::allocator<%s*>>::" % (p.req, p.req), {"size": lambda ex, st, a: left(queue(st, a)), "empty": lambda ex, st, a: T.eq(left(queue(st, a)), 0)}, "a queue")

        class Sum(LoopSpec):
            templates = [S]

            def facts(self, ex, st, it):
                ex.assume(st, step(it))
                return []
        ex.loopspec = lambda ex, st, f, L: Sum()
        st = u.state()
        ex.assume(st, T.lt(Q, p.N))

        def post(st):
            # the sum grows: what one queue holds is part of the whole
            for g in (step(Q), T.le(S(T.add(Q, 1)), S(p.N)), T.le(0, S(Q))):
                ex.assume(st, g)
            ex.oblig(st, T.implies(T.eq(st.ret, 0), T.eq(left(Q), 0)), "nothing remains only if no queue holds a batch")
            ex.oblig(st, T.implies(T.eq(S(p.N), 0), T.eq(st.ret, 0)), "something remains only if a queue holds a batch")
        u.run(fn, st, [p.queues], post)
    return f


# ------------------------------------------------------------------ one packet, where its datastore is
class Serving(LoopSpec):
    """entry `it` of the datastore's response is moved into the answer"""
    force = True

    def __init__(self, each, st):
        self.each, self.base = each, events(st)

    def head(self, ex, st, it):
        st.ghost["events"] = ()
        st.ghost["done"] = it

    def back(self, ex, st, it):
        self.each(st, it, events(st))

    def region_inv(self, ex, st, r):
        return Reset() if r.name in ("request stamps", "response stamps") else None


def logging_off(u):
    """what is logged does not matter"""
    ex = u.ex
    for n, d in ex.demangled.items():
        if d == "mlog_filter(int)" or n == "mlog_filter":
            ex.contracts[n] = lambda ex, st, a: I0
        elif n == "mlog" or d.startswith("mlog("):
            ex.contracts[n] = lambda ex, st, a: I0
    ex.contracts.setdefault("mlog_filter", lambda ex, st, a: I0)
    ex.contracts.setdefault("mlog", lambda ex, st, a: I0)
    ex.trusted.setdefault("mlog", "logging: no effect on the property")


def u_serve(X):
    """range_server<Response, Request>: the datastore of the packet is asked once; its answer is passed on, entry by entry"""
    def f(u):
        ex = u.ex
        clock(u)
        ex.demangle_all()
        logging_off(u)
        o = lambda n: u.const("off_hp_" + n)
        R = "Message::Response::%s" % X
        fn = u.fn("%s* Transport::local::range_server<%s, Message::Request::%s, void>" % (R, R, X))
        w, rw = KINDS[X](u, "w"), RESPONSES[X](u, "r")
        per, me, n = ex.var("per_server", 1, MAXDS), ex.var("rank", 0, 2 ** 31 - 1), ex.var("count", 0, 2 ** 38)
        src, dst = ex.var("src", 0, 2 ** 31 - 1), ex.var("dst", 0, 2 ** 31 - 1)
        store = lambda q: Ptr(ex.family("datastore", T.toint(q), None, Opaque("a datastore"), kind="pheap"), 0)
        ds = ex.new_region("datastores", "heap", T.mulc(per, 8), ArrayBase("datastores", 8, lambda ex, st, q: {0: (PTRT, store(q))}))
        dend = Ptr(ds, T.mulc(per, 8))
        hp = ex.new_region("hp", "param", I(u.const("size_hp")), StructBase("hp", {o("comm_rank"): (I32, me), o("per_server"): (I64, per), o("ds"): (PTRT, Ptr(ds, 0)), o("ds") + 8: (PTRT, dend), o("ds") + 16: (PTRT, dend)}))
        hx = Ptr(ex.new_region("hx", "param", I(u.const("size_hx")), StructBase("hx", {u.const("off_hx_p"): (PTRT, Ptr(hp, 0))})), 0)
        SS = u.const("size_send")
        rs = ex.new_region("request stamps", "heap", T.mulc(n, SS), UFBase("request stamps"))
        req = ex.new_region("request", "heap", I(u.const("size_" + X)), StructBase("request", {off(u, w, "op"): (I32, I(u.const(OPS[X]))), off(u, w, "src"): (I32, src), off(u, w, "dst"): (I32, dst), off(u, w, "count"): (I64, n), off(u, w, "reqs"): (PTRT, Ptr(rs, 0))}))
        ps = ex.new_region("response stamps", "heap", T.mulc(n, SS), UFBase("response stamps"))
        resp = ex.new_region("response", "pheap", I(u.const("size_R" + X)), StructBase("response", {off(u, rw, "count"): (I64, n), off(u, rw, "reqs"): (PTRT, Ptr(ps, 0))}))
        usable = T.var("usable", "Bool")

        def operate(ex, st, a):
            ex.trusted.setdefault("Datastore::operate", "contract (C11, C12): one entry in the response per entry of the request; null if the datastore is not usable")
            ex.oblig(st, T.B("operated" not in st.ghost), "the datastore is asked exactly once")
            ex.oblig(st, ex.ptr_eq(st, a[0], store(ex.divmod(st, "urem", dst, per))), "the datastore is the one the packet is for")
            ex.oblig(st, ex.ptr_eq(st, a[1], Ptr(req, 0)), "the datastore is given the packet")
            st.ghost["operated"] = True
            return Ptr(resp, 0) if ex.decide(st, usable) else NULL

        def construct(ex, st, a):
            ex.trusted.setdefault("construct<Response>", "contract (C03): a new, empty response with room for as many entries as asked for")
            ex.oblig(st, T.le(n, ex.load(st, ex.resolve(a[0]), I64)), "room for every entry")
            if "answer" in st.ghost:
                raise Unsupported("several answers")
            r = Ptr(ex.alloc(st, I(u.const("size_R" + X)), "heap", "answer", StructBase("answer", {off(u, rw, "count"): (I64, I0), off(u, rw, "reqs"): (PTRT, NULL)})), 0)
            st.ghost["answer"] = r
            return r

        def steal(ex, st, a):
            ex.trusted.setdefault("Response::steal", "contract proved in C03: moves entry i to the end of the other message")
            add(st, "moved", ex.resolve(a[0]), ex.resolve(a[1]), a[2])
            ex.oblig(st, T.lt(a[2], ex.load(st, Ptr(resp, off(u, rw, "count")), I64)), "the entry exists")
            return I(u.const("msg_success"))

        def destroy(ex, st, a):
            ex.free(st, a[0])
            return None
        for nm, d in ex.demangled.items():
            if d.startswith("Datastore::Datastore::operate(Message::Request::%s*)" % X):
                ex.contracts[nm] = operate
            elif d.startswith("%s* construct<%s, unsigned long&>" % (R, R)):
                ex.contracts[nm] = construct
            elif d.startswith("%s::steal(" % R):
                ex.contracts[nm] = steal
            elif d.startswith("void destruct<%s>(" % R):
                ex.contracts[nm] = destroy

        def each(st, it, ev):
            ex.oblig(st, T.B(len(ev) == 1), "every entry is passed on exactly once")
            if len(ev) == 1:
                _, to, fr, i = ev[0]
                ex.oblig(st, ex.ptr_eq(st, to, st.ghost.get("answer", NULL)), "entries go to the answer")
                ex.oblig(st, ex.ptr_eq(st, fr, Ptr(resp, 0)), "entries come from the datastore's response")
                ex.oblig(st, T.eq(i, it), "entries are passed on in order")
        ex.loopspec = lambda ex, st, f, L: Serving(each, st)

        def post(st):
            r = st.ghost.get("answer")
            if r is None:
                ex.fail(st, "there is an answer")
                return
            ex.oblig(st, ex.ptr_eq(st, st.ret, r), "the answer is returned")
            ex.oblig(st, T.B(r.r not in st.dead), "the answer is kept")
            ex.oblig(st, T.B("operated" in st.ghost), "the datastore is asked")
            ex.oblig(st, T.B(req not in st.dead), "the packet stays with the caller")
            ex.oblig(st, T.eq(ex.load(st, Ptr(r.r, off(u, rw, "src")), I32), dst), "the answer comes from the packet's destination")
            ex.oblig(st, T.eq(ex.load(st, Ptr(r.r, off(u, rw, "dst")), I32), src), "the answer goes to the packet's source")
            ex.oblig(st, T.B(events(st) == ()), "nothing else is moved")
            if ex.decide(st, usable):
                ex.oblig(st, T.eq(st.ghost["done"], n) if "done" in st.ghost else T.eq(n, 0), "every entry is passed on")
                ex.oblig(st, T.B(resp in st.dead), "the datastore's response is released")
        u.run(fn, u.state(), [hx, Ptr(req, 0)], post)
    return f


RESPONSES = {"BPut": ResPut, "BGet": ResGet, "BGetOp": ResGetOp, "BDelete": ResDelete, "BHistogram": ResHist}


def u_dispatch(u):
    """range_server(hx, request): every kind of request is served as what it is, once"""
    ex = u.ex
    clock(u)
    ex.demangle_all()
    logging_off(u)
    fn = u.fn("Transport::local::range_server(hxhim_t*, Message::Request::Request*)")
    me = ex.var("rank", 0, 2 ** 31 - 1)
    hp = ex.new_region("hp", "param", I(u.const("size_hp")), StructBase("hp", {u.const("off_hp_comm_rank"): (I32, me)}))
    hx = Ptr(ex.new_region("hx", "param", I(u.const("size_hx")), StructBase("hx", {u.const("off_hx_p"): (PTRT, Ptr(hp, 0))})), 0)
    for X in KINDS:
        w = KINDS[X](u, "w")
        req = Ptr(ex.new_region("request", "pheap", I(u.const("size_" + X)), StructBase("request", {off(u, w, "op"): (I32, I(u.const(OPS[X])))})), 0)
        resp = Ptr(ex.new_region("response", "pheap", I(u.const("size_R" + X)), Opaque("a response")), 0)

        def serve(Y):
            def h(ex, st, a):
                ex.trusted.setdefault("range_server<Response, Request>", "contract proved in its own unit")
                add(st, "served", Y, ex.resolve(a[0]), ex.resolve(a[1]))
                return resp
            return h
        for nm, d in ex.demangled.items():
            for Y in KINDS:
                if d.startswith("Message::Response::%s* Transport::local::range_server<Message::Response::%s," % (Y, Y)):
                    ex.contracts[nm] = serve(Y)

        def post(st):
            s = events(st)
            ex.oblig(st, T.B(len(s) == 1), "the request is served exactly once")
            if len(s) != 1:
                return
            ex.oblig(st, T.B(s[0][1] == X), "it is served as what it is")
            ex.oblig(st, ex.ptr_eq(st, s[0][2], hx), "the session")
            ex.oblig(st, ex.ptr_eq(st, s[0][3], req), "the request is passed on")
            ex.oblig(st, ex.ptr_eq(st, st.ret, resp), "its answer is returned")
        u.run(fn, u.state(), [hx, req], post)


# ------------------------------------------------------------------ flushing
class Lists:
    """lists of results by contract: what is in each, by where it came from"""

    def __init__(self, u):
        self.u = u
        ex = self.ex = u.ex
        clock(u)
        ex.demangle_all()
        logging_off(u)
        for nm, d in ex.demangled.items():
            if d.startswith("hxhim::Results* construct<hxhim::Results>"):
                ex.contracts[nm] = lambda ex, st, a: self.make(st)
            elif d.startswith("hxhim::Results::Append("):
                ex.contracts[nm] = self.append
            elif d.startswith(("void destruct<hxhim::Results>(", "hxhim::Results::Destroy(")):
                ex.contracts[nm] = self.destroy
            elif d == "std::mutex::lock()":
                ex.contracts[nm] = self.lock
            elif d == "std::mutex::unlock()":
                ex.contracts[nm] = self.unlock

    def make(self, st, *what):
        ex = self.ex
        ex.trusted.setdefault("construct<hxhim::Results>", "a new, empty list of results (C15)")
        r = ex.alloc(st, I(self.u.const("size_res_list")), "heap", "results", Opaque("the results"))
        self.set(st, r, what)
        return Ptr(r, 0)

    def set(self, st, r, what):
        st.ghost["lists"] = tuple(x for x in st.ghost.get("lists", ()) if x[0] is not r) + ((r, tuple(what)),)

    def get(self, st, p, what="a list of results"):
        p = self.ex.resolve(p)
        for r, c in st.ghost.get("lists", ()):
            if isinstance(p, Ptr) and p.r is r:
                self.ex.oblig(st, T.eq(p.off, 0), what)
                self.ex.oblig(st, T.B(r not in st.dead), "a list is not used after its release")
                return r, c
        self.ex.fail(st, what)
        raise Dead()

    def append(self, ex, st, a):
        ex.trusted.setdefault("hxhim::Results::Append", "contract proved in C15: moves the other list's results to the end of this one; null: nothing")
        r, c = self.get(st, a[0])
        if isnull(ex.resolve(a[1])):
            return None
        r2, c2 = self.get(st, a[1])
        self.set(st, r, c + c2)
        self.set(st, r2, ())
        return None

    def destroy(self, ex, st, a):
        if isnull(ex.resolve(a[0])):
            return None
        r, c = self.get(st, a[0])
        ex.oblig(st, T.B(c == ()), "no result is dropped")
        ex.free(st, Ptr(r, 0))
        return None

    def lock(self, ex, st, a):
        ex.trusted.setdefault("std::mutex", "no effect in a sequential execution; locked and released in turn")
        p = ex.resolve(a[0])
        held = st.ghost.get("held", ())
        if any(ex.proved(st, ex.ptr_eq(st, p, h)) for h in held):
            ex.fail(st, "a lock is not taken twice")
        st.ghost["held"] = held + (p,)
        return None

    def unlock(self, ex, st, a):
        p = ex.resolve(a[0])
        held = st.ghost.get("held", ())
        keep = tuple(h for h in held if not ex.proved(st, ex.ptr_eq(st, p, h)))
        ex.oblig(st, T.B(len(keep) + 1 == len(held)), "only a lock that is held is released")
        st.ghost["held"] = keep
        return None

    def settled(self, st, keep):
        """nothing is left lying around"""
        ex = self.ex
        ex.oblig(st, T.B(st.ghost.get("held", ()) == ()), "locks are released")
        for r, c in st.ghost.get("lists", ()):
            if r in keep or r in st.dead:
                continue
            ex.oblig(st, T.B(c == ()), "no result is left behind")
            ex.oblig(st, T.B(r.kind != "heap"), "lists of results are released")

    def returned(self, st, p, want, what):
        r, c = self.get(st, p, "a list of results is returned")
        self.ex.oblig(st, T.B(sorted(c) == sorted(want)), what)
        return r


def flush_session(u, ls, enabled=None, earlier=None):
    ex = u.ex
    o = lambda n: u.const("off_hp_" + n)
    me, count, limit = ex.var("rank", 0, 2 ** 31 - 1), ex.var("queued", 0, 2 ** 60), ex.var("max_queued", 0, 2 ** 60)
    f = {o("comm_rank"): (I32, me), o("puts_count"): (I64, count), o("max_queued"): (I64, limit)}
    if enabled is not None:
        f[o("async")] = (I8, I(1 if enabled else 0))
    f[o("results")] = (PTRT, earlier if earlier is not None else NULL)
    hp = ex.new_region("hp", "param", I(u.const("size_hp")), StructBase("hp", f))
    hx = Ptr(ex.new_region("hx", "param", I(u.const("size_hx")), StructBase("hx", {u.const("off_hx_p"): (PTRT, Ptr(hp, 0))})), 0)
    return hx, hp, count, limit


def sends(u, ls, hx, hp, kinds=None):
    """process<X> by contract: empties the queue, returns what became of it"""
    ex = u.ex
    F = {"BPut": "puts", "BGet": "gets", "BGetOp": "getops", "BDelete": "deletes", "BHistogram": "histograms"}

    def h(X):
        def g(ex, st, a):
            ex.trusted.setdefault("hxhim::process", "contract proved in its own unit: sends everything in the queue")
            ex.oblig(st, ex.ptr_eq(st, a[0], hx), "the session")
            ex.oblig(st, ex.ptr_eq(st, a[1], Ptr(hp, u.const("off_hp_" + F[X]))), "the queue of this kind of operation is sent")
            sent = st.ghost.get("sent", ())
            st.ghost["sent"] = sent + (X,)
            return ls.make(st, *(("results of " + X,) if X not in sent else ()))
        return g
    for nm, d in ex.demangled.items():
        for X in KINDS:
            if d.startswith("hxhim::Results* hxhim::process<Message::Request::%s," % X):
                ex.contracts[nm] = h(X)


def u_flush_one(name, X):
    """FlushGets and the like: what is queued is sent, its results are returned"""
    def f(u):
        ex = u.ex
        ls = Lists(u)
        hx, hp, _, _ = flush_session(u, ls)
        sends(u, ls, hx, hp)
        fn = u.fn("hxhim::%s(hxhim_t*)" % name)

        def post(st):
            r = ls.returned(st, st.ret, ["results of " + X], "the results of what was queued are returned")
            ls.settled(st, (r,))
        u.run(fn, u.state(), [hx], post)
    return f


def u_flush_puts(u):
    """FlushPuts: with the results of PUTs sent earlier"""
    ex = u.ex
    ls = Lists(u)
    fn = u.fn("hxhim::FlushPuts(hxhim_t*)")
    o = lambda n: u.const("off_hp_" + n)
    for enabled in (False, True):
        for earlier in (False, True):
            st = u.state()
            old = ls.make(st, "earlier results") if earlier else None
            # with a background thread, its results are there once it was waited for
            hx, hp, count, _ = flush_session(u, ls, enabled, None if enabled else old)
            sends(u, ls, hx, hp)

            def wait(ex, st, a, hp=hp, old=old, enabled=enabled, hx=hx):
                ex.trusted.setdefault("hxhim::wait_for_background_puts", "contract: afterwards the results of what the background thread sent are in the session (concurrency: C19)")
                ex.oblig(st, ex.ptr_eq(st, a[0], hx), "the session")
                ex.oblig(st, T.eq(T.mod(T.toint(a[1]), 2), 0), "what is queued is not discarded")
                ex.oblig(st, T.B(enabled), "there is a background thread to wait for")
                ex.oblig(st, T.B(not st.ghost.get("held", ())), "the background thread is not kept from its work")
                if old is not None and not st.ghost.get("waited"):
                    ex.store(st, Ptr(hp, o("results")), old, PTRT)
                st.ghost["waited"] = True
                return None
            for nm, d in ex.demangled.items():
                if d.startswith("hxhim::wait_for_background_puts("):
                    ex.contracts[nm] = wait

            def post(st):
                r = ls.returned(st, st.ret, ["results of BPut"] + (["earlier results"] if earlier else []), "the results of what was queued and of PUTs sent earlier are returned")
                ls.settled(st, (r,))
                ex.oblig(st, T.B(isnull(ex.resolve(ex.load(st, Ptr(hp, o("results")), PTRT)))), "results are returned once")
                ex.oblig(st, T.eq(ex.load(st, Ptr(hp, o("puts_count")), I64), 0), "nothing is queued afterwards")
            u.run(fn, st, [hx], post)


def u_serial(u):
    """serial_puts: sends once enough is queued and keeps the results for the next flush"""
    ex = u.ex
    ls = Lists(u)
    fn = u.fn("hxhim::serial_puts(hxhim_t*)")
    o = lambda n: u.const("off_hp_" + n)
    for earlier in (False, True):
        st = u.state()
        old = ls.make(st, "earlier results") if earlier else None
        hx, hp, count, limit = flush_session(u, ls, False, old)
        sends(u, ls, hx, hp)

        def post(st):
            now = ex.resolve(ex.load(st, Ptr(hp, o("results")), PTRT))
            c = ex.load(st, Ptr(hp, o("puts_count")), I64)
            sent = st.ghost.get("sent", ())
            ex.oblig(st, T.B(len(sent) <= 1), "what is queued is sent once")
            if not sent:
                ex.oblig(st, T.lt(count, limit), "PUTs are sent once enough are queued")
                ex.oblig(st, T.eq(c, count), "what is queued stays queued")
            else:
                ex.oblig(st, T.eq(c, 0), "nothing is queued afterwards")
            want = (["earlier results"] if earlier else []) + (["results of BPut"] if sent else [])
            if not want:
                ex.oblig(st, T.B(isnull(now)), "no results yet")
                ls.settled(st, ())
                return
            r = ls.returned(st, now, want, "results are kept for the next flush")
            ls.settled(st, (r,))
        u.run(fn, st, [hx], post)


PARTS = {"FlushPuts": "BPut", "FlushGets": "BGet", "FlushGetOps": "BGetOp", "FlushDeletes": "BDelete", "FlushHistograms": "BHistogram"}


def u_flush_all(u):
    """Flush: every queue is flushed once, all results are returned"""
    ex = u.ex
    ls = Lists(u)
    hx, hp, _, _ = flush_session(u, ls)
    fn = u.fn("hxhim::Flush(hxhim_t*)")

    def part(name):
        def h(ex, st, a):
            ex.trusted.setdefault("hxhim::Flush*", "contracts proved in their own units")
            ex.oblig(st, ex.ptr_eq(st, a[0], hx), "the session")
            done = st.ghost.get("sent", ())
            st.ghost["sent"] = done + (name,)
            return ls.make(st, *((name,) if name not in done else ()))
        return h
    for nm, d in ex.demangled.items():
        for name in PARTS:
            if d == "hxhim::%s(hxhim_t*)" % name:
                ex.contracts[nm] = part(name)

    def post(st):
        r = ls.returned(st, st.ret, list(PARTS), "the results of every kind of operation are returned")
        ls.settled(st, (r,))
    u.run(fn, u.state(), [hx], post)


def u_flush_c(u):
    """the C interface returns the same results"""
    ex = u.ex
    ls = Lists(u)
    hx, hp, _, _ = flush_session(u, ls)

    def part(name):
        def h(ex, st, a):
            ex.trusted.setdefault("hxhim::Flush*", "contracts proved in their own units")
            ex.oblig(st, ex.ptr_eq(st, a[0], hx), "the session")
            st.ghost["sent"] = st.ghost.get("sent", ()) + (name,)
            return ls.make(st, name)
        return h
    names = list(PARTS) + ["Flush"]
    for nm, d in ex.demangled.items():
        for name in names:
            if d == "hxhim::%s(hxhim_t*)" % name:
                ex.contracts[nm] = part(name)
    for name in names:
        fn = u.fn("hxhim" + name)

        def post(st):
            p = ex.resolve(st.ret)
            ex.oblig(st, T.B(isinstance(p, Ptr) and p.r in st.heap and p.r not in st.dead), "a wrapper is returned")
            ex.oblig(st, T.B(st.ghost.get("sent", ()) == (name,)), "the queue asked for is flushed, once")
            ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(p.r, u.const("off_cresults_hx")), PTRT), hx), "the wrapper knows the session")
            r = ls.returned(st, ex.load(st, Ptr(p.r, u.const("off_cresults_res")), PTRT), [name], "the results are in the wrapper")
            ls.settled(st, (r,))
        u.run(fn, u.state(), [hx], post)


class Wake(LoopSpec):
    """the background thread: one pass, from any state of the session"""
    force = True
    logs = ("lists", "vectors", "held", "sent", "before")

    def __init__(self, b):
        self.b = b

    def head(self, ex, st, it):
        self.b.start(st, it)

    def back(self, ex, st, it):
        self.b.done(st)

    def region_inv(self, ex, st, r):
        return Reset() if r is self.b.hp else None


class Background:
    def __init__(self, u):
        self.u, ex = u, u.ex
        self.ex = ex
        ls = self.ls = Lists(u)
        o = self.o = lambda n: u.const("off_hp_" + n)
        self.total = ex.var("total", 1, MAXDS)
        f = {o("total"): (I64, self.total), o("puts_count"): (I64, ex.var("queued", 0, 2 ** 60)), o("max_queued"): (I64, ex.var("max_queued", 0, 2 ** 60)), o("results"): (PTRT, lambda ex, st: self.now)}
        self.now = NULL
        self.hp = ex.new_region("hp", "param", I(u.const("size_hp")), StructBase("hp", f))
        self.hx = Ptr(ex.new_region("hx", "param", I(u.const("size_hx")), StructBase("hx", {u.const("off_hx_p"): (PTRT, Ptr(self.hp, 0))})), 0)
        self.queue = Ptr(self.hp, o("puts"))
        V = "std::vector<std::list<Message::Request::BPut*,std::allocator<Message::Request::BPut*>>,std::allocator<std::list<Message::Request::BPut*,std::allocator<Message::Request::BPut*>>>>::"
        methods(ex, V, {"vector": self.new, "~vector": self.drop, "operator=": self.move, "clear": self.clear, "resize": self.resize}, "the queues")
        for nm, d in ex.demangled.items():
            if d.startswith("hxhim::Results* hxhim::process<Message::Request::BPut,"):
                ex.contracts[nm] = self.process
            elif d == "std::condition_variable::notify_all()":
                ex.contracts[nm] = lambda ex, st, a: None
            elif d.startswith("void std::condition_variable::wait<"):
                ex.contracts[nm] = self.wait
            elif d.startswith("std::atomic<bool>::operator bool() const"):
                ex.contracts[nm] = lambda ex, st, a: T.eq(ex.fresh("running", 0, 1), 1)

    def wait(self, ex, st, a):
        ex.trusted.setdefault("std::condition_variable::wait", "returns with the lock held; other threads only add to the queue meanwhile (concurrency: C19)")
        ex.oblig(st, T.B(any(ex.proved(st, ex.ptr_eq(st, h, Ptr(self.hp, self.o("puts_mutex")))) for h in st.ghost.get("held", ()))), "waiting with the queue locked")
        return None

    # contents of the vectors of queues
    def key(self, st, p):
        p = self.ex.resolve(p)
        if not (isinstance(p, Ptr) and T.is_const(p.off)):
            raise Unsupported("which queues?")
        return (p.r, T.cval(p.off))

    def get(self, st, k):
        for x, c in st.ghost.get("vectors", ()):
            if x == k:
                return c
        raise Unsupported("queues the contract does not know")

    def set(self, st, k, c):
        st.ghost["vectors"] = tuple(x for x in st.ghost.get("vectors", ()) if x[0] != k) + ((k, c),)

    def new(self, ex, st, a):
        ex.trusted.setdefault("std::vector<std::list<Request *>>", "moves, clears and resizes as the standard says")
        if len(a) > 1:
            src = self.key(st, a[1])
            self.set(st, self.key(st, a[0]), self.get(st, src))
            self.set(st, src, (None, ()))
        else:
            self.set(st, self.key(st, a[0]), (I0, ()))
        return None

    def drop(self, ex, st, a):
        ex.oblig(st, T.B(self.get(st, self.key(st, a[0]))[1] == ()), "nothing queued is dropped")
        return None

    def move(self, ex, st, a):
        d, s = self.key(st, a[0]), self.key(st, a[1])
        ex.oblig(st, T.B(self.get(st, d)[1] == ()), "nothing queued is dropped")
        self.set(st, d, self.get(st, s))
        self.set(st, s, (None, ()))
        return ex.resolve(a[0])

    def clear(self, ex, st, a):
        k = self.key(st, a[0])
        ex.oblig(st, T.B(self.get(st, k)[1] == ()), "nothing queued is dropped")
        self.set(st, k, (I0, ()))
        return None

    def resize(self, ex, st, a):
        k = self.key(st, a[0])
        n, c = self.get(st, k)
        if n is None or c != ():
            raise Unsupported("queues with content are resized")
        self.set(st, k, (a[1], ()))
        return None

    def process(self, ex, st, a):
        ex.trusted.setdefault("hxhim::process", "contract proved in its own unit: sends everything in the queues")
        ex.oblig(st, ex.ptr_eq(st, a[0], self.hx), "the session")
        k = self.key(st, a[1])
        n, c = self.get(st, k)
        self.set(st, k, (n, ()))
        return self.ls.make(st, *c)

    def start(self, st, it):
        ex = self.ex
        st.ghost["lists"] = st.ghost["vectors"] = st.ghost["held"] = ()
        self.set(st, self.key(st, self.queue), (self.total, ("results of what was queued",)))
        if ex.decide(st, T.eq(T.app("earlier", (T.toint(it),)), 1)):
            # not owned by this iteration: no release expected
            r = ex.new_region("earlier", "pheap", I(self.u.const("size_res_list")), Opaque("the results"))
            self.ls.set(st, r, ("earlier results",))
            st.ghost["before"] = True
            ex.put(st, self.hp, Node(st.mem.get(self.hp), "S", I(self.o("results")), I(8), Ptr(r, 0), PTRT))
        else:
            st.ghost["before"] = False
            ex.put(st, self.hp, Node(st.mem.get(self.hp), "S", I(self.o("results")), I(8), NULL, PTRT))

    def done(self, st):
        ex, o = self.ex, self.o
        n, c = self.get(st, self.key(st, self.queue))
        ex.oblig(st, T.B(c == ()), "what was queued is sent")
        ex.oblig(st, T.eq(n, self.total) if n is not None else T.FALSE, "there is a queue for every datastore again")
        ex.oblig(st, T.eq(ex.load(st, Ptr(self.hp, o("puts_count")), I64), 0), "nothing is queued afterwards")
        r = self.ls.returned(st, ex.load(st, Ptr(self.hp, o("results")), PTRT), (["earlier results"] if st.ghost["before"] else []) + ["results of what was queued"], "results are kept for the next flush")
        self.ls.settled(st, (r,))
        ex.oblig(st, T.ne(ex.load(st, Ptr(self.hp, o("done_check")), I8), 0), "whoever waits is told")


def u_background(u):
    """the background thread sends what is queued and keeps the results for the next flush"""
    b = Background(u)
    ex = u.ex
    fn = u.fn("async_put_thread(hxhim_t*)")
    ex.loopspec = lambda ex, st, f, L: Wake(b)
    st = u.state()
    st.ghost["before"] = False
    u.run(fn, st, [b.hx], lambda st: ex.oblig(st, T.B(st.ghost.get("before") is not None), "the thread ends"))


class Tabulate(LoopSpec):
    """filling the table of ranks: one arbitrary datastore"""
    force = True
    logs = ("table", "lists", "held", "queues")

    def __init__(self, t):
        self.t = t

    def head(self, ex, st, it):
        st.ghost["table"] = ()

    def back(self, ex, st, it):
        w = st.ghost["table"]
        if len(w) != 1:
            raise Unsupported("%d ranks are stored for one datastore" % len(w))
        i, r = w[0]
        if not ex.proved(st, T.eq(i, T.sub(T.sub(self.t.total, 1), it))):
            ex.oblig(st, T.eq(i, it), "every datastore gets its rank")
        ex.oblig(st, T.eq(ex.load(st, Ptr(r, 0), I32, check=False), self.t.rank_of(i)), "the rank stored for a datastore is the one it is on")

    def facts(self, ex, st, it):
        return [T.le(it, self.t.total)]


class Tables:
    """a session's queues and table of ranks"""

    def __init__(self, u):
        self.u, ex = u, u.ex
        self.ex = ex
        ls = self.ls = Lists(u)
        o = self.o = lambda n: u.const("off_hp_" + n)
        self.total, self.world, self.cr, self.sr, self.per = ex.var("total", 1, MAXDS), ex.var("world", 1, MAXDS), ex.var("client_ratio", 0, MAXDS), ex.var("server_ratio", 0, MAXDS), ex.var("per_server", 0, MAXDS)
        f = {o("total"): (I64, self.total), o("comm_size"): (I32, self.world), o("client_ratio"): (I64, self.cr), o("server_ratio"): (I64, self.sr), o("per_server"): (I64, self.per), o("puts_count"): (I64, ex.var("queued", 0, 2 ** 60))}
        self.hp = ex.new_region("hp", "param", I(u.const("size_hp")), StructBase("hp", f))
        self.hx = Ptr(ex.new_region("hx", "param", I(u.const("size_hx")), StructBase("hx", {u.const("off_hx_p"): (PTRT, Ptr(self.hp, 0))})), 0)
        self.wanted = [o(n) for n in ("puts", "gets", "getops", "deletes", "histograms", "ds_to_rank")]
        for nm, d in ex.demangled.items():
            d = plain(d)
            if d.startswith("std::vector<") and ">::" in d and nm.startswith("_ZN"):
                m = d.split(">::")[-1].split("(")[0]
                if m in ("resize", "assign", "clear", "reserve"):
                    ex.contracts[nm] = self.resize if m == "resize" else not_covered("the queues of the session", d)
            if d.startswith("std::vector<int") and d.split(">::")[-1].startswith("operator[]"):
                ex.contracts[nm] = self.at
            if d.replace(" ", "").startswith("hxhim::Datastore::get_rank(int,int,"):
                ex.contracts[nm] = self.rank

    def rank_of(self, ds):
        return T.app("get_rank", tuple(T.toint(x) for x in (ds, self.world, self.cr, self.sr, self.per)))

    def rank(self, ex, st, a):
        ex.trusted.setdefault("hxhim::Datastore::get_rank", "contract proved in C06")
        r = T.app("get_rank", tuple(T.toint(x) for x in a))
        ex.setrange(r, 0, 2 ** 32 - 1)
        return r

    def slot(self, p):
        p = self.ex.resolve(p)
        if not (isinstance(p, Ptr) and p.r is self.hp and T.is_const(p.off) and T.cval(p.off) in self.wanted):
            raise Unsupported("a vector the contract does not know")
        return T.cval(p.off)

    def resize(self, ex, st, a):
        ex.trusted.setdefault("std::vector::resize", "gives the vector that many elements")
        st.ghost["queues"] = tuple(x for x in st.ghost["queues"] if x[0] != self.slot(a[0])) + ((self.slot(a[0]), a[1]),)
        return None

    def at(self, ex, st, a):
        if self.slot(a[0]) != self.o("ds_to_rank"):
            raise Unsupported("a vector the contract does not know")
        n = dict(st.ghost["queues"]).get(self.o("ds_to_rank"))
        ex.oblig(st, T.lt(a[1], n) if n is not None else T.FALSE, "the table of ranks is big enough")
        r = ex.alloc(st, I(4), "stack", "a rank", UninitBase())
        st.ghost["table"] = st.ghost["table"] + ((a[1], r),)
        st.ghost["filled"] = T.add(st.ghost["filled"], 1)
        return Ptr(r, 0)


def u_queues(u):
    """a session has one queue of each kind for every datastore, and knows the rank of each"""
    t = Tables(u)
    ex = u.ex
    ex.loopspec = lambda ex, st, f, L: Tabulate(t)
    st = u.state()
    st.ghost["queues"] = st.ghost["table"] = st.ghost["held"] = st.ghost["lists"] = ()

    st.ghost["filled"] = I0

    def post(st):
        q = dict(st.ghost["queues"])
        for n in ("puts", "gets", "getops", "deletes", "histograms"):
            ex.oblig(st, T.eq(q[t.o(n)], t.total) if t.o(n) in q else T.FALSE, "there is a queue of %s for every datastore" % n)
        ex.oblig(st, T.eq(q[t.o("ds_to_rank")], t.total) if t.o("ds_to_rank") in q else T.FALSE, "there is a rank for every datastore")
        ex.oblig(st, T.eq(ex.load(st, Ptr(t.hp, t.o("puts_count")), I64), 0), "nothing is queued yet")
        ex.oblig(st, T.eq(st.ghost["filled"], t.total), "every datastore has its rank")
        t.ls.settled(st, ())
    u.run(u.fn("hxhim::init::queues(hxhim_t*)"), st, [t.hx], post)
