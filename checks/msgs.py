"""What the contracts know about messages and their wire form (C01, C02, C03).

A message is described by functions of the entry index; the wire form by
  E(0) = header size, E(k+1) = E(k) + (size of entry k)
and the fields of entry k at E(k)+...   Packing must produce that layout,
unpacking must take it apart again, adding must keep  serialized_size = E(count)."""
from engine.session import *
from engine.loops import LoopSpec, RegionInv
from engine import terms as T
from checks.blobs import *

HDR = 24
MAXLEN = 2 ** 40
F64 = ("f64",)


class Field:
    __slots__ = ("kind", "off", "size", "v", "name")

    def __init__(self, kind, off, size, v, name):
        self.kind, self.off, self.size, self.v, self.name = kind, off, size, v, name


class Sym:
    """the entries of one message, as functions of the entry index"""

    def __init__(self, u, tag):
        self.u, self.ex, self.tag = u, u.ex, tag
        self.nullable = True

    def num(self, name, k, lo=0, hi=2 ** 64 - 1):
        t = T.app("%s.%s" % (self.tag, name), k if isinstance(k, tuple) else (k,))
        self.ex.setrange(t, lo, hi)
        return t

    def len(self, f, k):
        return self.num("len." + f, k, 0, MAXLEN)

    def type(self, f, k):
        return self.num("type." + f, k, 0, 2 ** 32 - 1)

    def addr(self, f, k):
        return self.num("addr." + f, k, 0, 2 ** 48)

    def byte(self, f, k, j):
        t = T.app("%s.byte.%s" % (self.tag, f), (k if isinstance(k, tuple) else (k,)) + (j,))
        self.ex.setrange(t, 0, 255)
        return t

    def null(self, f, k):
        t = T.app("%s.null.%s" % (self.tag, f), k if isinstance(k, tuple) else (k,), "Bool")
        self.ex.facts_of.setdefault(t, [T.implies(t, T.eq(self.len(f, k), 0))])
        return t

    def clean(self, f, k):
        return T.app("%s.clean.%s" % (self.tag, f), k if isinstance(k, tuple) else (k,), "Bool")

    def index(self, k):
        if isinstance(k, tuple):
            return T.app("pair", k)
        return k

    def data(self, f, k):
        """the buffer of blob f of entry k"""
        sym = self

        class Bytes(Base):
            def read(self, ex, st, r, off, size, ty):
                if size != 1:
                    t = I0
                    for i in range(size):
                        t = T.add(t, T.mulc(sym.byte(f, k, T.add(off, i)), 256 ** i))
                    return ex.from_int(st, t, ty)
                return sym.byte(f, k, off)
        return self.ex.family("%s.data.%s" % (self.tag, f), self.index(k), self.len(f, k), Bytes(), kind="pheap")

    def ptr(self, f, k):
        def get(ex, st):
            if self.nullable and ex.decide(st, self.null(f, k)):
                return NULL
            return Ptr(self.data(f, k), 0)
        return get

    def blob(self, f, k):
        return B(self.ptr(f, k), self.len(f, k), self.type(f, k), self.clean(f, k))


def blobf(s, name, k, ty=True):
    out = [("int", 8, s.len(name, k), name + " length"), ("bytes", s.len(name, k), (lambda j: s.byte(name, k, j)), name + " bytes")]
    if ty:
        out.append(("int", 4, s.type(name, k), name + " type"))
    return out


def place(parts, at):
    fs = []
    off = at
    for kind, size, v, name in parts:
        fs.append(Field(kind, off, T.toint(size), v, name))
        off = T.add(off, size)
    return fs, off


class Kind:
    """one message type: members and entry layout"""
    dirn = "Request"

    def __init__(self, u, tag="w"):
        self.u, self.ex = u, u.ex
        self.s = Sym(u, tag)
        self.tag = tag
        ex = self.ex
        self.n = ex.var(tag + ".count", 0, 2 ** 40)
        self.src = ex.var(tag + ".src", 0, 2 ** 32 - 1)
        self.dst = ex.var(tag + ".dst", 0, 2 ** 32 - 1)
        self.op = u.const(self.opname)
        self.dir = u.const("dir_request" if self.dirn == "Request" else "dir_response")
        self.OK = u.const("ds_success")
        self.FIRST, self.LAST = u.const("getop_first"), u.const("getop_last")
        self.limit = []

    # ---- wire
    fixed = None                 # entry size when it is a constant

    def E(self, k):
        if self.fixed is not None:
            return T.add(HDR, T.mulc(T.toint(k), self.fixed))
        t = T.app("E." + self.tag, (T.toint(k),))
        self.ex.setrange(t, 0, 2 ** 62)
        return t

    def esz(self, k):
        raise NotImplementedError

    def parts(self, ex, st, k):
        raise NotImplementedError

    def fields(self, ex, st, k, at=None):
        return place(self.parts(ex, st, k), self.E(k) if at is None else at)[0]

    def step(self, k):
        return T.eq(self.E(T.add(k, 1)), T.add(self.E(k), self.esz(k)))

    def mono(self, a, b):
        a, b = T.toint(a), T.toint(b)
        return T.implies(T.le(a, b), T.le(self.E(a), self.E(b)))

    def facts(self, k):
        """definition of E at k and its consequences for k, k+1 and the end"""
        return [T.eq(self.E(0), HDR), self.step(k), self.mono(0, k), self.mono(T.add(k, 1), self.n), self.mono(k, self.n)]

    def header(self):
        return [Field("int", I(0), I(4), I(self.dir), "direction"), Field("int", I(4), I(4), I(self.op), "operation"), Field("int", I(8), I(4), self.src, "source"),
                Field("int", I(12), I(4), self.dst, "destination"), Field("int", I(16), I(8), self.n, "count")]

    def where(self, off):
        """(entry index or (entry, record) index, displacement)"""
        k, items = T.lin_of(off)
        for a, c in items:
            if c == 1 and a.op == "app:R." + self.tag:
                return tuple(a.args), T.sub(off, a)
        if self.fixed is not None:
            if T.is_const(off) and T.cval(off) < HDR:
                return None, None
            idx = I((k - HDR) // self.fixed)
            for a, c in items:
                if c % self.fixed == 0:
                    idx = T.add(idx, T.mulc(a, c // self.fixed))
            return idx, T.sub(off, self.E(idx))
        for a, c in items:
            if c == 1 and a.op == "app:E." + self.tag:
                return a.args[0], T.sub(off, a)
        return None, None

    def read(self, ex, st, off, size, ty):
        """contents of the wire at off"""
        k, d = self.where(off)
        if k is None and T.is_const(off) and T.cval(off) < HDR:
            fs, d = self.header(), off
        elif k is None:
            k, d = I0, T.sub(off, HDR)
            fs = self.fields(ex, st, k, I0)
        else:
            fs = self.fields(ex, st, k, I0)
        v = self.pick(ex, st, fs, d, size, ty)
        if v is None:
            if size > 1:
                t = I0
                for i in range(size):
                    b = self.pick(ex, st, fs, T.add(d, i), 1, I8)
                    if b is None:
                        break
                    t = T.add(t, T.mulc(b, 256 ** i))
                else:
                    return ex.from_int(st, t, ty)
            t = T.app("beyond%d.%s" % (size, self.tag), (off,))
            ex.setrange(t, 0, 256 ** size - 1)
            return ex.from_int(st, t, ty)
        return v

    def pick(self, ex, st, fs, d, size, ty):
        for f in fs:
            rel = T.sub(d, f.off)
            if T.is_const(rel):
                o = T.cval(rel)
                if f.kind == "bytes":
                    if not (0 <= o and ex.proved(st, T.le(o + size, f.size))):
                        continue
                elif not (0 <= o and o + size <= T.cval(f.size)):
                    continue
            elif f.kind != "bytes" or not ex.proved(st, T.and_(T.le(0, rel), T.le(T.add(rel, size), f.size))):
                continue
            if f.kind == "bytes":
                t = I0
                for i in range(size):
                    t = T.add(t, T.mulc(f.v(T.add(rel, i)), 256 ** i))
                return ex.from_int(st, t, ty)
            v = f.v
            if callable(v):
                v = v(ex, st)
            fty = PTRT if isinstance(v, (Ptr, IPtr)) else ("i", 8 * T.cval(f.size))
            return ex.subread(st, v, fty, rel, size, ty)
        return None

    def check_fields(self, ex, st, r, fs, what):
        for f in fs:
            if f.kind == "bytes":
                J = ex.fresh("J", 0, None)
                s2 = st.clone()
                ex.assume(s2, T.lt(J, f.size))
                got = [None]

                def one(s, f=f, J=J):
                    ex.oblig(s, T.eq(ex.load(s, Ptr(r, T.add(f.off, J)), I8), f.v(J)), "%s%s" % (what, f.name))
                if ex.feasible(s2):
                    ex.with_forks([s2], one)
                continue
            v = f.v(ex, st) if callable(f.v) else f.v
            if isinstance(v, (Ptr, IPtr)):
                ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(r, f.off), PTRT), v), "%s%s" % (what, f.name))
            else:
                ex.oblig(st, T.eq(ex.load(st, Ptr(r, f.off), ("i", 8 * T.cval(f.size))), v), "%s%s" % (what, f.name))

    def check_wire(self, ex, st, r, upto, what="wire: ", split=True):
        """r holds the header and the entries below `upto`"""
        self.check_fields(ex, st, r, self.header(), what)
        if T.is_const(upto) and T.cval(upto) == 0:
            return
        cases = []
        if split and not (upto is self.n):
            last = T.sub(upto, 1)
            cases.append((last, []))
            k = ex.fresh("k", 0, None)
            cases.append((k, [T.lt(k, last), self.mono(T.add(k, 1), last)]))
        else:
            k = ex.fresh("k", 0, None)
            cases.append((k, [T.lt(k, upto), self.mono(T.add(k, 1), upto)]))
        for k, fs in cases:
            s2 = st.clone()
            try:
                for f in fs + self.facts(k):
                    ex.assume(s2, f)
            except Dead:
                continue
            if not ex.feasible(s2):
                continue
            self.check_entry(ex, s2, r, k, what)

    def check_entry(self, ex, st, r, k, what):
        ex.with_forks([st], lambda s: self.check_fields(ex, s, r, self.fields(ex, s, k), what))


class WireBase(Base):
    def __init__(self, w):
        self.w = w

    def read(self, ex, st, r, off, size, ty):
        return self.w.read(ex, st, off, size, ty)


class WireInv(RegionInv):
    """at iteration `it` everything below E(it) is the wire form"""

    def __init__(self, w):
        self.w = w

    def produce(self, ex, st, r, it, entry):
        w = self.w
        for f in w.facts(it):
            ex.assume(st, f)
        ex.havoc(st, r, tag="lp.%s.%d" % (r.name, it.id))
        end = w.E(it) if it is not I0 else I(HDR)
        ex.put(st, r, Node(st.mem.get(r), "G", I0, end, lambda ex, s, d, size, ty: w.read(ex, s, d, size, ty)))

    def check(self, ex, st, r, it, entry, head):
        self.w.check_wire(ex, st, r, it, "after %s entries: " % ("no" if it is I0 else "some"))


class ElemInv(RegionInv):
    """elements [0, it) of an array are as specified, the others as before"""

    def __init__(self, name, stride, elem, same):
        self.name, self.stride, self.elem, self.same = name, stride, elem, same

    def produce(self, ex, st, r, it, entry):
        base = ArrayBase(self.name, self.stride, self.elem)
        ex.put(st, r, Node(st.mem.get(r), "G", I0, T.mulc(it, self.stride), lambda ex, s, d, size, ty: base.read(ex, s, r, d, size, ty)))

    def check(self, ex, st, r, it, entry, head):
        if T.is_const(it) and T.cval(it) == 0:
            return
        last = T.sub(it, 1)
        k = ex.fresh("k", 0, None)
        for idx, fs in ((last, []), (k, [T.lt(k, last)])):
            s2 = st.clone()
            try:
                for f in fs:
                    ex.assume(s2, f)
            except Dead:
                continue
            if ex.feasible(s2):
                ex.with_forks([s2], lambda s, idx=idx: self.same(ex, s, r, idx))
        m = ex.fresh("m", 0, None)
        s2 = st.clone()
        ex.assume(s2, T.le(it, m))
        if r.size is not None:
            ex.assume(s2, T.le(T.mulc(T.add(m, 1), self.stride), r.size))
        if not ex.feasible(s2):
            return

        def rest(s):
            for o, (ty, v) in self.elem(ex, s, m).items():
                at = T.add(T.mulc(m, self.stride), o)
                a = ex.load(s, Ptr(r, at), ty, check=False)
                b = ex.read(s, r, entry, at, ex.mod_size(ty), ty)
                if isinstance(a, T.Term):
                    ex.oblig(s, T.eq(a, b), "elements behind the cursor are untouched")
                else:
                    ex.oblig(s, ex.ptr_eq(s, a, b), "elements behind the cursor are untouched")
        ex.with_forks([s2], rest)


# ------------------------------------------------------------------ the types
class ReqSP(Kind):
    def blobs(self):
        return ["subjects", "predicates"]

    def sp(self, k):
        s = self.s
        for f in ("subjects", "predicates"):
            for x in blobf(s, f, k):
                yield x
            yield ("ptr", 8, self.origv(f, k), f + " caller address")

    def origv(self, f, k):
        """the address the caller gave: that of the value (add() stores it)"""
        if self.mode == "pack":
            return self.s.ptr(f, k)
        return IPtr(self.s.addr(f, k))

    mode = "pack"

    def spsize(self, k):
        return T.add(T.add(self.s.len("subjects", k), self.s.len("predicates", k)), 2 * (12 + 8))

    def arrays(self):
        return [("subjects", "blob", "subjects"), ("predicates", "blob", "predicates"), ("orig_subjects", "addr", "subjects"), ("orig_predicates", "addr", "predicates")]


class ReqPut(ReqSP):
    name, opname = "BPut", "op_put"

    def parts(self, ex, st, k):
        return list(self.sp(k)) + blobf(self.s, "objects", k)

    def esz(self, k):
        return T.add(self.spsize(k), T.add(self.s.len("objects", k), 12))

    def arrays(self):
        return ReqSP.arrays(self) + [("objects", "blob", "objects")]


class ReqGet(ReqSP):
    name, opname = "BGet", "op_get"

    def parts(self, ex, st, k):
        return list(self.sp(k)) + [("int", 4, self.s.num("object_types", k, 0, 2 ** 32 - 1), "requested type")]

    def esz(self, k):
        return T.add(self.spsize(k), 4)

    def arrays(self):
        return ReqSP.arrays(self) + [("object_types", "i32", "object_types")]


class ReqDelete(ReqSP):
    name, opname = "BDelete", "op_delete"

    def parts(self, ex, st, k):
        return list(self.sp(k))

    def esz(self, k):
        return self.spsize(k)


class ReqGetOp(ReqSP):
    name, opname = "BGetOp", "op_getop"

    def keyless(self, k):
        o = self.s.num("ops", k, 0, 2 ** 32 - 1)
        return T.or_(T.eq(o, self.FIRST), T.eq(o, self.LAST))

    def parts(self, ex, st, k):
        s = self.s
        out = [("int", 4, s.num("ops", k, 0, 2 ** 32 - 1), "query operation")]
        if not ex.decide(st, self.keyless(k)):
            out += blobf(s, "subjects", k) + blobf(s, "predicates", k)
        out += [("int", 4, s.num("object_types", k, 0, 2 ** 32 - 1), "requested type"), ("int", 8, s.num("num_recs", k), "number of records")]
        return out

    def esz(self, k):
        s = self.s
        return T.add(16, T.ite(self.keyless(k), I0, T.add(T.add(s.len("subjects", k), s.len("predicates", k)), 24)))

    def arrays(self):
        return [("subjects", "blob", "subjects"), ("predicates", "blob", "predicates"), ("ops", "i32", "ops"), ("object_types", "i32", "object_types"), ("num_recs", "u64", "num_recs")]

    def present(self, f, k):
        return T.not_(self.keyless(k)) if f in ("subjects", "predicates") else T.TRUE


class ReqHist(Kind):
    name, opname = "BHistogram", "op_histogram"
    untyped = ("names",)

    def parts(self, ex, st, k):
        return blobf(self.s, "names", k, False)

    def esz(self, k):
        return T.add(self.s.len("names", k), 8)

    def arrays(self):
        return [("names", "blob", "names")]


Kind.untyped = ()
Kind.more_templates = lambda self: []
Kind.contracts = lambda self, u: None
Kind.present = lambda self, f, k: T.TRUE


class Res(Kind):
    dirn = "Response"

    def status(self, k):
        return self.s.num("statuses", k, 0, 2 ** 32 - 1)

    def ok(self, k):
        return T.eq(self.status(k), self.OK)

    def arrays(self):
        return [("statuses", "i32", "statuses")]


def reff(s, f, k, ptr):
    return [("ptr", 8, ptr, f + " original address"), ("int", 8, s.len(f, k), f + " original length"), ("int", 4, s.type(f, k), f + " original type")]


class ResSP(Res):
    def head(self, k):
        s = self.s
        return [("int", 4, self.status(k), "status")] + reff(s, "osubj", k, self.origv("osubj", k)) + reff(s, "opred", k, self.origv("opred", k))

    def origv(self, f, k):
        return IPtr(self.s.addr(f, k))

    def arrays(self):
        return Res.arrays(self) + [("orig_subjects", "ref", "osubj"), ("orig_predicates", "ref", "opred")]

    def parts(self, ex, st, k):
        return self.head(k)

    def esz(self, k):
        return I(44)


class ResPut(ResSP):
    name, opname = "BPut", "op_put"
    fixed = 44


class ResDelete(ResSP):
    name, opname = "BDelete", "op_delete"
    fixed = 44


class ResGet(ResSP):
    name, opname = "BGet", "op_get"

    def parts(self, ex, st, k):
        out = self.head(k)
        if ex.decide(st, self.ok(k)):
            out += blobf(self.s, "objects", k)
        return out

    def esz(self, k):
        return T.add(44, T.ite(self.ok(k), T.add(self.s.len("objects", k), 12), I0))

    def arrays(self):
        return ResSP.arrays(self) + [("objects", "blob", "objects")]

    def present(self, f, k):
        return self.ok(k) if f == "objects" else T.TRUE


class ResGetOp(Res):
    """entries have records: record j of entry k lies at R(k, j)"""
    name, opname = "BGetOp", "op_getop"
    rec = ("subjects", "predicates", "objects")
    head = 12

    def nrec(self, k):
        return self.s.num("num_recs", k, 0, MAXLEN)

    def R(self, k, j):
        k, j = T.toint(k), T.toint(j)
        if T.is_const(j) and T.cval(j) == 0:
            return T.add(self.E(k), self.head)
        t = T.app("R." + self.tag, (k, j))
        self.ex.setrange(t, 0, 2 ** 62)
        return t

    def rsz(self, k, j):
        s = self.s
        return T.add(T.add(T.add(s.len("subjects", (k, j)), s.len("predicates", (k, j))), 24), T.ite(self.ok(k), T.add(s.len("objects", (k, j)), 12), I0))

    def facts(self, k):
        return [T.eq(self.E(0), HDR), T.eq(self.E(T.add(k, 1)), self.R(k, self.nrec(k))), T.le(self.R(k, 0), self.R(k, self.nrec(k))),
                T.implies(T.eq(self.nrec(k), 0), T.eq(self.R(k, self.nrec(k)), self.R(k, 0))),
                self.mono(0, k), self.mono(T.add(k, 1), self.n), self.mono(k, self.n)]

    def rfacts(self, k, j):
        n = self.nrec(k)
        return [T.eq(self.R(k, T.add(j, 1)), T.add(self.R(k, j), self.rsz(k, j))), T.le(self.R(k, 0), self.R(k, j)),
                T.implies(T.le(j, n), T.le(self.R(k, j), self.R(k, n))), T.implies(T.lt(j, n), T.le(self.R(k, T.add(j, 1)), self.R(k, n)))]

    def parts(self, ex, st, k):
        s = self.s
        if isinstance(k, tuple):
            out = blobf(s, "subjects", k) + blobf(s, "predicates", k)
            if ex.decide(st, self.ok(k[0])):
                out += blobf(s, "objects", k)
            return out
        return [("int", 4, self.status(k), "status"), ("int", 8, self.nrec(k), "number of records")]

    def fields(self, ex, st, k, at=None):
        if at is None:
            at = self.R(*k) if isinstance(k, tuple) else self.E(k)
        fs, end = place(self.parts(ex, st, k), at)
        if not isinstance(k, tuple) and at is I0:
            # what follows the head of the entry is its first record
            fs += place(self.parts(ex, st, (k, I0)), end)[0]
        return fs

    def check_records(self, ex, st, r, k, upto, what):
        if T.is_const(upto) and T.cval(upto) == 0:
            return
        cases = []
        j = ex.fresh("j", 0, None)
        if upto is self.nrec(k):
            cases.append((j, [T.lt(j, upto)]))
        else:
            last = T.sub(upto, 1)
            cases = [(last, []), (j, [T.lt(j, last), T.le(self.R(k, T.add(j, 1)), self.R(k, last))])]
        for j, fs in cases:
            s2 = st.clone()
            try:
                for f in fs + self.rfacts(k, j):
                    ex.assume(s2, f)
            except Dead:
                continue
            if ex.feasible(s2):
                ex.with_forks([s2], lambda s, j=j: self.check_fields(ex, s, r, self.fields(ex, s, (k, j)), what + "record "))

    def check_entry(self, ex, st, r, k, what):
        ex.with_forks([st.clone()], lambda s: self.check_fields(ex, s, r, self.fields(ex, s, k), what))
        self.check_records(ex, st, r, k, self.nrec(k), what)

    def arrays(self):
        return Res.arrays(self) + [("num_recs", "u64", "num_recs")] + [(f, "blobs", f) for f in self.rec]

    def present(self, f, k):
        return self.ok(k[0]) if f == "objects" and isinstance(k, tuple) else T.TRUE


class ResHist(Res):
    """histograms are opaque here: hsz(k) bytes on the wire (C09 is about those)"""
    name, opname = "BHistogram", "op_histogram"

    def hsz(self, k):
        return self.s.len("hist", k)

    def parts(self, ex, st, k):
        out = [("int", 4, self.status(k), "status")]
        if ex.decide(st, self.ok(k)):
            out.append(("bytes", self.hsz(k), (lambda j: self.s.byte("hist", k, j)), "histogram"))
        return out

    def esz(self, k):
        return T.add(4, T.ite(self.ok(k), self.hsz(k), I0))

    def arrays(self):
        return Res.arrays(self) + [("histograms", "hist", "histograms")]

    def present(self, f, k):
        return self.ok(k) if f == "histograms" else T.TRUE

    def object(self, k):
        """histogram k"""
        w = self

        class Opaque(Base):
            def read(self, ex, st, r, off, size, ty):
                raise Unsupported("the inside of a histogram is not this check's business")
        return self.ex.family("%s.histogram" % self.tag, k, I(self.u.const("size_histogram")), Opaque(), kind="pheap")

    def control(self, k):
        """shared_ptr's count of owners of histogram k"""
        b = StructBase("control", {8: (I32, self.s.num("owners", k, 1, 2 ** 20)), 12: (I32, self.s.num("watchers", k, 1, 2 ** 20))})
        return self.ex.family("%s.control" % self.tag, k, I(64), b, kind="pheap")

    def more_templates(self):
        n = self.E(self.n)
        return [lambda it: T.add(T.sub(n, self.E(it)), T.mulc(it, 4)), lambda it: T.sub(n, self.E(it))]

    def contracts(self, u):
        """Histogram::pack / unpack on a stream and the constructor (C09 proves what is used)"""
        ex, w = u.ex, self
        note = "contract: appends / takes exactly the histogram's packed bytes and moves the cursor; refuses when there is too little space (C09)"

        def which(ex, st, p):
            p = ex.resolve(p)
            if isinstance(p, Ptr) and p.r.fam == "%s.histogram" % w.tag:
                return p.r.idx
            return None

        def cursor(st, a):
            c = ex.resolve(ex.load(st, a[1], PTRT))
            av = ex.load(st, a[2], I64)
            if not isnull(ex.resolve(a[3])):
                raise Unsupported("used")
            return c, av

        def pack(ex, st, a):
            ex.trusted.setdefault("Histogram::pack", note)
            k = which(ex, st, a[0])
            if k is None:
                ex.fail(st, "the histogram packed is the entry's")
                return FALSE
            c, av = cursor(st, a)
            h = w.hsz(k)
            if ex.decide(st, T.lt(av, h)):
                return FALSE
            r, off = ex.region_of(st, c, "write")
            ex.bounds(st, r, off, h, "histogram written within buffer")
            ex.put(st, r, Node(st.mem.get(r), "G", off, h, lambda ex, s, d, size, ty: ex.from_int(s, w.s.byte("hist", k, d), ty) if size == 1 else ex.fresh_of(ty, "hist")))
            ex.store(st, a[1], Ptr(r, T.add(off, h)), PTRT)
            ex.store(st, a[2], T.sub(av, h), I64)
            return TRUE

        def unpack(ex, st, a):
            ex.trusted.setdefault("Histogram::unpack", note)
            c, av = cursor(st, a)
            r, off = ex.region_of(st, c, "read")
            if not (isinstance(r.base, WireBase)):
                ex.fail(st, "histograms are read from the message")
                return FALSE
            k, d = w.where(off)
            if k is None:
                k, d = I0, T.sub(off, HDR)
            ex.oblig(st, T.and_(T.eq(d, 4), w.ok(k), T.lt(k, w.n)), "a histogram is read where one begins")
            h = w.hsz(k)
            ex.oblig(st, T.le(h, av), "enough bytes are left for the histogram")
            p = ex.resolve(a[0])
            ex.oblig(st, T.B(isinstance(p, Ptr) and p.r in st.heap and p.r not in st.dead), "histograms are read into a live object")
            if isinstance(p, Ptr):
                st.ghost[("histogram", p.r)] = k
            ex.store(st, a[1], Ptr(r, T.add(off, h)), PTRT)
            ex.store(st, a[2], T.sub(av, h), I64)
            return TRUE

        def make(ex, st, a):
            ex.trusted.setdefault("construct<Histogram>", "contract: a new histogram object (C08/C09)")
            return Ptr(ex.alloc(st, I(u.const("size_histogram")), "heap", "histogram", UFBase("newhist")), 0)
        def psize(ex, st, a):
            ex.trusted.setdefault("Histogram::pack_size", "contract: the number of bytes the histogram packs to (C09)")
            k = which(ex, st, a[0])
            if k is None:
                raise Unsupported("size of a histogram that is not the entry's")
            return w.hsz(k)
        if not ex.demangled:
            ex.demangle_all()
        for n, d in ex.demangled.items():
            if d.startswith("Histogram::Histogram::pack_size("):
                ex.contracts[n] = psize
            elif d.startswith("Histogram::Histogram::pack(char*&"):
                ex.contracts[n] = pack
            elif d.startswith("Histogram::Histogram::unpack(char*&"):
                ex.contracts[n] = unpack
            elif "* construct<Histogram::Histogram" in d:
                ex.contracts[n] = make


class RecInv(RegionInv):
    """while writing the records of entry k: everything below R(k, it) is the wire form"""

    def __init__(self, w, k):
        self.w, self.k = w, k

    def produce(self, ex, st, r, it, entry):
        w = self.w
        for f in w.facts(self.k) + w.rfacts(self.k, it):
            ex.assume(st, f)
        ex.havoc(st, r, tag="lp.%s.%d" % (r.name, it.id))
        ex.put(st, r, Node(st.mem.get(r), "G", I0, w.R(self.k, it), lambda ex, s, d, size, ty: w.read(ex, s, d, size, ty)))

    def check(self, ex, st, r, it, entry, head):
        w, k = self.w, self.k
        s2 = st.clone()
        try:
            for f in w.facts(k) + w.rfacts(k, it):
                ex.assume(s2, f)
        except Dead:
            return
        if not ex.feasible(s2):
            return
        what = "after %s records: " % ("no" if it is I0 else "some")
        # what was complete before the records, then those
        w.check_wire(ex, s2, r, k, what, split=False)
        ex.with_forks([s2.clone()], lambda s: w.check_fields(ex, s, r, place(w.parts(ex, s, k), w.E(k))[0], what))
        w.check_records(ex, s2, r, k, it, what)


STRIDE = {"blobs": 8, "hist": 16, "i32": 4, "u64": 8, "addr": 8}


def stride(u, kind):
    return blob_size(u) if kind in ("blob", "ref") else STRIDE[kind]


def off(u, w, member):
    return u.const("off_%s%s_%s" % ("R" if w.dirn == "Response" else "", w.name, member))


def elem(u, w, kind, f):
    """fields of element q of an array of the message"""
    s = w.s
    L = layout(u)

    def get(ex, st, q):
        if kind == "blob":
            return fields(u, B(s.ptr(f, q), s.len(f, q), s.type(f, q), s.clean(f, q)))
        if kind == "ref":
            return fields(u, B(IPtr(s.addr(f, q)), s.len(f, q), s.type(f, q), T.FALSE))
        if kind == "i32":
            return {0: (I32, s.num(f, q, 0, 2 ** 32 - 1))}
        if kind == "u64":
            return {0: (I64, w.nrec(q) if f == "num_recs" and w.dirn == "Response" else s.num(f, q))}
        if kind == "hist":
            return {0: (PTRT, (lambda ex, st: Ptr(w.object(q), 0) if ex.decide(st, w.ok(q)) else NULL)), 8: (PTRT, (lambda ex, st: Ptr(w.control(q), 0) if ex.decide(st, w.ok(q)) else NULL))}
        if kind == "blobs":
            def ptr(ex, st):
                n = w.nrec(q)
                if ex.decide(st, T.eq(n, 0)):
                    return NULL
                r = ex.family("%s.records.%s" % (w.tag, f), q, T.mulc(n, blob_size(u)), ArrayBase("%s.rec.%s" % (w.tag, f), blob_size(u), (lambda ex, st, j: rec_fields(u, w, f, (q, j))), (q,)), kind="pheap")
                return Ptr(r, 0)
            return {0: (PTRT, ptr)}
        if kind == "addr":
            return {0: (PTRT, (lambda ex, st: w.origv(f, q)(ex, st) if callable(w.origv(f, q)) else w.origv(f, q)))}
        raise Exception(kind)
    return get


def rec_fields(u, w, f, k):
    """record k = (entry, index) of a GETOP response"""
    if w.unpacked:
        return unpacked_elem(u, w, "blob", f)(u.ex, None, k)
    s = w.s
    return fields(u, B(s.ptr(f, k), s.len(f, k), s.type(f, k), s.clean(f, k)))


Kind.unpacked = False


def blank(u, kind):
    """a value-initialized element"""
    if kind in ("blob", "ref"):
        return fields(u, empty())
    if kind in ("addr", "blobs"):
        return {0: (PTRT, NULL)}
    if kind == "hist":
        return {0: (PTRT, NULL), 8: (PTRT, NULL)}
    return {0: (I32, I0)} if kind == "i32" else {0: (I64, I0)}


def partly(u, w, kind, f):
    """elements below the count are the entries', the others value-initialized"""
    e = elem(u, w, kind, f)

    def get(ex, st, q):
        return e(ex, st, q) if ex.decide(st, T.lt(q, w.n)) else blank(u, kind)
    return get


def message(u, w, size=None, cap=None):
    """a message object holding w's entries; the arrays have room for `cap` entries"""
    ex = u.ex
    cap = cap if cap is not None else w.n
    fs = {off(u, w, "direction"): (I32, I(w.dir)), off(u, w, "op"): (I32, I(w.op)), off(u, w, "src"): (I32, w.src), off(u, w, "dst"): (I32, w.dst),
          off(u, w, "max_count"): (I64, cap), off(u, w, "count"): (I64, w.n), off(u, w, "serialized_size"): (I64, size if size is not None else w.E(w.n))}
    arr = {}
    for member, kind, f in w.arrays():
        st = stride(u, kind)
        r = ex.new_region("%s.%s" % (w.name, member), "heap", T.mulc(cap, st), ArrayBase("%s.%s" % (w.tag, member), st, elem(u, w, kind, f) if cap is w.n else partly(u, w, kind, f)))
        arr[member] = r
        fs[off(u, w, member)] = (PTRT, Ptr(r, 0))
    r = ex.new_region(w.name, "param", I(u.const("size_%s%s" % ("R" if w.dirn == "Response" else "", w.name))), StructBase(w.name, fs))
    w.arr = arr
    return r


def wire_facts(u, w, st):
    ex = u.ex
    for f in (T.eq(w.E(0), HDR), w.mono(0, w.n)):
        ex.assume(st, f)


def lemma_mono(u, w):
    """E never decreases: what mono() states follows by induction from this step"""
    k = u.ex.var("k", 0, 2 ** 40)
    if isinstance(w, ResGetOp):
        j = u.ex.var("j", 0, 2 ** 40)
        u.lemma("record sizes are never negative, so offsets grow", T.le(w.R(k, j), w.R(k, T.add(j, 1))), w.rfacts(k, j)[:1])
        u.lemma("entry sizes are never negative, so offsets grow", T.le(w.E(k), w.E(T.add(k, 1))), w.facts(k)[1:3])
        return
    u.lemma("entry sizes are never negative, so offsets grow", T.le(w.E(k), w.E(T.add(k, 1))), [w.step(k)])


def by_depth(ex, w, outer, inner):
    """the loop over the entries gets one contract, a loop inside it (over records) another"""
    def spec(ex, st, f, L):
        if not isinstance(w, ResGetOp) or not ex.running:
            return outer()
        top = ex.running[0]
        if top.it is None:
            raise NeedInvariant(top.key)
        return inner(top.it)
    return spec


# ------------------------------------------------------------------ packing
def u_pack(cls):
    def f(u):
        ex = u.ex
        d = cls.dirn
        fn = u.fn("Message::Packer::pack(Message::%s::%s const*, void**, unsigned long*)" % (d, d))
        w = cls(u)
        lemma_mono(u, w)
        ex.templates = [lambda it: w.E(it)] + w.more_templates()
        w.contracts(u)
        inv = WireInv(w)
        size = w.E(w.n)
        if isinstance(w, ResGetOp):
            size = ex.var("reported", 0, 2 ** 62)      # an upper bound (C03)
        for mine in (True, False):
            msg = message(u, w, size)
            bufp = ex.new_region("bufp", "param", I(8), StructBase("bufp", {}))
            sizep = ex.new_region("sizep", "param", I(8), UninitBase())
            st = u.state()
            wire_facts(u, w, st)
            ex.assume(st, T.le(w.E(w.n), size))
            if mine:
                given = NULL
            else:
                buf = ex.new_region("buf", "param", size, UninitBase())
                ex.region_inv[buf] = inv
                given = Ptr(buf, 0)
            bufp.base = StructBase("bufp", {0: (PTRT, given)})

            class Spec(LoopSpec):
                def region_inv(self, ex, st, r):
                    if r.kind == "heap":
                        p = ex.resolve(ex.load(st, Ptr(bufp, 0), PTRT))
                        if isinstance(p, Ptr) and p.r is r:
                            return inv
                    return None

            class Records(Spec):
                def __init__(self, k):
                    self.inv = RecInv(w, k)
                    self.templates = [lambda it: w.R(k, it)]

                def region_inv(self, ex, st, r):
                    return self.inv if Spec.region_inv(self, ex, st, r) is inv or (not mine and r is buf) else None
            ex.loopspec = by_depth(ex, w, Spec, Records)

            def post(st):
                ex.oblig(st, T.eq(st.ret, u.const("msg_success")), "packing succeeds")
                ex.oblig(st, T.eq(ex.load(st, Ptr(sizep, 0), I64), size), "the reported size is the size of the message")
                p = ex.resolve(ex.load(st, Ptr(bufp, 0), PTRT))
                if not isinstance(p, Ptr):
                    ex.fail(st, "a buffer is returned")
                    return
                if mine:
                    ex.oblig(st, T.B(p.r in st.heap and p.r not in st.dead), "the buffer is new")
                    ex.oblig(st, T.eq(p.r.size, size), "the buffer has the reported size")
                else:
                    ex.oblig(st, ex.ptr_eq(st, p, given), "the given buffer is used")
                w.check_wire(ex, st, p.r, w.n)
            u.run(fn, st, [Ptr(msg, 0), Ptr(bufp, 0), Ptr(sizep, 0)], post)
    return f


# ------------------------------------------------------------------ arrays
def elem_default(u, tname):
    """value-initialized element of alloc_array<T>"""
    if tname == "Blob":
        return blob_size(u), (lambda ex, st, q: fields(u, empty()))
    if tname.endswith("*"):
        return 8, (lambda ex, st, q: {0: (PTRT, NULL)})
    if tname in ("int", "hxhim_data_t", "hxhim_getop_t", "unsigned int"):
        return 4, (lambda ex, st, q: {0: (I32, I0)})
    if tname in ("unsigned long", "long", "double"):     # 0.0 has the bits of 0
        return 8, (lambda ex, st, q: {0: (I64, I0)})
    if tname.startswith("std::shared_ptr<"):
        return 16, (lambda ex, st, q: {0: (PTRT, NULL), 8: (PTRT, NULL)})
    return None, None


def template_arg(d, name):
    i = d.find(name + "<")
    if i < 0:
        return None
    depth, j = 0, i + len(name)
    for x in range(j, len(d)):
        if d[x] == "<":
            depth += 1
        elif d[x] == ">":
            depth -= 1
            if depth == 0:
                return d[j + 1:x].strip()
    return None


def arrays_by_contract(u):
    """alloc_array / dealloc_array at calls: their own units prove what is used here"""
    ex = u.ex
    ex.allocated = {}

    def install(n, d):
        t = template_arg(d, "dealloc_array")
        if t is not None:
            def h(ex, st, a):
                ex.trusted.setdefault("dealloc_array<>", "contract proved in its own units: releases the array (elements' own buffers are C10's subject)")
                ex.free(st, a[0])
                return None
            ex.contracts[n] = h
            return
        t = template_arg(d, "alloc_array")
        if t is None:
            return
        size, el = elem_default(u, t)
        if size is None:
            if t in ("Stats::Send",):
                size = u.const("size_send")
            else:
                return

        def h(ex, st, a):
            if ex.decide(st, T.eq(a[0], 0)):
                return NULL
            r = ex.alloc(st, T.mulc(a[0], size), "heap", "array<%s>" % t, ArrayBase("new." + t, size, el) if el else UFBase("send"))
            return Ptr(r, 0)
        ex.contracts[n] = h
    if not ex.demangled:
        ex.demangle_all()
    for n, d in list(ex.demangled.items()):
        if "alloc_array<" in d:
            install(n, d)


def u_alloc_array(tname):
    def f(u):
        ex = u.ex
        size, el = elem_default(u, tname)
        fn = u.fn("%s* alloc_array<%s>" % (tname, tname)) if tname[-1] != "*" else u.fn("%s* alloc_array<%s>" % (tname[:-1] + "*", tname))
        n = ex.var("count", 0, 2 ** 40)
        ty = list(el(ex, None, I0).items())

        class Inv(ElemInv):
            def check(self, ex, st, r, it, entry, head):
                if T.is_const(it) and T.cval(it) == 0:
                    return
                last = T.sub(it, 1)
                k = ex.fresh("k", 0, None)
                for idx, fs in ((last, []), (k, [T.lt(k, last)])):
                    s2 = st.clone()
                    for g in fs:
                        ex.assume(s2, g)
                    if ex.feasible(s2):
                        ex.with_forks([s2], lambda s, idx=idx: default(s, r, idx))

        def default(st, r, k):
            for o, (t, v) in el(ex, st, k).items():
                x = ex.load(st, Ptr(r, T.add(T.mulc(k, size), o)), t)
                ex.oblig(st, T.eq(x, v) if isinstance(x, T.Term) else ex.ptr_eq(st, x, v), "every element is value-initialized")

        class Spec(LoopSpec):
            def region_inv(self, ex, st, r):
                return Inv("elems", size, el, None) if r.kind == "heap" else None
        ex.loopspec = lambda ex, st, f, L: Spec()

        def post(st):
            p = ex.resolve(st.ret)
            if isnull(p):
                ex.oblig(st, T.eq(n, 0), "null only for no elements")
                return
            ex.oblig(st, T.and_(T.eq(p.r.size, T.mulc(n, size)), T.eq(p.off, 0), T.B(p.r in st.heap)), "a new array of the requested length")
            k = ex.fresh("k", 0, None)
            ex.assume(st, T.lt(k, n))
            default(st, p.r, k)
        u.run(fn, u.state(), [n], post)
    return f


# ------------------------------------------------------------------ unpacking
def same_blob(u, w, f, ref=False, typed=True):
    """element k of an unpacked array is blob f of entry k"""
    def same(ex, st, r, k, at=None):
        s = w.s
        at = T.mulc(k, blob_size(u)) if at is None else at
        if not ref and not ex.decide(st, w.present(f, k)):
            return
        g = get(u, st, r, at)
        ex.oblig(st, T.eq(g.len, s.len(f, k)), "unpacked %s: length" % f)
        if typed:
            ex.oblig(st, T.eq(g.type, s.type(f, k)), "unpacked %s: type" % f)
        if ref:
            ex.oblig(st, ex.ptr_eq(st, g.ptr, IPtr(s.addr(f, k))), "unpacked %s: address" % f)
            return
        J = ex.fresh("J", 0, None)
        s2 = st.clone()
        ex.assume(s2, T.lt(J, s.len(f, k)))
        if not ex.feasible(s2):
            return
        p = ex.resolve(g.ptr)
        if not isinstance(p, Ptr):
            ex.oblig(s2, T.FALSE, "unpacked %s: has bytes" % f)
            return
        ex.with_forks([s2], lambda s3: ex.oblig(s3, T.eq(ex.load(s3, Ptr(p.r, T.add(p.off, J)), I8), s.byte(f, k, J)), "unpacked %s: bytes" % f))
    return same


def same_blobs(u, w, f):
    """element k of an unpacked array is the array of blobs f of the records of entry k"""
    one = same_blob(u, w, f)

    def same(ex, st, r, k):
        n = w.nrec(k)
        if ex.decide(st, T.eq(n, 0)):
            return
        p = ex.resolve(ex.load(st, Ptr(r, T.mulc(k, 8)), PTRT))
        if not isinstance(p, Ptr):
            ex.fail(st, "unpacked %s: there are records" % f)
            return
        ex.oblig(st, T.B(p.r not in st.dead), "unpacked %s: the records are there" % f)
        j = ex.fresh("j", 0, None)
        s2 = st.clone()
        ex.assume(s2, T.lt(j, n))
        ex.with_forks([s2], lambda s: one(ex, s, p.r, (k, j), T.add(p.off, T.mulc(j, blob_size(u)))))
    return same


def same_hist(u, w):
    def same(ex, st, r, k):
        p = ex.resolve(ex.load(st, Ptr(r, T.mulc(k, 16)), PTRT))
        if not ex.decide(st, w.ok(k)):
            ex.oblig(st, T.B(isnull(p)), "entries that failed have no histogram")
            return
        if not isinstance(p, Ptr):
            ex.fail(st, "unpacked histogram: there is one")
            return
        got = p.r.idx if p.r.fam == "%s.histogram" % w.tag else st.ghost.get(("histogram", p.r))
        ex.oblig(st, T.eq(got, k) if got is not None and p.r not in st.dead else T.FALSE, "unpacked histogram: that of the entry")
    return same


def same_num(u, w, kind, f):
    def same(ex, st, r, k):
        if kind == "addr":
            ex.oblig(st, ex.ptr_eq(st, ex.load(st, Ptr(r, T.mulc(k, 8)), PTRT), w.origv(f, k)), "unpacked caller address of %s" % f)
        elif kind == "i32":
            ex.oblig(st, T.eq(ex.load(st, Ptr(r, T.mulc(k, 4)), I32), w.s.num(f, k, 0, 2 ** 32 - 1)), "unpacked %s" % f)
        elif kind == "u64":
            ex.oblig(st, T.eq(ex.load(st, Ptr(r, T.mulc(k, 8)), I64), elem(u, w, kind, f)(ex, st, k)[0][1]), "unpacked %s" % f)
    return same


def sames(u, w):
    out = {}
    for member, kind, f in w.arrays():
        if kind in ("blob", "ref"):
            out[member] = (stride(u, kind), unpacked_elem(u, w, kind, f), same_blob(u, w, f, kind == "ref", f not in w.untyped))
        elif kind == "blobs":
            out[member] = (8, elem(u, w, kind, f), same_blobs(u, w, f))
        elif kind == "hist":
            out[member] = (16, elem(u, w, kind, f), same_hist(u, w))
        else:
            out[member] = (stride(u, kind), elem(u, w, kind, f), same_num(u, w, kind, f))
    return out


def unpacked_elem(u, w, kind, f):
    """what the loop invariant says about unpacked element q"""
    s = w.s

    def g(ex, st, q):
        ty = s.type(f, q) if f not in w.untyped else s.num("utype." + f, q, 0, 2 ** 32 - 1)
        cl = T.app("%s.uclean.%s" % (w.tag, f), q if isinstance(q, tuple) else (q,), "Bool")
        if kind == "ref":
            return fields(u, B(IPtr(s.addr(f, q)), s.len(f, q), ty, cl))
        if w.present(f, q) is not T.TRUE:
            # entries without this value: not described
            def pick(v, name, mk):
                return lambda ex, st: v if ex.decide(st, w.present(f, q)) else mk()
            L = layout(u)
            return {L["ptr"]: (PTRT, pick(Ptr(s.data(f, q), 0), "ptr", lambda: IPtr(s.num("anyptr." + f, q)))), L["len"]: (I64, pick(s.len(f, q), "len", lambda: s.num("anylen." + f, q))),
                    L["type"]: (I32, pick(ty, "type", lambda: s.num("anytype." + f, q, 0, 2 ** 32 - 1))), L["clean"]: (I8, T.ite(cl, 1, 0))}
        return fields(u, B(Ptr(s.data(f, q), 0), s.len(f, q), ty, cl))
    return g


def u_unpack(cls):
    def f(u):
        ex = u.ex
        d = cls.dirn
        fn = u.fn("Message::Unpacker::unpack(Message::%s::%s**, void*, unsigned long)" % (d, d))
        w = cls(u)
        w.mode = "unpack"
        w.s.nullable = False
        w.unpacked = True
        lemma_mono(u, w)
        arrays_by_contract(u)
        ex.templates = [lambda it: w.E(it)] + w.more_templates()
        w.contracts(u)
        S = sames(u, w)
        buf = ex.new_region("buf", "param", w.E(w.n), WireBase(w))
        outp = ex.new_region("outp", "param", I(8), StructBase("outp", {0: (PTRT, NULL)}))
        st = u.state()
        wire_facts(u, w, st)
        offs = {m: off(u, w, m) for m, _, _ in w.arrays()}

        class Facts(RegionInv):
            pass

        class Spec(LoopSpec):
            def facts(self, ex, st, it):
                for f in w.facts(it):
                    ex.assume(st, f)          # definition of E, not an invariant
                return []

            def region_inv(self, ex, st, r):
                if r.kind != "heap":
                    return None
                m = member_of(st, r)
                if m is None:
                    return None
                sz, el, same = S[m]
                return ElemInv("u." + m, sz, el, same)

        class Records(Spec):
            """the loop over the records of entry k"""

            def __init__(self, k):
                self.k = k
                self.templates = [lambda it: w.R(k, it)]

            def facts(self, ex, st, it):
                for f in w.facts(self.k) + w.rfacts(self.k, it):
                    ex.assume(st, f)
                return []

            def region_inv(self, ex, st, r):
                if r.kind != "heap":
                    return None
                for m in w.rec:
                    p = arr_of(st, m)
                    if p is not None:
                        p = ex.resolve(ex.load(st, Ptr(p.r, T.add(p.off, T.mulc(self.k, 8))), PTRT))
                        if isinstance(p, Ptr) and p.r is r:
                            return ElemInv("u.rec." + m, blob_size(u), lambda ex, st, j: rec_fields(u, w, m, (self.k, j)),
                                           lambda ex, st, r, j: same_blob(u, w, m)(ex, st, r, (self.k, j), T.mulc(j, blob_size(u))))
                return None

        def arr_of(st, m):
            for h in st.heap:
                if T.is_const(h.size) and T.cval(h.size) == size and h not in st.dead:
                    p = ex.resolve(ex.load(st, Ptr(h, offs[m]), PTRT))
                    if isinstance(p, Ptr):
                        return p
            return None

        def member_of(st, r):
            for m in offs:
                p = arr_of(st, m)
                if p is not None and p.r is r:
                    return m
            return None
        size = u.const("size_%s%s" % ("R" if d == "Response" else "", w.name))
        ex.loopspec = by_depth(ex, w, Spec, Records)

        def post(st):
            ex.oblig(st, T.eq(st.ret, u.const("msg_success")), "unpacking succeeds")
            p = ex.resolve(ex.load(st, Ptr(outp, 0), PTRT))
            if not isinstance(p, Ptr) or p.r in st.dead:
                ex.fail(st, "a message is returned")
                return
            for nm, ty, v in (("direction", I32, I(w.dir)), ("op", I32, I(w.op)), ("src", I32, w.src), ("dst", I32, w.dst), ("count", I64, w.n)):
                ex.oblig(st, T.eq(ex.load(st, Ptr(p.r, off(u, w, nm)), ty), v), "unpacked " + nm)
            k = ex.fresh("k", 0, None)
            ex.assume(st, T.lt(k, w.n))
            if not ex.feasible(st):
                return
            for m in offs:
                def one(s, m=m):
                    q = ex.resolve(ex.load(s, Ptr(p.r, offs[m]), PTRT))
                    if not isinstance(q, Ptr):
                        ex.fail(s, "unpacked %s: there is an array" % m)
                        return
                    S[m][2](ex, s, q.r, k)
                ex.with_forks([st.clone()], one)
        u.run(fn, st, [Ptr(outp, 0), Ptr(buf, 0), w.E(w.n)], post)
    return f
