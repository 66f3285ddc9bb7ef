"""Run-time values of the symbolic executor (besides Terms)."""
from . import terms as T


class Region:
    """A memory object.  `fam`/`idx`: member of an indexed family of objects."""
    __slots__ = ("name", "kind", "size", "base", "fam", "idx", "info", "n")
    _n = 0

    def __init__(self, name, kind, size, base=None, fam=None, idx=None, info=None):
        Region._n += 1
        self.n = Region._n
        self.name = name
        self.kind = kind
        self.size = size          # Term or None (unknown)
        self.base = base
        self.fam = fam
        self.idx = idx
        self.info = info

    def __repr__(self):
        return "<%s%s>" % (self.name, "" if self.idx is None else "[%s]" % self.idx)


class Ptr:
    __slots__ = ("r", "off")

    def __init__(self, r, off=0):
        self.r = r
        self.off = T.toint(off)

    def __repr__(self):
        return "&%r+%s" % (self.r, self.off)


class IPtr:
    """pointer known only as an integer address (0 = null)"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = T.toint(t)

    def __repr__(self):
        return "iptr(%s)" % self.t


NULL = IPtr(0)


class FuncPtr:
    __slots__ = ("name", "mod")

    def __init__(self, name, mod):
        self.name = name
        self.mod = mod

    def __repr__(self):
        return "fn " + self.name


class Agg:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = list(f)

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.f))


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


def isnull(p):
    return isinstance(p, IPtr) and p.t.op == "lin" and p.t.args == (0, ())


# ------------------------------------------------------------- write log
class Node:
    __slots__ = ("prev", "k", "off", "n", "a", "b", "c", "depth")

    def __init__(self, prev, k, off, n, a=None, b=None, c=None):
        self.prev = prev
        self.k = k        # 'S' store, 'C' copy, 'F' fill, 'H' havoc
        self.off = off
        self.n = n        # Term, or None for "the whole object"
        self.a = a
        self.b = b
        self.c = c
        self.depth = 1 + (prev.depth if prev is not None else 0)

    def __repr__(self):
        return "%s@%s+%s %r" % (self.k, self.off, self.n, self.a)


# ------------------------------------------------------------- base contents
class Base:
    def read(self, ex, st, r, off, size, ty):
        raise NotImplementedError


class UFBase(Base):
    """unknown bytes: an uninterpreted function of (index,) offset and width"""

    def __init__(self, name, idx=()):
        self.name = name
        self.idx = tuple(idx)

    def read(self, ex, st, r, off, size, ty):
        if ty[0] == "f64" or ty[0] == "f32":
            return T.app("m%s.%s" % (ty[0], self.name), self.idx + (off,), "F64" if ty[0] == "f64" else "F32")
        t = T.app("m%d.%s" % (size, self.name), self.idx + (off,))
        ex.setrange(t, 0, 256 ** size - 1)
        return ex.from_int(st, t, ty)


class UninitBase(Base):
    def read(self, ex, st, r, off, size, ty):
        return ex.fresh_of(ty, "undef")


class ZeroBase(Base):
    def read(self, ex, st, r, off, size, ty):
        return ex.zero_of(ty)


class StructBase(Base):
    """fixed-offset fields given by a dict off -> (ty, value | callable);
    fields not given are unknown (cached)."""

    def __init__(self, name, fields, idx=()):
        self.name = name
        self.fields = fields
        self.uf = UFBase(name, idx)

    def read(self, ex, st, r, off, size, ty):
        if T.is_const(off):
            o = T.cval(off)
            f = self.fields.get(o)
            if f is not None:
                fty, v = f
                if callable(v):
                    v = v(ex, st)
                if ex.mod_size(fty) == size:
                    return ex.retype(st, v, fty, ty)
                if ex.mod_size(fty) > size:
                    return ex.subread(st, v, fty, I0, size, ty)
            else:
                for fo, (fty, v) in self.fields.items():
                    if fo <= o and o + size <= fo + ex.mod_size(fty):
                        if callable(v):
                            v = v(ex, st)
                        return ex.subread(st, v, fty, T.I(o - fo), size, ty)
        return self.uf.read(ex, st, r, off, size, ty)


class ArrayBase(Base):
    """array of `stride`-sized elements; elem(ex, st, index) -> {off: (ty, value)}"""

    def __init__(self, name, stride, elem, idx=()):
        self.name = name
        self.stride = stride
        self.elem = elem
        self.uf = UFBase(name, idx)

    def read(self, ex, st, r, off, size, ty):
        q, d = ex.split_index(st, off, self.stride)
        if q is None:
            return self.uf.read(ex, st, r, off, size, ty)
        fields = self.elem(ex, st, q)
        f = fields.get(d)
        if f is None:
            for fo, (fty, v) in fields.items():
                if fo <= d and d + size <= fo + ex.mod_size(fty):
                    if callable(v):
                        v = v(ex, st)
                    return ex.subread(st, v, fty, T.I(d - fo), size, ty)
            return self.uf.read(ex, st, r, off, size, ty)
        fty, v = f
        if callable(v):
            v = v(ex, st)
        if ex.mod_size(fty) == size:
            return ex.retype(st, v, fty, ty)
        if ex.mod_size(fty) > size:
            return ex.subread(st, v, fty, I0, size, ty)
        return self.uf.read(ex, st, r, off, size, ty)


class InitBase(Base):
    """constant initializer of a global"""

    def __init__(self, mod, ty, init):
        self.mod = mod
        self.ty = ty
        self.init = init

    def read(self, ex, st, r, off, size, ty):
        if not T.is_const(off):
            off = ex.enum_const(st, off, r)
        return ex.read_init(self.mod, self.ty, self.init, T.cval(off), size, ty)


I0 = T.I(0)
