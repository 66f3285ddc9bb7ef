"""What the contracts know about Blob: where its fields are is read off its
getters, everything else is stated over (data, size, type, ownership)."""
from engine.session import *
from engine import terms as T

TYPE_INVALID = 0


def layout(u):
    """offsets of ptr, len, type, clean: what data(), size(), data_type(), will_clean() return"""
    ex = u.ex
    if getattr(ex, "blob_layout", None):
        return ex.blob_layout
    out = {}
    for f, k in (("data", "ptr"), ("size", "len"), ("data_type", "type"), ("will_clean", "clean")):
        fn = ex.find_fn("Blob::%s() const" % f)
        if fn is None:
            raise Unsupported("Blob::%s not found" % f)
        r = ex.new_region("probe", "param", None, UFBase("probe"))
        rs = ex.run_function(fn, State(), [Ptr(r, 0)])
        if len(rs) != 1:
            raise Unsupported("Blob::%s is not a plain getter" % f)
        v = rs[0].ret
        t = v.t if isinstance(v, IPtr) else v
        ats = [a for a in T.atoms(t) if a.op.startswith("app:m") and a.op.endswith(".probe")]
        if len(ats) != 1 or not T.is_const(ats[0].args[0]):
            raise Unsupported("Blob::%s is not a plain getter" % f)
        out[k] = T.cval(ats[0].args[0])
        out[k + "_n"] = int(ats[0].op[5:ats[0].op.index(".")])
    m = fn.module
    ex.blob_layout = out
    out["size"] = blob_size(u)
    return out


def blob_size(u):
    for m in u.prog.mods:
        for n in m.types:
            if n in ("class.Blob", "struct.Blob"):
                return m.size(("named", n))
    raise Unsupported("no Blob type")


class B:
    """symbolic state of a blob"""

    def __init__(self, ptr, len, type, clean):
        self.ptr, self.len, self.type, self.clean = ptr, len, type, clean


def fields(u, b, at=0):
    L = layout(u)
    return {at + L["ptr"]: (PTRT, b.ptr), at + L["len"]: (I64, b.len), at + L["type"]: (I32, b.type), at + L["clean"]: (I8, T.ite(b.clean, 1, 0))}


def mk(u, name, null=False, clean=None, data=None, size=None):
    """an arbitrary value object; (region, B).  Its pointer is null or a heap buffer"""
    ex = u.ex
    n = size if size is not None else ex.var(name + ".len", 0, 2 ** 40)
    ty = ex.var(name + ".type", 0, 2 ** 32 - 1)
    cl = clean if clean is not None else T.var(name + ".clean", "Bool")
    if null:
        p = NULL
    elif data is not None:
        p = data
    else:
        buf = ex.new_region(name + ".data", "heap", n, UFBase(name + ".data"))
        p = Ptr(buf, 0)
    b = B(p, n, ty, cl)
    r = ex.new_region(name, "param", I(blob_size(u)), StructBase(name, fields(u, b)))
    return r, b


def get(u, st, r, at=0):
    """fields of the blob object in region r"""
    ex, L = u.ex, layout(u)
    at = T.toint(at)
    p = ex.load(st, Ptr(r, T.add(at, L["ptr"])), PTRT)
    n = ex.load(st, Ptr(r, T.add(at, L["len"])), I64)
    ty = ex.load(st, Ptr(r, T.add(at, L["type"])), I32)
    c = ex.load(st, Ptr(r, T.add(at, L["clean"])), I8)
    return B(p, n, ty, T.ne(c, 0))


def same_bool(a, b):
    return T.or_(T.and_(a, b), T.and_(T.not_(a), T.not_(b)))


def expect(u, st, got, want, what):
    ex = u.ex
    ex.oblig(st, ex.ptr_eq(st, got.ptr, want.ptr), what + ": points at the right buffer")
    ex.oblig(st, T.eq(got.len, want.len), what + ": length")
    ex.oblig(st, T.eq(got.type, want.type), what + ": type")
    ex.oblig(st, same_bool(got.clean, want.clean), what + ": ownership")


def empty():
    return B(NULL, I(0), I(TYPE_INVALID), T.FALSE)


def released(u, st, b, cond, what):
    """the buffer is released on this path exactly if cond"""
    if not isinstance(b.ptr, Ptr):
        return
    dead = b.ptr.r in st.dead
    u.ex.oblig(st, cond if dead else T.not_(cond), "%s is %s" % (what, "released only when owned" if dead else "released when owned"))
