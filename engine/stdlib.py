"""Trusted contracts: C library, operator new/delete, libstdc++ internals,
pthread, logging.  Each one that a proof uses is listed in its evidence."""
from . import terms as T
from .terms import I, TRUE, FALSE
from .vals import *
from .exec import *


def trusted(desc):
    def deco(h):
        def g(ex, st, a):
            ex.trusted[ex.callname] = desc
            return h(ex, st, a)
        return g
    return deco


@trusted("copies n bytes; source and destination as given")
def c_memcpy(ex, st, a):
    ex.copy_mem(st, a[0], a[1], a[2])
    return a[0]


@trusted("fills n bytes")
def c_memset(ex, st, a):
    ex.fill(st, a[0], T.mod(a[1], 256), a[2])
    return a[0]


@trusted("sign of the lexicographic byte comparison of two n-byte ranges; reads both ranges")
def c_memcmp(ex, st, a):
    n = a[2]
    if ex.decide(st, T.eq(n, 0)):
        return I0
    r1, o1 = ex.region_of(st, a[0], "read")
    r2, o2 = ex.region_of(st, a[1], "read")
    ex.bounds(st, r1, o1, n, "memcmp read")
    ex.bounds(st, r2, o2, n, "memcmp read")
    res = ex.fresh("memcmp", 0, 2 ** 32 - 1)
    h = ex.memcmp_hook
    if h:
        h(st, res, (r1, o1), (r2, o2), n)
    return res


@trusted("returns a new object of the requested size, never null (no allocation failure)")
def op_new(ex, st, a):
    return Ptr(ex.alloc(st, a[0], "heap", "new"), 0)


@trusted("releases an object obtained from operator new; null is allowed")
def op_delete(ex, st, a):
    ex.free(st, a[0])
    return None


@trusted("returns a new object of the requested size, never null (no allocation failure)")
def c_malloc(ex, st, a):
    return Ptr(ex.alloc(st, a[0], "heap", "malloc"), 0)


@trusted("returns a new zeroed object")
def c_calloc(ex, st, a):
    return Ptr(ex.alloc(st, T.mul(a[0], a[1]), "heap", "calloc", ZeroBase()), 0)


@trusted("no effect on program state")
def noop(ex, st, a):
    return UNDEF


@trusted("returns an arbitrary value, no effect on program state")
def arb(ex, st, a):
    ty = ex.callins.ty
    return ex.fresh_of(ty, "ext") if ty != ("void",) else None


@trusted("does not return")
def noreturn(ex, st, a):
    raise Dead()


@trusted("throws; the path ends")
def throws(ex, st, a):
    ex.throws.append(st)
    raise Dead()


@trusted("length of a NUL-terminated string")
def c_strlen(ex, st, a):
    r, off = ex.region_of(st, a[0], "read")
    t = T.app("strlen.%s.%d" % (r.name, r.n), (off,))
    ex.setrange(t, 0, 2 ** 40)
    return t


@trusted("returns 0 (locking an initialised mutex succeeds); mutual exclusion not modelled")
def zero(ex, st, a):
    return I0


@trusted("whether a message is logged: arbitrary, but the same for all messages")
def logging(ex, st, a):
    return ex.var("logging", 0, 1)


def install(ex):
    c = ex.contracts
    c["mlog_filter(int)"] = logging
    ex.memcmp_hook = None
    for n in ("memcpy", "memmove"):
        c[n] = c_memcpy
    c["memset"] = c_memset
    c["memcmp"] = c_memcmp
    c["strlen"] = c_strlen
    for n in ("_Znwm", "_Znam", "operator new(unsigned long)", "operator new[](unsigned long)"):
        c[n] = op_new
    c["_ZnwmRKSt9nothrow_t"] = op_new
    c["_ZnamRKSt9nothrow_t"] = op_new
    for n in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free"):
        c[n] = op_delete
    c["malloc"] = c_malloc
    c["calloc"] = c_calloc
    for n in ("mlog", "mlog_log", "mlog_exit", "printf", "fprintf", "gettimeofday"):
        c[n] = noop
    for n in ("__cxa_throw", "_ZSt9terminatev", "_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv",
              "_ZSt28__throw_bad_array_new_lengthv", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc",
              "__clang_call_terminate", "abort"):
        c[n] = throws
    for n in ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy",
              "__gthread_mutex_lock", "__gthread_mutex_unlock", "pthread_cond_signal", "pthread_cond_broadcast"):
        c[n] = zero
