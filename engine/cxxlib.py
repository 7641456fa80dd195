"""C and C++ library functions for engine/cxx.py."""
from . import sym
from .cxx import MATH, CxxExc, CxxFault, _unsupported, sg
from .sym import Unsupported, is_sym

NOOP = {
    "__cxa_atexit", "__cxa_guard_release", "__cxa_end_catch", "__cxa_free_exception", "__cxa_guard_abort",
    "_ZNSt13runtime_errorD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt8ios_base4InitC1Ev",
    "_ZNSt8ios_base4InitD1Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt16invalid_argumentD1Ev",
    "pthread_mutex_lock", "pthread_mutex_unlock",
}
THROW = {
    "_ZSt20__throw_length_errorPKc": "St12length_error", "_ZSt17__throw_bad_allocv": "St9bad_alloc",
    "_ZSt20__throw_out_of_rangePKc": "St12out_of_range", "_ZSt24__throw_out_of_range_fmtPKcz": "St12out_of_range",
    "_ZSt19__throw_logic_errorPKc": "St11logic_error", "_ZSt25__throw_bad_function_callv": "St17bad_function_call",
    "_ZSt28__throw_bad_array_new_lengthv": "St9bad_alloc", "_ZSt24__throw_invalid_argumentPKc": "St16invalid_argument",
    "_ZSt16__throw_bad_castv": "St8bad_cast", "_ZSt21__throw_runtime_errorPKc": "St13runtime_error",
}


def external(mod, n):
    if n in MATH:
        return MATH[n]
    if n in NOOP:
        return lambda *a: 0
    if n in THROW:
        def throw(*a):
            raise CxxExc(mod.cur.alloc(64), mod.std_type(THROW[n]))
        return throw
    if n in ("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "__cxa_allocate_exception"):
        return lambda k, *a: mod.cur.alloc(k)
    if n in ("aligned_alloc", "memalign"):
        return lambda al, k: mod.cur.alloc(k)
    if n == "posix_memalign":
        def pm(p, al, k):
            mod.cur.st(p, 8, mod.cur.alloc(k))
            return 0
        return pm
    if n == "calloc":
        def calloc(a, b):
            p = mod.cur.alloc(a * b)
            mod.cur.fill(p, 0, a * b)
            return p
        return calloc
    if n == "realloc":
        def realloc(p, k):
            m = mod.cur
            q = m.alloc(k)
            if p:
                m.copy(q, p, min(m.size[p >> 32], k))
                m.free(p)
            return q
        return realloc
    if n in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"):
        def free(p, *a):
            mod.cur.free(p)
        return free
    if n in ("memcpy", "memmove"):
        def cp(d, s, k):
            mod.cur.copy(d, s, k)
            return d
        return cp
    if n == "memset":
        def ms(d, b, k):
            mod.cur.fill(d, b, k)
            return d
        return ms
    if n in ("memcmp", "bcmp"):
        def cmp(a, b, k):
            m = mod.cur
            for i in range(int(k)):
                x, y = m.ld(a + i, 1), m.ld(b + i, 1)
                if x != y:
                    return 1 if x > y else 0xFFFFFFFF
            return 0
        return cmp
    if n == "strlen":
        return lambda a: len(mod.cur.cstr(a))
    if n == "memchr":
        def mc(a, c, k):
            for i in range(int(k)):
                if mod.cur.ld(a + i, 1) == c & 255:
                    return a + i
            return 0
        return mc
    if n == "strcmp":
        def sc(a, b):
            x, y = mod.cur.cstr(a), mod.cur.cstr(b)
            return 0 if x == y else 1 if x > y else 0xFFFFFFFF
        return sc
    if n == "__cxa_throw":
        def throw(p, ti, d):
            raise CxxExc(p, ti)
        return throw
    if n == "__cxa_begin_catch":
        def begin(e):
            mod.cur.exc_caught.append(e)
            return e.ptr if isinstance(e, CxxExc) else e
        return begin
    if n == "__cxa_rethrow":
        def re():
            raise mod.cur.exc_caught[-1]
        return re
    if n == "__cxa_guard_acquire":
        def acq(p):
            m = mod.cur
            v = m.ld(p, 1)
            if v.__class__ is int and v:
                return 0
            m.st(p, 1, 1)
            return 1
        return acq
    if n in ("_ZSt9terminatev", "abort", "__clang_call_terminate"):
        def die(*a):
            raise CxxFault("the program aborts")
        return die
    if n in ("__assert_fail",):
        def af(*a):
            raise CxxFault("assertion fails: " + mod.cur.cstr(a[0]).decode())
        return af
    if n.startswith("_ZNSt") and ("errorC1E" in n or "errorC2E" in n or "out_of_rangeC" in n or "invalid_argumentC" in n or "errorD" in n):
        return lambda *a: 0
    if n == "__cxa_pure_virtual":
        def pv(*a):
            raise CxxFault("pure virtual function called")
        return pv
    if n == "__cxa_get_exception_ptr":
        return lambda e: e.ptr if isinstance(e, CxxExc) else e
    if n == "__dynamic_cast":
        return dyncast(mod)
    return _unsupported(n)


def dyncast(mod):
    from .cxx import is_a

    def f(p, src, dst, hint):
        if not p:
            return 0
        vt = mod.cur.ld(p, 8)
        ti = mod.cur.ld(vt - 8, 8)
        top = sg(mod.cur.ld(vt - 16, 8), 64)
        return p + top if is_a(mod, ti, dst) else 0
    return f
