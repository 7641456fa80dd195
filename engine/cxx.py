"""Symbolic execution of the C++ sources.

The repository's C++ files are compiled with clang to LLVM IR, together with
small drivers (/verif/cxx/*.cc) that call them with arrays of numbers.  Every
function of the IR is turned into a Python function over the values of
engine/sym.py, so that the same solver contexts decide the C++ code.  For
replays the same sources are compiled to a shared library and run natively.
"""
import ctypes as C
import math
import os
import shutil
import struct
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import sym
from .sym import Unsupported, is_sym
from .world import REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, "opensfm", "src")
BUILT = {}
FLAGS = ["-std=gnu++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off",
         "-DNDEBUG", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_DONT_PARALLELIZE", "-DVERIF_DRIVER",
         "-fno-math-errno", "-w", "-I" + SRC, "-I" + os.path.join(VERIF, "cxx"), "-isystem", "/usr/include/eigen3"]


class BuildError(Exception):
    pass


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-3000:]))


def build(name, sources=(), flags=(), libs=()):
    """Compile driver `name` and repository sources to bitcode and a library."""
    if name in BUILT:
        return BUILT[name]
    d = tempfile.mkdtemp(prefix="verif-cxx-")
    import atexit
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    fl = FLAGS + list(flags)
    bcs, objs = [], []

    def add(f, jobs):
        bc = os.path.join(d, "%d.bc" % len(bcs))
        so = os.path.join(d, "%d.o" % len(bcs))
        bcs.append(bc)
        objs.append(so)
        jobs.append(["clang++-18"] + fl + ["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-include", os.path.join(VERIF, "cxx", "rt", "pre.h"),
                     "-emit-llvm", "-c", f, "-o", bc])
        jobs.append(["clang++-18"] + fl + ["-fPIC", "-c", f, "-o", so])

    main = os.path.join(VERIF, "cxx", name + ".cc")
    files = [main] + [os.path.join(SRC, s) for s in sources]
    jobs = []
    for f in files:
        if os.path.exists(f):
            add(f, jobs)
    rt = os.path.join(d, "rt.bc")
    jobs.append(["clang++-18"] + fl + ["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-emit-llvm", "-c",
                 os.path.join(VERIF, "cxx", "rt", "rt.cc"), "-o", rt])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, jobs))
    bc = os.path.join(d, name + ".bc")
    so = os.path.join(d, name + ".so")

    def link(extra=()):
        _run(["clang++-18", "-shared", "-Wl,--no-undefined", "-o", so] + objs + list(libs) + list(extra))

    try:
        link()
    except BuildError as e:
        # code that moved to another source file of the same library
        if "undefined" not in str(e):
            raise
        import glob
        dirs = {os.path.dirname(f) for f in files[1:]} | {os.path.join(SRC, "foundation", "src")}
        more = [f for q in sorted(dirs) for f in sorted(glob.glob(q + "/*.cc")) if f not in files]

        def attempt(f):
            jobs = []
            add(f, jobs)
            return jobs

        todo = [(f, attempt(f)) for f in more]

        def one(t):
            try:
                for j in t[1]:
                    _run(j)
                return True
            except BuildError:
                return False

        with ThreadPoolExecutor(8) as ex:
            good = list(ex.map(one, todo))
        for (f, j), g in zip(todo, good):
            if not g:
                bcs.remove(j[0][-1])
                objs.remove(j[1][-1])
        try:
            link()
        except BuildError:
            link(["-lceres", "-lglog"])
    bcs.append(rt)
    _run(["llvm-link-18"] + bcs + ["-o", bc + ".all"])
    _run(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(driver_names(main)),
          bc + ".all", "-o", bc])
    for f in os.listdir(d):
        if not f.startswith(name):
            os.remove(os.path.join(d, f))
    BUILT[name] = (bc, so)
    return BUILT[name]


def driver_names(path):
    import re
    with open(path) as f:
        return re.findall(r"^DRIVER\((\w+)", f.read(), re.M)


# ---------------------------------------------------------------- LLVM API
_L = None


def llvm():
    global _L
    if _L is None:
        _L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
        P, U, I, LL = C.c_void_p, C.c_uint, C.c_int, C.c_ulonglong
        sigs = {
            "LLVMContextCreate": (P, []),
            "LLVMCreateMemoryBufferWithContentsOfFile": (I, [C.c_char_p, P, P]),
            "LLVMParseBitcodeInContext2": (I, [P, P, P]),
            "LLVMGetModuleDataLayout": (P, [P]),
            "LLVMGetFirstFunction": (P, [P]), "LLVMGetNextFunction": (P, [P]),
            "LLVMGetFirstGlobal": (P, [P]), "LLVMGetNextGlobal": (P, [P]),
            "LLVMGetFirstGlobalAlias": (P, [P]), "LLVMGetNextGlobalAlias": (P, [P]),
            "LLVMAliasGetAliasee": (P, [P]),
            "LLVMGetValueName2": (C.c_void_p, [P, P]),
            "LLVMIsDeclaration": (I, [P]), "LLVMGetInitializer": (P, [P]),
            "LLVMGetFirstBasicBlock": (P, [P]), "LLVMGetNextBasicBlock": (P, [P]),
            "LLVMGetFirstInstruction": (P, [P]), "LLVMGetNextInstruction": (P, [P]),
            "LLVMGetInstructionOpcode": (I, [P]), "LLVMGetConstOpcode": (I, [P]),
            "LLVMGetNumOperands": (I, [P]), "LLVMGetOperand": (P, [P, U]),
            "LLVMTypeOf": (P, [P]), "LLVMGetTypeKind": (I, [P]), "LLVMGetIntTypeWidth": (U, [P]),
            "LLVMGetValueKind": (I, [P]), "LLVMConstIntGetZExtValue": (LL, [P]),
            "LLVMConstRealGetDouble": (C.c_double, [P, P]),
            "LLVMCountStructElementTypes": (U, [P]), "LLVMStructGetTypeAtIndex": (P, [P, U]),
            "LLVMGetElementType": (P, [P]), "LLVMGetArrayLength": (U, [P]), "LLVMGetVectorSize": (U, [P]),
            "LLVMABISizeOfType": (LL, [P, P]), "LLVMStoreSizeOfType": (LL, [P, P]),
            "LLVMOffsetOfElement": (LL, [P, P, U]),
            "LLVMGetICmpPredicate": (I, [P]), "LLVMGetFCmpPredicate": (I, [P]),
            "LLVMGetAllocatedType": (P, [P]), "LLVMGetGEPSourceElementType": (P, [P]),
            "LLVMGetNumSuccessors": (U, [P]), "LLVMGetSuccessor": (P, [P, U]),
            "LLVMIsConditional": (I, [P]), "LLVMGetCondition": (P, [P]),
            "LLVMCountIncoming": (U, [P]), "LLVMGetIncomingValue": (P, [P, U]), "LLVMGetIncomingBlock": (P, [P, U]),
            "LLVMGetNumArgOperands": (U, [P]), "LLVMGetCalledValue": (P, [P]),
            "LLVMGetNormalDest": (P, [P]), "LLVMGetUnwindDest": (P, [P]),
            "LLVMGetNumIndices": (U, [P]), "LLVMGetIndices": (C.POINTER(U), [P]),
            "LLVMGetNumClauses": (U, [P]), "LLVMGetClause": (P, [P, U]), "LLVMIsCleanup": (I, [P]),
            "LLVMCountParams": (U, [P]), "LLVMGetParam": (P, [P, U]),
            "LLVMGetEnumAttributeKindForName": (U, [C.c_char_p, C.c_size_t]),
            "LLVMGetEnumAttributeAtIndex": (P, [P, U, U]), "LLVMGetTypeAttributeValue": (P, [P]),
            "LLVMGetElementAsConstant": (P, [P, U]), "LLVMGetAggregateElement": (P, [P, U]),
            "LLVMBasicBlockAsValue": (P, [P]), "LLVMValueAsBasicBlock": (P, [P]),
            "LLVMGlobalGetValueType": (P, [P]),
            "LLVMGetNumMaskElements": (U, [P]), "LLVMGetMaskValue": (I, [P, U]),
            "LLVMGetAtomicRMWBinOp": (I, [P]), "LLVMPrintValueToString": (C.c_void_p, [P]),
        }
        for n, (r, a) in sigs.items():
            f = getattr(_L, n)
            f.restype = r
            f.argtypes = a
    return _L


VOID, FLOAT, DOUBLE, FP80, INT, STRUCT, ARRAY, PTR, VEC = 0, 2, 3, 4, 8, 10, 11, 12, 13
M64 = (1 << 64) - 1
OFF = (1 << 32) - 1


class CxxExc(Exception):
    def __init__(self, ptr, ti):
        Exception.__init__(self, "C++ exception")
        self.ptr, self.ti = ptr, ti


class Undef:
    """A value that was never set; using it is an error."""

    def _bad(self, *a):
        raise Unsupported("use of a value that was never set")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __bool__ = __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = __neg__ = __abs__ = _bad
    __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = __lt__ = __gt__ = __le__ = __ge__ = _bad
    __eq__ = __ne__ = __int__ = __index__ = __float__ = __mod__ = __floordiv__ = _bad
    __hash__ = None


UNDEF = Undef()


class FloatDict(dict):
    pass


# ---------------------------------------------------------------- values
def sg(x, n):
    """The signed value of the n-bit integer x."""
    return x - (1 << n) if x >> (n - 1) else x


def _bits(v, n):
    if n == 8:
        return struct.unpack("<Q", struct.pack("<d", v))[0]
    return struct.unpack("<I", struct.pack("<f", v))[0]


def asfloat(v, n):
    if v.__class__ is int or v.__class__ is bool:
        if n == 8:
            return struct.unpack("<d", struct.pack("<Q", v & M64))[0]
        return struct.unpack("<f", struct.pack("<I", v & 0xFFFFFFFF))[0]
    return v


def asint(v, n):
    if v.__class__ is float:
        return _bits(v, n)
    return v


def bop(op, n):
    mask = (1 << n) - 1
    import operator as o
    f = {"add": o.add, "sub": o.sub, "mul": o.mul, "and": o.and_, "or": o.or_, "xor": o.xor}[op]

    def g(a, b):
        if a.__class__ is int and b.__class__ is int:
            return f(a, b) & mask
        if n == 1:
            if not is_sym(a) and not is_sym(b):
                return bool(f(int(a), int(b)) & 1)
            if op in ("add", "sub"):
                return tobool(a) ^ tobool(b)
            if op == "mul":
                return tobool(a) & tobool(b)
            return f(tobool(a), tobool(b))
        if a.__class__ is bool:
            a = int(a)
        if b.__class__ is bool:
            b = int(b)
        if a.__class__ is float:
            a = _bits(a, n // 8)
        if b.__class__ is float:
            b = _bits(b, n // 8)
        if not is_sym(a) and not is_sym(b):
            return f(a, b) & mask
        if isinstance(a, sym.SymReal) or isinstance(b, sym.SymReal):
            if op == "xor" and n == 64 and (a if not is_sym(a) else b) == 1 << 63:
                return -(a if is_sym(a) else b)
            if op == "and" and n == 64 and (a if not is_sym(a) else b) == (1 << 63) - 1:
                return abs(a if is_sym(a) else b)
            raise Unsupported("bits of a real number")
        a = sg(a, n) if a.__class__ is int else a
        b = sg(b, n) if b.__class__ is int else b
        if isinstance(a, sym.SymBool):
            a = a.asint()
        if isinstance(b, sym.SymBool):
            b = b.asint()
        if op in ("and", "or", "xor"):
            if op == "and" and b.__class__ is int and b & (b + 1) == 0 and b >= 0:
                return a % (b + 1)
            if op == "xor" and b.__class__ is int and b == -1:
                return -1 - a
            a, b = int(a), int(b)
            return f(a, b) & mask
        return f(a, b)
    return g


def tobool(x):
    if isinstance(x, sym.SymBool):
        return x
    if isinstance(x, sym.SymInt):
        return x != 0
    return bool(x & 1) if x.__class__ is int else x


def bnot(x):
    return ~x if isinstance(x, sym.SymBool) else not x


def idiv(op, n):
    mask = (1 << n) - 1

    def g(a, b):
        if op[0] == "s":
            a = sg(a, n) if a.__class__ is int else a
            b = sg(b, n) if b.__class__ is int else b
        if is_sym(a) or is_sym(b):
            if op in ("udiv", "urem"):
                return a // b if op == "udiv" else a % b
            if not is_sym(b) and b > 0:
                # rounds towards zero
                if a >= 0:
                    return a // b if op == "sdiv" else a % b
                return -((-a) // b) if op == "sdiv" else -((-a) % b)
            raise Unsupported("division of symbolic integers")
        if b == 0:
            raise CxxFault("integer division by zero")
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return (q if op[1:] == "div" else a - q * b) & mask
    return g


class CxxFault(Exception):
    """Undefined behaviour of the C++ code: a real failure."""


def shift(op, n):
    mask = (1 << n) - 1

    def g(a, b):
        a = asint(a, n // 8)
        if is_sym(b):
            b = int(b)
        if is_sym(a):
            if isinstance(a, sym.SymReal):
                raise Unsupported("bits of a real number")
            if isinstance(a, sym.SymBool):
                a = a.asint()
            if op == "shl":
                return a * (1 << b)
            return a // (1 << b)
        a = int(a)
        if op == "shl":
            return (a << b) & mask
        if op == "lshr":
            return a >> b
        return (sg(a, n) >> b) & mask
    return g


def icmp(pred, n):
    # 32 eq 33 ne 34 ugt 35 uge 36 ult 37 ule 38 sgt 39 sge 40 slt 41 sle
    import operator as o
    f = {32: o.eq, 33: o.ne, 34: o.gt, 35: o.ge, 36: o.lt, 37: o.le, 38: o.gt, 39: o.ge, 40: o.lt, 41: o.le}[pred]
    signed = pred >= 38
    half = 1 << (n - 1)
    full = 1 << n

    def g(a, b):
        if a.__class__ is int and b.__class__ is int:
            if signed:
                if a >= half:
                    a -= full
                if b >= half:
                    b -= full
            return f(a, b)
        if n == 1:
            a, b = tobool(a), tobool(b)
            if not is_sym(a) and not is_sym(b):
                return f(a, b)
            if pred == 32:
                return bnot(a ^ b)
            if pred == 33:
                return a ^ b
            a = a.asint() if is_sym(a) else int(a)
            b = b.asint() if is_sym(b) else int(b)
            return f(-a, -b) if signed else f(a, b)
        if a.__class__ is bool:
            a = int(a)
        if b.__class__ is bool:
            b = int(b)
        if a.__class__ is float:
            a = _bits(a, n // 8)
        if b.__class__ is float:
            b = _bits(b, n // 8)
        if not is_sym(a) and not is_sym(b):
            if a.__class__ is not int or b.__class__ is not int:
                raise Unsupported("comparison of %r and %r" % (a, b))
            return g(a, b)
        if isinstance(a, sym.SymReal) or isinstance(b, sym.SymReal):
            if pred == 40 and b == 0:
                return a < 0
            if pred == 38 and sg(b, n) == -1:
                return a >= 0
            raise Unsupported("bits of a real number")
        if isinstance(a, sym.SymBool):
            a = a.asint()
        if isinstance(b, sym.SymBool):
            b = b.asint()
        if signed or pred <= 33:
            a = sg(a, n) if a.__class__ is int else a
            b = sg(b, n) if b.__class__ is int else b
            return f(a, b)
        if not is_sym(b) and b < half:
            if pred == 36:
                return (a >= 0) & (a < b)
            if pred == 37:
                return (a >= 0) & (a <= b)
            if pred == 34:
                return (a < 0) | (a > b)
            return (a < 0) | (a >= b)
        if not is_sym(a) and a < half:
            if pred == 34:
                return (b >= 0) & (b < a)
            if pred == 35:
                return (b >= 0) & (b <= a)
            if pred == 36:
                return (b < 0) | (b > a)
            return (b < 0) | (b >= a)
        if bool(a >= 0) == bool(b >= 0):
            return f(a, b)
        raise Unsupported("unsigned comparison of numbers of different signs")
    return g


def fcmp(pred):
    def g(a, b):
        if pred == 7:
            return a == a and b == b if not (is_sym(a) or is_sym(b)) else nn(a, b)
        if pred == 8:
            return not (a == a and b == b) if not (is_sym(a) or is_sym(b)) else bnot(nn(a, b))
        p = pred
        if not (is_sym(a) or is_sym(b)):
            if a != a or b != b:
                return p >= 8
        elif not (nn(a, b) is True):
            return p >= 8
        k = p & 7
        if k == 1:
            return a == b
        if k == 2:
            return a > b
        if k == 3:
            return a >= b
        if k == 4:
            return a < b
        if k == 5:
            return a <= b
        if k == 6:
            return a != b
        return p == 15
    return g


def nn(a, b):
    """Neither is a NaN."""
    return not ((a.__class__ is float and a != a) or (b.__class__ is float and b != b))


def fdiv(a, b):
    if b.__class__ is float and b == 0.0:
        if is_sym(a):
            if a == 0:
                return math.nan
            return math.inf if bool(a > 0) == (math.copysign(1, b) > 0) else -math.inf
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    if b.__class__ is float and math.isinf(b) and is_sym(a):
        return 0.0
    if a.__class__ is float and is_sym(b) and math.isinf(a):
        return a if b > 0 else -a
    return a / b


def fbin(op):
    import operator as o
    f = {"add": o.add, "sub": o.sub, "mul": o.mul}[op]

    def g(a, b):
        if a.__class__ is float and (a - a != 0.0) and is_sym(b):
            if op == "mul":
                if b == 0:
                    return math.nan
                return a if b > 0 else -a
            return a
        if b.__class__ is float and (b - b != 0.0) and is_sym(a):
            if op == "sub":
                return -b
            if op == "mul":
                return g(b, a)
            return b
        return f(a, b)
    return g


def trunc_to(n):
    mask = (1 << n) - 1

    def g(v):
        if v.__class__ is int:
            return v & mask
        if n == 1:
            if isinstance(v, sym.SymBool):
                return v
            if isinstance(v, sym.SymInt):
                return v % 2 != 0
            return bool(int(v) & 1)
        if v.__class__ is float:
            return _bits(v, 8) & mask
        if v.__class__ is bool:
            return int(v)
        if isinstance(v, sym.SymReal):
            raise Unsupported("bits of a real number")
        return v
    return g


def zext(v):
    if v.__class__ is bool:
        return int(v)
    if isinstance(v, sym.SymBool):
        return v.asint()
    return v


def sext(a, b):
    mask = (1 << b) - 1

    def g(v):
        if v.__class__ is int or v.__class__ is bool:
            return sg(int(v), a) & mask
        if isinstance(v, sym.SymBool):
            return -v.asint()
        return v
    return g


def fptoint(n):
    mask = (1 << n) - 1

    def g(v):
        if isinstance(v, sym.SymInt):
            return v
        if is_sym(v):
            return v.trunc()
        if v != v or math.isinf(v):
            raise CxxFault("conversion of %r to an integer" % v)
        return int(v) & mask
    return g


def inttofp(n, signed):
    def g(v):
        if v.__class__ is int:
            return float(sg(v, n) if signed else v)
        if isinstance(v, sym.SymBool):
            v = v.asint()
            return (-v).toreal() if signed and n == 1 else v.toreal()
        if isinstance(v, sym.SymInt):
            return v.toreal()
        return float(v)
    return g


def tofloat(v):
    if v.__class__ is float:
        if v != v or math.isinf(v):
            return v
        try:
            return struct.unpack("<f", struct.pack("<f", v))[0]
        except OverflowError:
            return math.copysign(math.inf, v)
    return v


def ctx():
    return sym.CTX[0]


def _m1(pyf, symf):
    def g(x):
        if is_sym(x):
            return symf(x)
        try:
            return pyf(x)
        except ValueError:
            return math.nan
        except OverflowError:
            return math.inf
    return g


def _atan2(y, x):
    if is_sym(x) or is_sym(y):
        return ctx().atan2(y, x)
    return math.atan2(y, x)


def _pow(a, b):
    if is_sym(a) or is_sym(b):
        if not is_sym(b) and b == int(b):
            return ctx().power(a, int(b))
        return ctx().power(a, b)
    try:
        return math.pow(a, b)
    except ValueError:
        return math.nan
    except OverflowError:
        return math.inf


def _fmod(a, b):
    if is_sym(a) or is_sym(b):
        raise Unsupported("fmod")
    return math.fmod(a, b) if b else math.nan


def _sqrt(x):
    if is_sym(x):
        return ctx().sqrt(x)
    return math.sqrt(x) if x >= 0 else math.nan


def _tan(x):
    if is_sym(x):
        s, c = ctx().sincos(x)
        return s / c
    return math.tan(x)


def _minmax(lo):
    def g(a, b):
        if a.__class__ is float and a != a:
            return b
        if b.__class__ is float and b != b:
            return a
        return (a if a < b else b) if lo else (a if a > b else b)
    return g


def _ite_abs(x):
    return abs(x)


def _copysign(a, b):
    if is_sym(a) or is_sym(b):
        a = abs(a)
        return -a if b < 0 else a
    return math.copysign(a, b)


def _unsupported(name):
    def g(*a):
        raise Unsupported("C function " + name)
    return g


def _rint(x):
    if is_sym(x):
        return x.rint()
    return float(round(x))


def _round(x):
    if is_sym(x):
        h = x + 0.5
        if x >= 0:
            return h.floor()
        return (x - 0.5).ceil()
    return math.copysign(math.floor(abs(x) + 0.5), x)


def _floor(x):
    x = x.floor()
    if ctx().opts.get("whole") and is_sym(x):
        return float(int(x))
    return x


MATH = {
    "sqrt": _sqrt, "sin": _m1(math.sin, lambda x: ctx().sincos(x)[0]),
    "cos": _m1(math.cos, lambda x: ctx().sincos(x)[1]), "tan": _tan,
    "asin": _m1(math.asin, lambda x: ctx().asin(x)), "acos": _m1(math.acos, lambda x: ctx().acos(x)),
    "atan": _m1(math.atan, lambda x: ctx().atan2(x, 1.0)), "atan2": _atan2, "pow": _pow,
    "exp": _m1(math.exp, lambda x: x.exp()), "log": _m1(math.log, lambda x: x.log()),
    "fabs": abs, "floor": _m1(lambda x: float(math.floor(x)) if math.isfinite(x) else x, _floor),
    "ceil": _m1(lambda x: float(math.ceil(x)) if math.isfinite(x) else x, lambda x: x.ceil()),
    "trunc": _m1(lambda x: float(math.trunc(x)), lambda x: x.trunc().toreal()),
    "rint": _rint, "nearbyint": _rint, "round": _round,
    "fmod": _fmod, "hypot": lambda a, b: _sqrt(a * a + b * b),
    "fmin": _minmax(True), "fmax": _minmax(False), "copysign": _copysign,
    "cbrt": _m1(lambda x: math.copysign(abs(x) ** (1 / 3.0), x), lambda x: ctx().cbrt(x)),
}
for _n in list(MATH):
    MATH[_n + "f"] = (lambda f: lambda *a: tofloat(f(*a)))(MATH[_n])
MATH["minnum"], MATH["maxnum"] = MATH["fmin"], MATH["fmax"]


# ---------------------------------------------------------------- machine
class Machine:
    """Memory of one run."""

    def __init__(self, mod):
        self.mod = mod
        self.mem = {}
        self.size = {}
        self.next = mod.next_id
        self.exc_caught = []

    # objects
    def alloc(self, n):
        self.next += 1
        i = self.next
        if is_sym(n):
            n = int(n)
        if n > 1 << 30:
            raise CxxExc(0, self.mod.std_type("St9bad_alloc"))
        self.mem[i] = {}
        self.size[i] = n
        return i << 32

    def free(self, a):
        if a:
            i = a >> 32
            if i not in self.mem or a & OFF:
                raise CxxFault("free of memory that is not allocated")
            del self.mem[i]

    def obj(self, i):
        m = self.mod
        if i in m.tmpl:
            o = self.mem[i] = dict(m.tmpl[i])
            self.size[i] = m.tsize[i]
            return o
        if i == 0:
            raise CxxFault("access through a null pointer")
        if i in self.size:
            raise CxxFault("access to memory that was released")
        raise CxxFault("access through a wild pointer")

    def ld(self, a, n):
        o = self.mem.get(a >> 32)
        if o is None:
            o = self.obj(a >> 32)
        c = o.get(a & OFF)
        if c is not None and c[0] == n:
            return c[1]
        return self.ld_slow(o, a, n)

    def ld_slow(self, o, a, n):
        off = a & OFF
        if off + n > self.size[a >> 32]:
            raise CxxFault("read past the end of an object")
        out = 0
        k = 0
        some = False
        while k < n:
            p = off + k
            q = p
            while q not in o and q > p - 16 and q >= 0:
                q -= 1
            c = o.get(q)
            if c is None or q + c[0] <= p:
                k += 1
                if some:
                    continue  # padding of a wider read
                continue
            some = True
            v = c[1]
            if v is UNDEF:
                return UNDEF
            if v.__class__ is float:
                v = _bits(v, c[0])
            if v.__class__ is bool:
                v = int(v)
            if is_sym(v):
                if isinstance(v, (sym.SymInt, sym.SymBool)) and q == off and n <= c[0]:
                    return v
                if isinstance(v, (sym.SymInt, sym.SymBool)) and q == off and k == 0:
                    rest = [x for x in range(off + c[0], off + n) if x in o and o[x][1] != 0]
                    if not rest:
                        return v
                raise Unsupported("part of a symbolic value")
            if v.__class__ is tuple:
                raise Unsupported("part of a vector")
            v >>= 8 * (p - q)
            w = min(c[0] - (p - q), n - k)
            out |= (v & ((1 << 8 * w) - 1)) << (8 * k)
            k += w
        if not some:
            return UNDEF
        return out

    def st(self, a, n, v):
        o = self.mem.get(a >> 32)
        if o is None:
            o = self.obj(a >> 32)
        off = a & OFF
        c = o.get(off)
        if c is not None and c[0] == n:
            o[off] = (n, v)
            return
        if off + n > self.size[a >> 32]:
            raise CxxFault("write past the end of an object")
        self.clear(o, off, n)
        o[off] = (n, v)

    def clear(self, o, off, n):
        """Forget the bytes [off, off + n)."""
        if not o:
            return
        if n > 4 * len(o) + 64:
            ks = [p for p in o if off - 16 < p < off + n]
        else:
            ks = [p for p in range(max(off - 15, 0), off + n) if p in o]
        for p in ks:
            w, v = o[p]
            if p >= off and p + w <= off + n:
                del o[p]
            elif p + w > off and p < off + n:
                if is_sym(v) or v.__class__ is tuple:
                    raise Unsupported("part of a symbolic value overwritten")
                del o[p]
                if v is UNDEF:
                    continue
                if v.__class__ is float:
                    v = _bits(v, w)
                for k in range(w):
                    if not off <= p + k < off + n:
                        o[p + k] = (1, (int(v) >> 8 * k) & 255)

    def copy(self, d, s, n):
        if is_sym(n):
            n = int(n)
        if n == 0 or d == s:
            return
        so = self.mem.get(s >> 32)
        if so is None:
            so = self.obj(s >> 32)
        do = self.mem.get(d >> 32)
        if do is None:
            do = self.obj(d >> 32)
        sf, df = s & OFF, d & OFF
        if sf + n > self.size[s >> 32] or df + n > self.size[d >> 32]:
            raise CxxFault("copy past the end of an object")
        if n > 4 * len(so) + 64:
            ks = sorted(p for p in so if sf - 16 < p < sf + n)
        else:
            ks = [p for p in range(max(sf - 15, 0), sf + n) if p in so]
        cells = []
        for p in ks:
            w, v = so[p]
            if p >= sf and p + w <= sf + n:
                cells.append((p - sf, w, v))
            elif p + w > sf:
                if is_sym(v) or v is UNDEF or v.__class__ is tuple:
                    raise Unsupported("copy of a part of a symbolic value")
                if v.__class__ is float:
                    v = _bits(v, w)
                for k in range(w):
                    if sf <= p + k < sf + n:
                        cells.append((p + k - sf, 1, (int(v) >> 8 * k) & 255))
        self.clear(do, df, n)
        for p, w, v in cells:
            do[df + p] = (w, v)

    def fill(self, d, b, n):
        if is_sym(n):
            n = int(n)
        if n == 0:
            return
        b = int(b) & 255
        o = self.mem.get(d >> 32)
        if o is None:
            o = self.obj(d >> 32)
        off = d & OFF
        if off + n > self.size[d >> 32]:
            raise CxxFault("write past the end of an object")
        self.clear(o, off, n)
        word = int.from_bytes(bytes([b]) * 8, "little")
        p = off
        while p < off + n:
            w = 8 if p % 8 == 0 and p + 8 <= off + n else 4 if p % 4 == 0 and p + 4 <= off + n else 1
            o[p] = (w, word & ((1 << 8 * w) - 1))
            p += w

    def cstr(self, a):
        out = b""
        while True:
            c = self.ld(a, 1)
            if c == 0:
                return out
            out += bytes([c])
            a += 1

    def bytes(self, a, n):
        return [self.ld(a + i, 1) for i in range(n)]


class Mod:
    """A bitcode module, its functions made into Python functions on demand."""

    def __init__(self, path):
        L = llvm()
        self.L = L
        self.cx = L.LLVMContextCreate()
        buf = C.c_void_p()
        msg = C.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise BuildError("cannot read " + path)
        m = C.c_void_p()
        if L.LLVMParseBitcodeInContext2(self.cx, buf, C.byref(m)):
            raise BuildError("cannot parse " + path)
        self.m = m.value
        self.dl = L.LLVMGetModuleDataLayout(self.m)
        self.fnames = {}
        self.byname = {}
        self.faddr = {}
        self.afn = {}
        self.gaddr = {}
        self.tmpl = {}
        self.tsize = {}
        self.gname = {}
        self.types = {}
        self.pyfn = {}
        self.next_id = 16
        self.byval = L.LLVMGetEnumAttributeKindForName(b"byval", 5)
        f = L.LLVMGetFirstFunction(self.m)
        while f:
            n = self.name(f)
            self.fnames[f] = n
            self.byname[n] = f
            self.next_id += 1
            self.faddr[f] = self.next_id << 32
            self.afn[self.next_id << 32] = f
            f = L.LLVMGetNextFunction(f)
        gs = []
        g = L.LLVMGetFirstGlobal(self.m)
        while g:
            self.next_id += 1
            self.gaddr[g] = self.next_id << 32
            self.gname[self.next_id << 32] = self.name(g)
            gs.append(g)
            g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(self.m)
        self.alias = {}
        while a:
            self.alias[a] = L.LLVMAliasGetAliasee(a)
            a = L.LLVMGetNextGlobalAlias(a)
        self.std_types = {}
        self.globals = gs
        self.namedg = {self.gname[x]: x for x in self.gaddr.values()}
        for g in gs:
            self.init_global(g)
        self.cur = None
        self.ctor_done = False
        self.followed = set()

    def name(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def std_type(self, n):
        """Address of the type information of a standard class."""
        full = "_ZTI" + n
        if full in self.namedg:
            return self.namedg[full]
        if n not in self.std_types:
            self.next_id += 1
            self.std_types[n] = self.next_id << 32
            self.gname[self.next_id << 32] = full
            self.tmpl[self.next_id] = {}
            self.tsize[self.next_id] = 64
        return self.std_types[n]

    def init_global(self, g):
        L = self.L
        i = self.gaddr[g] >> 32
        t = L.LLVMGlobalGetValueType(g)
        self.tmpl[i] = {}
        try:
            self.tsize[i] = L.LLVMABISizeOfType(self.dl, t)
        except Exception:
            self.tsize[i] = 64
        if L.LLVMIsDeclaration(g):
            self.tsize[i] = max(self.tsize[i], 512)
            if self.gname[i << 32] == "__dso_handle" or True:
                return
        if self.gname[i << 32] in ("llvm.global_ctors", "llvm.used", "llvm.compiler.used"):
            return
        self.put_const(self.tmpl[i], 0, L.LLVMGetInitializer(g), t)

    def put_const(self, o, off, v, t):
        L = self.L
        vk = L.LLVMGetValueKind(v)
        tk = L.LLVMGetTypeKind(t)
        if vk in (14, 25):
            return
        if vk == 15:  # zero
            n = L.LLVMABISizeOfType(self.dl, t)
            self.put_zero(o, off, t)
            return
        if tk == STRUCT:
            for k in range(L.LLVMCountStructElementTypes(t)):
                self.put_const(o, off + L.LLVMOffsetOfElement(self.dl, t, k), L.LLVMGetAggregateElement(v, k), L.LLVMStructGetTypeAtIndex(t, k))
            return
        if tk in (ARRAY, VEC):
            n = L.LLVMGetArrayLength(t) if tk == ARRAY else L.LLVMGetVectorSize(t)
            et = L.LLVMGetElementType(t)
            es = L.LLVMABISizeOfType(self.dl, et)
            for k in range(n):
                self.put_const(o, off + k * es, L.LLVMGetAggregateElement(v, k), et)
            return
        o[off] = (L.LLVMStoreSizeOfType(self.dl, t), self.const(v))

    def put_zero(self, o, off, t):
        L = self.L
        tk = L.LLVMGetTypeKind(t)
        if tk == STRUCT:
            for k in range(L.LLVMCountStructElementTypes(t)):
                self.put_zero(o, off + L.LLVMOffsetOfElement(self.dl, t, k), L.LLVMStructGetTypeAtIndex(t, k))
        elif tk in (ARRAY, VEC):
            n = L.LLVMGetArrayLength(t) if tk == ARRAY else L.LLVMGetVectorSize(t)
            et = L.LLVMGetElementType(t)
            es = L.LLVMABISizeOfType(self.dl, et)
            for k in range(n):
                self.put_zero(o, off + k * es, et)
        else:
            o[off] = (L.LLVMStoreSizeOfType(self.dl, t), 0.0 if tk in (FLOAT, DOUBLE) else 0)

    def const(self, v):
        """The value of a constant."""
        L = self.L
        k = L.LLVMGetValueKind(v)
        t = L.LLVMTypeOf(v)
        if k == 18:
            n = L.LLVMGetIntTypeWidth(t)
            if n > 64:
                s = C.string_at(L.LLVMPrintValueToString(v)).decode().split()[1]
                return int(s) & ((1 << n) - 1)
            return L.LLVMConstIntGetZExtValue(v) & ((1 << n) - 1)
        if k == 19:
            if L.LLVMGetTypeKind(t) not in (FLOAT, DOUBLE):
                s = C.string_at(L.LLVMPrintValueToString(v)).decode().split()[1]
                return x87(s)
            lost = C.c_int()
            return L.LLVMConstRealGetDouble(v, C.byref(lost))
        if k == 20:
            return 0
        if k == 5:
            return self.faddr[v]
        if k == 8:
            return self.gaddr[v]
        if k == 6:
            return self.const(self.alias[v])
        if k in (14, 25):
            tk = L.LLVMGetTypeKind(t)
            if tk == STRUCT:
                return tuple(self.undef_of(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(L.LLVMCountStructElementTypes(t)))
            return self.undef_of(t)
        if k == 15:
            return self.zero_of(t)
        if k in (11, 12, 13, 16, 17):
            tk = L.LLVMGetTypeKind(t)
            n = L.LLVMCountStructElementTypes(t) if tk == STRUCT else L.LLVMGetArrayLength(t) if tk == ARRAY else L.LLVMGetVectorSize(t)
            return tuple(self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n))
        if k == 10:
            op = L.LLVMGetConstOpcode(v)
            ops = [L.LLVMGetOperand(v, i) for i in range(L.LLVMGetNumOperands(v))]
            if op == 29:
                base = self.const(ops[0])
                return (base + self.gep_const(v, ops[1:])) & M64
            if op in (39, 40, 41, 60):
                return self.const(ops[0])
            if op == 8:
                return (self.const(ops[0]) + self.const(ops[1])) & M64
            if op == 10:
                return (self.const(ops[0]) - self.const(ops[1])) & M64
            if op == 30:
                return self.const(ops[0]) & ((1 << L.LLVMGetIntTypeWidth(t)) - 1)
            raise Unsupported("constant expression %d" % op)
        raise Unsupported("constant kind %d" % k)

    def undef_of(self, t):
        L = self.L
        tk = L.LLVMGetTypeKind(t)
        if tk == STRUCT:
            return tuple(self.undef_of(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(L.LLVMCountStructElementTypes(t)))
        if tk in (ARRAY, VEC):
            n = L.LLVMGetArrayLength(t) if tk == ARRAY else L.LLVMGetVectorSize(t)
            return tuple(self.undef_of(L.LLVMGetElementType(t)) for i in range(n))
        return UNDEF

    def zero_of(self, t):
        L = self.L
        tk = L.LLVMGetTypeKind(t)
        if tk == STRUCT:
            return tuple(self.zero_of(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(L.LLVMCountStructElementTypes(t)))
        if tk in (ARRAY, VEC):
            n = L.LLVMGetArrayLength(t) if tk == ARRAY else L.LLVMGetVectorSize(t)
            return (self.zero_of(L.LLVMGetElementType(t)),) * n
        return 0.0 if tk in (FLOAT, DOUBLE) else 0

    def gep_const(self, v, idx):
        c, terms = self.gep_parts(v, idx)
        for x, s, n in terms:
            c += sg(self.const(x), n) * s
        return c

    def gep_parts(self, v, idx):
        """Constant offset and [(index value, scale, width)]."""
        L = self.L
        t = L.LLVMGetGEPSourceElementType(v)
        c = 0
        terms = []
        for j, x in enumerate(idx):
            k = L.LLVMGetValueKind(x)
            if j == 0:
                s = L.LLVMABISizeOfType(self.dl, t)
            else:
                tk = L.LLVMGetTypeKind(t)
                if tk == STRUCT:
                    i = self.const(x)
                    c += L.LLVMOffsetOfElement(self.dl, t, i)
                    t = L.LLVMStructGetTypeAtIndex(t, i)
                    continue
                t = L.LLVMGetElementType(t)
                s = L.LLVMABISizeOfType(self.dl, t)
            n = L.LLVMGetIntTypeWidth(L.LLVMTypeOf(x))
            if k == 18:
                c += sg(self.const(x), n) * s
            else:
                terms.append((x, s, n))
        return c, terms

    # ------------------------------------------------ functions
    def fn(self, f):
        p = self.pyfn.get(f)
        if p is None:
            n = self.fnames[f]
            if n in OVERRIDE and not self.L.LLVMIsDeclaration(f):
                p = OVERRIDE[n](self)
            elif self.L.LLVMIsDeclaration(f):
                p = self.external(n)
            else:
                p = Lower(self, f).make()
            self.pyfn[f] = p
        return p

    def call_addr(self, a):
        f = self.afn.get(a)
        if f is None:
            raise CxxFault("call through a wild pointer")
        return self.fn(f)

    def external(self, n):
        from . import cxxlib
        return cxxlib.external(self, n)

    def run_ctors(self):
        """Static initialisation, once, on plain values."""
        self.ctor_done = True
        L = self.L
        for g in self.globals:
            if self.gname[self.gaddr[g]] == "llvm.global_ctors":
                v = L.LLVMGetInitializer(g)
                n = L.LLVMGetArrayLength(L.LLVMTypeOf(v))
                todo = []
                for i in range(n):
                    e = L.LLVMGetAggregateElement(v, i)
                    todo.append((self.const(L.LLVMGetAggregateElement(e, 0)), self.const(L.LLVMGetAggregateElement(e, 1))))
                m = self.cur = Machine(self)
                for _, a in sorted(todo, key=lambda x: x[0]):
                    self.call_addr(a)()
                for i, o in m.mem.items():
                    self.tmpl[i] = o
                    self.tsize[i] = m.size[i]
                self.next_id = m.next

    def start(self):
        if not self.ctor_done:
            self.run_ctors()
        self.cur = Machine(self)
        return self.cur


def _log(mod):
    """RotationMatrixToVector, by the table of rotations of the context if asked for."""
    real = []

    def g(out, R):
        m = mod.cur
        M = [[asfloat(m.ld(R + 24 * j + 8 * i, 8), 8) for j in range(3)] for i in range(3)]
        if ctx() is not None and ctx().opts.get("rotations") and any(is_sym(x) for r in M for x in r):
            for i, x in enumerate(ctx().rot_log(M)):
                m.st(out + 8 * i, 8, x)
            return None
        if not real:
            real.append(Lower(mod, mod.byname[LOG]).make())
        return real[0](out, R)
    return g


def _exp(mod):
    real = []

    def g(out, v):
        m = mod.cur
        V = [asfloat(m.ld(v + 8 * i, 8), 8) for i in range(3)]
        if ctx() is not None and ctx().opts.get("rotations") and any(is_sym(x) for x in V):
            M = ctx().rot_exp(V)
            for i in range(3):
                for j in range(3):
                    m.st(out + 24 * j + 8 * i, 8, M[i][j])
            return None
        if not real:
            real.append(Lower(mod, mod.byname[EXP]).make())
        return real[0](out, v)
    return g


def _quaternions(name, n, fn):
    """Rotations of ceres, by the table of rotations of the context if asked for."""
    def make(mod):
        real = []

        def g(*a):
            m = mod.cur
            sizes, size = n
            V = [asfloat(m.ld(p + 8 * i, 8), 8) for p, k in zip(a, sizes) for i in range(k)]
            c = ctx()
            if c is not None and c.opts.get("quaternions") and any(is_sym(x) for x in V[:sizes[0]]):
                try:
                    out = fn(c, V)
                except sym.Unsupported:
                    out = None
                if out is not None:
                    for i, x in enumerate(out):
                        m.st(a[len(sizes)] + 8 * i, 8, x)
                    return None
            if not real:
                real.append(Lower(mod, mod.byname[name]).make())
            return real[0](*a)
        return g
    return make


def _rotate(c, V):
    R = c.rot_exp(V[:3])
    return [R[i][0] * V[3] + R[i][1] * V[4] + R[i][2] * V[5] for i in range(3)]


CERES = {
    "_ZN5ceres21AngleAxisToQuaternionIdEEvPKT_PS1_": (((3,), 4), lambda c, v: c.quat_exp(v)),
    "_ZN5ceres21QuaternionToAngleAxisIdEEvPKT_PS1_": (((4,), 3), lambda c, q: c.quat_log(q)),
    "_ZN5ceres20AngleAxisRotatePointIdEEvPKT_S3_PS1_": (((3, 3), 3), _rotate),
}

LOG = "_ZN8geometry22RotationMatrixToVectorERKN5Eigen6MatrixIdLi3ELi3ELi0ELi3ELi3EEE"
EXP = "_ZN8geometry22VectorToRotationMatrixERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEE"
OVERRIDE = {LOG: _log, EXP: _exp}
for _n, (_a, _f) in CERES.items():
    OVERRIDE[_n] = _quaternions(_n, _a, _f)


def x87(s):
    if s.startswith("0xK"):
        b = int(s[3:], 16)
        man = b & M64
        e = (b >> 64) & 0x7FFF
        v = math.ldexp(man, e - 16383 - 63)
        return -v if b >> 79 else v
    return float(s)


class Lower:
    """One IR function as Python source."""

    def __init__(self, mod, f):
        self.mod, self.f, self.L = mod, f, mod.L
        self.g = {"mod": mod, "inf": math.inf, "nan": math.nan, "UNDEF": UNDEF, "CxxExc": CxxExc,
                  "asfloat": asfloat, "asint": asint, "zext": zext, "tobool": tobool, "tofloat": tofloat,
                  "fdiv": fdiv, "is_sym": is_sym, "SymBool": sym.SymBool, "bnot": bnot, "fsel": fsel, "bsel": bsel}
        self.names = {}
        self.helpers = {}

    def h(self, make, *a):
        """The name of a helper function."""
        k = (make.__name__,) + a
        if k not in self.helpers:
            n = "%s_%s" % (make.__name__, "_".join(str(x) for x in a))
            self.helpers[k] = n
            self.g[n] = cached(make, *a)
        return self.helpers[k]

    def val(self, v):
        k = self.L.LLVMGetValueKind(v)
        if k in (24, 0):
            return self.names[v]
        c = self.mod.const(v)
        return self.lit(c)

    def lit(self, c):
        if c is UNDEF:
            return "UNDEF"
        if c.__class__ is tuple:
            return "(" + "".join(self.lit(x) + "," for x in c) + ")"
        if c.__class__ is float and (c < 0 or str(c)[0] == "-"):
            return "(%r)" % c
        return repr(c)

    def tk(self, v):
        return self.L.LLVMGetTypeKind(self.L.LLVMTypeOf(v))

    def bits(self, v):
        t = self.L.LLVMTypeOf(v)
        k = self.L.LLVMGetTypeKind(t)
        return self.L.LLVMGetIntTypeWidth(t) if k == INT else 64

    def make(self):
        L, f = self.L, self.f
        params = [L.LLVMGetParam(f, i) for i in range(L.LLVMCountParams(f))]
        for i, p in enumerate(params):
            self.names[p] = "a%d" % i
        blocks = []
        b = L.LLVMGetFirstBasicBlock(f)
        while b:
            blocks.append(b)
            b = L.LLVMGetNextBasicBlock(b)
        self.bidx = {b: i for i, b in enumerate(blocks)}
        n = 0
        insts = {}
        for b in blocks:
            li = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                self.names[i] = "v%d" % n
                n += 1
                li.append(i)
                i = L.LLVMGetNextInstruction(i)
            insts[b] = li
        self.phis = {b: [i for i in insts[b] if L.LLVMGetInstructionOpcode(i) == 44] for b in blocks}
        name = self.mod.fnames[f]
        out = ["def F(%s):" % ", ".join(["a%d" % i for i in range(len(params))] + ["*va"]), " M = mod.cur",
               " ld = M.ld; st = M.st"]
        for i, p in enumerate(params):
            at = L.LLVMGetEnumAttributeAtIndex(f, i + 1, self.mod.byval)
            if at:
                sz = L.LLVMABISizeOfType(self.mod.dl, L.LLVMGetTypeAttributeValue(at))
                out.append(" _t = M.alloc(%d); M.copy(_t, a%d, %d); a%d = _t" % (sz, i, sz, i))
        if len(blocks) > 1:
            out.append(" b = 0")
            out.append(" while True:")
            codes = [self.block(b, insts[b]) for b in blocks]
            self.tree(out, codes, 0, len(codes), "  ")
        else:
            out += [" " + x for x in self.block(blocks[0], insts[blocks[0]])]
        src = "\n".join(out) + "\n"
        try:
            code = compile(src, "<ir %s>" % name, "exec")
        except SyntaxError as e:
            raise Unsupported("translation of %s: %s: %s" % (name, e, src.split("\n")[e.lineno - 1]))
        exec(code, self.g)
        F = self.g["F"]
        if os.environ.get("VERIF_IR"):
            F.src = src
            with open(os.environ["VERIF_IR"], "a") as fo:
                fo.write("# %s\n%s\n" % (name, src))
        self.mod.followed.add(name)
        return F

    def tree(self, out, codes, lo, hi, ind):
        if hi - lo == 1:
            out += [ind + x for x in codes[lo]]
            return
        mid = (lo + hi) // 2
        out.append("%sif b < %d:" % (ind, mid))
        self.tree(out, codes, lo, mid, ind + " ")
        out.append("%selse:" % ind)
        self.tree(out, codes, mid, hi, ind + " ")

    def goto(self, frm, to):
        L = self.L
        lhs, rhs = [], []
        for p in self.phis[to]:
            for i in range(L.LLVMCountIncoming(p)):
                if L.LLVMGetIncomingBlock(p, i) == frm:
                    lhs.append(self.names[p])
                    rhs.append(self.val(L.LLVMGetIncomingValue(p, i)))
                    break
        r = []
        if lhs:
            r.append("%s = %s" % (", ".join(lhs), ", ".join(rhs)))
        r.append("b = %d" % self.bidx[to])
        r.append("continue")
        return r

    def block(self, b, insts):
        out = []
        for i in insts:
            op = self.L.LLVMGetInstructionOpcode(i)
            if op == 44:
                continue
            try:
                out += self.inst(b, i, op)
            except Unsupported as e:
                out.append("raise __import__('engine.sym').sym.Unsupported(%r)" % str(e))
                out = out
                if op in (1, 2, 3, 5, 7, 58):
                    break
        return out

    def inst(self, b, i, op):
        L, val = self.L, self.val
        dst = self.names[i]
        ops = [L.LLVMGetOperand(i, k) for k in range(L.LLVMGetNumOperands(i))]
        tk = self.tk(i)
        if op == 1:
            return ["return %s" % (val(ops[0]) if ops else "None")]
        if op == 2:
            n = L.LLVMGetNumSuccessors(i)
            if n == 1:
                return self.goto(b, L.LLVMGetSuccessor(i, 0))
            c = val(L.LLVMGetCondition(i))
            return (["if %s:" % c] + [" " + x for x in self.goto(b, L.LLVMGetSuccessor(i, 0))]
                    + self.goto(b, L.LLVMGetSuccessor(i, 1)))
        if op == 3:
            c = val(ops[0])
            out = []
            for k in range(2, len(ops), 2):
                out.append("if %s == %s:" % (c, self.lit(self.signed_const(ops[k], c))))
                out += [" " + x for x in self.goto(b, L.LLVMValueAsBasicBlock(ops[k + 1]))]
            d = L.LLVMValueAsBasicBlock(ops[1])
            pre = ["if is_sym(%s): _s = True" % c, "else: _s = False"]
            if any(self.mod.const(ops[k]) >> (self.bits(ops[0]) - 1) for k in range(2, len(ops), 2)):
                out = []
                n = self.bits(ops[0])
                for k in range(2, len(ops), 2):
                    u = self.mod.const(ops[k])
                    out.append("if %s == (%d if is_sym(%s) else %d):" % (c, sg(u, n), c, u))
                    out += [" " + x for x in self.goto(b, L.LLVMValueAsBasicBlock(ops[k + 1]))]
            return out + self.goto(b, d)
        if op == 7:
            return ["raise __import__('engine.cxx').cxx.CxxFault('unreachable code reached in %s')" % self.mod.fnames[self.f]]
        if op == 26:
            sz = L.LLVMABISizeOfType(self.mod.dl, L.LLVMGetAllocatedType(i))
            cnt = val(ops[0])
            return ["%s = M.alloc(%d * %s)" % (dst, sz, cnt)]
        if op == 27:
            t = L.LLVMTypeOf(i)
            return self.load(dst, val(ops[0]), t, tk)
        if op == 28:
            return self.store(val(ops[1]), val(ops[0]), L.LLVMTypeOf(ops[0]))
        if op == 29:
            if self.tk(i) == VEC:
                raise Unsupported("vector of pointers")
            c, terms = self.mod.gep_parts(i, ops[1:])
            e = val(ops[0])
            for x, s, n in terms:
                xv = val(x)
                if n != 64:
                    xv = "%s(%s)" % (self.h(sext, n, 64), xv)
                e += " + int(%s) * %d" % (xv, s)
            if c:
                e += " + %d" % c
            if terms or c < 0:
                return ["%s = (%s) & 0xFFFFFFFFFFFFFFFF" % (dst, e)]
            return ["%s = %s" % (dst, e)]
        if tk == VEC and op not in (52, 51, 45, 46, 54):
            return self.vector(i, op, ops, dst)
        if op in (9, 11, 13, 16, 18):
            a, c = val(ops[0]), val(ops[1])
            if op == 16:
                e = "fdiv(%s, %s)" % (a, c)
            elif op == 18:
                self.g["fmod_"] = MATH["fmod"]
                e = "fmod_(%s, %s)" % (a, c)
            else:
                e = "%s(%s, %s)" % (self.h(fbin, {9: "add", 11: "sub", 13: "mul"}[op]), a, c)
            if tk == FLOAT:
                e = "tofloat(%s)" % e
            return ["%s = %s" % (dst, e)]
        if op == 66:
            return ["%s = -%s" % (dst, val(ops[0]))]
        if op in (8, 10, 12, 23, 24, 25):
            n = self.bits(i)
            if n > 64 and op not in (8, 10, 12, 23, 24, 25):
                raise Unsupported("wide integers")
            return ["%s = %s(%s, %s)" % (dst, self.h(bop, {8: "add", 10: "sub", 12: "mul", 23: "and", 24: "or", 25: "xor"}[op], n), val(ops[0]), val(ops[1]))]
        if op in (14, 15, 17, 19) or op == 18:
            pass
        if op in (14, 15, 17, 18):
            pass
        if op in (14, 15):
            return ["%s = %s(%s, %s)" % (dst, self.h(idiv, "udiv" if op == 14 else "sdiv", self.bits(i)), val(ops[0]), val(ops[1]))]
        if op == 17:
            return ["%s = %s(%s, %s)" % (dst, self.h(idiv, "urem", self.bits(i)), val(ops[0]), val(ops[1]))]
        if op in (20, 21, 22):
            return ["%s = %s(%s, %s)" % (dst, self.h(shift, {20: "shl", 21: "lshr", 22: "ashr"}[op], self.bits(i)), val(ops[0]), val(ops[1]))]
        if op == 30:
            return ["%s = %s(%s)" % (dst, self.h(trunc_to, self.bits(i)), val(ops[0]))]
        if op == 31:
            return ["%s = zext(%s)" % (dst, val(ops[0]))]
        if op == 32:
            return ["%s = %s(%s)" % (dst, self.h(sext, self.bits(ops[0]), self.bits(i)), val(ops[0]))]
        if op in (33, 34):
            return ["%s = %s(%s)" % (dst, self.h(fptoint, self.bits(i)), val(ops[0]))]
        if op in (35, 36):
            e = "%s(%s)" % (self.h(inttofp, self.bits(ops[0]), op == 36), val(ops[0]))
            return ["%s = %s" % (dst, "tofloat(%s)" % e if tk == FLOAT else e)]
        if op == 37:
            return ["%s = tofloat(%s)" % (dst, val(ops[0]))] if tk == FLOAT else ["%s = %s" % (dst, val(ops[0]))]
        if op in (38, 39, 40, 60):
            return ["%s = %s" % (dst, val(ops[0]))]
        if op == 41:
            ok = self.tk(ops[0])
            if tk in (FLOAT, DOUBLE) and ok == INT:
                return ["%s = asfloat(%s, %d)" % (dst, val(ops[0]), 8 if tk == DOUBLE else 4)]
            if tk == INT and ok in (FLOAT, DOUBLE):
                return ["%s = asint(%s, %d)" % (dst, val(ops[0]), 8 if ok == DOUBLE else 4)]
            if tk == ok:
                return ["%s = %s" % (dst, val(ops[0]))]
            raise Unsupported("bitcast of a vector")
        if op == 42:
            return ["%s = %s(%s, %s)" % (dst, self.h(icmp, L.LLVMGetICmpPredicate(i), self.bits(ops[0])), val(ops[0]), val(ops[1]))]
        if op == 43:
            return ["%s = %s(%s, %s)" % (dst, self.h(fcmp, L.LLVMGetFCmpPredicate(i)), val(ops[0]), val(ops[1]))]
        if op == 46:
            a, x, y = [val(o) for o in ops]
            if tk == INT and self.bits(i) == 1:
                return ["%s = bsel(%s, %s, %s)" % (dst, a, x, y)]
            if self.tk(ops[0]) == VEC:
                raise Unsupported("select on vectors")
            return ["%s = %s if %s else %s" % (dst, x, a, y)]
        if op in (45, 5):
            return self.call(b, i, op, ops, dst, tk)
        if op == 53:
            n = L.LLVMGetNumIndices(i)
            ix = L.LLVMGetIndices(i)
            return ["%s = %s%s" % (dst, val(ops[0]), "".join("[%d]" % ix[k] for k in range(n)))]
        if op == 54:
            n = L.LLVMGetNumIndices(i)
            ix = [L.LLVMGetIndices(i)[k] for k in range(n)]
            self.g["insertv"] = insertv
            return ["%s = insertv(%s, %s, %r)" % (dst, val(ops[0]), val(ops[1]), ix)]
        if op == 50:
            return ["%s = %s[%s]" % (dst, val(ops[0]), val(ops[1]))]
        if op == 51:
            self.g["insertv"] = insertv
            return ["%s = insertv(%s, %s, [%s])" % (dst, val(ops[0]), val(ops[1]), val(ops[2]))]
        if op == 52:
            n = L.LLVMGetNumMaskElements(i)
            mk = [L.LLVMGetMaskValue(i, k) for k in range(n)]
            self.g["shuf"] = shuf
            return ["%s = shuf(%s, %s, %r)" % (dst, val(ops[0]), val(ops[1]), mk)]
        if op == 68:
            self.g["freeze"] = freeze
            return ["%s = freeze(%s, %s)" % (dst, val(ops[0]), self.lit(self.mod.zero_of(L.LLVMTypeOf(i))))]
        if op == 59:
            cl = [L.LLVMGetClause(i, k) for k in range(L.LLVMGetNumClauses(i))]
            cs = [self.mod.const(c) for c in cl]
            cs = [c for c in cs if c.__class__ is int]
            self.g["landing"] = landing
            return ["%s = landing(mod, exc, %r, %d)" % (dst, cs, L.LLVMIsCleanup(i))]
        if op == 58:
            return ["raise M.exc_caught.pop() if not isinstance(%s[0], CxxExc) else %s[0]" % (val(ops[0]), val(ops[0]))]
        if op == 55:
            return ["pass"]
        if op == 57:
            k = L.LLVMGetAtomicRMWBinOp(i)
            n = self.bits(i)
            sz = n // 8
            p, v = val(ops[0]), val(ops[1])
            out = ["%s = ld(%s, %d)" % (dst, p, sz)]
            if k == 0:
                return out + ["st(%s, %d, %s)" % (p, sz, v)]
            if k in (1, 2):
                return out + ["st(%s, %d, %s(%s, %s))" % (p, sz, self.h(bop, "add" if k == 1 else "sub", n), dst, v)]
            raise Unsupported("atomic operation")
        if op == 56:
            n = self.bits(ops[1])
            p, c, v = [val(o) for o in ops[:3]]
            return ["_o = ld(%s, %d)" % (p, n // 8), "_e = _o == %s" % c, "if _e: st(%s, %d, %s)" % (p, n // 8, v), "%s = (_o, _e)" % dst]
        raise Unsupported("instruction %d" % op)

    def signed_const(self, v, c):
        return self.mod.const(v)

    def load(self, dst, p, t, tk):
        L = self.L
        if tk == VEC:
            n = L.LLVMGetVectorSize(t)
            et = L.LLVMGetElementType(t)
            es = L.LLVMABISizeOfType(self.mod.dl, et)
            ek = L.LLVMGetTypeKind(et)
            one = "asfloat(ld(%s + %d, %d), %d)" if ek in (FLOAT, DOUBLE) else "asint(ld(%s + %d, %d), %d)"
            return ["%s = (%s,)" % (dst, ", ".join(one % (p, k * es, es, es) for k in range(n)))]
        if tk in (STRUCT, ARRAY):
            raise Unsupported("load of an aggregate")
        sz = L.LLVMStoreSizeOfType(self.mod.dl, t)
        if tk in (DOUBLE, FLOAT):
            return ["%s = ld(%s, %d)" % (dst, p, sz), "if %s.__class__ is int: %s = asfloat(%s, %d)" % (dst, dst, dst, sz)]
        if tk == FP80:
            return ["%s = ld(%s, 10)" % (dst, p)]
        if tk == INT and L.LLVMGetIntTypeWidth(t) == 1:
            return ["%s = tobool(ld(%s, 1))" % (dst, p)]
        return ["%s = ld(%s, %d)" % (dst, p, sz)]

    def store(self, p, v, t):
        L = self.L
        tk = L.LLVMGetTypeKind(t)
        if tk == VEC:
            n = L.LLVMGetVectorSize(t)
            es = L.LLVMABISizeOfType(self.mod.dl, L.LLVMGetElementType(t))
            return ["st(%s + %d, %d, %s[%d])" % (p, k * es, es, v, k) for k in range(n)]
        if tk in (STRUCT, ARRAY):
            out = []
            n = L.LLVMCountStructElementTypes(t) if tk == STRUCT else L.LLVMGetArrayLength(t)
            for k in range(n):
                et = L.LLVMStructGetTypeAtIndex(t, k) if tk == STRUCT else L.LLVMGetElementType(t)
                off = L.LLVMOffsetOfElement(self.mod.dl, t, k) if tk == STRUCT else k * L.LLVMABISizeOfType(self.mod.dl, et)
                out += self.store("(%s + %d)" % (p, off), "%s[%d]" % (v, k), et)
            return out
        sz = 10 if tk == FP80 else L.LLVMStoreSizeOfType(self.mod.dl, t)
        if tk == INT and L.LLVMGetIntTypeWidth(t) == 1:
            v = "zext(%s)" % v
        return ["st(%s, %d, %s)" % (p, sz, v)]

    def vector(self, i, op, ops, dst):
        L = self.L
        t = L.LLVMTypeOf(i)
        ek = L.LLVMGetTypeKind(L.LLVMGetElementType(t))
        n = L.LLVMGetVectorSize(t)
        vs = [self.val(o) for o in ops]
        if op == 41:
            raise Unsupported("bitcast of a vector")
        if op in (9, 11, 13):
            f = self.h(fbin, {9: "add", 11: "sub", 13: "mul"}[op])
        elif op == 16:
            f = "fdiv"
        elif op == 66:
            return ["%s = tuple(-x for x in %s)" % (dst, vs[0])]
        elif op in (8, 10, 12, 23, 24, 25) and ek == INT:
            w = L.LLVMGetIntTypeWidth(L.LLVMGetElementType(t))
            f = self.h(bop, {8: "add", 10: "sub", 12: "mul", 23: "and", 24: "or", 25: "xor"}[op], w)
        elif op in (38, 31):
            return ["%s = tuple(zext(x) for x in %s)" % (dst, vs[0])]
        elif op == 37:
            return ["%s = tuple(tofloat(x) for x in %s)" % (dst, vs[0])]
        elif op in (35, 36):
            w = L.LLVMGetIntTypeWidth(L.LLVMGetElementType(L.LLVMTypeOf(ops[0])))
            return ["%s = tuple(map(%s, %s))" % (dst, self.h(inttofp, w, op == 36), vs[0])]
        elif op in (33, 34):
            return ["%s = tuple(map(%s, %s))" % (dst, self.h(fptoint, L.LLVMGetIntTypeWidth(L.LLVMGetElementType(t))), vs[0])]
        elif op == 43:
            f = self.h(fcmp, L.LLVMGetFCmpPredicate(i))
        elif op == 42:
            f = self.h(icmp, L.LLVMGetICmpPredicate(i), L.LLVMGetIntTypeWidth(L.LLVMGetElementType(L.LLVMTypeOf(ops[0]))))
        else:
            raise Unsupported("vector instruction %d" % op)
        return ["%s = tuple(map(%s, %s, %s))" % (dst, f, vs[0], vs[1])]

    def call(self, b, i, op, ops, dst, tk):
        L = self.L
        cv = L.LLVMGetCalledValue(i)
        k = L.LLVMGetValueKind(cv)
        n = L.LLVMGetNumArgOperands(i)
        if k == 6:
            cv = self.mod.alias[cv]
            k = L.LLVMGetValueKind(cv)
        name = self.mod.fnames.get(cv, "")
        if name.startswith("llvm."):
            if any(name.startswith(p) for p in ("llvm.dbg", "llvm.lifetime", "llvm.invariant", "llvm.assume", "llvm.experimental", "llvm.prefetch", "llvm.donothing")):
                code = ["pass"]
            else:
                code = self.intrinsic(name, [self.val(o) for o in ops[:n]], dst, i, ops)
            if op == 5:
                code += self.goto(b, L.LLVMGetNormalDest(i))
            return code
        args = ", ".join(self.val(o) for o in ops[:n])
        if k == 5:
            fnn = "f%d" % (self.mod.faddr[cv] >> 32)
            if fnn not in self.g:
                self.g[fnn] = lazy(self.mod, cv, self.g, fnn)
            e = "%s(%s)" % (fnn, args)
        elif k == 23:
            raise Unsupported("inline assembly")
        else:
            e = "mod.call_addr(%s)(%s)" % (self.val(cv), args)
        st = e if tk == VOID else "%s = %s" % (dst, e)
        if op == 45:
            return [st]
        out = ["try:", " " + st, "except CxxExc as _x:", " exc = _x"]
        out += [" " + x for x in self.goto(b, L.LLVMGetUnwindDest(i))]
        return out + self.goto(b, L.LLVMGetNormalDest(i))

    def intrinsic(self, name, a, dst, i, ops):
        p = name.split(".")
        base = p[1]
        if base in ("memcpy", "memmove"):
            return ["M.copy(%s, %s, %s)" % (a[0], a[1], a[2])]
        if base == "memset":
            return ["M.fill(%s, %s, %s)" % (a[0], a[1], a[2])]
        if base in ("fmuladd", "fma"):
            return ["%s = %s * %s + %s" % (dst, a[0], a[1], a[2])]
        if base in MATH and base != "abs" and len(p) == 3 and p[2] in ("f64", "f32"):
            nm = "m_" + base + p[2]
            self.g[nm] = MATH[base] if p[2] == "f64" else MATH[base + "f"] if base + "f" in MATH else MATH[base]
            return ["%s = %s(%s)" % (dst, nm, ", ".join(a))]
        if base in MATH and len(p) == 3 and p[2].startswith("v"):
            nm = "m_" + base
            self.g[nm] = MATH[base]
            return ["%s = tuple(map(%s, %s))" % (dst, nm, ", ".join(a))]
        if base in ("smax", "smin", "umax", "umin", "abs"):
            n = int(p[-1][1:])
            if base == "abs":
                return ["%s = %s(%s)" % (dst, self.h(iabs, n), a[0])]
            pr = {"smax": 38, "smin": 40, "umax": 34, "umin": 36}[base]
            return ["%s = %s if %s(%s, %s) else %s" % (dst, a[0], self.h(icmp, pr, n), a[0], a[1], a[1])]
        if base in ("umul", "uadd", "usub", "sadd", "ssub", "smul") and "overflow" in name:
            n = int(p[-1][1:])
            return ["%s = %s(%s, %s)" % (dst, self.h(over, base, n), a[0], a[1])]
        if base in ("usub", "uadd") and p[2] == "sat":
            n = int(p[-1][1:])
            return ["%s = %s(%s, %s)" % (dst, self.h(sat, base, n), a[0], a[1])]
        if base == "is" and p[2] == "fpclass":
            return ["%s = %s(%s)" % (dst, self.h(fpclass, self.mod.const(ops[1])), a[0])]
        if base == "eh":
            return ["%s = %s" % (dst, a[0])]
        if base in ("ctpop", "ctlz", "cttz", "bswap", "fshl"):
            n = int(p[-1][1:])
            return ["%s = %s(%s)" % (dst, self.h(bitcount, base, n), ", ".join(a))]
        if base == "expect":
            return ["%s = %s" % (dst, a[0])]
        if base == "stacksave" or base == "stackrestore":
            return ["%s = 0" % dst]
        if base == "trap":
            return ["raise __import__('engine.cxx').cxx.CxxFault('trap')"]
        if base == "objectsize":
            return ["%s = 0xFFFFFFFFFFFFFFFF" % dst]
        if base == "is" and p[2] == "constant":
            return ["%s = False" % dst]
        if base == "vector" and p[2] == "reduce":
            w = p[3]
            if w in ("fadd", "fmul"):
                f = self.h(fbin, w[1:])
                self.g["reduce_"] = __import__("functools").reduce
                return ["%s = reduce_(%s, %s, %s)" % (dst, f, a[1], a[0])]
            if w in ("add", "mul", "and", "or", "xor"):
                t = self.L.LLVMTypeOf(i)
                f = self.h(bop, w, self.L.LLVMGetIntTypeWidth(t))
                self.g["reduce_"] = __import__("functools").reduce
                return ["%s = reduce_(%s, %s)" % (dst, f, a[0])]
        if base in ("va_start", "va_end"):
            return ["pass"]
        if base == "load" or base == "threadlocal":
            return ["%s = %s" % (dst, a[0])]
        raise Unsupported("intrinsic " + name)


_CACHE = {}


def cached(make, *a):
    k = (make.__name__,) + a
    if k not in _CACHE:
        _CACHE[k] = make(*a)
    return _CACHE[k]


def lazy(mod, f, g, name):
    def call(*a):
        p = mod.fn(f)
        g[name] = p
        return p(*a)
    return call


def fsel(c, a, b):
    return a if c else b


def bsel(c, a, b):
    """A choice between truth values, without a fork."""
    if not isinstance(c, sym.SymBool):
        return a if c else b
    a, b = tobool(a), tobool(b)
    if not isinstance(a, sym.SymBool) and not isinstance(b, sym.SymBool):
        if a is UNDEF or b is UNDEF:
            return a if c else b
        if bool(a) == bool(b):
            return a
        return c if a else ~c
    if a is UNDEF or b is UNDEF:
        return a if c else b
    return (c & a) | (~c & b)


def insertv(t, v, ix):
    t = list(t)
    if len(ix) == 1:
        t[ix[0]] = v
    else:
        t[ix[0]] = insertv(t[ix[0]], v, ix[1:])
    return tuple(t)


def shuf(a, b, mask):
    n = len(a)
    return tuple(UNDEF if k < 0 else a[k] if k < n else b[k - n] for k in mask)


def freeze(v, zero):
    if v is UNDEF:
        return zero
    if v.__class__ is tuple:
        return tuple(freeze(x, z) for x, z in zip(v, zero))
    return v


def iabs(n):
    def g(a):
        if a.__class__ is int:
            return abs(sg(a, n))
        return abs(a)
    return g


def over(op, n):
    mask = (1 << n) - 1

    def g(a, b):
        if is_sym(a) or is_sym(b):
            f = bop(op[1:], n)
            return (f(a, b), False)
        if op[0] == "s":
            a, b = sg(a, n), sg(b, n)
        r = {"add": a + b, "sub": a - b, "mul": a * b}[op[1:]]
        if op[0] == "u":
            return (r & mask, not 0 <= r <= mask)
        return (r & mask, not -(1 << n - 1) <= r < 1 << (n - 1))
    return g


def sat(op, n):
    mask = (1 << n) - 1

    def g(a, b):
        if is_sym(a) or is_sym(b):
            if op == "usub":
                return a - b if a >= b else 0
            return a + b
        return max(a - b, 0) if op == "usub" else min(a + b, mask)
    return g


def fpclass(mask):
    def g(v):
        if is_sym(v):
            if mask & 0x264 == mask & 0x3F8 & 0x264 and mask & 0x1F8 in (0x1F8,):
                return True
            if mask & 0x1F8 == 0x1F8:
                return True
            if mask & 0x1F8 == 0:
                return False
            raise Unsupported("class of a real number")
        if v != v:
            return bool(mask & 3)
        if math.isinf(v):
            return bool(mask & (0x200 if v > 0 else 4))
        if v == 0:
            return bool(mask & (0x40 if math.copysign(1, v) > 0 else 0x20))
        return bool(mask & (0x180 if v > 0 else 0x18))
    return g


def bitcount(op, n):
    def g(a, *r):
        if is_sym(a):
            a = int(a)
        if op == "ctpop":
            return bin(a).count("1")
        if op == "ctlz":
            return n - a.bit_length()
        if op == "cttz":
            return n if a == 0 else (a & -a).bit_length() - 1
        if op == "bswap":
            return int.from_bytes(a.to_bytes(n // 8, "little"), "big")
        b, s = r
        s %= n
        return ((a << s) | (b >> (n - s))) & ((1 << n) - 1) if s else a
    return g


STD_BASES = {
    "St13runtime_error": "St9exception", "St11logic_error": "St9exception", "St12out_of_range": "St11logic_error",
    "St16invalid_argument": "St11logic_error", "St12length_error": "St11logic_error", "St9bad_alloc": "St9exception",
    "St12domain_error": "St11logic_error", "St11range_error": "St13runtime_error", "St14overflow_error": "St13runtime_error",
    "St17bad_function_call": "St9exception", "St8bad_cast": "St9exception",
}


def is_a(mod, ti, want):
    """Whether the thrown type is the wanted one or derives from it."""
    if ti == want:
        return True
    n = mod.gname.get(ti, "")
    if n == mod.gname.get(want, "?"):
        return True
    if n[4:] in STD_BASES:
        return is_a(mod, mod.std_type(STD_BASES[n[4:]]), want)
    o = mod.tmpl.get(ti >> 32, {})
    c = o.get(16)
    if c is not None and c[1].__class__ is int and c[1] in mod.gname:
        return is_a(mod, c[1], want)
    return False


def landing(mod, exc, clauses, cleanup):
    for c in clauses:
        if c == 0 or is_a(mod, exc.ti, c):
            return (exc, c)
    return (exc, 0)


def functions():
    """Readable names of the repository's functions followed so far."""
    names = sorted(set(n for m in _MODS.values() for n in m.followed))
    if not names:
        return []
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    keep = ("geometry::", "map::", "geo::", "dense::", "bundle::", "sfm::", "foundation::", "robust::", "features::", "Track", "Observation")
    return sorted(set("c++: " + x[:120] for x in r.stdout.split("\n") if any(k in x.split("(")[0] for k in keep) and "std::" not in x.split("(")[0]))


# ---------------------------------------------------------------- drivers
_MODS = {}
_LIBS = {}


class Native:
    """The drivers of one C++ program, on symbolic or plain values."""

    def __init__(self, name, symbolic):
        self.name, self.symbolic = name, symbolic

    def call(self, fn, ins, nout=4096):
        ins = flatten(ins)
        bc, so = BUILT[self.name]
        if not self.symbolic:
            if self.name not in _LIBS:
                _LIBS[self.name] = C.CDLL(so)
            f = getattr(_LIBS[self.name], fn)
            f.restype = C.c_int
            a = (C.c_double * max(len(ins), 1))(*[float(x) for x in ins])
            out = (C.c_double * nout)()
            n = f(a, out)
            if n < 0:
                raise RuntimeError("C++ exception in " + fn)
            return list(out[:n])
        if self.name not in _MODS:
            _MODS[self.name] = Mod(bc)
        mod = _MODS[self.name]
        c = ctx()
        ms = c.__dict__.setdefault("cxx_machines", {})
        if ms.get("pass") is not c.decisions:
            ms.clear()
            ms["pass"] = c.decisions
        if self.name not in ms:
            ms[self.name] = mod.start()
        m = mod.cur = ms[self.name]
        a = m.alloc(8 * max(len(ins), 1))
        o = m.alloc(8 * nout)
        for i, x in enumerate(ins):
            if not is_sym(x):
                x = float(x)
            m.mem[a >> 32][8 * i] = (8, x)
        n = mod.fn(mod.byname[fn])(a, o)
        n = sg(int(n), 32)
        if n < 0:
            raise RuntimeError("C++ exception in " + fn)
        out = []
        for i in range(n):
            v = asfloat(m.ld(o + 8 * i, 8), 8)
            if v is UNDEF:
                raise CxxFault("output %d of %s was never set" % (i, fn))
            out.append(v)
        del m.mem[a >> 32], m.mem[o >> 32]
        return out


def flatten(x):
    if isinstance(x, (list, tuple)) or (hasattr(x, "__iter__") and not is_sym(x)):
        out = []
        for y in x:
            out += flatten(y)
        return out
    if isinstance(x, sym.SymBool):
        return [x.asint()]
    return [x]
