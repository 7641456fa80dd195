"""Symbolic values for executing the real Python functions of /repo.

A value is a z3 term.  Branching on a symbolic truth value asks the current
exploration context which way to go; the context explores every feasible way by
re-executing the harness (depth first).  Comparison, hashing and indexing are
arranged so that library code (dict, set, list, sorted, numpy object arrays)
steers through the same branching."""

import math
import random
import sys
from fractions import Fraction

import numpy as np
import z3

from .poly import Poly, Rat, Ring, TooBig, divide

PI = math.pi


class Unsupported(BaseException):
    """The encoding cannot follow this operation (not an error of the code)."""


class PathInfeasible(BaseException):
    pass


class PathBudget(BaseException):
    pass


class PathDone(BaseException):
    """Nothing more to learn on this path."""


def _rsqrt(c):
    """Square root of a rational, exact when it is one."""
    c = Fraction(c)
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return Fraction(math.sqrt(c))


def _rat(v):
    f = Fraction(v)
    return z3.RatVal(f.numerator, f.denominator)


class Sym:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import npshim

        return npshim.ufunc_dispatch(ufunc, method, inputs, kwargs)


def cur():
    c = CTX[0]
    if c is None:
        raise Unsupported("symbolic value used outside an exploration")
    return c


CTX = [None]


def is_sym(x):
    return isinstance(x, Sym)


def is_num(x):
    return isinstance(
        x, (int, float, np.integer, np.floating, bool, np.bool_, Fraction)
    )


class SymBool(Sym):
    __slots__ = ()

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def _b(o):
        if isinstance(o, SymBool):
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        b = SymBool._b(o)
        return NotImplemented if b is None else SymBool(z3.And(self.t, b))

    __rand__ = __and__

    def __or__(self, o):
        b = SymBool._b(o)
        return NotImplemented if b is None else SymBool(z3.Or(self.t, b))

    __ror__ = __or__

    def __xor__(self, o):
        b = SymBool._b(o)
        return NotImplemented if b is None else SymBool(z3.Xor(self.t, b))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def logical_not(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        b = SymBool._b(o)
        if b is None:
            return self.asint() == o
        return SymBool(self.t == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def asint(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __mul__(self, o):
        b = SymBool._b(o)
        if b is not None:
            return SymBool(z3.And(self.t, b))
        return self.asint() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self.asint() + (o.asint() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __sub__(self, o):
        return self.asint() - (o.asint() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - self.asint()

    def __lt__(self, o):
        return self.asint() < o

    def __gt__(self, o):
        return self.asint() > o

    def __le__(self, o):
        return self.asint() <= o

    def __ge__(self, o):
        return self.asint() >= o

    def __repr__(self):
        return "SymBool(%s)" % self.t


def to_real_term(x):
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, SymInt):
        return z3.ToReal(x.t)
    if isinstance(x, SymBool):
        return z3.ToReal(x.asint().t)
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return None
        return _rat(x)
    if isinstance(x, Fraction):
        return _rat(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_real_term(x.item())
    return None


def to_int_term(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return x.asint().t
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return z3.IntVal(int(x))
    return None


def simp_num(t):
    """Fold constant arithmetic."""
    return t


class _Arith(Sym):
    __slots__ = ()

    def __pos__(self):
        return self

    def __bool__(self):
        return cur().branch(self.t != 0)

    # numpy object loops call these names
    def sqrt(self):
        return cur().sqrt(self)

    def sin(self):
        return cur().sincos(self)[0]

    def cos(self):
        return cur().sincos(self)[1]

    def tan(self):
        s, c = cur().sincos(self)
        return s / c

    def arctan2(self, o):
        return cur().atan2(self, o)

    def arctan(self):
        return cur().atan2(self, 1.0)

    def log(self):
        return cur().log(self)

    def arcsin(self):
        return cur().asin(self)

    def arccos(self):
        return cur().acos(self)

    def radians(self):
        return self * (PI / 180)

    def degrees(self):
        return self * (180 / PI)

    deg2rad = radians
    rad2deg = degrees

    def conjugate(self):
        return self

    def isnan(self):
        return False

    def isinf(self):
        return False

    def isfinite(self):
        return True

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def tolist(self):
        return self

    def __str__(self):
        return cur().token(self, "")

    def __repr__(self):
        return cur().token(self, "")

    def __format__(self, spec):
        return cur().token(self, spec)

    # scalar numpy API
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _cmp_real(op):
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, float) and math.isnan(o):
            return op == "ne"
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            o = float(o)
            return {
                "lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0,
                "eq": False, "ne": True,
            }[op]
        if isinstance(self, SymInt) and not isinstance(o, SymReal):
            b = to_int_term(o)
            a = self.t
        else:
            a = b = None
        if b is None:
            a, b = to_real_term(self), to_real_term(o)
        if b is None:
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        r = {
            "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b,
            "ge": lambda: a >= b, "eq": lambda: a == b, "ne": lambda: a != b,
        }[op]()
        return cur().mkbool(r)

    return f


for _c in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(_Arith, "__%s__" % _c, _cmp_real(_c))


class SymReal(_Arith):
    __slots__ = ()

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return 0x5EA1

    def _bin(op):
        def f(self, o):
            if isinstance(o, np.ndarray) and o.ndim:
                return NotImplemented
            b = to_real_term(o)
            if b is None:
                if isinstance(o, (float, np.floating)):
                    if math.isnan(o):
                        return math.nan
                    raise Unsupported("arithmetic with inf")
                return NotImplemented
            return op(self.t, b)

        return f

    __add__ = _bin(lambda a, b: mkreal(_add(a, b)))
    __radd__ = _bin(lambda a, b: mkreal(_add(b, a)))
    __sub__ = _bin(lambda a, b: mkreal(_sub(a, b)))
    __rsub__ = _bin(lambda a, b: mkreal(_sub(b, a)))
    __mul__ = _bin(lambda a, b: mkreal(_mul(a, b)))
    __rmul__ = _bin(lambda a, b: mkreal(_mul(b, a)))
    __truediv__ = _bin(lambda a, b: mkreal(_div(a, b)))
    __rtruediv__ = _bin(lambda a, b: mkreal(_div(b, a)))
    __floordiv__ = _bin(lambda a, b: mkreal(z3.ToReal(z3.ToInt(_div(a, b)))))
    __rfloordiv__ = _bin(lambda a, b: mkreal(z3.ToReal(z3.ToInt(_div(b, a)))))
    __mod__ = _bin(lambda a, b: mkreal(a - b * z3.ToReal(z3.ToInt(_div(a, b)))))
    __rmod__ = _bin(lambda a, b: mkreal(b - a * z3.ToReal(z3.ToInt(_div(b, a)))))

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return mkreal(_mul(z3.RealVal(-1), self.t))

    def __abs__(self):
        if cur().branch(self.t >= 0):
            return self
        return -self

    fabs = __abs__
    absolute = __abs__

    def __pow__(self, o, mod=None):
        return cur().power(self, o)

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def square(self):
        return self * self

    def __int__(self):
        return int(self.trunc())

    def __float__(self):
        raise Unsupported("float() of a symbolic real in C code")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic real")

    def trunc(self):
        c = cur()
        if c.branch(self.t >= 0):
            return SymInt(z3.ToInt(self.t))
        return SymInt(-z3.ToInt(-self.t))

    __trunc__ = trunc

    def __floor__(self):
        return SymInt(z3.ToInt(self.t))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.t))

    def floor(self):
        return mkreal(z3.ToReal(z3.ToInt(self.t)))

    def ceil(self):
        return mkreal(z3.ToReal(-z3.ToInt(-self.t)))

    def rint(self):
        return self.__round__(None).toreal()

    def __round__(self, nd=None):
        if nd is None or nd == 0:
            fl = z3.ToInt(self.t)
            fr = self.t - z3.ToReal(fl)
            c = cur()
            if c.branch(fr < z3.RealVal("1/2")):
                r = SymInt(fl)
            elif c.branch(fr > z3.RealVal("1/2")):
                r = SymInt(fl + 1)
            elif c.branch(fl % 2 == 0):
                r = SymInt(fl)
            else:
                r = SymInt(fl + 1)
            return r if nd is None else r.toreal()
        k = 10**nd
        return round(self * k).toreal() / k

    def round(self, nd=0):
        return self.__round__(nd)

    def is_integer(self):
        return SymBool(z3.IsInt(self.t))

    def astype(self, t):
        from . import npshim

        return npshim.cast_scalar(self, t)


class SymInt(_Arith):
    __slots__ = ()

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        c = cur()
        if c.int_hash == "value":
            return hash(self.__index__())
        return 0x51A7

    def toreal(self):
        return mkreal(z3.ToReal(self.t))

    def __index__(self):
        return cur().concretize_int(self.t)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def _bin(iop, name):
        def f(self, o):
            if isinstance(o, np.ndarray) and o.ndim:
                return NotImplemented
            b = to_int_term(o)
            if b is not None and iop is not None:
                return iop(self.t, b)
            return getattr(self.toreal(), name)(o)

        return f

    __add__ = _bin(lambda a, b: mkint(a + b), "__add__")
    __radd__ = _bin(lambda a, b: mkint(b + a), "__radd__")
    __sub__ = _bin(lambda a, b: mkint(a - b), "__sub__")
    __rsub__ = _bin(lambda a, b: mkint(b - a), "__rsub__")
    __mul__ = _bin(lambda a, b: mkint(a * b), "__mul__")
    __rmul__ = _bin(lambda a, b: mkint(b * a), "__rmul__")
    __truediv__ = _bin(None, "__truediv__")
    __rtruediv__ = _bin(None, "__rtruediv__")

    def __floordiv__(self, o):
        b = to_int_term(o)
        if b is None:
            return self.toreal() // o
        return mkint(_fdiv(self.t, b))

    def __rfloordiv__(self, o):
        b = to_int_term(o)
        if b is None:
            return o // self.toreal()
        return mkint(_fdiv(b, self.t))

    def __mod__(self, o):
        b = to_int_term(o)
        if b is None:
            return self.toreal() % o
        return mkint(self.t - b * _fdiv(self.t, b))

    def __rmod__(self, o):
        b = to_int_term(o)
        return mkint(b - self.t * _fdiv(b, self.t))

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return mkint(-self.t)

    def __abs__(self):
        if cur().branch(self.t >= 0):
            return self
        return -self

    fabs = __abs__
    absolute = __abs__

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and o >= 0:
            r = mkint(z3.IntVal(1))
            for _ in range(o):
                r = r * self
            return r
        return self.toreal() ** o

    def __round__(self, nd=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def trunc(self):
        return self

    def floor(self):
        return self

    def ceil(self):
        return self

    def rint(self):
        return self

    def astype(self, t):
        from . import npshim

        return npshim.cast_scalar(self, t)

    def _bits(self, o, op):
        if isinstance(o, SymBool):
            o = o.asint()
        if isinstance(o, (SymInt, int)) and not isinstance(o, bool):
            # two bytes: as bit vectors
            ot = to_int_term(o)
            if cur().branch(z3.And(self.t >= 0, self.t < 256, ot >= 0, ot < 256)):
                return SymInt(z3.simplify(z3.BV2Int(op(z3.Int2BV(self.t, 8), z3.Int2BV(ot, 8)))))
        # small numbers: decided by value
        a = self.__index__()
        b = o.__index__() if isinstance(o, SymInt) else int(o)
        return op(a, b)

    def __and__(self, o):
        return self._bits(o, lambda a, b: a & b)

    def __rand__(self, o):
        return self._bits(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b)

    def __ror__(self, o):
        return self._bits(o, lambda a, b: a | b)

    def __xor__(self, o):
        return self._bits(o, lambda a, b: a ^ b)

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))


def _fdiv(a, b):
    """Python floor division (z3 div rounds so that the remainder is >= 0)."""
    if z3.is_int_value(b) and b.as_long() > 0:
        return a / b
    cur().assume_nonzero(b)
    return z3.If(b > 0, a / b, (-a) / (-b))


def _isval(t):
    return z3.is_rational_value(t)


def _fr(t):
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


def _val(f):
    return z3.RatVal(f.numerator, f.denominator)


def _add(a, b):
    av, bv = _isval(a), _isval(b)
    if av and bv:
        return _val(_fr(a) + _fr(b))
    if av and _fr(a) == 0:
        return b
    if bv and _fr(b) == 0:
        return a
    return a + b


def _sub(a, b):
    av, bv = _isval(a), _isval(b)
    if av and bv:
        return _val(_fr(a) - _fr(b))
    if bv and _fr(b) == 0:
        return a
    if av and _fr(a) == 0:
        return _mul(z3.RealVal(-1), b)
    return a - b


def _mul(a, b):
    av, bv = _isval(a), _isval(b)
    if av and bv:
        return _val(_fr(a) * _fr(b))
    if av:
        f = _fr(a)
        if f == 0:
            return a
        if f == 1:
            return b
    if bv:
        f = _fr(b)
        if f == 0:
            return b
        if f == 1:
            return a
    return a * b


def _div(a, b):
    if _isval(b):
        f = _fr(b)
        if f == 0:
            raise ZeroDivisionError("float division by zero")
        return _mul(a, _val(1 / f))
    cur().assume_nonzero(b)
    if _isval(a) and _fr(a) == 0:
        return a
    return a / b


def bigger(t, n):
    """The term has more than n distinct nodes."""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if len(seen) > n:
            return True
        stack.extend(x.children())
    return False


def mkreal(t):
    """A constant stays a Python float when that is exact."""
    if z3.is_rational_value(t):
        f = _fr(t)
        v = float(f)
        if Fraction(v) == f:
            return v
    return SymReal(t)


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


# --------------------------------------------------------------------------
# exploration contexts


class CheckFailed(BaseException):
    pass


class NFMixin:
    """Normal forms of z3 terms."""

    def nf_init(self):
        self.ring = Ring()
        self.nf_memo = {}

    def nf(self, t):
        """Rat normal form of a real z3 term (raises TooBig)."""
        memo = self.nf_memo
        stack = [t]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in memo:
                stack.pop()
                continue
            k = x.decl().kind()
            ch = x.children()
            if z3.is_rational_value(x):
                memo[i] = (Rat(self.ring.const(_fr(x))), x)
                stack.pop()
                continue
            if z3.is_int_value(x):
                memo[i] = (Rat(self.ring.const(x.as_long())), x)
                stack.pop()
                continue
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV,
                     z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL):
                todo = [c for c in ch if c.get_id() not in memo]
                if todo:
                    stack.extend(todo)
                    continue
                v = [memo[c.get_id()][0] for c in ch]
                if k == z3.Z3_OP_ADD:
                    r = v[0]
                    for w in v[1:]:
                        r = r + w
                elif k == z3.Z3_OP_SUB:
                    r = v[0]
                    for w in v[1:]:
                        r = r - w
                elif k == z3.Z3_OP_MUL:
                    r = v[0]
                    for w in v[1:]:
                        r = r * w
                elif k == z3.Z3_OP_DIV:
                    if v[1].n.is_zero():
                        raise Unsupported("division by an identically zero term")
                    r = v[0] * v[1].inv()
                elif k == z3.Z3_OP_UMINUS:
                    r = -v[0]
                else:
                    r = v[0]
                memo[i] = (r, x)
                stack.pop()
                continue
            # opaque atom (constant or anything else)
            name = x.decl().name() if not ch else "t#%d" % i
            memo[i] = (Rat(self.ring.atom(name)), x)
            stack.pop()
        return memo[t.get_id()][0]


def expanded(t, memo=None):
    """Terms of t when its products are multiplied out."""
    memo = {} if memo is None else memo
    k = t.get_id()
    if k not in memo:
        cs = t.children()
        if not cs:
            r = 1
        elif z3.is_mul(t):
            r = 1
            for c in cs:
                r *= expanded(c, memo)
        else:
            r = sum(expanded(c, memo) for c in cs)
        memo[k] = min(r, 10**9)
    return memo[k]


def guarded_check(s, seconds):
    """s.check() in a copy of the process first: the solver does not always
    heed its time limit."""
    import os
    import signal
    import time

    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            r = s.check()
            code = 11 if r == z3.sat else 12 if r == z3.unsat else 13
        except BaseException:
            code = 13
        os._exit(code)
    code, wait = 13, 0.0005
    end = time.time() + seconds + 2
    try:
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                pid = 0
                code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else 13
                break
            if time.time() > end:
                break
            time.sleep(wait)
            wait = min(wait * 1.5, 0.02)
    finally:
        if pid:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    if code == 11:
        # the model is wanted here
        return s.check()
    return z3.unsat if code == 12 else z3.unknown


class SymCtx(NFMixin):
    """One exploration (all paths) of one harness."""

    concrete = False

    def __init__(self, opts=None):
        opts = opts or {}
        self.opts = opts
        self.int_hash = opts.get("int_hash", "eq")
        self.div0 = opts.get("div0", "assume")
        self.branch_timeout = opts.get("branch_timeout", 2000)
        self.assert_timeout = opts.get("assert_timeout", 10000)
        self.max_branches = opts.get("max_branches", 4000)
        self.stats = dict(
            queries=0, solver_time=0.0, unknown=0, branches=0, nf_proofs=0,
            smt_proofs=0, interval_proofs=0,
        )
        self.assumed = set()
        self.deadline = None
        self.max_concretize = opts.get("max_concretize", 40)

    # ---- path life cycle
    def start(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.new_prefixes = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.branch_timeout)
        self.guesses = 3
        self.hard = 0
        self.last = None
        # products as opaque terms: only "unsat" is used
        self.lin = z3.SimpleSolver()
        self.lin.set("timeout", 500)
        self.lin.set("arith.nl", False)
        self.pc = []
        self.inputs = {}  # name -> (kind, term, extra)
        self.order = []
        self.model = None
        self.fresh_n = 0
        self.checks = 0
        self.labels = []
        self.inconclusive = []
        self.nf_init()
        self.angle_base = {}
        self.angle_range = {}
        self.angle_cs = {}
        self.opaque_angles = {}
        self.opaque_terms = {}
        self.new_angles = []
        self.sqrt_defs = []
        self.token_n = 0
        self.keep = []
        self.reached = set()
        self.sqrt_memo = {}
        self.log_memo = {}
        self.quats = []
        self.provided = {}
        self.nonzero_memo = set()
        self.trig_defs = {}
        self.tokens = {}
        self.digits = set()
        self.rots = []
        self.abstracted = False
        self.facts = []
        CTX[0] = self

    def fresh(self, base):
        self.fresh_n += 1
        return "%s!%d" % (base, self.fresh_n)

    def _add(self, e):
        self.pc.append(e)
        self.solver.add(e)
        self.lin.add(e)
        if self.model is not None:
            v = self._model_eval(e)
            if v is not True:
                self.last = self._plain_inputs()
                self.model = None

    def _plain_inputs(self):
        out = {}
        for name in self.order:
            kind, t, _ = self.inputs[name]
            if kind == "real":
                v = self.model.eval(t)
                if z3.is_rational_value(v):
                    out[name] = _fr(v)
        return out

    def _model_eval(self, e):
        if self.model is None:
            return None
        try:
            v = self.model.eval(e, model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _check(self, *extra):
        import time

        if self.deadline is not None and time.time() > self.deadline:
            raise PathBudget()
        t0 = time.time()
        r = z3.unknown
        if extra:
            r = self.lin.check(*extra)
        if r != z3.unsat:
            short = min(300, self.branch_timeout)
            self.solver.set("timeout", short)
            r = self.solver.check(*extra)
            if r == z3.unknown and self.guesses:
                r = self._guess(extra)
            self.solver.set("timeout", self.branch_timeout)
            if r == z3.unknown and short < self.branch_timeout:
                r = self.solver.check(*extra)
        self.stats["queries"] += 1
        self.stats["solver_time"] += time.time() - t0
        if r == z3.unknown:
            self.stats["unknown"] += 1
        elif r == z3.sat:
            self.model = self.solver.model()
        return r

    QUATS = [(1, 2, 2, 4, 5), (2, 4, 5, 6, 9), (2, 3, 6, 0, 7), (1, -1, 1, -1, 2), (4, -1, 2, -2, 5)]

    def _guess(self, extra):
        """A model found by trying some values of the real inputs."""
        rng = random.Random(len(self.pc))
        for k in range(3):
            eqs, done = [], set()
            for name in self.order:
                kind, t, lim = self.inputs[name]
                if kind != "real" or name in done:
                    continue
                if name.endswith(".w") and name[:-1] + "z" in self.inputs:
                    q = rng.choice(self.QUATS)
                    for c, v in zip("wxyz", q):
                        done.add(name[:-1] + c)
                        eqs.append(self.inputs[name[:-1] + c][1] == _rat(Fraction(v, q[4])))
                    continue
                lo, hi = [(-10 if x is None else x) for x in lim][0], [(10 if x is None else x) for x in lim][1]
                if k == 0 and self.model is None and self.last is not None and name in self.last:
                    v = self.last[name]
                else:
                    v = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(rng.randrange(1, 64), 64)
                eqs.append(t == _rat(v))
            if not eqs:
                return z3.unknown
            if self.solver.check(*extra, *eqs) == z3.sat:
                return z3.sat
        self.guesses -= 1
        return z3.unknown

    def mkbool(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SymBool(t)

    def nf_sign(self, t):
        """Decide t ? 0 comparisons whose difference normalises to a constant."""
        k = t.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            a, b = t.children()
            if not (z3.is_real(a) and z3.is_real(b)):
                return None
            try:
                d = self.nf(a) - self.nf(b)
            except (TooBig, Unsupported):
                return None
            if not d.n.is_zero() and not (d.n.is_const() and not d.d):
                return None
            v = d.n.const_value() if not d.n.is_zero() else Fraction(0)
            return {
                z3.Z3_OP_LE: v <= 0, z3.Z3_OP_LT: v < 0, z3.Z3_OP_GE: v >= 0,
                z3.Z3_OP_GT: v > 0, z3.Z3_OP_EQ: v == 0,
            }[k]
        if k == z3.Z3_OP_NOT:
            r = self.nf_sign(t.children()[0])
            return None if r is None else not r
        return None

    CMP = {z3.Z3_OP_LE: lambda v: v <= 0, z3.Z3_OP_LT: lambda v: v < 0, z3.Z3_OP_GE: lambda v: v >= 0,
           z3.Z3_OP_GT: lambda v: v > 0, z3.Z3_OP_EQ: lambda v: v == 0}

    def canon(self, t, least=40, most=60):
        """An equivalent, hopefully smaller, comparison of a polynomial with 0
        (divisors are not 0); z3 true/false when bounds decide it."""
        k = t.decl().kind()
        if k == z3.Z3_OP_NOT:
            u = t.children()[0]
            v = self.canon(u, least, most)
            return t if v is u else z3.simplify(z3.Not(v))
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            ch = t.children()
            new = [self.canon(c, least, most) for c in ch]
            if all(a is b for a, b in zip(ch, new)):
                return t
            return z3.simplify((z3.And if k == z3.Z3_OP_AND else z3.Or)(*new))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_XOR) and z3.is_bool(t.children()[0]):
            # z3 makes these of the sign of a product
            ch = t.children()
            new = [self.canon(c, least, most) for c in ch]
            if all(a is b for a, b in zip(ch, new)) or len(new) != 2:
                return t
            return z3.simplify(z3.Xor(*new) if k == z3.Z3_OP_XOR else new[0] == new[1])
        f = self.CMP.get(k)
        if f is None:
            return t
        a, b = t.children()
        if not (z3.is_real(a) and z3.is_real(b)):
            return t
        try:
            d = self.nf(a) - self.nf(b)
        except (TooBig, Unsupported):
            return t
        if len(d.n.p) > most or sum(len(q.p) for q, e in d.d.values()) > most:
            return t
        if d.n.is_zero():
            return z3.BoolVal(bool(f(0)))
        if d.n.is_const() and not d.d:
            return z3.BoolVal(bool(f(d.n.const_value())))
        neg = False
        odd = []
        for q, e in d.d.values():
            if e % 2 == 0:
                continue
            sg = self.poly_sign(q)
            if sg is None or sg == 0:
                odd.append(q)
            elif sg < 0:
                neg = not neg
        sg = self.poly_sign(d.n)
        if sg and not odd:
            return z3.BoolVal(bool(f(-sg if neg else sg)))
        if not bigger(t, least):
            return t
        x = self.poly_term(-d.n if neg else d.n)
        if x is None:
            return t
        for q in odd:
            y = self.poly_term(q)
            if y is None:
                return t
            x = x * y
        zero = z3.RealVal(0)
        return {z3.Z3_OP_LE: lambda: x <= zero, z3.Z3_OP_LT: lambda: x < zero, z3.Z3_OP_GE: lambda: x >= zero,
                z3.Z3_OP_GT: lambda: x > zero, z3.Z3_OP_EQ: lambda: x == zero}[k]()

    def poly_sign(self, p):
        """1 or -1 when the bounds of the atoms decide it, else None."""
        iv = p.interval()
        if iv is None:
            lo = 0.0
            for m, c in p.t.items():
                if not m:
                    lo += float(c)
                elif c < 0 or any(e % 2 and not (self.ring.bounds.get(a, (-1,))[0] >= 0) for a, e in m):
                    return None
            return 1 if lo > 0 else None
        eps = 1e-12 * max(abs(iv[0]), abs(iv[1]))
        if iv[0] > eps:
            return 1
        if iv[1] < -eps:
            return -1
        return None

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        t = self.canon(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        self.stats["branches"] += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d in (True, False):
                forced = False
            else:  # 2/3: value forced without a fork
                d = d == 3
                forced = True
            self.decisions.append(3 if forced and d else 2 if forced else d)
            if not forced:
                self._add(t if d else z3.Not(t))
            return d
        if len(self.decisions) > self.max_branches:
            raise PathBudget()
        self.pos += 1
        if self.opts.get("nf_branch", True):
            v = self.nf_sign(t)
            if v is not None:
                self.decisions.append(3 if v else 2)
                return v
        mv = self._model_eval(t)
        can_t = can_f = None
        if mv is True:
            can_t = True
        elif mv is False:
            can_f = True
        if can_t is None:
            can_t = self._check(t) != z3.unsat
            if not can_t:
                # pc is satisfiable or unknown, so the other way remains
                self.decisions.append(2)
                return False
        if can_f is None:
            keep = self.model
            can_f = self._check(z3.Not(t)) != z3.unsat
            if not can_f:
                self.model = keep if self.model is None else self.model
                self.decisions.append(3)
                return True
        self.new_prefixes.append(self.decisions + [False])
        self.decisions.append(True)
        self._add(t)
        return True

    def concretize_int(self, t):
        v = self._concretize_int(z3.simplify(t))
        r = Rat(self.ring.const(v))
        for x in (t, z3.simplify(t)):
            if not z3.is_int_value(x):
                self.nf_memo[x.get_id()] = (r, x)
        return v

    def _concretize_int(self, t):
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(self.max_concretize):
            if self.pos < len(self.prefix):
                _, v, d = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append(("c", v, d))
                self._add(t == v if d else t != v)
                if d:
                    return v
                continue
            self.pos += 1
            if self.model is None:
                if self._check() == z3.unsat:
                    raise PathInfeasible()
            if self.model is None:
                raise Unsupported("index of unknown value")
            v = self.model.eval(t, model_completion=True)
            if not z3.is_int_value(v):
                raise Unsupported("index without value")
            v = v.as_long()
            self.stats["branches"] += 1
            keep = self.model
            if self._check(t != v) != z3.unsat:
                self.new_prefixes.append(self.decisions + [("c", v, False)])
            self.model = keep
            self.decisions.append(("c", v, True))
            self._add(t == v)
            return v
        raise Unsupported("too many values for an index")

    def assume_nonzero(self, t):
        if self.div0 == "fork" and z3.is_real(t):
            if self.branch(t == 0):
                raise ZeroDivisionError("float division by zero")
            return
        i = t.get_id()
        if i in self.nonzero_memo:
            return
        self.nonzero_memo.add(i)
        if z3.is_real(t):
            try:
                n = self.nf(t)
                if n.n.is_zero():
                    raise ZeroDivisionError("float division by zero")
                if n.n.is_const():
                    return
            except TooBig:
                pass
        self.keep.append(t)
        self.assumed.add("divisors are non-zero")
        self._assume(t != 0)

    # ---- harness API
    def _input(self, name, kind, term, extra=None):
        if name in self.inputs:
            raise RuntimeError("duplicate input " + name)
        self.inputs[name] = (kind, term, extra)
        self.order.append(name)

    def real(self, name, lo=None, hi=None, strict=False):
        t = z3.Real(name)
        self._input(name, "real", t, (lo, hi))
        lo_, hi_ = lo, hi
        if lo is not None:
            self._add(t > _rat(lo) if strict else t >= _rat(lo))
        if hi is not None:
            self._add(t < _rat(hi) if strict else t <= _rat(hi))
        if lo is not None and hi is not None:
            self.ring.atom(name, (float(lo_), float(hi_)))
        else:
            self.ring.atom(name)
        return SymReal(t)

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        self._input(name, "int", t, (lo, hi))
        if lo is not None:
            self._add(t >= lo)
        if hi is not None:
            self._add(t <= hi)
        return SymInt(t)

    def bool(self, name):
        t = z3.Bool(name)
        self._input(name, "bool", t)
        return SymBool(t)

    def flag(self, name):
        """A boolean input decided right away (forks)."""
        return bool(self.bool(name))

    def array(self, x):
        from . import npshim

        return npshim.SArr(x)

    def image(self, x):
        """An array of plain values that may get symbolic indices."""
        from . import npshim

        return np.asarray(x).view(npshim.ImgArr)

    def choice(self, name, n):
        """A number in range(n) decided right away (forks)."""
        x = self.int(name, 0, n - 1)
        for i in range(n - 1):
            if self.branch(x.t == i):
                return i
        return n - 1

    def angle(self, name, lo=-PI, hi=PI, div=1, unit=1.0):
        """An angle lo..hi (in units; unit = radians per unit).  Its finest used
        fraction is 1/div."""
        t = z3.Real(name)
        self._input(name, "angle", t, (lo, hi, div, unit))
        self._add(t >= _rat(lo))
        self._add(t <= _rat(hi))
        self.ring.atom(name, (float(lo), float(hi)))
        self.angle_base[name] = Fraction(unit) / div
        self.angle_range[name] = (lo * unit / div, hi * unit / div)
        return SymReal(t)

    def assume(self, c):
        if isinstance(c, SymBool):
            self._assume(c.t)
        elif not c:
            raise PathInfeasible()

    def _assume(self, t):
        t = self.canon(z3.simplify(t))
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathInfeasible()
        if self.pos < len(self.prefix):
            self._add(t)
            return
        self._add(t)
        if self.model is None:
            if self.hard < 2:
                r = self._check()
                self.hard += r == z3.unknown
            else:
                r = self.lin.check()
            if r == z3.unsat:
                raise PathInfeasible()

    def note_assume(self, text):
        self.assumed.add(text)

    # -- verdicts
    def check(self, c, label):
        """The property: c must hold."""
        self.checks += 1
        self.labels.append(label)
        if isinstance(c, (bool, np.bool_)):
            if not c:
                self.fail(label, None)
                raise PathDone()
            return
        if isinstance(c, SymReal) or isinstance(c, SymInt):
            c = c != 0
        if not isinstance(c, SymBool):
            raise Unsupported("check of %r" % (type(c),))
        t = z3.simplify(c.t)
        if z3.is_true(t):
            return
        r, m = self.solve(z3.Not(t))
        if r == z3.unsat:
            self.stats["smt_proofs"] += 1
            self.pc.append(t)
            self.solver.add(t)
            self.lin.add(t)
            return
        if r == z3.sat:
            self.fail(label, m)
        else:
            self.undecided(label, z3.Not(t))
        # not reproduced: go on under the condition
        self._assume(t)

    def solve(self, neg, timeout=None):
        import time

        t0 = time.time()
        if not z3.is_true(neg) and expanded(neg) < 20000 and self.lin.check(neg) == z3.unsat:
            self.stats["queries"] += 1
            self.stats["solver_time"] += time.time() - t0
            return z3.unsat, None
        s = z3.Solver()
        s.set("timeout", timeout or self.assert_timeout)
        for e in self.pc:
            s.add(e)
        for e in self.facts:
            s.add(e)
        s.add(neg)
        t0 = time.time()
        r = guarded_check(s, (timeout or self.assert_timeout) / 1000.0)
        self.stats["queries"] += 1
        self.stats["solver_time"] += time.time() - t0
        m = s.model() if r == z3.sat else None
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r, m

    def fail(self, label, model):
        """A counterexample candidate: replayed on the real code at once."""
        m = model
        if m is None:
            r, m = self.solve(z3.BoolVal(True))
            if r == z3.unsat:
                raise PathInfeasible()
        self.on_candidate(self, label, self.values(m) if m is not None else None)

    def undecided(self, label, neg):
        self.on_candidate(self, label, None)

    def eq(self, a, b, label, tol=1e-9, margin=None):
        """a and b are equal up to tol."""
        A, B = flat(a), flat(b)
        if len(A) != len(B):
            self.check(False, label + " (shape)")
            return
        for i, (x, y) in enumerate(zip(A, B)):
            self._eq1(x, y, label if len(A) == 1 else "%s[%d]" % (label, i), tol)

    def _eq1(self, a, b, label, tol):
        self.checks += 1
        self.labels.append(label)
        if not is_sym(a) and not is_sym(b):
            if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
                return
            try:
                ok = abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)))
            except (TypeError, ValueError):
                ok = a == b
            if not ok:
                self.fail(label, None)
            return
        ta, tb = to_real_term(a), to_real_term(b)
        if ta is None or tb is None:
            self.fail(label, None)
            return
        d = z3.simplify(ta - tb)
        if z3.is_rational_value(d) and abs(_fr(d)) <= Fraction(tol):
            self.stats["smt_proofs"] += 1
            return
        res = None
        try:
            res = self.nf(ta) - self.nf(tb)
        except TooBig:
            pass
        if res is not None:
            if res.n.is_zero():
                self.stats["nf_proofs"] += 1
                return
            if self._small(res, tol):
                self.stats["interval_proofs"] += 1
                return
        T = _rat(tol)
        big = _rat(max(1e-3, 1000 * tol))
        diff = ta - tb
        r = z3.unknown
        m = None
        r, m = self.solve(z3.Or(diff > big, diff < -big), timeout=self.opts.get("eq_timeout", 3000))
        if r != z3.sat:
            r2, m2 = self.solve(z3.Or(diff > T, diff < -T), timeout=self.opts.get("eq_timeout", 3000))
            if r2 == z3.unsat:
                self.stats["smt_proofs"] += 1
                return
            r, m = r2, m2
        if r == z3.sat:
            self.fail(label, m)
        else:
            self.undecided(label, z3.Or(diff > T, diff < -T))

    def _small(self, res, tol):
        """|res| <= tol by intervals."""
        iv = res.n.magnitude()
        if iv is None:
            return False
        if iv <= tol and not res.d:
            return True
        den = 1.0
        for p, e in res.d.values():
            r = p.range()
            if r is None or r[0] <= 0 <= r[1]:
                return False
            den *= min(abs(r[0]), abs(r[1])) ** e
        if iv <= tol * den:
            return True
        if len(res.n.t) > 40:
            return False
        r = res.n.range(60)
        return r is not None and max(abs(r[0]), abs(r[1])) <= tol * den

    def _tiny(self, rat):
        """Zero, or so small that only rounded constants can be the reason."""
        return rat.n.is_zero() or (len(rat.n.t) < 60 and self._small(rat, 1e-13))

    def eq_angle(self, a, b, label, tol=1e-9):
        """a and b are the same angle modulo 2 pi."""
        sa, ca = self.sincos_any(a)
        sb, cb = self.sincos_any(b)
        self.eq(sa, sb, label + " (sin)", tol)
        self.eq(ca, cb, label + " (cos)", tol)

    def sincos_any(self, a):
        if is_sym(a):
            return self.sincos(a)
        return math.sin(a), math.cos(a)

    def reach(self, label):
        self.reached.add(label)

    # ---- values of a model
    def values(self, m):
        out = {}
        for name in self.order:
            kind, t, extra = self.inputs[name]
            if kind == "angle" and name in self.angle_cs:
                c, s = self.angle_cs[name]
                cv, sv = _num(m, c), _num(m, s)
                th = math.atan2(sv, cv)
                lo, hi, div, unit = extra
                base = float(self.angle_base[name])
                v = th / base
                # representative inside the declared range
                period = 2 * PI / base
                while v < lo - 1e-9:
                    v += period
                while v > hi + 1e-9:
                    v -= period
                out[name] = min(max(v, lo), hi)
                continue
            v = m.eval(t, model_completion=True)
            if kind == "bool":
                out[name] = z3.is_true(v)
            elif kind == "int":
                out[name] = v.as_long()
            else:
                out[name] = _num(m, t)
        return out

    # ---- functions
    def sqrt(self, x):
        if not is_sym(x):
            return math.sqrt(x)
        if hasattr(x, "bounds"):
            return x.sqrt()
        t = to_real_term(x)
        key = None
        try:
            n = self.nf(t)
            if not n.d and n.n.is_const():
                f = n.n.const_value()
                if f < 0:
                    raise ValueError("math domain error")
                v = _rsqrt(f)
                return float(v) if Fraction(float(v)) == v else SymReal(_val(v))
            # single even monomial or perfect square with constant factor
            key = (n.n.key(), frozenset((k, e) for k, (p, e) in n.d.items()))
        except TooBig:
            n = None
        if key is not None and key in self.sqrt_memo:
            return self.sqrt_memo[key]
        if n is not None:
            v = self._sqrt_square(n, t)
            if v is not None:
                self.sqrt_memo[key] = v
                return v
        if n is not None and n.d and self.opts.get("sqrt_ratio"):
            v = self._sqrt_ratio(n)
            if v is not None:
                self._assume(t >= 0)
                self.sqrt_memo[key] = v
                return v
        name = self.fresh("sqrt")
        r = z3.Real(name)
        self.ring.atom(name)
        if n is not None and not n.d:
            self.ring.add_rule(name, n.n)
            iv = n.n.range()
            if iv is not None:
                self.ring.bounds[self.ring.index[name]] = (
                    math.sqrt(max(iv[0], 0.0)), math.sqrt(max(iv[1], 0.0)))
        if n is not None and bigger(t, 40):
            try:
                u = self.rat_term(n)
            except TooBig:
                u = None
            t = t if u is None else u
        self._assume(t >= 0)
        self._add(r >= 0)
        self._add(r * r == t)
        v = SymReal(r)
        if key is not None:
            self.sqrt_memo[key] = v
        self.sqrt_defs.append((name, t))
        return v

    def _sqrt_ratio(self, n):
        """sqrt(p / q) as sqrt(p q) / |q|, q up to its even powers."""
        num, den = n.n, []
        try:
            for p, e in n.d.values():
                if len(p.p) > 30:
                    return None
                if e & 1:
                    num = num * p
                q = self.poly_term(p)
                if q is None:
                    return None
                den.append((SymReal(q), (e + 1) // 2))
            if len(num.p) > 60:
                return None
            top = self.poly_term(num)
        except TooBig:
            return None
        if top is None:
            return None
        out = self.sqrt(SymReal(top))
        for q, e in den:
            q = abs(q)
            for _ in range(e):
                out = out / q
        return out

    def _sqrt_square(self, n, t):
        """sqrt of a monomial square c*m^2 -> sqrt(c)*|m| (forks on sign),
        also when a square was rewritten by the rule of an atom."""
        if len(n.n.t) != 1:
            for a, sq in self.ring.rules.items():
                if len(sq.p) < 2:
                    continue
                q = divide(n.n, sq)
                if q is None:
                    continue
                tt = self.term_of_atom(self.ring.names[a])
                rest = Rat(q, n.d)
                if tt is None or len(q.p) > 12:
                    continue
                v = self._sqrt_square(rest, None)
                if v is not None:
                    return v * abs(SymReal(tt))
            return None
        (m, c), = n.n.t.items()
        if c <= 0 or any(e & 1 for _, e in m):
            return None
        den = []
        for p, e in n.d.values():
            if e & 1:
                den.append((p, e, True))
            else:
                den.append((p, e // 2, False))
        rc = _rsqrt(c)
        out = SymReal(_rat(rc))
        for a, e in m:
            nm = self.ring.names[a]
            tt = self.term_of_atom(nm)
            if tt is None:
                return None
            v = SymReal(tt)
            for _ in range(e // 2):
                out = out * v
        for p, e, root in den:
            q = self.poly_term(p)
            if q is None:
                return None
            q = SymReal(q)
            if root:
                q = self.sqrt(q)
            for _ in range(e):
                out = out / q
        if not is_sym(out):
            return abs(out)
        return abs(out)

    def provide(self, op, fn):
        """fn(matrix) gives a decomposition of a symbolic matrix, or None
        when the matrix is not the one it knows (see same)."""
        self.provided.setdefault(op, []).append(fn)

    def same(self, a, b):
        """Proved equal, by normal forms only."""
        A, B = flat(a), flat(b)
        if len(A) != len(B):
            return False
        for x, y in zip(A, B):
            if not is_sym(x) and not is_sym(y):
                if abs(float(x) - float(y)) > 1e-9 * max(1.0, abs(float(x))):
                    return False
                continue
            try:
                d = self.nf(to_real_term(x)) - self.nf(to_real_term(y))
            except TooBig:
                return False
            if not d.n.is_zero() and not self._small(d, 1e-9):
                return False
        return True

    def cbrt(self, x):
        """Cube root of a positive number (numpy: nan below 0)."""
        self._assume(to_real_term(x) > 0)
        n = self.nf(to_real_term(x))
        if len(n.n.t) == 1:
            (m, c), = n.n.t.items()
            if all(e % 3 == 0 for _, e in m) and all(e % 3 == 0 for _, e in n.d.values()):
                rc = Fraction(round(float(abs(c)) ** (1 / 3) * 10**6), 10**6)
                if rc ** 3 == c:
                    out = SymReal(_rat(rc))
                    for a, e in m:
                        tt = self.term_of_atom(self.ring.names[a])
                        if tt is None:
                            raise Unsupported("cube root")
                        for _ in range(e // 3):
                            out = out * SymReal(tt)
                    for q, e in n.d.values():
                        tt = self.poly_term(q)
                        if tt is None:
                            raise Unsupported("cube root")
                        for _ in range(e // 3):
                            out = out / SymReal(tt)
                    return out
        name = self.fresh("cbrt")
        r = z3.Real(name)
        self.ring.atom(name)
        self._add(r > 0)
        self._add(r * r * r == to_real_term(x))
        return SymReal(r)

    def log(self, x):
        """Logarithm of a positive number: a sum of those of its factors."""
        t = to_real_term(x)
        self._assume(t > 0)
        try:
            n = self.nf(t)
            parts = [(q.key(), q, -e) for q, e in n.d.values()]
            c = Fraction(1)
            if len(n.n.t) == 1:
                (m, c), = n.n.t.items()
                parts += [(a, SymReal(self.term_of_atom(self.ring.names[a])), e) for a, e in m]
            else:
                parts.append((n.n.key(), n.n, 1))
            parts = [(k, q if isinstance(q, SymReal) else SymReal(self.poly_term(q)), e) for k, q, e in parts]
        except (TooBig, z3.Z3Exception):
            raise Unsupported("logarithm")
        out = math.log(abs(c)) if c != 1 else 0.0
        for k, q, e in parts:
            v = self.log_memo.get(k)
            if v is None:
                name = self.fresh("log")
                r = z3.Real(name)
                self.ring.atom(name)
                u = to_real_term(abs(q))
                self._add(z3.And((u > 1) == (r > 0), (u == 1) == (r == 0)))
                v = self.log_memo[k] = SymReal(r)
            out = out + v * e
        return out

    def term_of_atom(self, name):
        if name.startswith("t#"):
            for v in self.nf_memo.values():
                if "t#%d" % v[1].get_id() == name:
                    return v[1]
            return None
        if name in self.inputs and self.inputs[name][0] == "int":
            return z3.ToReal(z3.Int(name))
        return z3.Real(name)

    def rat_term(self, n, most=60):
        """The term of a normal form, None when it is long."""
        if len(n.n.p) + sum(len(q.p) for q, e in n.d.values()) > most:
            return None
        x = self.poly_term(n.n)
        for q, e in n.d.values():
            y = self.poly_term(q)
            if x is None or y is None:
                return None
            for _ in range(e):
                x = x / y
        return x

    def poly_term(self, p):
        out = None
        for m, c in p.t.items():
            x = _val(c)
            for a, e in m:
                tt = self.term_of_atom(self.ring.names[a])
                if tt is None:
                    return None
                for _ in range(e):
                    x = _mul(x, tt)
            out = x if out is None else _add(out, x)
        return out if out is not None else z3.RealVal(0)

    def power(self, x, o):
        if isinstance(o, (float, np.floating)) and float(o).is_integer():
            o = int(o)
        if isinstance(o, (int, np.integer)):
            o = int(o)
            r = 1.0
            for _ in range(abs(o)):
                r = x * r
            return r if o >= 0 else 1.0 / r
        if isinstance(o, (float, np.floating)) and float(o) == 0.5:
            return self.sqrt(x)
        if isinstance(o, (float, np.floating)) and float(o) == 1.5:
            return self.sqrt(x) * x
        if isinstance(o, (float, np.floating)) and float(o) == 1.0 / 3:
            return self.cbrt(x)
        raise Unsupported("power %r" % (o,))

    # trigonometry -----------------------------------------------------------

    def _angle_atom(self, name):
        """(sin, cos) terms of the base angle of an atom."""
        if name in self.trig_defs:
            return self.trig_defs[name]
        c, s = z3.Real("cos<%s>" % name), z3.Real("sin<%s>" % name)
        self.ring.atom("cos<%s>" % name, (-1.0, 1.0))
        self.ring.atom("sin<%s>" % name, (-1.0, 1.0))
        one_minus = self.ring.const(1) - self.ring.atom("cos<%s>" % name).pow(2)
        self.ring.add_rule("sin<%s>" % name, one_minus)
        self._add(c * c + s * s == 1)
        self._add(c >= -1)
        self._add(c <= 1)
        self._add(s >= -1)
        self._add(s <= 1)
        lo, hi = self.angle_range.get(name, (-1e9, 1e9))
        e = 1e-12
        if lo >= -PI / 2 - e and hi <= PI / 2 + e:
            self._add(c >= 0)
            if lo > -PI / 2 + 1e-9 and hi < PI / 2 - 1e-9:
                m = min(math.cos(lo), math.cos(hi))
                self._add(c >= _rat(m * (1 - 1e-12)))
                self.ring.bounds[self.ring.index["cos<%s>" % name]] = (m * (1 - 1e-12), 1.0)
        if lo >= -e and hi <= PI + e:
            m = min(math.sin(max(lo, 0.0)), math.sin(min(hi, PI))) - 1e-12
            self._add(s >= (_rat(m) if m > 0 else 0))
            if m > 0:
                self.ring.bounds[self.ring.index["sin<%s>" % name]] = (m, 1.0)
        if lo >= -PI - e and hi <= e:
            self._add(s <= 0)
        if lo >= -PI / 2 - e and hi <= PI / 2 + e:
            sl, sh = math.sin(max(lo, -PI / 2)), math.sin(min(hi, PI / 2))
            self._add(s >= _rat(sl - 1e-12))
            self._add(s <= _rat(sh + 1e-12))
        v = (SymReal(s), SymReal(c))
        self.trig_defs[name] = v
        self.angle_cs[name] = (c, s)
        # weak link between the angle and its sine, enough for signs
        if name in self.inputs:
            th = self.inputs[name][1]
            b = self.angle_base.get(name, Fraction(1))
            if lo >= -PI - e and hi <= PI + e:
                x = _val(b) * th
                self._add(z3.Implies(x > 0, s >= 0))
                self._add(z3.Implies(x < 0, s <= 0))
                self._add(z3.Implies(x == 0, z3.And(s == 0, c == 1)))
        return v

    def sincos(self, x):
        if not is_sym(x):
            return math.sin(x), math.cos(x)
        if hasattr(x, "bounds"):
            return x.sincos()
        t = to_real_term(x)
        try:
            n = self.nf(t)
        except TooBig:
            raise Unsupported("angle expression too large")
        if n.d or any(len(m) > 1 or (m and m[0][1] > 1) for m in n.n.t):
            # opaque angle
            key = (n.n.key(), frozenset((k, e) for k, (p, e) in n.d.items()))
            nm = self.opaque_angles.get(key)
            if nm is None:
                nm = self.fresh("ang")
                self.opaque_angles[key] = nm
                self.opaque_terms[nm] = t
            self.abstracted = True
            return self._angle_atom(nm)
        parts = []
        const = Fraction(0)
        for m, c in n.n.t.items():
            if not m:
                const = c
                continue
            name = self.ring.names[m[0][0]]
            base = self.angle_base.get(name)
            if base is None:
                base = abs(c)
                self.angle_base[name] = base
            q = Fraction(float(c / base)).limit_denominator(48)
            if abs(float(c / base) - float(q)) > 1e-9:
                raise Unsupported("irrational multiple of an angle")
            if q.denominator != 1:
                raise Unsupported("fraction %s of angle %s" % (q, name))
            parts.append((name, int(q)))
        s, c = self._const_sincos(const)
        for name, k in sorted(parts):
            sb, cb = self._angle_atom(name)
            sk, ck = self._multiple(sb, cb, k)
            s, c = s * ck + c * sk, c * ck - s * sk
        return s, c

    def _const_sincos(self, f):
        v = float(f)
        k = round(v / (PI / 2))
        if abs(v - k * PI / 2) < 1e-9 * max(1, abs(v)):
            return [(0.0, 1.0), (1.0, 0.0), (0.0, -1.0), (-1.0, 0.0)][k % 4]
        return math.sin(v), math.cos(v)

    def _multiple(self, s, c, k):
        neg = k < 0
        k = abs(k)
        rs, rc = 0.0, 1.0
        bs, bc = s, c
        while k:
            if k & 1:
                rs, rc = rs * bc + rc * bs, rc * bc - rs * bs
            k >>= 1
            if k:
                bs, bc = bs * bc + bc * bs, bc * bc - bs * bs
        return (-rs if neg else rs), rc

    def _new_angle(self, s, c, lo, hi):
        """A fresh angle with the given sine and cosine values."""
        name = self.fresh("atan")
        A = z3.Real(name)
        self.ring.atom(name, (lo, hi))
        self.angle_base[name] = Fraction(1)
        self.trig_defs[name] = (s, c)
        self._add(A >= _rat(lo))
        self._add(A <= _rat(hi))
        st, ct = to_real_term(s), to_real_term(c)
        self._add(z3.Implies(A == 0, z3.And(st == 0, ct > 0)))
        self._add(z3.Implies(z3.And(A > 0), st >= 0))
        self._add(z3.Implies(A < 0, st <= 0))
        self._add(z3.Implies(st > 0, z3.And(A > 0, A < _rat(PI))))
        self._add(z3.Implies(st < 0, z3.And(A < 0, A > _rat(-PI))))
        self._add(z3.Implies(ct > 0, z3.And(A > _rat(-PI / 2 - 1e-15), A < _rat(PI / 2 + 1e-15))))
        self._add(z3.Implies(ct < 0, z3.Or(A > _rat(PI / 2 - 1e-15), A < _rat(-PI / 2 + 1e-15))))
        self._add(z3.Implies(z3.And(st == 0, ct > 0), A == 0))
        self._add(z3.Implies(z3.And(st == 0, ct < 0), z3.Or(A == _rat(PI), A == _rat(-PI))))
        self._add(z3.Implies(ct == 0, z3.Or(A == _rat(PI / 2), A == _rat(-PI / 2))))
        self.new_angles.append((name, s, c))
        self.abstracted = True
        return SymReal(A)

    def atan2(self, y, x):
        if not is_sym(y) and not is_sym(x):
            return math.atan2(y, x)
        if hasattr(x, "bounds") or hasattr(y, "bounds"):
            q = x if hasattr(x, "bounds") else y.lift(x)
            if q.bounds()[0] <= 0:
                raise Unsupported("arc tangent of an enclosure")
            return (y / q).arctan()
        terms = to_real_term(y), to_real_term(x)
        key = tuple(t.get_id() for t in terms)
        memo = self.__dict__.setdefault("atan_memo", {})
        if memo.get("path") is not self.trig_defs:
            memo.clear()
            memo["path"] = self.trig_defs
        if key not in memo:
            memo[key] = self._atan2(y, x), terms
        return memo[key][0]

    def _atan2(self, y, x):
        r2 = x * x + y * y
        r = self.sqrt(r2)
        # atan2 of sine and cosine of a known angle inside its principal range
        if is_sym(r):
            self.assume_nonzero(r.t)
            self.assumed.add("two-argument arc tangent is not taken at the origin")
        elif r == 0:
            return 0.0
        s, c = y / r, x / r
        hit = self._find_angle(s, c)
        if hit is not None:
            return hit
        return self._new_angle(s, c, -PI, PI)

    def _find_angle(self, s, c):
        """A declared angle (or simple combination) with this sine and cosine."""
        try:
            ns, nc = self.nf(to_real_term(s)), self.nf(to_real_term(c))
        except (TooBig, Unsupported):
            return None
        for name, (bs, bc) in list(self.trig_defs.items()):
            lo, hi = self.angle_range.get(name, (None, None))
            base = self.angle_base.get(name, Fraction(1))
            if name not in self.inputs:
                lo, hi = -PI, PI
            if lo is None:
                continue
            for k in (1, 2, 4, -1, -2):
                l, h = sorted((lo * k, hi * k))
                if l < -PI - 1e-9 or h > PI + 1e-9:
                    continue
                sk, ck = self._multiple(bs, bc, k)
                try:
                    if self._tiny(self.nf(to_real_term(sk)) - ns) and self._tiny(
                        self.nf(to_real_term(ck)) - nc
                    ):
                        return SymReal(z3.Real(name)) * float(base * k)
                    if l >= 0 and self._tiny(self.nf(to_real_term(sk)) - ns) and self._tiny(
                        self.nf(to_real_term(ck)) + nc
                    ):
                        return PI - SymReal(z3.Real(name)) * float(base * k)
                except (TooBig, Unsupported):
                    return None
        return None

    def _find_one(self, x, which, lo, hi):
        """A declared angle (or its supplement) in a range where its sine (0)
        or cosine (1) determines it."""
        try:
            nx = self.nf(to_real_term(x))
        except (TooBig, Unsupported):
            return None
        for name, (bs, bc) in list(self.trig_defs.items()):
            l, h = self.angle_range.get(name, (None, None))
            if name not in self.inputs or l is None:
                continue
            base = float(self.angle_base.get(name, Fraction(1)))
            for k in (1, 2, 4):
                if l * k < lo - 1e-9 or h * k > hi + 1e-9:
                    continue
                v = self._multiple(bs, bc, k)[which]
                try:
                    nv = self.nf(to_real_term(v))
                    if self._tiny(nv - nx):
                        return SymReal(z3.Real(name)) * (base * k)
                    if self._tiny(nv + nx):
                        r = SymReal(z3.Real(name)) * (base * k)
                        return PI - r if which else -r
                except (TooBig, Unsupported):
                    return None
        return None

    def asin(self, x):
        if not is_sym(x):
            return math.asin(x)
        hit = self._find_one(x, 0, -PI / 2, PI / 2)
        if hit is not None:
            return hit
        c = self.sqrt(1.0 - x * x)
        hit = self._find_angle(x, c)
        if hit is not None:
            return hit
        return self._new_angle(x, c, -PI / 2, PI / 2)

    def acos(self, x):
        if not is_sym(x):
            return math.acos(x)
        hit = self._find_one(x, 1, 0.0, PI)
        if hit is not None:
            return hit
        s = self.sqrt(1.0 - x * x)
        hit = self._find_angle(s, x)
        if hit is not None:
            return hit
        return self._new_angle(s, x, 0.0, PI)

    # rotations --------------------------------------------------------------
    def rotation(self, name):
        """(rotation vector, matrix) of an arbitrary rotation (given by a unit
        quaternion whose real part is not negative)."""
        from . import rot

        q = [self.real("%s.%s" % (name, c), -1.0, 1.0) for c in "wxyz"]
        w, x, y, z = [v.t for v in q]
        self.ring.add_rule("%s.w" % name, self.ring.const(1) - self.ring.atom("%s.x" % name).pow(2)
                           - self.ring.atom("%s.y" % name).pow(2) - self.ring.atom("%s.z" % name).pow(2))
        self._add(w * w + x * x + y * y + z * z == 1)
        self._add(w >= 0)
        M = rot.quat_matrix(*q)
        R = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                R[i, j] = M[i][j]
        v = [self.real_unnamed("rv.%s.%s" % (name, c)) for c in "xyz"]
        self.register_rotation(v, R)
        self.abstracted = True
        from . import npshim

        return np.array(v, dtype=object).view(npshim.SArr), R.view(npshim.SArr)

    def register_rotation(self, v, R):
        self.rots.append((list(v), np.asarray(R, dtype=object)))

    def _same(self, a, b):
        try:
            return (self.nf(to_real_term(a)) - self.nf(to_real_term(b))).n.is_zero()
        except (TooBig, Unsupported):
            return False

    def _allsame(self, A, B):
        return all(self._same(a, b) for a, b in zip(A, B))

    def rot_exp(self, v):
        from . import npshim

        for u, R in self.rots:
            if self._allsame(u, v):
                return np.array(R).view(npshim.SArr)
            if self._allsame([-x for x in u], v):
                return np.array(R.T).view(npshim.SArr)
        zero = [not is_sym(x) and float(x) == 0.0 for x in v]
        if sum(zero) >= 2:
            # rotation about a coordinate axis: no division by the angle
            ax = 0 if not zero[0] else 1 if not zero[1] else 2
            if zero[ax]:
                return np.eye(3)
            s, c = self.sincos(v[ax])
            R = np.empty((3, 3), dtype=object)
            R[:] = 0.0
            i, j = (ax + 1) % 3, (ax + 2) % 3
            R[ax, ax] = 1.0
            R[i, i] = R[j, j] = c
            R[i, j], R[j, i] = -s, s
            return np.array(R).view(npshim.SArr)
        th = self.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
        self.assume_nonzero(to_real_term(th))
        s, c = self.sincos(th)
        k = [x / th for x in v]
        R = np.empty((3, 3), dtype=object)
        K = [[0.0, -k[2], k[1]], [k[2], 0.0, -k[0]], [-k[1], k[0], 0.0]]
        for i in range(3):
            for j in range(3):
                R[i, j] = k[i] * k[j] * (1.0 - c) + K[i][j] * s + (c if i == j else 0.0)
        self.register_rotation(v, R)
        return np.array(R).view(npshim.SArr)

    def rot_log(self, R):
        from . import npshim

        flatR = list(np.asarray(R, dtype=object).ravel())
        I = [1.0, 0, 0, 0, 1.0, 0, 0, 0, 1.0]
        if self._allsame(flatR, I):
            return np.zeros(3)
        for u, M in self.rots:
            if self._allsame(flatR, list(M.ravel())):
                return np.array(u, dtype=object).view(npshim.SArr)
            if self._allsame(flatR, list(M.T.ravel())):
                return np.array([-x for x in u], dtype=object).view(npshim.SArr)
        v = [self.real_unnamed("rv")for _ in range(3)]
        self.register_rotation(v, np.asarray(R, dtype=object))
        self.abstracted = True
        return np.array(v, dtype=object).view(npshim.SArr)

    def register_quaternion(self, v, q, principal=True):
        """The unit quaternion of a rotation vector (principal: of length
        below pi)."""
        self.quats.append((list(v), list(q), principal))

    def quat_exp(self, v):
        for u, q, _ in self.quats:
            if self._allsame(u, v):
                return list(q)
            if self._allsame([-x for x in u], v):
                return [q[0]] + [-x for x in q[1:]]
        th = self.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
        self.assume_nonzero(to_real_term(th))
        s, c = self.sincos(th * 0.5)
        q = [c] + [x * (s / th) for x in v]
        self.register_quaternion(v, q, False)
        return q

    def quat_log(self, q):
        from . import rot

        if self._allsame(q[1:], [0.0] * 3):
            return [0.0] * 3
        for u, p, principal in self.quats:
            if not principal:
                continue
            for sign in (1, -1):
                if self._allsame([sign * x for x in p], q):
                    return list(u)
                if self._allsame([sign * p[0]] + [-sign * x for x in p[1:]], q):
                    return [-x for x in u]
        if not self._same(sum(x * x for x in q), 1.0):
            raise Unsupported("rotation vector of a quaternion of another length")
        v = [self.real_unnamed("qv") for _ in range(3)]
        self.register_quaternion(v, q)
        self.register_rotation(v, np.array(rot.quat_matrix(*q), dtype=object))
        self.abstracted = True
        return list(v)

    # text -------------------------------------------------------------------
    def token(self, v, spec):
        self.token_n += 1
        if isinstance(v, SymReal) and spec and spec[-1] in "fF" and "." in spec:
            nd = int(spec[:-1].split(".")[1])
            r = self.real_unnamed("rnd")
            h = Fraction(1, 2 * 10**nd)
            self._add(r.t - v.t <= _val(h))
            self._add(v.t - r.t <= _val(h))
            v = r
        elif isinstance(v, SymReal) and spec and spec[-1] in "gGeE":
            nd = int(spec[:-1].split(".")[1]) if "." in spec else 6
            if nd < 15:
                r = self.real_unnamed("rnd")
                h = Fraction(1, 10 ** (nd - 1))
                a = z3.If(v.t >= 0, v.t, -v.t)
                self._add(r.t - v.t <= _val(h) * a)
                self._add(v.t - r.t <= _val(h) * a)
                v = r
        tok = chr(TOK0 + self.token_n)
        self.tokens[tok] = v
        return tok

    def digit(self, name):
        """A character of a text: an unknown decimal digit."""
        self.token_n += 1
        tok = chr(TOK0 + self.token_n)
        self.tokens[tok] = self.int(name, 0, 9)
        self.digits.add(tok)
        return tok

    def untoken(self, s):
        """The number a text with unknown parts stands for."""
        s = s.strip()
        v = self.tokens.get(s)
        if v is not None:
            return v
        sign = 1
        if s[:1] in ("+", "-"):
            sign = -1 if s[0] == "-" else 1
            s = s[1:]
            v = self.tokens.get(s)
            if v is not None:
                return v if sign == 1 else -v
        ip, dot, fp = s.partition(".")
        if not ip + fp:
            return None
        n = 0
        for ch in ip + fp:
            if ch in self.digits:
                n = n * 10 + self.tokens[ch]
            elif ch.isdigit():
                n = n * 10 + int(ch)
            else:
                return None
        n = n * sign
        if dot:
            n = (n.toreal() if isinstance(n, SymInt) else float(n)) / 10.0 ** len(fp)
        return n

    def real_unnamed(self, base):
        name = self.fresh(base)
        self.ring.atom(name)
        return SymReal(z3.Real(name))


TOK0 = 0xF0000


def has_tok(s):
    return any("\U000F0000" <= c <= "\U000FFFFF" for c in s)


class Violation(BaseException):
    """A violation reproduced on the real code."""

    def __init__(self, label, values, failures):
        self.label = label
        self.values = values
        self.failures = failures


def flat(a):
    if isinstance(a, np.ndarray):
        return list(a.ravel())
    if isinstance(a, (list, tuple)):
        out = []
        for x in a:
            out.extend(flat(x))
        return out
    return [a]


def _num(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(40)
    if z3.is_rational_value(v):
        return float(_fr(v))
    if z3.is_int_value(v):
        return float(v.as_long())
    return 0.0


class ConcreteCtx:
    """The same harness on plain values and the unpatched code."""

    concrete = True

    def __init__(self, values, rng=None):
        self.v = values
        self.failures = []
        self.checks = 0
        self.reached = set()
        self.assumed = set()
        self.used = {}

    def _get(self, name, default):
        v = self.v.get(name, default)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, strict=False):
        d = 0.0
        if lo is not None and lo > d:
            d = lo
        if hi is not None and hi < d:
            d = hi
        v = float(self._get(name, d))
        return self._in(v, lo, hi)

    def _in(self, v, lo, hi):
        if lo is not None and v < lo:
            if v < lo - 1e-9 * (1 + abs(lo)):
                raise PathInfeasible()
            v = type(v)(lo)
        if hi is not None and v > hi:
            if v > hi + 1e-9 * (1 + abs(hi)):
                raise PathInfeasible()
            v = type(v)(hi)
        return v

    def int(self, name, lo=None, hi=None):
        d = 0
        if lo is not None and lo > d:
            d = lo
        if hi is not None and hi < d:
            d = hi
        return self._in(int(self._get(name, d)), lo, hi)

    def bool(self, name):
        return bool(self._get(name, False))

    def array(self, x):
        return np.array(x)

    flag = bool

    def digit(self, name):
        return str(self.int(name, 0, 9))

    def image(self, x):
        return np.asarray(x)

    def choice(self, name, n):
        return self._in(int(self._get(name, 0)), 0, n - 1)

    def angle(self, name, lo=-PI, hi=PI, div=1, unit=1.0):
        return self.real(name, lo, hi)

    def assume(self, c):
        if not c:
            raise PathInfeasible()

    def note_assume(self, text):
        self.assumed.add(text)

    def check(self, c, label):
        self.checks += 1
        if not bool(c):
            self.failures.append((label, "does not hold"))

    def eq(self, a, b, label, tol=1e-9, margin=None):
        A, B = flat(a), flat(b)
        self.checks += 1
        if len(A) != len(B):
            self.failures.append((label, "shapes differ: %d and %d values" % (len(A), len(B))))
            return
        for i, (x, y) in enumerate(zip(A, B)):
            if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                if x != y:
                    self.failures.append((label, "%r != %r" % (x, y)))
                continue
            x, y = float(x), float(y)
            if math.isnan(x) and math.isnan(y):
                continue
            # rounding of the real arithmetic scales with the values
            eps = tol + 1e-7 * max(abs(x), abs(y), 1.0) if margin is None else margin
            if not abs(x - y) <= eps:
                self.failures.append((label, "value %d: %r != %r" % (i, x, y)))
                return

    def eq_angle(self, a, b, label, tol=1e-9):
        self.eq(math.sin(a), math.sin(b), label, tol)
        self.eq(math.cos(a), math.cos(b), label, tol)

    def sincos_any(self, a):
        return math.sin(a), math.cos(a)

    def provide(self, op, fn):
        pass

    def same(self, a, b):
        A, B = flat(a), flat(b)
        return len(A) == len(B) and all(abs(float(x) - float(y)) < 1e-6 * max(1.0, abs(float(x))) for x, y in zip(A, B))

    def rotation(self, name):
        from . import rot

        q = np.array([self.real("%s.%s" % (name, c), -1.0, 1.0) for c in "wxyz"])
        n = np.linalg.norm(q)
        q = q / n if n > 1e-9 else np.array([1.0, 0, 0, 0])
        R = np.array(rot.quat_matrix(*q))
        return rot.log(R), R

    def reach(self, label):
        self.reached.add(label)

    def sqrt(self, x):
        return math.sqrt(x)
