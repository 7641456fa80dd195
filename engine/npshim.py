"""numpy, math and builtins as seen by the executed code.

Arrays holding symbolic values are object arrays of class SArr; numpy functions
applied to them (or to lists holding symbolic values) are carried out
element-wise or by the textbook definition.  Everything else is the real
numpy."""

import builtins
import operator
import math
import math as _math

import numpy as np
import z3

from . import sym
from .sym import (SymBool, SymInt, SymReal, Sym, Unsupported, cur, is_num, is_sym,
                  mkreal, to_real_term)

HANDLED = {}


def has_sym(x, depth=4):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return any(isinstance(v, Sym) or (isinstance(v, np.ndarray) and has_sym(v)) for v in x.ravel())
        return False
    if isinstance(x, (list, tuple)) and depth:
        return any(has_sym(v, depth - 1) for v in x)
    if isinstance(x, (map, zip, dict, set, str)):
        return False
    return False


class SArr(np.ndarray):
    """Object array that may hold symbolic values."""

    def __new__(cls, x):
        a = np.empty(np.shape(x), dtype=object) if not isinstance(x, np.ndarray) else x
        if isinstance(x, np.ndarray):
            return x.astype(object).view(cls)
        a = _objarray(x)
        return a.view(cls)

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        h = HANDLED.get(func.__name__)
        if h is not None:
            return h(*args, **kwargs)
        r = np.ndarray.__array_function__(self, func, types, args, kwargs)
        return wrap(r)

    def __getitem__(self, k):
        if isinstance(k, SymInt):
            return self._row(k)
        if isinstance(k, tuple) and k and isinstance(k[0], SymInt):
            r = self._row(k[0])
            rest = k[1:]
            if not rest:
                return r
            return r[rest if len(rest) > 1 else rest[0]]
        if isinstance(k, SArr) and k.dtype == object:
            k = _index_array(k)
        elif isinstance(k, tuple) and any(isinstance(x, SArr) and x.dtype == object for x in k):
            k = tuple(_index_array(x) if isinstance(x, SArr) and x.dtype == object else x for x in k)
        r = np.ndarray.__getitem__(self, k)
        return r

    def _row(self, i):
        """Row of a symbolic number: decided by an if-chain, not by value."""
        n = len(self)
        c = cur()
        if c.branch(z3.Or(i.t >= n, i.t < -n)):
            raise IndexError("index out of bounds")
        if n > 12 or not c.opts.get("if_rows", True):
            return np.ndarray.__getitem__(self, i.__index__())
        if c.branch(i.t < 0):
            i = i + n
            if not isinstance(i, SymInt):
                return np.ndarray.__getitem__(self, i)
        rows = [np.ndarray.__getitem__(self, k) for k in range(n)]
        if not isinstance(rows[0], np.ndarray):
            return sym_ite(i, rows)
        flat = [np.asarray(r).ravel() for r in rows]
        out = np.empty(rows[0].shape, dtype=object)
        o = out.reshape(-1)
        for j in range(o.size):
            o[j] = sym_ite(i, [f[j] for f in flat])
        return out.view(SArr)

    # methods whose object version differs
    def astype(self, t, **kw):
        return cast_array(self, t)

    def sum(self, axis=None, **kw):
        return HANDLED["sum"](self, axis=axis, **kw)

    def mean(self, axis=None, **kw):
        return HANDLED["mean"](self, axis=axis, **kw)

    def std(self, axis=None, **kw):
        return HANDLED["std"](self, axis=axis, **kw)

    def var(self, axis=None, **kw):
        return HANDLED["var"](self, axis=axis, **kw)

    def min(self, axis=None, **kw):
        return HANDLED["min"](self, axis=axis, **kw)

    def max(self, axis=None, **kw):
        return HANDLED["max"](self, axis=axis, **kw)

    def argmin(self, axis=None, **kw):
        return HANDLED["argmin"](self, axis=axis, **kw)

    def argmax(self, axis=None, **kw):
        return HANDLED["argmax"](self, axis=axis, **kw)

    def argsort(self, axis=-1, **kw):
        return HANDLED["argsort"](self, axis=axis)

    def sort(self, axis=-1, **kw):
        self[...] = HANDLED["sort"](self, axis=axis)

    def dot(self, o, out=None):
        return HANDLED["dot"](self, o)

    def round(self, decimals=0, **kw):
        return elementwise(lambda v: v.__round__(decimals) if is_sym(v) else np.round(v, decimals), self)

    def clip(self, lo=None, hi=None, **kw):
        return HANDLED["clip"](self, lo, hi)

    def any(self, axis=None, **kw):
        return HANDLED["any"](self, axis=axis, **kw)

    def all(self, axis=None, **kw):
        return HANDLED["all"](self, axis=axis, **kw)

    def nonzero(self):
        return boolify(self).nonzero()

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def prod(self, axis=None, **kw):
        return HANDLED["prod"](self, axis=axis, **kw)

    def trace(self, *a, **kw):
        return HANDLED["trace"](self, *a, **kw)

    def __matmul__(self, o):
        return HANDLED["matmul"](self, o)

    def __rmatmul__(self, o):
        return HANDLED["matmul"](o, self)

    @property
    def dtypekind(self):
        return "f"


class ImgArr(np.ndarray):
    """Array of plain values that accepts symbolic indices (by value)."""

    def __getitem__(self, k):
        if isinstance(k, SArr) and k.dtype == object:
            k = _index_array(k)
        elif isinstance(k, tuple) and any(isinstance(x, SArr) and x.dtype == object for x in k):
            k = tuple(_index_array(x) if isinstance(x, SArr) and x.dtype == object else x for x in k)
        return np.ndarray.__getitem__(self, k)


def sym_ite(i, vals):
    """vals[i] for a symbolic i known to be within range."""
    first = vals[0]
    if all(v is first for v in vals):
        return first
    if all(isinstance(v, (SymInt, int, np.integer)) and not isinstance(v, bool) for v in vals):
        ts = [sym.to_int_term(v) for v in vals]
        mk = SymInt
    elif all(isinstance(v, (SymBool, bool, np.bool_)) for v in vals):
        ts = [v.t if isinstance(v, SymBool) else z3.BoolVal(bool(v)) for v in vals]
        mk = SymBool
    else:
        ts = [to_real_term(v) for v in vals]
        mk = SymReal
        if any(t is None for t in ts):
            return vals[i.__index__()]
    t = ts[-1]
    for k in range(len(ts) - 2, -1, -1):
        t = z3.If(i.t == k, ts[k], t)
    return mk(z3.simplify(t))


def _index_array(k):
    f = list(np.asarray(k).ravel())
    if f and all(isinstance(v, (SymBool, bool, np.bool_)) for v in f):
        return boolify(k)
    return np.array([v.__index__() if isinstance(v, Sym) else int(v) for v in f], dtype=int).reshape(np.shape(k))


def boolify(a):
    """Truth values of all elements (forks)."""
    return np.array([bool(v) for v in np.asarray(a, dtype=object).ravel()], dtype=bool).reshape(np.shape(a))


def _objarray(x):
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        return np.asarray(x).astype(object)

    def shape(v):
        if isinstance(v, np.ndarray):
            return v.shape
        if isinstance(v, (list, tuple)):
            if not len(v):
                return (0,)
            return (len(v),) + shape(v[0])
        return ()

    sh = shape(x)
    if not sh:
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    a = np.empty(sh, dtype=object)
    if 0 in sh:
        return a
    if len(sh) == 1:
        for i, v in enumerate(x):
            if isinstance(v, np.ndarray) and v.ndim == 0:
                v = v.item()
            elif isinstance(v, np.ndarray) and v.size == 1:
                raise ValueError("setting an array element with a sequence.")
            a[i] = v
    else:
        for i, v in enumerate(x):
            sub = _objarray(v)
            if sub.shape != sh[1:]:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            a[i] = sub
    return a


def wrap(r):
    if isinstance(r, np.ndarray) and not isinstance(r, SArr) and r.dtype == object:
        return r.view(SArr)
    if isinstance(r, tuple):
        return tuple(wrap(v) for v in r)
    if isinstance(r, list):
        return [wrap(v) for v in r]
    return r


def plain(x):
    """Object arrays without symbolic values become float arrays again."""
    if isinstance(x, np.ndarray) and x.dtype == object and not has_sym(x):
        try:
            return np.array(x.tolist()) if x.size else np.zeros(x.shape)
        except (TypeError, ValueError):
            return np.asarray(x)
    if isinstance(x, SArr):
        return np.asarray(x)
    return x


def out0(a):
    """0-d object arrays become scalars."""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a.item()
    return wrap(a)


def elementwise(f, *arrs):
    arrs = [np.asarray(_objarray(a)) if not isinstance(a, np.ndarray) else np.asarray(a) for a in arrs]
    b = np.broadcast(*arrs) if len(arrs) > 1 else None
    if b is None:
        src = arrs[0]
        res = np.empty(src.shape, dtype=object)
        flat = res.reshape(-1)
        for i, v in enumerate(src.ravel()):
            flat[i] = f(v)
        res = flat.reshape(src.shape)
    else:
        bs = np.broadcast_arrays(*arrs)
        res = np.empty(b.shape, dtype=object)
        flat = res.reshape(-1)
        rs = [np.asarray(x).ravel() for x in bs]
        for i in range(flat.size):
            flat[i] = f(*[r[i] for r in rs])
        res = flat.reshape(b.shape)
    return out0(res)


def bool_elementwise(f, *arrs):
    r = elementwise(f, *arrs)
    if isinstance(r, np.ndarray):
        if any(is_sym(v) for v in r.ravel()):
            return r
        return np.asarray(r).astype(bool)
    return r


def _num(v):
    return v.item() if isinstance(v, (np.generic,)) else v


def _m(name, realf):
    def f(v):
        if isinstance(v, Sym):
            if isinstance(v, SymBool):
                v = v.asint()
            return getattr(v, name)()
        return realf(v)

    return f


def _maximum(a, b):
    return a if a >= b else b


def _minimum(a, b):
    return a if a <= b else b


def _hyp(a, b):
    return sqrt(a * a + b * b)


def sqrt(v):
    if is_sym(v):
        return cur().sqrt(v)
    return np.sqrt(v) if v < 0 else _math.sqrt(v)


def _div(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.divide(a, b)
    if not is_sym(b) and b == 0:
        raise Unsupported("numpy division of a symbolic value by zero")
    return a / b


def _sign(v):
    if not is_sym(v):
        return np.sign(v)
    if v > 0:
        return 1.0
    if v < 0:
        return -1.0
    return 0.0


def _exp(v):
    raise Unsupported("exp of a symbolic value")


UF = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": _div,
    "true_divide": _div,
    "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b,
    "power": lambda a, b: a**b,
    "float_power": lambda a, b: a**b,
    "negative": lambda a: -a,
    "positive": lambda a: a,
    "absolute": lambda a: abs(a),
    "fabs": lambda a: abs(a),
    "square": lambda a: a * a,
    "sqrt": sqrt,
    "hypot": _hyp,
    "sin": _m("sin", np.sin),
    "cos": _m("cos", np.cos),
    "tan": _m("tan", np.tan),
    "arcsin": _m("arcsin", np.arcsin),
    "arccos": _m("arccos", np.arccos),
    "arctan": _m("arctan", np.arctan),
    "arctan2": lambda a, b: cur().atan2(a, b) if is_sym(a) or is_sym(b) else np.arctan2(a, b),
    "radians": lambda a: a * (np.pi / 180),
    "deg2rad": lambda a: a * (np.pi / 180),
    "degrees": lambda a: a * (180 / np.pi),
    "rad2deg": lambda a: a * (180 / np.pi),
    "floor": _m("floor", np.floor),
    "ceil": _m("ceil", np.ceil),
    "rint": _m("rint", np.rint),
    "trunc": _m("trunc", np.trunc),
    "maximum": _maximum,
    "minimum": _minimum,
    "fmax": _maximum,
    "fmin": _minimum,
    "sign": _sign,
    "conjugate": lambda a: a,
    "reciprocal": lambda a: 1.0 / a,
    "exp": _exp,
    "log": _m("log", np.log),
}
UFB = {
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b,
    "not_equal": lambda a, b: a != b,
    "logical_and": lambda a, b: _band(a, b),
    "logical_or": lambda a, b: _bor(a, b),
    "bitwise_and": lambda a, b: _band(a, b) if _isb(a) or _isb(b) else a & b,
    "bitwise_or": lambda a, b: _bor(a, b) if _isb(a) or _isb(b) else a | b,
    "logical_xor": lambda a, b: a ^ b,
    "bitwise_xor": lambda a, b: a ^ b,
    "logical_not": lambda a: ~a if isinstance(a, SymBool) else (a == 0 if is_sym(a) else not a),
    "invert": lambda a: ~a,
    "isnan": lambda a: False if is_sym(a) else (bool(np.isnan(a)) if a is not None else False),
    "isinf": lambda a: False if is_sym(a) else bool(np.isinf(a)),
    "isfinite": lambda a: True if is_sym(a) else bool(np.isfinite(a)),
}


def _isb(a):
    return isinstance(a, (bool, np.bool_, SymBool))


def _tb(a):
    if isinstance(a, SymBool):
        return a
    if is_sym(a):
        return a != 0
    return bool(a)


def _band(a, b):
    a, b = _tb(a), _tb(b)
    return a & b


def _bor(a, b):
    a, b = _tb(a), _tb(b)
    return a | b


def ufunc_dispatch(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop("out", None)
    where = kwargs.pop("where", True)
    kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    if where is not True:
        raise Unsupported("ufunc where=")
    inputs = [x.item() if isinstance(x, np.generic) else x for x in inputs]
    if name in ("matmul",):
        r = HANDLED["matmul"](*inputs)
    elif method == "__call__":
        f = UF.get(name)
        if f is not None:
            r = elementwise(f, *inputs)
        elif name in UFB:
            r = bool_elementwise(UFB[name], *inputs)
            if isinstance(r, np.ndarray) and r.dtype == object and not cur().opts.get("lazy_bools"):
                r = boolify(r)
        else:
            ins = [plain(x) for x in inputs]
            if any(has_sym(x) for x in ins):
                raise Unsupported("ufunc " + name)
            r = getattr(ufunc, method)(*ins, **kwargs)
    elif method == "reduce":
        h = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min",
             "logical_and": "all", "logical_or": "any"}.get(name)
        if h is None:
            raise Unsupported("reduce " + name)
        r = HANDLED[h](inputs[0], axis=kwargs.get("axis", 0))
    elif method == "outer" and name == "multiply":
        r = HANDLED["outer"](*inputs)
    elif method == "accumulate" and name == "add":
        r = HANDLED["cumsum"](*inputs)
    else:
        raise Unsupported("ufunc %s.%s" % (name, method))
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if not isinstance(o, np.ndarray) or (o.dtype != object and has_sym(r)):
            raise Unsupported("ufunc output into a plain array")
        o[...] = r
        return o
    return r


def cast_kind(t):
    if t in (int, np.int32, np.int64, np.uint32, np.uint16, np.uint8, np.int8, np.int16, np.uint64, "int", "i", "int32", "int64"):
        return "i"
    if t in (bool, np.bool_, "bool"):
        return "b"
    if t in (float, np.float64, np.float32, np.double, np.single, "float", "f", "d", "float32", "float64", object, "object", np.longdouble):
        return "f"
    try:
        k = np.dtype(t).kind
    except TypeError:
        return "f"
    return {"i": "i", "u": "i", "b": "b", "f": "f", "O": "f"}.get(k, "x")


INT_RANGE = {np.uint8: 8, np.uint16: 16}


def cast_scalar(v, t):
    k = cast_kind(t)
    if isinstance(v, Sym):
        if k == "i":
            if isinstance(v, SymReal):
                v = v.trunc()
            if isinstance(v, SymBool):
                v = v.asint()
            try:
                dt = np.dtype(t)
            except TypeError:
                dt = None
            if dt is not None and dt.kind == "u" and isinstance(v, SymInt):
                # unsigned conversion wraps
                m = 1 << (8 * dt.itemsize)
                if cur().branch(z3.And(v.t >= 0, v.t < m)):
                    return v
                return v % m
            if dt is not None and dt.kind == "i" and dt.itemsize <= 4 and isinstance(v, SymInt):
                m = 1 << (8 * dt.itemsize)
                if cur().branch(z3.And(v.t >= -(m // 2), v.t < m // 2)):
                    return v
                return (v + m // 2) % m - m // 2
            return v
        if k == "b":
            return v if isinstance(v, SymBool) else v != 0
        if k == "f":
            if isinstance(v, SymInt):
                return v.toreal()
            if isinstance(v, SymBool):
                return v.asint().toreal()
            return v
        raise Unsupported("cast to %s" % (t,))
    if t is object:
        return v
    return np.dtype(t).type(v)


def cast_array(a, t):
    a = np.asarray(a)
    if not has_sym(a):
        if cast_kind(t) == "f":
            r = np.asarray(a.tolist(), dtype=float).reshape(a.shape) if a.dtype == object else a.astype(t)
            return r.astype(object).view(SArr)
        p = plain(a)
        return p.astype(t).view(ImgArr)
    if cast_kind(t) == "b":
        return boolify(a)
    return elementwise(lambda v: cast_scalar(v, t), a)


def handled(name):
    def d(f):
        HANDLED[name] = f
        return f

    return d


def plain_options(kw, *known):
    """Refuse options that would change a result."""
    for k, v in kw.items():
        if k not in known and k not in ("dtype", "kind", "order", "stable", "casting", "copy") and v is not None and v is not False and v is not np._NoValue:
            raise Unsupported("option %s" % k)


def _reduce(f, *options):
    def g(a, axis=None, **kw):
        plain_options(kw, "keepdims", *options)
        more = {k: kw[k] for k in options if k in kw}
        if more:
            return _reduce(lambda l: f(l, **more))(a, axis, keepdims=kw.get("keepdims", False))
        keep = kw.get("keepdims", False)
        if not isinstance(a, np.ndarray):
            if isinstance(a, (map, zip)) or hasattr(a, "__next__"):
                a = list(a)
            a = _objarray(a)
        a = np.asarray(a)
        if isinstance(axis, tuple):
            axes = sorted([x % a.ndim for x in axis], reverse=True)
            for x in axes:
                a = np.asarray(g(a, axis=x, keepdims=keep))
            return out0(a)
        if axis is None:
            r = f(list(a.ravel()))
            if keep:
                o = np.empty((1,) * a.ndim, dtype=object)
                o[...] = r
                return o.view(SArr)
            return r
        axis = axis % a.ndim
        m = np.moveaxis(a, axis, -1)
        res = np.empty(m.shape[:-1], dtype=object)
        for idx in np.ndindex(*m.shape[:-1]):
            res[idx] = f(list(m[idx]))
        if keep:
            res = np.expand_dims(res, axis)
        return out0(res)

    return g


def _sum(l):
    r = 0
    for v in l:
        r = r + (v.asint() if isinstance(v, SymBool) else (int(v) if isinstance(v, (bool, np.bool_)) else v))
    return r


def _prod(l):
    r = 1
    for v in l:
        r = r * v
    return r


def _min(l):
    if not l:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    if _lazy(l):
        return Extreme(list(l), -1)
    r = l[0]
    for v in l[1:]:
        if v < r:
            r = v
    return r


class Extreme(SymReal):
    """Largest (smallest) of several reals: which one is only asked when a
    value is needed, comparisons are made with all of them."""

    __slots__ = ("cands", "way", "known")

    def __init__(self, cands, way):
        self.cands, self.way, self.known = cands, way, None

    @property
    def t(self):
        if self.known is None:
            r = self.cands[0]
            for v in self.cands[1:]:
                if (v > r) if self.way > 0 else (v < r):
                    r = v
            self.known = to_real_term(r)
        return self.known

    def _cmp(op, forall):
        def f(self, o):
            if self.known is not None or isinstance(o, Extreme) or (isinstance(o, np.ndarray) and o.ndim):
                return getattr(SymReal, op)(self, o)
            rs = [getattr(operator, op.strip("_"))(v, o) for v in self.cands]
            if any(r is NotImplemented for r in rs):
                return NotImplemented
            r = rs[0]
            for x in rs[1:]:
                r = (_tb(r) & _tb(x)) if forall == (self.way > 0) else (_tb(r) | _tb(x))
            return r

        return f

    __lt__ = _cmp("__lt__", True)
    __le__ = _cmp("__le__", True)
    __gt__ = _cmp("__gt__", False)
    __ge__ = _cmp("__ge__", False)


def _lazy(l):
    return len(l) > 1 and any(isinstance(v, SymReal) for v in l) and all(
        isinstance(v, SymReal) or (is_num(v) and not isinstance(v, (bool, np.bool_)) and math.isfinite(v)) for v in l)


def _max(l):
    if not l:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    if _lazy(l):
        return Extreme(list(l), 1)
    r = l[0]
    for v in l[1:]:
        if v > r:
            r = v
    return r


def _argmin(l):
    if not l:
        raise ValueError("attempt to get argmin of an empty sequence")
    k = 0
    for i, v in enumerate(l):
        if v < l[k]:
            k = i
    return k


def _argmax(l):
    if not l:
        raise ValueError("attempt to get argmax of an empty sequence")
    k = 0
    for i, v in enumerate(l):
        if v > l[k]:
            k = i
    return k


def _var(l, ddof=0):
    n = len(l)
    m = _sum(l) / n
    return _sum([(v - m) * (v - m) for v in l]) / (n - ddof)


def _median(l):
    s = sorted(l)
    n = len(s)
    if n % 2:
        return s[n // 2]
    return (s[n // 2 - 1] + s[n // 2]) / 2


def _any(l):
    r = False
    for v in l:
        r = r | _tb(v) if is_sym(r) or is_sym(v) else (r or bool(v))
    return r


def _all(l):
    r = True
    for v in l:
        r = r & _tb(v) if is_sym(r) or is_sym(v) else (r and bool(v))
    return r


HANDLED["sum"] = HANDLED["nansum"] = _reduce(_sum)
HANDLED["prod"] = _reduce(_prod)
HANDLED["mean"] = HANDLED["nanmean"] = _reduce(lambda l: _sum(l) / len(l))
HANDLED["min"] = HANDLED["amin"] = HANDLED["nanmin"] = _reduce(_min)
HANDLED["max"] = HANDLED["amax"] = HANDLED["nanmax"] = _reduce(_max)
HANDLED["argmin"] = _reduce(_argmin)
HANDLED["argmax"] = _reduce(_argmax)
HANDLED["var"] = _reduce(_var, "ddof")
HANDLED["std"] = _reduce(lambda l, ddof=0: sqrt(_var(l, ddof)), "ddof")
HANDLED["median"] = _reduce(_median)
HANDLED["any"] = _reduce(_any)
HANDLED["all"] = _reduce(_all)
for _n in ("argmin", "argmax"):
    def _w(f):
        def g(a, axis=None, **kw):
            r = f(a, axis, **kw)
            return np.array(r.tolist(), dtype=int) if isinstance(r, np.ndarray) else r
        return g
    HANDLED[_n] = _w(HANDLED[_n])
for _n in ("any", "all"):
    def _w2(f):
        def g(a, axis=None, **kw):
            r = f(a, axis, **kw)
            if isinstance(r, np.ndarray):
                return boolify(r)
            return r
        return g
    HANDLED[_n] = _w2(HANDLED[_n])


@handled("average")
def average(a, axis=None, weights=None, **kw):
    plain_options(kw)
    if weights is None:
        return HANDLED["mean"](a, axis=axis)
    a = np.asarray(_objarray(a))
    w = np.asarray(_objarray(weights))
    if axis is None:
        axis = 0 if a.ndim == 1 else None
    if axis is None:
        raise Unsupported("weighted average over all axes")
    if w.ndim == 1 and a.ndim > 1:
        sh = [1] * a.ndim
        sh[axis] = w.size
        w = w.reshape(sh)
    num = HANDLED["sum"](elementwise(lambda x, y: x * y, a, w), axis=axis)
    den = HANDLED["sum"](w, axis=axis)
    return elementwise(_div, num, den) if isinstance(num, np.ndarray) else _div(num, den)


@handled("dot")
def dot(a, b, out=None):
    a = np.asarray(_objarray(a))
    b = np.asarray(_objarray(b))
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(lambda x, y: x * y, a, b)
    if a.ndim == 1 and b.ndim == 1:
        if a.size != b.size:
            raise ValueError("shapes not aligned")
        return _sum([x * y for x, y in zip(a, b)])
    return out0(np.asarray(_mm(a, b)))


def _mm(a, b):
    if b.ndim == 1:
        if a.shape[-1] != b.shape[0]:
            raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
        r = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(*a.shape[:-1]):
            r[i] = _sum([x * y for x, y in zip(a[i], b)])
        return r
    if a.ndim == 1:
        if a.shape[0] != b.shape[-2]:
            raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
        bt = np.moveaxis(b, -2, -1)
        r = np.empty(bt.shape[:-1], dtype=object)
        for i in np.ndindex(*bt.shape[:-1]):
            r[i] = _sum([x * y for x, y in zip(a, bt[i])])
        return r
    if a.ndim == 2 and b.ndim == 2:
        if a.shape[1] != b.shape[0]:
            raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
        r = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                r[i, j] = _sum([x * y for x, y in zip(a[i], b[:, j])])
        return r
    raise Unsupported("dot of %d-d arrays" % max(a.ndim, b.ndim))


@handled("matmul")
def matmul(a, b, **kw):
    a = np.asarray(_objarray(a))
    b = np.asarray(_objarray(b))
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    if a.ndim <= 2 and b.ndim <= 2:
        return out0(_mm(a, b))
    # stacked matrices
    sa = a if a.ndim > 1 else a[None, :]
    sb = b if b.ndim > 1 else b[:, None]
    lead = np.broadcast_shapes(sa.shape[:-2], sb.shape[:-2])
    sa = np.broadcast_to(sa, lead + sa.shape[-2:])
    sb = np.broadcast_to(sb, lead + sb.shape[-2:])
    r = np.empty(lead + (sa.shape[-2], sb.shape[-1]), dtype=object)
    for i in np.ndindex(*lead):
        r[i] = _mm(sa[i], sb[i])
    if a.ndim == 1:
        r = r[..., 0, :]
    if b.ndim == 1:
        r = r[..., 0]
    return wrap(r)


@handled("outer")
def outer(a, b, out=None):
    a = _objarray(a).ravel()
    b = _objarray(b).ravel()
    return elementwise(lambda x, y: x * y, a[:, None], b[None, :])


HANDLED["inner"] = lambda a, b: dot(a, np.asarray(_objarray(b)).T)
HANDLED["vdot"] = lambda a, b: dot(np.ravel(_objarray(a)), np.ravel(_objarray(b)))


@handled("cross")
def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a = np.asarray(_objarray(a))
    b = np.asarray(_objarray(b))
    a, b = np.moveaxis(a, axisa, -1), np.moveaxis(b, axisb, -1)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported("cross product of 2-vectors")
    a, b = np.broadcast_arrays(a, b)
    c = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        x, y = a[i], b[i]
        c[i + (0,)] = x[1] * y[2] - x[2] * y[1]
        c[i + (1,)] = x[2] * y[0] - x[0] * y[2]
        c[i + (2,)] = x[0] * y[1] - x[1] * y[0]
    return wrap(np.moveaxis(c, -1, axisc))


@handled("cumsum")
def cumsum(a, axis=None, **kw):
    plain_options(kw)
    a = np.asarray(_objarray(a))
    if a.ndim != 1 and axis is None:
        a = a.ravel()
    if a.ndim != 1:
        raise Unsupported("cumsum of matrices")
    out = np.empty(a.shape, dtype=object)
    r = 0
    for i, v in enumerate(a):
        r = r + v
        out[i] = r
    return wrap(out)


@handled("diff")
def diff(a, n=1, axis=-1):
    a = np.asarray(_objarray(a))
    if a.ndim != 1 or n != 1:
        raise Unsupported("diff")
    return elementwise(lambda x, y: y - x, a[:-1], a[1:])


@handled("clip")
def clip(a, lo=None, hi=None, a_min=None, a_max=None, **kw):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi

    def f(v, l, h):
        if l is not None and v < l:
            return l
        if h is not None and v > h:
            return h
        return v

    return elementwise(f, a, lo if lo is not None else np.array(None, dtype=object), hi if hi is not None else np.array(None, dtype=object))


@handled("where")
def where(c, *ab):
    if not ab:
        return boolify(c).nonzero()
    a, b = ab
    return elementwise(lambda k, x, y: x if k else y, c, a, b)


HANDLED["nonzero"] = lambda a: boolify(a).nonzero()
HANDLED["flatnonzero"] = lambda a: np.flatnonzero(boolify(a))
HANDLED["count_nonzero"] = lambda a, **kw: int(np.count_nonzero(boolify(a)))
HANDLED["argwhere"] = lambda a: np.argwhere(boolify(a))


@handled("isclose")
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool_elementwise(lambda x, y: _close(_num(x), _num(y), rtol, atol), a, b)


def _close(x, y, rtol, atol):
    d = x - y
    if not is_sym(d):
        return abs(d) <= atol + rtol * abs(y)
    if not is_sym(y):
        lim = atol + rtol * abs(y)
        return _tb(d <= lim) & _tb(d >= -lim)
    u, v = atol + rtol * y, atol - rtol * y
    return (_tb(d <= u) | _tb(d <= v)) & (_tb(-d <= u) | _tb(-d <= v))


@handled("allclose")
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return bool(HANDLED["all"](r))


HANDLED["array_equal"] = lambda a, b, **kw: np.shape(a) == np.shape(b) and bool(
    HANDLED["all"](bool_elementwise(lambda x, y: x == y, a, b)))


@handled("argsort")
def argsort(a, axis=-1, **kw):
    a = np.asarray(_objarray(a))
    if a.ndim == 1:
        return np.array(sorted(range(a.size), key=lambda i: _Key(a[i])), dtype=int)
    if axis in (-1, a.ndim - 1):
        out = np.empty(a.shape, dtype=int)
        for i in np.ndindex(*a.shape[:-1]):
            out[i] = argsort(a[i])
        return out
    raise Unsupported("argsort axis")


class _Key:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


@handled("sort")
def sort(a, axis=-1, **kw):
    a = np.asarray(_objarray(a))
    if a.ndim == 1:
        o = np.empty(a.shape, dtype=object)
        for i, v in enumerate(sorted(a)):
            o[i] = v
        return wrap(o)
    if axis in (-1, a.ndim - 1):
        o = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[:-1]):
            o[i] = sort(a[i])
        return wrap(o)
    if axis == 0:
        return wrap(np.moveaxis(np.asarray(sort(np.moveaxis(a, 0, -1))), -1, 0))
    raise Unsupported("sort axis")


@handled("unique")
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = np.asarray(_objarray(a)).ravel()
    if axis is not None:
        raise Unsupported("unique axis")
    order = sorted(range(a.size), key=lambda i: _Key(a[i]))
    vals, idx, inv, cnt = [], [], [0] * a.size, []
    for i in order:
        if not vals or bool(a[i] != vals[-1]):
            vals.append(a[i])
            idx.append(i)
            cnt.append(0)
        inv[i] = len(vals) - 1
        cnt[-1] += 1
        if i < idx[-1]:
            idx[-1] = i
    v = wrap(_objarray(vals))
    r = [v]
    if return_index:
        r.append(np.array(idx, dtype=int))
    if return_inverse:
        r.append(np.array(inv, dtype=int))
    if return_counts:
        r.append(np.array(cnt, dtype=int))
    return r[0] if len(r) == 1 else tuple(r)


@handled("trace")
def trace(a, offset=0, **kw):
    plain_options(kw)
    return _sum([a[i, i + offset] for i in range(max(0, -offset), min(np.shape(a)[0], np.shape(a)[1] - offset))])


@handled("percentile")
def percentile(*a, **kw):
    raise Unsupported("percentile")


@handled("round")
def round_(a, decimals=0, **kw):
    return elementwise(lambda v: v.__round__(decimals) if is_sym(v) else np.round(v, decimals), a)


HANDLED["around"] = round_


@handled("interp")
def interp(x, xp, fp, **kw):
    xp = list(_objarray(xp))
    fp = list(_objarray(fp))

    def one(v):
        if v <= xp[0]:
            return fp[0]
        for i in range(1, len(xp)):
            if v <= xp[i]:
                return fp[i - 1] + (fp[i] - fp[i - 1]) * (v - xp[i - 1]) / (xp[i] - xp[i - 1])
        return fp[-1]

    return elementwise(one, x)


@handled("searchsorted")
def searchsorted(a, v, side="left", **kw):
    a = list(_objarray(a))

    def one(x):
        k = 0
        for y in a:
            if (y < x) if side == "left" else (y <= x):
                k += 1
            else:
                break
        return k

    r = elementwise(one, v)
    return np.array(r.tolist(), dtype=int) if isinstance(r, np.ndarray) else r


HANDLED["isnan"] = lambda a: bool_elementwise(UFB["isnan"], a)


@handled("nan_to_num")
def nan_to_num(a, **kw):
    return elementwise(lambda v: v if is_sym(v) else np.nan_to_num(v), a)


@handled("einsum")
def einsum(spec, *ops, **kw):
    ops = [np.asarray(_objarray(o)) for o in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = [c for c in ins if c != ","]
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    dims = {}
    for i, o in zip(ins, ops):
        for c, n in zip(i, o.shape):
            dims[c] = n
    summed = [c for c in dims if c not in out]
    r = np.empty([dims[c] for c in out], dtype=object)
    for idx in np.ndindex(*[dims[c] for c in out]):
        env = dict(zip(out, idx))
        tot = 0
        for sidx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, sidx))
            p = 1
            for i, o in zip(ins, ops):
                p = p * o[tuple(env[c] for c in i)]
            tot = tot + p
        r[idx] = tot
    return out0(r)


# ---- linear algebra ------------------------------------------------------


@handled("norm")
def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm order")
    a = np.asarray(_objarray(x))
    if ord == 2 and axis is None and a.ndim == 2:
        raise Unsupported("matrix 2-norm")
    f = _reduce(lambda l: sqrt(_sum([v * v for v in l])))
    return f(a, axis=axis, keepdims=keepdims)


@handled("det")
def det(a):
    a = np.asarray(_objarray(a))
    n = a.shape[0]
    if a.ndim != 2:
        raise Unsupported("det of stacked matrices")
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    r = 0
    for j in range(n):
        if not is_sym(a[0, j]) and a[0, j] == 0:
            continue
        m = np.delete(np.delete(a, 0, 0), j, 1)
        r = r + (-1) ** j * a[0, j] * det(m)
    return r


@handled("inv")
def inv(a):
    a = np.asarray(_objarray(a))
    if a.ndim != 2:
        raise Unsupported("inv of stacked matrices")
    n = a.shape[0]
    if n == 4 and all(not is_sym(v) for v in a[3]) and [float(v) for v in a[3]] == [0, 0, 0, 1]:
        i3 = np.asarray(inv(a[:3, :3]))
        r = np.empty((4, 4), dtype=object)
        r[...] = 0.0
        r[3, 3] = 1.0
        r[:3, :3] = i3
        t = np.asarray(_mm(i3, a[:3, 3]))
        r[:3, 3] = [-v for v in t]
        return wrap(r)
    d = det(a)
    if is_sym(d):
        try:
            n_ = cur().nf(d.t)
            if n_.n.is_const() and not n_.d:
                d = float(n_.n.const_value())
        except sym.TooBig:
            pass
    if not is_sym(d) and d == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    if n == 1:
        r = np.empty((1, 1), dtype=object)
        r[0, 0] = 1.0 / a[0, 0]
        return wrap(r)
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(a, j, 0), i, 1)
            c = det(m) * (-1) ** (i + j)
            r[i, j] = c if (not is_sym(d) and d == 1) else c / d
    return wrap(r)


@handled("solve")
def solve(a, b):
    return HANDLED["dot"](inv(a), b)


@handled("svd")
def svd(a, *rest, **kw):
    """Of a multiple of an orthogonal matrix, or as provided by the check."""
    m = np.asarray(_objarray(a))
    r = _provided("svd", m)
    if r is not None:
        return r
    if m.ndim == 2 and m.shape[0] == m.shape[1]:
        try:
            p = np.asarray(_mm(m.T, m))
            n = len(m)
            v = [[cur().nf(sym.to_real_term(p[i, j])) for j in range(n)] for i in range(n)]
            if all(v[i][j].n.is_const() and not v[i][j].d for i in range(n) for j in range(n)):
                c = [[float(v[i][j].n.const_value()) for j in range(n)] for i in range(n)]
                q = c[0][0]
                if q > 1e-12 and all(abs(c[i][j] - (q if i == j else 0)) < 1e-9 * q for i in range(n) for j in range(n)):
                    r = q ** 0.5
                    r = float(round(r)) if abs(r - round(r)) < 1e-12 else r
                    return wrap(m / r), np.full(n, r), np.eye(n)
        except sym.TooBig:
            pass
    raise Unsupported("svd of a symbolic matrix")


def _provided(op, m):
    for f in cur().provided.get(op, ()):
        r = f(m)
        if r is not None:
            return tuple(wrap(_objarray(x)) for x in r)
    return None


@handled("eigh")
def eigh(a, *rest, **kw):
    r = _provided("eigh", np.asarray(_objarray(a)))
    if r is None:
        raise Unsupported("eigh of a symbolic matrix")
    return r


@handled("eig")
def eig(a, *rest, **kw):
    r = _provided("eig", np.asarray(_objarray(a)))
    if r is None:
        raise Unsupported("eig of a symbolic matrix")
    return r


@handled("qr")
def qr(a, *rest, **kw):
    r = _provided("qr", np.asarray(_objarray(a)))
    if r is None:
        raise Unsupported("qr of a symbolic matrix")
    return r


@handled("pinv")
def pinv(a, *rest, **kw):
    """Of an invertible matrix."""
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise Unsupported("pinv of a symbolic matrix")
    return HANDLED["inv"](a)


for _n in ("eigvals", "lstsq", "cholesky", "matrix_rank"):
    def _uns(n):
        def f(*a, **kw):
            raise Unsupported(n + " of a symbolic matrix")
        return f
    HANDLED[_n] = _uns(_n)


class _Proxy:
    def __init__(self, real, over):
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over

    def __getattr__(self, n):
        o = self._over.get(n)
        if o is not None:
            return o
        return getattr(self._real, n)

    def __setattr__(self, n, v):
        self._over[n] = v

    def __delattr__(self, n):
        del self._over[n]


def _dispatching(name, real):
    h = HANDLED[name]

    def f(*args, **kw):
        if any(has_sym(a) for a in args) or any(has_sym(a) for a in kw.values()):
            return h(*args, **kw)
        args = [plain(a) if isinstance(a, np.ndarray) else _plainlist(a) for a in args]
        kw = {k: plain(v) for k, v in kw.items()}
        r = real(*args, **kw)
        return _objify(r)

    return f


def _plainlist(a):
    if isinstance(a, (list, tuple)) and any(isinstance(x, SArr) for x in a):
        return type(a)(plain(x) for x in a) if type(a) in (list, tuple) else a
    return a


def _objify(r):
    """Float results become object arrays so that they can hold symbols."""
    if isinstance(r, np.ndarray) and r.dtype.kind == "f" and not isinstance(r, SArr):
        return r.astype(object).view(SArr)
    if type(r) is tuple:
        return tuple(_objify(x) for x in r)
    return r


def _uf(name, real):
    def f(*args, **kw):
        if len(args) == real.nin + 1 and real.nout == 1:
            kw = dict(kw, out=args[-1])
            args = args[:-1]
        out = kw.get("out")
        if any(has_sym(a) for a in args):
            return ufunc_dispatch(real, "__call__", args, dict(kw))
        args = [plain(a) for a in args]
        if isinstance(out, SArr):
            kw = dict(kw)
            del kw["out"]
            out[...] = real(*args, **kw)
            return out
        return _objify(real(*args, **kw))

    f.__name__ = name
    f.reduce = lambda *a, **k: ufunc_dispatch(real, "reduce", a, k) if has_sym(a[0]) else real.reduce(*[plain(x) for x in a], **k)
    f.outer = lambda *a, **k: ufunc_dispatch(real, "outer", a, k) if has_sym(a[0]) or has_sym(a[1]) else real.outer(*[plain(x) for x in a], **k)
    f.accumulate = real.accumulate
    f.at = real.at
    return f


def _array(x, dtype=None, copy=True, ndmin=0, **kw):
    if isinstance(x, (map, zip)) or hasattr(x, "__next__"):
        x = np.array(x, dtype=object).item()
    if has_sym(x):
        if dtype is not None and cast_kind(dtype) == "x":
            raise Unsupported("array dtype %r" % (dtype,))
        a = _objarray(x).view(SArr) if not isinstance(x, SArr) else np.array(x).view(SArr)
        if dtype is not None and dtype is not object:
            a = cast_array(a, dtype) if a.ndim else _objarray(cast_scalar(a.item(), dtype)).view(SArr)
        while a.ndim < ndmin:
            a = a[None]
        return a
    if isinstance(x, SArr):
        x = plain(x)
    elif isinstance(x, (list, tuple)):
        x = _deepplain(x)
    a = np.array(x, dtype=dtype, ndmin=ndmin, **kw)
    if a.dtype.kind == "f":
        return a.astype(object).view(SArr)
    return a


def _deepplain(x):
    if isinstance(x, SArr):
        return plain(x)
    if type(x) in (list, tuple):
        return type(x)(_deepplain(v) for v in x)
    return x


class IArr(SArr):
    """Array of a machine integer type whose elements may be symbolic."""

    def __array_finalize__(self, obj):
        self._idt = getattr(obj, "_idt", None)

    def __setitem__(self, k, v):
        t = self._idt
        if t is not None:
            if isinstance(v, (list, tuple)):
                v = _objarray(v)
            if isinstance(v, np.ndarray):
                v = elementwise(lambda x: cast_scalar(x, t), np.asarray(v, dtype=object))
            else:
                v = cast_scalar(v, t)
        SArr.__setitem__(self, k, v)


def _creation(real):
    def f(*args, **kw):
        a = real(*args, **kw)
        if a.dtype.kind in "iu" and sym.CTX[0] is not None and cur().opts.get("int_arrays") and real in (np.zeros, np.ones):
            t = a.dtype
            a = a.astype(object).view(IArr)
            a._idt = t
            return a
        if a.dtype.kind == "f":
            if real in (np.empty, np.empty_like):
                a = np.zeros(a.shape)
            return a.astype(object).view(SArr)
        return a

    return f


def _full(shape, fill_value, dtype=None, **kw):
    if is_sym(fill_value):
        a = np.empty(shape, dtype=object)
        a[...] = fill_value
        return a.view(SArr)
    a = np.full(shape, fill_value, dtype)
    return a.astype(object).view(SArr) if a.dtype.kind == "f" else a


def _asarray(x, dtype=None, **kw):
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    if isinstance(x, SArr) and cast_kind(dtype) == "f":
        return x
    return _array(x, dtype=dtype)


def _like(creator):
    def f(a, dtype=None, **kw):
        if dtype is None and isinstance(a, SArr):
            dtype = float
        if not isinstance(a, np.ndarray):
            a = _array(a)
            if dtype is None:
                dtype = float if isinstance(a, SArr) else a.dtype
        return creator(np.shape(a), dtype=dtype if dtype is not None else a.dtype)

    return f


def _structural(real):
    """Functions that only move elements around."""

    def f(*args, **kw):
        return wrap(real(*[_structarg(a) for a in args], **kw))

    return f


def _structarg(a):
    if isinstance(a, np.ndarray):
        return np.asarray(a)
    if isinstance(a, (list, tuple)):
        if has_sym(a) or any(isinstance(x, SArr) for x in a):
            return [np.asarray(_objarray(x)) if not isinstance(x, np.ndarray) else np.asarray(x) for x in a]
        return a
    if isinstance(a, Sym):
        return _objarray(a)
    return a


_created = {
    "zeros": _creation(np.zeros), "ones": _creation(np.ones),
    "empty": _creation(np.empty), "eye": _creation(np.eye),
    "identity": _creation(np.identity), "full": _full,
    "array": _array, "asarray": _asarray, "asanyarray": _asarray,
    "ascontiguousarray": _asarray, "asfarray": _asarray,
    "linspace": _creation(np.linspace),
    "zeros_like": _like(_creation(np.zeros)), "ones_like": _like(_creation(np.ones)),
    "empty_like": _like(_creation(np.zeros)),
}


def _linspace(a, b, n=50, **kw):
    if is_sym(a) or is_sym(b):
        return _objarray([a + (b - a) * (i / (n - 1)) for i in range(n)]).view(SArr)
    return _created_linspace(a, b, n, **kw)


_created_linspace = _created["linspace"]
_created["linspace"] = _linspace


def _isscalar(x):
    return is_sym(x) or np.isscalar(x)


def _float64(x=0.0):
    return cast_scalar(x, np.float64) if is_sym(x) else np.float64(x)


def _make_np():
    over = dict(_created)
    for n in ("hstack", "vstack", "stack", "concatenate", "column_stack", "append",
              "repeat", "tile", "reshape", "ravel", "transpose", "expand_dims",
              "squeeze", "roll", "flip", "fliplr", "flipud", "rot90", "take",
              "delete", "insert", "split", "diag", "atleast_1d", "atleast_2d",
              "swapaxes", "moveaxis", "broadcast_to", "copy", "compress", "meshgrid",
              "block", "dstack", "triu", "tril", "array_split", "diagonal"):
        over[n] = _structural(getattr(np, n))
    for n in HANDLED:
        if hasattr(np, n) and n not in ("norm",):
            over[n] = _dispatching(n, getattr(np, n))
    for n in list(UF) + list(UFB):
        r = getattr(np, n, None)
        if isinstance(r, np.ufunc):
            over[n] = _uf(n, r)
    over["abs"] = over["absolute"]
    over["mod"] = over["remainder"]
    over["atan2"] = over["arctan2"]
    over["pow"] = over["power"]
    over["isscalar"] = _isscalar
    over["real"] = lambda a: a if has_sym(a) else _objify(np.asarray(plain(a)).real)
    over["imag"] = lambda a: a * 0.0 if has_sym(a) else _objify(np.asarray(plain(a)).imag)
    over["issubdtype"] = lambda a, b: np.issubdtype(a._t if isinstance(a, _ScalarType) else a,
                                                    b._t if isinstance(b, _ScalarType) else b)
    from . import memio
    over["savez_compressed"] = over["savez"] = memio.savez
    over["load"] = memio.load
    la = {}
    for n in ("norm", "det", "inv", "solve", "svd", "eigh", "eig", "eigvals", "lstsq",
              "qr", "pinv", "cholesky", "matrix_rank"):
        la[n] = _dispatching(n, getattr(np.linalg, n))
    over["linalg"] = _Proxy(np.linalg, la)
    for name in ("float64", "float32", "int32", "int64", "uint8", "uint16"):
        over[name] = _ScalarType(getattr(np, name))
    return _Proxy(np, over)


class _ScalarType:
    """np.float64 & co: a dtype that converts symbolic scalars."""

    def __init__(self, t):
        self._t = t
        self.dtype = np.dtype(t)

    def __call__(self, *a):
        if a and is_sym(a[0]):
            return cast_scalar(a[0], self._t)
        return self._t(*a)

    def __eq__(self, o):
        return o is self or o is self._t or o == self._t

    def __hash__(self):
        return hash(self._t)

    def __getattr__(self, n):
        return getattr(self._t, n)

    def __mro_entries__(self, bases):
        return (self._t,)


# ---- math ------------------------------------------------------------------


def _math_fn(name, symf):
    real = getattr(_math, name)

    def f(*args):
        if any(is_sym(a) for a in args):
            return symf(*args)
        return real(*args)

    return f


class MathProxy(_Proxy):
    pass


def _fmod(a, b):
    r = abs(a) % abs(b)
    return r if a >= 0 else -r


math_proxy = MathProxy(_math, {
    "sqrt": _math_fn("sqrt", lambda v: cur().sqrt(v)),
    "sin": _math_fn("sin", lambda v: v.sin()),
    "cos": _math_fn("cos", lambda v: v.cos()),
    "tan": _math_fn("tan", lambda v: v.tan()),
    "asin": _math_fn("asin", lambda v: v.arcsin()),
    "acos": _math_fn("acos", lambda v: v.arccos()),
    "atan": _math_fn("atan", lambda v: v.arctan()),
    "atan2": _math_fn("atan2", lambda a, b: cur().atan2(a, b)),
    "hypot": _math_fn("hypot", lambda *a: sqrt(_sum([v * v for v in a]))),
    "radians": _math_fn("radians", lambda v: v * (_math.pi / 180)),
    "degrees": _math_fn("degrees", lambda v: v * (180 / _math.pi)),
    "floor": _math_fn("floor", lambda v: v.__floor__()),
    "ceil": _math_fn("ceil", lambda v: v.__ceil__()),
    "trunc": _math_fn("trunc", lambda v: v.trunc()),
    "fabs": _math_fn("fabs", abs),
    "pow": _math_fn("pow", lambda a, b: a**b),
    "isnan": _math_fn("isnan", lambda v: False),
    "isinf": _math_fn("isinf", lambda v: False),
    "isfinite": _math_fn("isfinite", lambda v: True),
    "fmod": _math_fn("fmod", _fmod),
    "copysign": _math_fn("copysign", lambda a, b: abs(a) if b >= 0 else -abs(a)),
    "isclose": _math_fn("isclose", lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= _max([rel_tol * _max([abs(a), abs(b)]), abs_tol])),
    "dist": _math_fn("dist", lambda a, b: sqrt(_sum([(x - y) * (x - y) for x, y in zip(a, b)]))),
})
_mo = math_proxy._over
_mo["fsum"] = lambda it: _sum(list(it))
_mo["dist"] = lambda a, b: sqrt(_sum([(x - y) * (x - y) for x, y in zip(a, b)]))

# ---- builtins ----------------------------------------------------------------

_TYPES = None


def sym_float(x=0.0):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return x.toreal()
    if isinstance(x, SymBool):
        return x.asint().toreal()
    if isinstance(x, str) and sym.has_tok(x):
        v = cur().untoken(x)
        if v is None:
            raise ValueError("could not convert string to float")
        return v.toreal() if isinstance(v, SymInt) else v if is_sym(v) else float(v)
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return sym_float(x.ravel()[0])
    return float(x)


def sym_int(x=0, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return x.trunc()
    if isinstance(x, SymBool):
        return x.asint()
    if isinstance(x, str) and sym.has_tok(x):
        v = cur().untoken(x)
        if v is None or isinstance(v, (SymReal, float)):
            raise ValueError("invalid literal for int()")
        return v
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return sym_int(x.ravel()[0])
    return int(x, *a)


def sym_round(x, nd=None):
    if is_sym(x):
        return x.__round__(nd)
    return round(x, nd) if nd is not None else round(x)


def sym_isinstance(x, t):
    if isinstance(t, tuple):
        return any(sym_isinstance(x, k) for k in t)
    if isinstance(t, _ScalarType):
        t = t._t
    if t is float or t is np.floating or t is np.float64:
        return isinstance(x, (t, SymReal))
    if t is int or t is np.integer:
        return isinstance(x, (t, SymInt))
    try:
        import numbers

        if t in (numbers.Number, numbers.Real):
            return isinstance(x, (t, SymReal, SymInt))
    except TypeError:
        pass
    return isinstance(x, t)


def sym_bool(x=False):
    if isinstance(x, SymBool):
        return x
    return bool(x)


NP = _make_np()

def sym_fmt(f, args):
    if not isinstance(f, str):
        return f % args
    if not has_sym(args if isinstance(args, tuple) else (args,)):
        return f % args
    import re

    if isinstance(args, dict):
        raise Unsupported("mapping format")
    args = args if isinstance(args, tuple) else (args,)
    out, pos, k = [], 0, 0
    for m in re.finditer(r"%([-+ 0#]*)(\d*)(\.\d+)?([a-zA-Z%])", f):
        out.append(f[pos:m.start()])
        pos = m.end()
        if m.group(4) == "%":
            out.append("%")
            continue
        v = args[k]
        k += 1
        if is_sym(v):
            c = m.group(4)
            if c in "di" and isinstance(v, SymReal):
                v = v.trunc()
            if c in "sr":
                out.append(str(v))
            elif isinstance(v, Sym):
                out.append(cur().token(v, (m.group(3) or (".6" if c in "fFeEgG" else "")) + c))
            else:
                out.append(m.group(0) % v)
        else:
            out.append(m.group(0) % v)
    out.append(f[pos:])
    return "".join(out)


BUILTINS = {
    "float": sym_float,
    "int": sym_int,
    "bool": sym_bool,
    "round": sym_round,
    "isinstance": sym_isinstance,
}
