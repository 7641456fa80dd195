"""Polynomials with a bounded remainder, standing for smooth functions of a few
inputs that vary over small intervals.

A value is P(v) + rho with v the inputs scaled to [-1, 1] and |rho| <= r; every
operation keeps that enclosure.  Its solver term is the polynomial plus a fresh
variable for the remainder, so assertions and branches are decided by the
solver for all inputs in the intervals."""
import math

import z3

from . import sym
from .sym import SymReal, Unsupported, _rat, is_sym

ORDER = 5
EPS = 1e-15
FOLD = 1e-7    # smaller coefficients are folded into the remainder of a term


def make(ctx, name, lo, hi, k, n):
    """Input number k of n as a Taylor model (a plain number when replaying)."""
    x = ctx.real(name, lo, hi)
    if ctx.concrete:
        return x
    ctx.abstracted = True
    mid, half = (lo + hi) / 2, (hi - lo) / 2
    e0 = (0,) * n
    e1 = tuple(int(i == k) for i in range(n))
    ctx.__dict__.setdefault("tm_vars", {})[(n, k)] = (x.t - _rat(mid)) / _rat(half)
    return TM({e0: mid, e1: half}, 1e-15 * abs(mid), n)


class TM(SymReal):
    __slots__ = ("p", "r", "n", "_t", "square")

    def __init__(self, p, r, n, square=False):
        self.p, self.r, self.n, self._t = p, r, n, None
        self.square = square            # a sum of squares: cannot be negative

    @property
    def t(self):
        if self._t is None:
            c = sym.cur()
            V = c.tm_vars
            rho = z3.Real(c.fresh("rho"))
            kept = {e: x for e, x in self.p.items() if abs(x) > FOLD or not any(e)}
            r = self.r + sum(abs(x) for e, x in self.p.items() if e not in kept)
            c._add(rho <= _rat(r))
            c._add(rho >= _rat(-r))
            c.ring.atom(str(rho), (-r, r))
            t = rho
            for e, x in kept.items():
                m = _rat(x)
                for i, k in enumerate(e):
                    for _ in range(k):
                        m = m * V[(self.n, i)]
                t = t + m
            self._t = t
        return self._t

    def __hash__(self):
        return id(self)

    def const(self):
        return self.p.get((0,) * self.n, 0.0)

    def rest(self):
        """Bound of everything but the constant."""
        z = (0,) * self.n
        return sum(abs(x) for e, x in self.p.items() if e != z) + self.r

    def bounds(self):
        c, b = self.const(), self.rest()
        return c - b, c + b

    def magnitude(self):
        return abs(self.const()) + self.rest()

    def lift(self, o):
        if isinstance(o, TM):
            return o
        if is_sym(o):
            return None
        return TM({(0,) * self.n: float(o)}, 0.0, self.n)

    def __add__(self, o):
        o = self.lift(o)
        if o is None:
            return SymReal(self.t) + 0.0
        p = dict(self.p)
        for e, x in o.p.items():
            p[e] = p.get(e, 0.0) + x
        return TM(p, self.r + o.r + EPS * (self.magnitude() + o.magnitude()), self.n,
                  self.square and (o.square or (len(o.p) == 1 and o.r == 0 and o.const() >= 0)))

    __radd__ = __add__

    def __neg__(self):
        return TM({e: -x for e, x in self.p.items()}, self.r, self.n)

    def __sub__(self, o):
        o = self.lift(o)
        return self + -o

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        o = self.lift(o)
        p, r = {}, 0.0
        for a, x in self.p.items():
            da = sum(a)
            for b, y in o.p.items():
                if da + sum(b) > ORDER:
                    r += abs(x * y)
                else:
                    e = tuple(i + j for i, j in zip(a, b))
                    p[e] = p.get(e, 0.0) + x * y
        ma, mb = self.magnitude(), o.magnitude()
        r += self.r * mb + o.r * (ma - self.r)
        return TM(p, r + EPS * ma * mb * 4, self.n, self is o or (self.square and o.square))

    __rmul__ = __mul__

    def series(self, coef, bound):
        """sum coef[k] (x - const)^k plus a remainder bound(|x - const|)."""
        z = (0,) * self.n
        d = TM({e: x for e, x in self.p.items() if e != z}, self.r, self.n)
        out = d.lift(coef[-1])
        for c in reversed(coef[:-1]):
            out = out * d + c
        out.r += bound(self.rest())
        return out

    def inverse(self):
        c, b = self.const(), self.rest()
        if b >= abs(c):
            raise Unsupported("division by an enclosure that contains zero")
        q = b / abs(c)
        return self.series([(-1) ** k / c ** (k + 1) for k in range(ORDER + 1)], lambda _: q ** (ORDER + 1) / (1 - q) / abs(c))

    def __truediv__(self, o):
        o = self.lift(o)
        return self * o.inverse() if len(o.p) > 1 or o.r else self * (1.0 / o.const())

    def __rtruediv__(self, o):
        return self.inverse() * o

    def __abs__(self):
        lo, hi = self.bounds()
        if lo >= 0:
            return self
        if hi <= 0:
            return -self
        m = max(-lo, hi) / 2
        return TM({(0,) * self.n: m}, m * (1 + 1e-12), self.n)

    def sqrt(self):
        c, b = self.const(), self.rest()
        if b >= c and self.square:
            m = math.sqrt(c + b) / 2
            return TM({(0,) * self.n: m}, m * (1 + 1e-12), self.n)
        if b >= c:
            raise Unsupported("square root of an enclosure that contains zero")
        k, f = [], math.sqrt(c)
        for i in range(ORDER + 1):
            k.append(f)
            f = f * (0.5 - i) / (i + 1) / c
        q = b / c
        return self.series(k, lambda _: math.sqrt(c) * q ** (ORDER + 1) / (1 - q))

    def _trig(self, shift):
        c = self.const()
        k, f = [], 1.0
        for i in range(ORDER + 1):
            k.append(math.sin(c + shift + i * math.pi / 2) / f)
            f *= i + 1
        return self.series(k, lambda b: b ** (ORDER + 1) / math.factorial(ORDER + 1) + 1e-15)

    def sincos(self):
        return self._trig(0.0), self._trig(math.pi / 2)

    def arctan(self):
        c, b = self.const(), self.rest()
        # derivatives of atan: |f^(n)| <= (n-1)!; f' = 1/(1+x^2) as a series
        a = 1 + c * c
        g = []
        for i in range(ORDER):
            v = (1.0 if i == 0 else 0.0) - (2 * c * g[i - 1] if i >= 1 else 0.0) - (g[i - 2] if i >= 2 else 0.0)
            g.append(v / a)
        k = [math.atan(c)] + [g[i] / (i + 1) for i in range(ORDER)]
        return self.series(k, lambda b: b ** (ORDER + 1) / (ORDER + 1) + 1e-15)
