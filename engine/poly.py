"""Exact normal forms for real terms: rational functions over atoms, reduced
modulo the defining equations of the atoms (s^2 = 1 - c^2 for an angle, r^2 = p
for a square root).

The defining equations have pairwise coprime leading monomials (squares of
distinct atoms, each rewritten into atoms introduced earlier), so they form a
Groebner basis of the ideal they generate and the normal form of a polynomial
modulo them is unique: a numerator that reduces to the zero polynomial is zero
for every value of the atoms."""

from fractions import Fraction
from math import gcd
import heapq

ONE = 1
BITS = 8  # per exponent in a packed monomial
TOP = 1 << (BITS - 1)


class TooBig(Exception):
    pass


def inverse(c):
    return Fraction(1) / c


class Ring:
    def __init__(self, max_terms=60000):
        self.names = []
        self.index = {}
        self.rules = {}  # atom index -> Poly (value of atom**2)
        self.order = ()  # atoms with rules, last one first
        self.mask = 0  # bits of exponents of 2 or more of atoms with rules
        self.high = 0  # top bits of all exponents
        self.bounds = {}  # atom index -> (lo, hi) as floats
        self.max_terms = max_terms

    def atom(self, name, bounds=None):
        i = self.index.get(name)
        if i is None:
            i = len(self.names)
            self.names.append(name)
            self.index[name] = i
            self.high |= TOP << (BITS * i)
        if bounds is not None:
            self.bounds[i] = bounds
        return Poly(self, {1 << (BITS * i): 1})

    def const(self, c):
        c = Fraction(c)
        return Poly(self, {0: c.numerator}, c.denominator) if c else Poly(self, {})

    def add_rule(self, name, square):
        i = self.index[name]
        self.rules[i] = square
        self.order = tuple(sorted(self.rules, reverse=True))
        self.mask |= ((1 << BITS) - 2) << (BITS * i)


def unpack(m):
    out = []
    a = 0
    while m:
        e = m & ((1 << BITS) - 1)
        if e:
            out.append((a, e))
        m >>= BITS
        a += 1
    return tuple(out)


def unpack_items(p):
    return tuple(p.t.items())


def _mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    t = {}
    get = t.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            t[m] = get(m, 0) + c1 * c2
    return {m: c for m, c in t.items() if c}


class Poly:
    """sum of c * m / d over p: packed monomial m (BITS per atom) -> integer c."""

    __slots__ = ("ring", "p", "d", "_key", "_t")

    def __init__(self, ring, p, d=1):
        if d != 1:
            g = d
            for c in p.values():
                g = gcd(g, c)
                if g == 1:
                    break
            if g != 1:
                d //= g
                p = {m: c // g for m, c in p.items()}
        self.ring = ring
        self.p = p
        self.d = d
        self._key = None
        self._t = None

    @property
    def t(self):
        """((atom, exponent), ...) -> coefficient."""
        if self._t is None:
            self._t = {unpack(m): Fraction(c, self.d) for m, c in self.p.items()}
        return self._t

    def key(self):
        if self._key is None:
            self._key = (self.d, frozenset(self.p.items()))
        return self._key

    def is_zero(self):
        return not self.p

    def is_const(self):
        return not self.p or (len(self.p) == 1 and 0 in self.p)

    def const_value(self):
        return Fraction(self.p.get(0, 0), self.d)

    def __add__(self, o):
        if len(self.p) < len(o.p):
            self, o = o, self
        if not o.p:
            return self
        if self.d == o.d:
            d = self.d
            t = dict(self.p)
            for m, c in o.p.items():
                v = t.get(m, 0) + c
                if v:
                    t[m] = v
                else:
                    del t[m]
            return Poly(self.ring, t, d)
        g = gcd(self.d, o.d)
        k1, k2 = o.d // g, self.d // g
        t = {m: c * k1 for m, c in self.p.items()} if k1 != 1 else dict(self.p)
        for m, c in o.p.items():
            v = t.get(m, 0) + c * k2
            if v:
                t[m] = v
            else:
                del t[m]
        return Poly(self.ring, t, self.d * k1)

    def scale(self, k):
        if not k:
            return Poly(self.ring, {})
        if k == 1:
            return self
        k = Fraction(k)
        n = k.numerator
        return Poly(self.ring, {m: c * n for m, c in self.p.items()}, self.d * k.denominator)

    def __neg__(self):
        return Poly(self.ring, {m: -c for m, c in self.p.items()}, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        ring = self.ring
        if len(self.p) * len(o.p) > 40 * ring.max_terms:
            raise TooBig()
        t = _mul(self.p, o.p)
        if len(t) > ring.max_terms:
            raise TooBig()
        high = ring.high
        for m in t:
            if m & high:
                raise TooBig()
        return Poly(ring, t, self.d * o.d).reduce()

    def reduce(self):
        ring = self.ring
        mask = ring.mask
        t, d = self.p, self.d
        if not mask or not any(m & mask for m in t):
            return self
        # an atom is rewritten into earlier ones: one pass, last atom first
        for a in ring.order:
            sh = BITS * a
            amask = ((1 << BITS) - 2) << sh
            groups = None
            for m in t:
                if m & amask:
                    groups = {}
                    break
            if groups is None:
                continue
            for m, c in t.items():
                k = (m & amask) >> (sh + 1)
                g = groups.get(k)
                if g is None:
                    g = groups[k] = {}
                g[m & ~amask] = c
            sq, sd = ring.rules[a].p, ring.rules[a].d
            acc = None
            f = 1
            for k in range(max(groups), -1, -1):
                if acc is not None:
                    acc = _mul(acc, sq)
                    f *= sd
                    if len(acc) > ring.max_terms:
                        raise TooBig()
                    for m in acc:
                        if m & ring.high:
                            raise TooBig()
                g = groups.get(k)
                if g is not None:
                    if acc is None:
                        acc = g
                    else:
                        for m, c in g.items():
                            v = acc.get(m, 0) + c * f
                            if v:
                                acc[m] = v
                            else:
                                del acc[m]
            t = acc
            d *= f
        return Poly(ring, t, d)

    def pow(self, n):
        r = self.ring.const(1)
        for _ in range(n):
            r = r * self
        return r

    def monic(self):
        """(c, p) with self == c * p and p's leading coefficient 1."""
        m = max(self.p)
        c = Fraction(self.p[m], self.d)
        if c == 1:
            return ONE, self
        return c, self.scale(inverse(c))

    def magnitude(self):
        """Upper bound of |value| from the atom bounds, or None."""
        b = self.ring.bounds
        tot = 0.0
        for m, c in self.t.items():
            v = abs(float(c))
            for a, e in m:
                lo_hi = b.get(a)
                if lo_hi is None:
                    return None
                v *= max(abs(lo_hi[0]), abs(lo_hi[1])) ** e
            tot += v
        return tot

    def range(self, splits=400):
        """Bounds of the value by interval arithmetic with subdivision."""
        b = self.ring.bounds
        atoms = sorted({a for m in self.t for a, e in m})
        iv = self.interval()
        if iv is None or not atoms or len(atoms) > 4 or len(self.t) < 2:
            return iv
        # subdivide the boxes that decide the bounds
        boxes = [({a: b[a] for a in atoms}, iv)]
        for _ in range(splits):
            lo = min(x[1][0] for x in boxes)
            hi = max(x[1][1] for x in boxes)
            best = None
            for k, (bx, v) in enumerate(boxes):
                if v[0] == lo or v[1] == hi:
                    wd = v[1] - v[0]
                    if best is None or wd > best[0]:
                        best = (wd, k)
            bx, v = boxes.pop(best[1])
            # split along the variable with the widest effect
            pick = None
            for a in atoms:
                l, h = bx[a]
                mid = 0.5 * (l + h)
                b1, b2 = dict(bx), dict(bx)
                b1[a], b2[a] = (l, mid), (mid, h)
                v1, v2 = self.interval(b1), self.interval(b2)
                g = max(v1[1], v2[1]) - min(v1[0], v2[0])
                if pick is None or g < pick[0]:
                    pick = (g, (b1, v1), (b2, v2))
            boxes += [pick[1], pick[2]]
        return min(x[1][0] for x in boxes), max(x[1][1] for x in boxes)

    def interval(self, b=None):
        b = self.ring.bounds if b is None else b
        lo = hi = 0.0
        for m, c in self.t.items():
            l = h = float(c)
            for a, e in m:
                bd = b.get(a)
                if bd is None:
                    return None
                al, ah = bd
                if e % 2 == 0:
                    p = sorted((abs(al) ** e, abs(ah) ** e))
                    pl, ph = (0.0 if al <= 0 <= ah else p[0]), p[1]
                else:
                    pl, ph = al**e, ah**e
                cs = (l * pl, l * ph, h * pl, h * ph)
                l, h = min(cs), max(cs)
            lo += l
            hi += h
        return lo, hi


def divides(a, b, high):
    """Packed monomial a divides b."""
    return ((b | high) - a) & high == high


def divide(n, p, limit=3000):
    """n / p when the division is exact as polynomials, else None."""
    if len(n.p) < len(p.p) or len(n.p) > limit:
        return None
    ring = n.ring
    high = ring.high
    lead, low = max(p.p), min(p.p)
    if not divides(lead, max(n.p), high) or not divides(low, min(n.p), high):
        return None
    lc = p.p[lead]
    rest = [(m, c) for m, c in p.p.items() if m != lead]
    rem = dict(n.p)
    heap = [-m for m in rem]
    heapq.heapify(heap)
    q = {}
    # n = q p: n.p / n.d = (q / f) (p.p / p.d), keep integers by scaling up
    f = 1
    steps = 0
    while rem:
        while True:
            m = -heap[0]
            if m in rem:
                break
            heapq.heappop(heap)
        if not divides(lead, m, high):
            return None
        c = rem.pop(m)
        if c % lc:
            k = abs(lc) // gcd(c, lc)
            if abs(f * k) > 1 << 200:
                return None
            f *= k
            c *= k
            rem = {a: b * k for a, b in rem.items()}
            q = {a: b * k for a, b in q.items()}
        c //= lc
        mm = m - lead
        q[mm] = c
        for m2, c2 in rest:
            t = mm + m2
            v = rem.get(t)
            if v is None:
                rem[t] = -c * c2
                heapq.heappush(heap, -t)
            else:
                v -= c * c2
                if v:
                    rem[t] = v
                else:
                    del rem[t]
        steps += 1
        if steps > len(n.p) or len(rem) > 2 * limit:
            return None
    return Poly(ring, {a: b * p.d for a, b in q.items()}, f * n.d)


class Rat:
    """num / prod(factor**e): factors are monic polynomials."""

    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}

    def _over(self, lcm):
        n = self.n
        for k, (p, e) in lcm.items():
            have = self.d[k][1] if k in self.d else 0
            for _ in range(e - have):
                n = n * p
        return n

    def __add__(self, o):
        if not self.d and not o.d:
            return Rat(self.n + o.n)
        lcm = dict(self.d)
        for k, (p, e) in o.d.items():
            if k not in lcm or lcm[k][1] < e:
                lcm[k] = (p, e)
        return Rat(self._over(lcm) + o._over(lcm), lcm).cancel()

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = dict(self.d)
        for k, (p, e) in o.d.items():
            d[k] = (p, e + (d[k][1] if k in d else 0))
        return Rat(self.n * o.n, d).cancel()

    def inv(self):
        n = self.n
        top = n.ring.const(1)
        for p, e in self.d.values():
            for _ in range(e):
                top = top * p
        if n.is_const():
            return Rat(top.scale(inverse(n.const_value())))
        # a monomial numerator splits into its atoms
        if len(n.t) == 1:
            (m, c), = n.t.items()
            d = {}
            for a, e in m:
                p = Poly(n.ring, {1 << (BITS * a): ONE})
                d[p.key()] = (p, e)
            return Rat(top.scale(inverse(c)), d).cancel()
        c, p = n.monic()
        return Rat(top.scale(inverse(c)), {p.key(): (p, 1)}).cancel()

    def cancel(self):
        """Drop denominator factors that divide the numerator trivially."""
        if not self.d:
            return self
        if self.n.is_zero():
            return Rat(self.n)
        d = None
        n = self.n
        for k, (p, e) in self.d.items():
            if len(p.p) == 1:
                (m, c), = unpack_items(p)
                if len(m) == 1:
                    a = m[0][0]
                    # r^2 = q  =>  q / r = r is handled by reduction elsewhere
                    sh = BITS * a
                    low = min(((mm >> sh) & ((1 << BITS) - 1) for mm in n.p), default=0)
                    k_ = min(low, e)
                    if k_:
                        n = Poly(n.ring, {mm - (k_ << sh): cc for mm, cc in n.p.items()}, n.d)
                        d = dict(self.d) if d is None else d
                        if e - k_:
                            d[k] = (p, e - k_)
                        else:
                            d.pop(k)
                        continue
            left = e
            while left and not n.is_const():
                q = divide(n, p)
                if q is None:
                    break
                n = q
                left -= 1
            if left != e:
                d = dict(self.d) if d is None else d
                if left:
                    d[k] = (p, left)
                else:
                    d.pop(k)
        if d is None:
            return self
        return Rat(n, d)
