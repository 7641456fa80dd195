"""Triangulation kernels (geometry/src/triangulation.cc)."""
import numpy as np

from checks.C04 import FLAGS
from checks.I02 import vec
from checks.Q01 import T, dot, mv, unit

NATIVE = {"triangulation": dict(sources=[], flags=FLAGS)}
BOUNDS = ("two or three rays of any centres and directions (the pair of the linear method, and the first ray of three, along an axis, some places fixed), any thresholds; "
          "up to two pairs of directions at a time, rotations about an axis")
ASSUMPTIONS = ["doubles are real numbers", "the singular value decomposition is a stand-in whose answer is any vector",
               "decisions between angles are compared with the angles of the same cosines"]
TOL = 1e-6


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def axis(i, sign=1.0):
    return [sign if k == i else 0.0 for k in range(3)]


def length(ctx, v):
    return ctx.sqrt(dot(v, v))


def between(ctx, u, v):
    """The angle of two vectors that are not zero."""
    c = dot(u, v) / ctx.sqrt(dot(u, u) * dot(v, v))
    if c >= 1:
        return 0.0
    if c <= -1:
        return np.pi
    return np.arccos(c) if ctx.concrete else ctx.acos(c)


def spin(ctx, name, k):
    """Any rotation about axis k."""
    s, c = ctx.sincos_any(ctx.angle(name, -np.pi, np.pi))
    i, j = (k + 1) % 3, (k + 2) % 3
    R = [[1.0 if p == q == k else 0.0 for q in range(3)] for p in range(3)]
    R[i][i], R[j][j], R[i][j], R[j][i] = c, c, -s, s
    return R


def angle(ctx, w, k=None, sign=1.0, swap=False):
    """Angles between vectors lie from zero to pi and have the cosine of the vectors."""
    u, v = vec(ctx, "u", lim=10), vec(ctx, "v", lim=10) if k is None else [x * ctx.real("v%d" % i, 0.1, 10) for i, x in enumerate(axis(k, sign))]
    if swap:
        u, v = v, u
    ctx.assume(dot(u, u) >= 0.01)
    ctx.assume(dot(v, v) >= 0.01)
    a, = w.native("triangulation").call("angle", [u, v], nout=8)
    ctx.check(bool(a >= 0), "angle: not negative")
    ctx.check(bool(a <= np.pi + 1e-9), "angle: at most pi")
    s, c = ctx.sincos_any(a)
    n = ctx.sqrt(dot(u, u) * dot(v, v))
    ctx.eq(c * n, dot(u, v), "angle: cosine", TOL)


def solve(ctx, w, kinds):
    """The point is the one of least squared distances to the rays."""
    n = len(kinds)
    C = [vec(ctx, "c%d" % i, lim=100) for i in range(n)]
    B = [unit(ctx, "b%d" % i) if k is None else axis(*k) for i, k in enumerate(kinds)]
    far(ctx, B)
    X = w.native("triangulation").call("solve", [n, C, B], nout=8)
    g = [0.0] * 3
    for c, b in zip(C, B):
        d = sub(X, c)
        g = [q + x - dot(b, d) * y for q, x, y in zip(g, d, b)]
    ctx.eq(g, [0.0] * 3, "solve: least squared distances", TOL)


def far(ctx, B):
    """The first two rays are not parallel."""
    c = dot(B[0], B[1])
    ctx.assume(c * c <= 0.99)


def exceeds(ctx, a, b):
    """a > b, where they differ by more than rounding errors."""
    ctx.assume((a >= b + 1e-5) | (a <= b - 1e-5))
    return bool(a > b)


def decide(ctx, rays, local, limits, least, depth):
    """Whether a point is to be accepted; rays: directions in the world; local: what is seen and where the point is."""
    n = len(rays)
    wide = False
    for i in range(n):
        for j in range(i):
            if not wide:
                a = between(ctx, rays[i], rays[j])
                wide = exceeds(ctx, a, least) and exceeds(ctx, np.pi - least, a)
    if not wide:
        return False
    for (b, x), t in zip(local, limits):
        if exceeds(ctx, between(ctx, x, b), t) or exceeds(ctx, depth, dot(x, b)):
            return False
    return True


def midpoint(ctx, w, kinds, short=False, still=False):
    """A point is accepted when rays spread and it lies in front of all near their directions."""
    n = len(kinds)
    C = [[1.0 + i, -2.0 * i, 0.5 * i * i] if still else vec(ctx, "c%d" % i, lim=100) for i in range(n)]
    B = [unit(ctx, "b%d" % i) if k is None else list(k) if len(k) == 3 else axis(*k) for i, k in enumerate(kinds)]
    far(ctx, B)
    t = [3.2 if still else ctx.real("t%d" % i, 0, 3.2) for i in range(n - short)]
    least, depth = ctx.real("least", 0, 1.6), -1000.0 if still else ctx.real("depth", -1, 10)
    k = w.native("triangulation")
    X = k.call("solve", [n, C, B], nout=8)
    local = [(b, sub(X, c)) for b, c in zip(B, C)]
    for b, x in local:
        ctx.assume(dot(x, x) >= 0.0001)
    got = k.call("midpoint", [n, C, B, len(t), t, least, depth], nout=8)
    if short:
        ctx.check(got[0] == 0, "midpoint: a threshold missing")
        return
    judge(ctx, got, X, B, local, t, least, depth, "midpoint")


def judge(ctx, got, X, rays, local, t, least, depth, label):
    # the properties of an answer first
    for (b, x), lim in zip(local, t):
        if got[0] == 1:
            ctx.check(bool(dot(x, b) >= depth - 1e-5), label + ": deep enough")
    want = decide(ctx, rays, local, t, least, depth)
    ctx.check((got[0] == 1) == want, label + ": accepted")
    if got[0] == 1:
        ctx.eq(got[1:], X, label + ": the point", TOL)


def meet(ctx, w, n, method):
    """Rays that meet in a point in front of all give that point."""
    P = vec(ctx, "P", lim=100)
    B = [unit(ctx, "b%d" % i) if n > 2 or i or method == "refine" else axis(2) for i in range(n)]
    d = [ctx.real("d%d" % i, 0.1, 100) for i in range(n)]
    C = [[p - z * x for p, x in zip(P, b)] for b, z in zip(B, d)]
    k = w.native("triangulation")
    far(ctx, B)
    if method == "two":
        got = k.call("two", [C, B], nout=8)
        ctx.check(got[0] == 1, "meet: two rays meet")
        ctx.eq(got[1:], P, "meet: the point of two rays", TOL)
    elif method == "refine":
        ctx.eq(k.call("refine", [n, C, B, P, 10], nout=8), P, "meet: refined", TOL)
    else:
        ctx.eq(k.call("solve", [n, C, B], nout=8), P, "meet: the point", TOL)


def two(ctx, w, kinds):
    """Of two rays, the point halfway between their closest points; none if they are parallel."""
    C = [vec(ctx, "c%d" % i, lim=100) for i in range(2)]
    B = [vec(ctx, "b%d" % i, lim=10) if k is None else axis(*k) for i, k in enumerate(kinds)]
    n = cross(*B)
    nn = dot(n, n)
    got = w.native("triangulation").call("two", [C, B], nout=8)
    if bool(nn <= 1e-11):
        ctx.check(got[0] == 0, "two: parallel")
        return
    if bool(nn < 1e-9):
        return
    ctx.check(got[0] == 1, "two: not parallel")
    halfway(ctx, C, B, n, nn, got[1:], "two")


def halfway(ctx, C, B, n, nn, X, label):
    t = sub(C[1], C[0])
    l = [dot(cross(t, B[1 - i]), n) / nn for i in range(2)]
    want = [(p + l[0] * a + q + l[1] * b) / 2 for p, a, q, b in zip(C[0], B[0], C[1], B[1])]
    ctx.eq(X, want, label + ": halfway between the closest points", TOL)


def two_many(ctx, w, k):
    """Directions of the second camera turn by its rotation; its centre is the translation."""
    A = [vec(ctx, "a", lim=10), axis(k), axis((k + 1) % 3)]
    B = [axis((k + 1) % 3), axis((k + 2) % 3), axis(k)]
    R, t = spin(ctx, "R", k), vec(ctx, "t", lim=10)
    got = w.native("triangulation").call("two_many", [3, A, B, R, t], nout=16)
    ctx.check(got[0] == 3, "many: as many as pairs")
    i = 1
    for a, b in zip(A, B):
        q = [a, mv(R, b)]
        n = cross(*q)
        nn = dot(*[q[0]] * 2) * dot(*[q[1]] * 2) - dot(*q) * dot(*q)
        if bool(nn <= 1e-11):
            ctx.check(got[i] == 0, "many: parallel")
        elif bool(nn >= 1e-9):
            ctx.check(got[i] == 1, "many: not parallel")
            halfway(ctx, [[0.0] * 3, t], q, n, nn, got[i + 1:i + 4], "many")
        i += 4 if got[i] == 1 else 1
    ctx.check(i == len(got), "many: no more")


def epipolar(ctx, w, k, along=None, meets=False):
    """The sine of an epipolar angle is the mean of those of each direction to the plane of the other."""
    R, u = spin(ctx, "R", k), ctx.real("u", 0.1, 10)
    t = vec(ctx, "t", lim=10) if along is None else [x * u for x in axis(along)]
    if along is None:
        tt = dot(t, t)
        ctx.assume(tt >= 0.01)
        u = ctx.sqrt(tt)
    if meets:
        A, d = [unit(ctx, "a")], ctx.real("d", 0.1, 10)
        x = mv(T(R), sub([d * q for q in A[0]], t))
        m = length(ctx, x)
        ctx.assume(m >= 0.01)
        B = [[q / m for q in x]]
    elif along is None:
        A, B = [axis(k)], [axis((k + 1) % 3)]
    else:
        A, B = [unit(ctx, "a"), axis((along + 1) % 3)], [axis((k + 1) % 3)]
    got = w.native("triangulation").call("epipolar", [len(A), len(B), A, B, R, t], nout=16)
    ctx.check(got[:2] == [len(A), len(B)], "epipolar: an angle per pair")
    t = [x / u for x in t]
    W = [mv(R, b) for b in B]
    i = 2
    for a in A:
        for b in W:
            na, nb = cross(t, a), cross(t, b)
            ctx.assume(dot(na, na) >= 0.0001)
            ctx.assume(dot(nb, nb) >= 0.0001)
            s, c = ctx.sincos_any(got[i])
            v = 0.0 if meets else abs(dot(na, b)) / length(ctx, na) + abs(dot(nb, a)) / length(ctx, nb)
            ctx.eq(2 * s, v, "epipolar: sine", TOL)
            i += 1


def dlt(ctx, w, kinds, axes):
    """The equations hold at a point whose images are the directions; points are accepted as by midpoints."""
    n = len(kinds)
    R = [[axis(1), axis(2), axis(0)] if k is None else spin(ctx, "R%d" % i, k) for i, k in enumerate(axes)]
    t = [vec(ctx, "t%d" % i, lim=10) if i == 0 else [0.5, -1.0, 2.0 + i] for i in range(n)]
    B = [unit(ctx, "b%d" % i) if k is None else axis(*k) for i, k in enumerate(kinds)]
    rays = [mv(T(r), b) for r, b in zip(R, B)]
    far(ctx, rays)
    h = ctx.real("h", 0.1, 1)
    X = vec(ctx, "X", lim=10)
    lim, least, depth = ctx.real("t", 0, 3.2), ctx.real("least", 0, 1.6), ctx.real("depth", -1, 10)
    local = [(b, [p + q for p, q in zip(mv(r, X), s)]) for b, r, s in zip(B, R, t)]
    for b, x in local:
        ctx.assume(dot(x, x) >= 0.0001)
    got = w.native("triangulation").call(
        "dlt", [n, [[list(r) + [x] for r, x in zip(q, s)] for q, s in zip(R, t)], B, [x * h for x in X] + [h], lim, least, depth], nout=200)
    m = int(got[0])
    if m:
        ctx.check(m == 2 + 8 * n and got[1:3] == [2 * n, 4], "dlt: two equations per ray")
        A = np.array(got[3:m + 1], dtype=object).reshape(2 * n, 4)
        for i, (b, x) in enumerate(local):
            e = [sum(p * q for p, q in zip(A[2 * i + j], X + [1.0])) for j in range(2)]
            c = cross(b, x)
            # both vanish where the point is seen along the direction, and not elsewhere
            ctx.eq(e, [-c[1], c[0]] if bool(ctx.same(e, [-c[1], c[0]])) or ctx.concrete else signs(ctx, e, c), "dlt: equations", TOL)
    judge(ctx, got[m + 1:], X, rays, local, [lim] * n, least, depth, "dlt")


def signs(ctx, e, c):
    """Equations may be negated."""
    return [p if ctx.same(x, p) else -p for x, p in zip(e, [-c[1], c[0]])]


N = None
HARNESSES = [
    dict(name="angle", fn=angle, params=[dict(k=0), dict(k=2, sign=-1.0, swap=True)], thorough=[dict(k=1, swap=True), dict()]),
    dict(name="solve", fn=solve, params=[dict(kinds=[(0,), N]), dict(kinds=[N, (2, -1.0)])], thorough=[dict(kinds=[N, (1,)]), dict(kinds=[(2,), N, (0,)])]),
    dict(name="meet", fn=meet, params=[dict(n=2, method="solve"), dict(n=2, method="two"), dict(n=2, method="refine")],
         thorough=[dict(n=3, method="refine")]),
    dict(name="midpoint", fn=midpoint, params=[dict(kinds=[(0,), (1,)]), dict(kinds=[(0,), (-0.6, 0.8, 0.0)], still=True), dict(kinds=[(0,), (0.6, 0.8, 0.0), (0.0, -0.6, 0.8)], still=True), dict(kinds=[N, (2,)], short=True)], thorough=[dict(kinds=[(0,), N])]),
    dict(name="two", fn=two, params=[dict(kinds=[N, N])]),
    dict(name="two_many", fn=two_many, params=[dict(k=2)], thorough=[dict(k=0), dict(k=1)]),
    dict(name="epipolar", fn=epipolar, params=[dict(k=2, along=0), dict(k=0, along=1, meets=True)], thorough=[dict(k=2), dict(k=1, along=2), dict(k=0, meets=True)]),
    dict(name="dlt", fn=dlt, params=[dict(kinds=[(2,), (0,)], axes=[2, N])], thorough=[dict(kinds=[(2,), (0,)], axes=[2, 1]), dict(kinds=[(2,), N], axes=[0, 1])], budget=dict(quick=100)),
]
