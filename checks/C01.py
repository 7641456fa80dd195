"""Native poses and similarities (geometry/pose.h, geometry/similarity.h)."""
import numpy as np
from checks.I02 import vec
from checks.Q01 import mm, mv, T, unit
from checks.V01 import lists

NATIVE = {"pose": {}}
BOUNDS = ("all poses, rotations (angle 0.05 to 3.1 for rotation vectors), translations, points and scales in general position; sequences of up to 3 operations")
ASSUMPTIONS = ["doubles are real numbers"]
I3 = [[float(i == j) for j in range(3)] for i in range(3)]
TOL = 1e-6


def minus(a):
    return [-x for x in a]


def plus(a, b):
    return [x + y for x, y in zip(a, b)]


def inv(p):
    R, t = p
    return T(R), minus(mv(T(R), t))


def comp(p, q):
    return mm(p[0], q[0]), plus(mv(p[0], q[1]), p[1])


def any_rotation(ctx, name):
    return lists(ctx.rotation(name)[1])


def turned(ctx, name):
    """A rotation vector and its matrix."""
    v, R = ctx.rotation(name)
    return list(v), lists(R)


def spun(ctx, name, axis=None):
    """A rotation vector and its matrix, in full."""
    a = ctx.angle(name + "a", 0.05, 3.1, div=2)
    n = unit(ctx, name + "n") if axis is None else axis
    s, c = ctx.sincos_any(a)
    R = [[c * (i == j) + (1 - c) * n[i] * n[j] for j in range(3)] for i in range(3)]
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        R[j][k] = R[j][k] - s * n[i]
        R[k][j] = R[k][j] + s * n[i]
    return [a * x for x in n], R


def block(R, t):
    return [list(r) + [x] for r, x in zip(R, t)]


def compare(ctx, out, p, label, rmin=None):
    R, t = p
    Ri, ti = inv(p)
    last = [0.0, 0.0, 0.0, 1.0]
    want = block(R, t) + [last] + block(Ri, ti) + [last] + block(R, t) + block(Ri, ti) + list(R) + list(Ri) + [t, ti, ti]
    want = [x for r in want for x in r]
    names = [("world to camera", 16), ("camera to world", 16), ("world to camera", 12), ("camera to world", 12), ("rotation", 9),
             ("inverse rotation", 9), ("translation", 3), ("inverse translation", 3), ("origin", 3)]
    k = 0
    for n, c in names:
        ctx.eq(out[k:k + c], want[k:k + c], "%s: %s" % (label, n), TOL)
        k += c
    a, b = out[k:k + 3], out[k + 3:k + 6]
    ctx.eq(a, minus(b), label + ": opposite rotation vectors", TOL)
    if rmin is not None:
        ctx.eq(a, rmin, label + ": rotation vector", TOL)
    return a


NAMES = {0: "pose", 1: "pose of a rotation vector", 2: "set by a matrix", 3: "set by rotation and translation", 4: "set by vectors",
         5: "set by an inverse matrix", 6: "set by inverse rotation and translation", 7: "set by inverse vectors", 8: "rotation set by vector",
         9: "rotation set by matrix", 10: "translation set", 11: "origin set", 12: "composed", 13: "relative", 14: "inverse",
         15: "pose of a rotation", 16: "pose of a rotation vector alone", 17: "no pose", 18: "copy"}


def step(ctx, p, op, i):
    """Arguments of an operation, the pose after it and its rotation vector."""
    name = "x%d" % i
    if op in (1, 4, 7, 8, 16):
        r, R = turned(ctx, name)
    elif op in (2, 3, 5, 6, 9, 12, 13, 15):
        r, R = None, any_rotation(ctx, name)
    if op in (1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13):
        t = vec(ctx, name + "t")
    if op == 0:
        return [], p, None
    if op in (1, 4):
        return [r, t], (R, t), r
    if op in (2, 3):
        return [R, t], (R, t), None
    if op in (5, 6):
        return [R, t], inv((R, t)), None
    if op == 7:
        return [r, t], inv((R, t)), minus(r)
    if op == 8:
        return [r], (R, p[1]), r
    if op == 9:
        return [R], (R, p[1]), None
    if op == 10:
        return [t], (p[0], t), None
    if op == 11:
        return [t], (p[0], minus(mv(p[0], t))), None
    if op == 12:
        return [R, t], comp(p, (R, t)), None
    if op == 13:
        return [R, t], comp(p, inv((R, t))), None
    if op == 14:
        return [], inv(p), None
    if op == 15:
        return [R], (R, [0.0, 0.0, 0.0]), None
    if op == 16:
        return [r], (R, [0.0, 0.0, 0.0]), r
    if op == 17:
        return [], (I3, [0.0, 0.0, 0.0]), [0.0, 0.0, 0.0]
    return [], p, None


def poses(ctx, w, ops):
    R, t = any_rotation(ctx, "R"), vec(ctx, "t")
    p = (R, t)
    ins = [R, t, [len(ops)]]
    for i, op in enumerate(ops):
        args, p, rmin = step(ctx, p, op, i)
        ins += [op] + args
    out = w.native("pose").call("pose_ops", ins)
    compare(ctx, out, p, NAMES[ops[-1]] if ops else "pose", rmin if ops else None)


def vectors(ctx, w, way):
    r, R = spun(ctx, "r")
    N = w.native("pose")
    if way == "matrix":
        ctx.eq(N.call("vector_matrix", r), [x for q in R for x in q], "matrix of a rotation vector", TOL)
        ctx.eq(N.call("vector_matrix", [0.0, 0.0, 0.0]), [x for q in I3 for x in q], "matrix of no rotation", TOL)
    else:
        ctx.eq(N.call("matrix_vector", R), r, "vector of a rotation matrix", TOL)
        ctx.eq(N.call("matrix_vector", I3), [0.0] * 3, "vector of no rotation", TOL)


def points(ctx, w, n):
    R, t = any_rotation(ctx, "R"), vec(ctx, "t")
    pts = [vec(ctx, "p%d" % i) for i in range(n)]
    out = w.native("pose").call("pose_points", [R, t, n, pts])
    a = [plus(mv(R, x), t) for x in pts]
    Ri, ti = inv((R, t))
    b = [plus(mv(Ri, x), ti) for x in pts]
    want = [x for q in a + b + a + b for x in q]
    for i, l in enumerate(["point to camera", "point to world", "points to camera", "points to world"]):
        ctx.eq(out[3 * n * i:3 * n * (i + 1)], want[3 * n * i:3 * n * (i + 1)], l, TOL)


def flags(ctx, w, far):
    N = w.native("pose")
    eps = ctx.real("eps", 1e-3, 1)
    if far == "rotation":
        a = ctx.angle("a", 1.1, 3.1, div=2)
        s, c = ctx.sincos_any(a)
        R = [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]]
        out = N.call("pose_flags", [R, [0.0] * 3, eps])
    elif far == "origin":
        t = vec(ctx, "t")
        ctx.assume(t[0] * t[0] + t[1] * t[1] + t[2] * t[2] > 1.1)
        out = N.call("pose_flags", [I3, t, eps])
    else:
        t = [ctx.real("d%d" % i, -5e-4, 5e-4) for i in range(3)]
        out = N.call("pose_flags", [I3, t, eps])
    ctx.eq(out, [float(far == "no"), 1.0], "identity within a tolerance", TOL)


def locked(ctx, w):
    R, t = any_rotation(ctx, "R"), vec(ctx, "t")
    out = w.native("pose").call("pose_locked", [R, t, any_rotation(ctx, "S"), vec(ctx, "u")])
    ctx.eq(out[0], 10.0, "an immutable pose refuses changes")
    compare(ctx, out[1:], (R, t), "immutable pose")


def similarities(ctx, w, ops):
    R, t, s = any_rotation(ctx, "R"), vec(ctx, "t"), ctx.real("s", 0.1, 10)
    ins = [R, t, s, len(ops)]
    for i, op in enumerate(ops):
        n = "x%d" % i
        ins.append(op)
        if op == 1:
            t = vec(ctx, n)
            ins.append(t)
        if op == 2:
            r, R = turned(ctx, n)
            ins.append(r)
        if op == 3:
            s = ctx.real(n, 0.1, 10)
            ins.append(s)
        if op == 4:
            Ri = T(R)
            t = [-x / s for x in mv(Ri, t)]
            R, s = Ri, 1 / s
        if op == 5:
            r, R = turned(ctx, n)
            t, s = vec(ctx, n + "t"), ctx.real(n + "s", 0.1, 10)
            ins += [r, t, s]
    x = vec(ctx, "point")
    out = w.native("pose").call("similarity_ops", ins + [x])
    l = "similarity after %s" % ", ".join(["", "translation", "rotation", "scale", "inverse", "vector"][o] for o in ops)
    ctx.eq(out[:9], [y for q in R for y in q], l + ": rotation", TOL)
    ctx.eq(out[9:12], t, l + ": translation", TOL)
    ctx.eq(out[12], s, l + ": scale", TOL)
    ctx.eq(out[16], 1.0, l + ": valid", TOL)
    ctx.eq(out[17:], plus([s * y for y in mv(R, x)], t), l + ": transform", TOL)


HARNESSES = [
    dict(name="poses", fn=poses, params=[dict(ops=[])] + [dict(ops=[k]) for k in range(1, 19)]
         + [dict(ops=o) for o in ([9, 14], [10, 9], [9, 12], [11, 9, 14], [9, 11])],
         thorough=[dict(ops=[a, b]) for a in (3, 6, 9, 10, 11, 14) for b in (9, 10, 11, 14, 18)]),
    dict(name="vectors", fn=vectors, params=[dict(way="matrix"), dict(way="vector")]),
    dict(name="points", fn=points, params=[dict(n=1), dict(n=3)]),
    dict(name="flags", fn=flags, params=[dict(far=k) for k in ("no", "rotation", "origin")]),
    dict(name="locked", fn=locked, params=[{}]),
    dict(name="similarities", fn=similarities, params=[dict(ops=o) for o in ([], [1], [2], [3], [4], [5], [2, 4], [1, 4], [3, 4], [5, 4])]),
]
for h in HARNESSES:
    if h["name"] not in ("vectors", "flags"):
        h["opts"] = dict(rotations=True)
