"""Homogeneous transformations: rotations in all their forms, factors, registration."""
import numpy as np
from checks.I02 import vec
from checks.V01 import det, euler, lists, sign, turn

PRELOAD = ["transformations"]
BOUNDS = ("all angles, axes, quaternions, points and factors in general position within the stated ranges; all 24 axis conventions by name and by code; interpolation at fractions that are multiples of 1/4; up to 6 registered points")
ASSUMPTIONS = ["doubles are real numbers", "eigenvalue and singular value routines return exact decompositions, of any of the possible signs and orders",
               "the last eigenvector of an affine matrix for the eigenvalue 1 is a point, not a direction, where one exists (true of a back substitution)"]



def T(a):
    return [list(x) for x in zip(*a)]


def mv(a, x):
    return [sum(p * q for p, q in zip(r, x)) for r in a]


def mm(a, b):
    c = T(b)
    return [[sum(p * q for p, q in zip(r, k)) for k in c] for r in a]


I4 = [[float(i == j) for j in range(4)] for i in range(4)]
TOL = 1e-6
AXES = [f + a + b + c for f in "sr" for a in "xyz" for b in "xyz" for c in "xyz" if a != b and b != c]


def hom(R, t=(0.0, 0.0, 0.0)):
    return [list(r) + [x] for r, x in zip(lists(R), t)] + [[0.0, 0.0, 0.0, 1.0]]


def rmat(axis, s, c):
    k = "xyz".index(axis)
    i, j = (k + 1) % 3, (k + 2) % 3
    R = [[float(p == q) for q in range(3)] for p in range(3)]
    R[i][i] = R[j][j] = c
    R[i][j], R[j][i] = -s, s
    return R


def product(axes, sc):
    """Rotations about the named axes, fixed (s) or moving along (r)."""
    A, B, C = [rmat(a, *x) for a, x in zip(axes[1:], sc)]
    return mm(C, mm(B, A)) if axes[0] == "s" else mm(A, mm(B, C))


def qmat(q):
    a, b, c, d = q
    return [[a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
            [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
            [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]]


def qmul(p, q):
    a, b, c, d = p
    e, f, g, h = q
    return [a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g,
            a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e]


def unit(ctx, name, n=3):
    """Any unit vector of space, by its angles."""
    s, c = ctx.sincos_any(ctx.angle(name + "a", -np.pi, np.pi))
    if n == 2:
        return [c, s]
    s2, c2 = ctx.sincos_any(ctx.angle(name + "b", 0, np.pi))
    return [c * s2, s * s2, c2]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def quat(ctx, name):
    """Any unit quaternion."""
    s, c = ctx.sincos_any(ctx.angle(name + "t", -np.pi, np.pi))
    return [c] + [s * x for x in unit(ctx, name)]


def length(ctx, name):
    return ctx.real(name, 0.01, 100)


def equal(ctx, a, b, label, tol=TOL):
    a = np.asarray(a, dtype=object)
    b = np.asarray(b, dtype=object)
    ctx.check(a.shape == b.shape, label + ": shape")
    ctx.eq([x for x in a.ravel()], [x for x in b.ravel()], label, tol)


def rotations(ctx, w, form="axis"):
    M = w.mod("transformations")
    a = ctx.angle("a", -2 * np.pi, 2 * np.pi, div=2)
    s, c = ctx.sincos_any(a)
    R = euler(ctx, "R")
    n = [r[2] for r in R]
    k = length(ctx, "k")
    W = mm(R, mm(rmat("z", s, c), T(R)))
    d = [k * x for x in n]
    if form == "axis":
        equal(ctx, M.rotation_matrix(a, ctx.array(d)), hom(W), "rotation about an axis")
        p = vec(ctx, "p")
        G = lists(M.rotation_matrix(a, ctx.array(d), ctx.array(p)))
        t = [x - y for x, y in zip(p, mv(W, p))]
        equal(ctx, G, hom(W, t), "rotation about a line")
        p1 = [ctx.real("w%d" % i, -9, 9) for i in range(3)] + [7.0]
        equal(ctx, M.rotation_matrix(a, ctx.array(d + [5.0]), ctx.array(p + [1.0])), hom(W, t), "homogeneous arguments")
    else:
        q = M.quaternion_about_axis(a, ctx.array(d))
        h, g = ctx.sincos_any(a * 0.5)
        equal(ctx, q, [g] + [h * x for x in n], "quaternion about an axis")
        equal(ctx, M.quaternion_matrix(q), hom(W), "matrix of the quaternion about an axis")
        equal(ctx, M.quaternion_about_axis(a, ctx.array([0.0, 0.0, 0.0]))[1:], [0.0] * 3, "no axis")


def eulers(ctx, w, axes, code=False):
    M = w.mod("transformations")
    ang = [ctx.angle("a%d" % i, -2 * np.pi, 2 * np.pi, div=2) for i in range(3)]
    sc = [ctx.sincos_any(a) for a in ang]
    ax = axes if not code else M._AXES2TUPLE[axes]
    want = hom(product(axes, sc))
    equal(ctx, M.euler_matrix(*ang, ax), want, "matrix of Euler angles")
    q = M.quaternion_from_euler(*ang, ax)
    ctx.eq(dot(list(q), list(q)), 1.0, "unit quaternion", TOL)
    equal(ctx, M.quaternion_matrix(q), want, "quaternion of Euler angles")
    if axes == "sxyz":
        equal(ctx, M.euler_matrix(*ang), want, "default convention")
        equal(ctx, M.quaternion_from_euler(*ang), list(q), "default convention")


def angles(ctx, w, axes, code=False, lock=None):
    """Angles recovered from a matrix give the matrix."""
    M = w.mod("transformations")
    rep = axes[1] == axes[3]
    ang = [ctx.angle("a%d" % i, -np.pi, np.pi) for i in range(3)]
    if lock is None:
        s, c = ctx.sincos_any(ang[1])
        v = s if rep else c
        if ctx.flag("side"):
            ctx.assume(v > 1e-3)
        else:
            ctx.assume(v < -1e-3)
    else:
        ang[1] = [0.0, np.pi][lock] if rep else [np.pi / 2, -np.pi / 2][lock]
    sc = [ctx.sincos_any(a) for a in ang]
    if lock is not None:
        s, c = [[0.0, 1.0], [0.0, -1.0]][lock] if rep else [[1.0, 0.0], [-1.0, 0.0]][lock]
        sc[1] = (s, c)
    R = product(axes, sc)
    ax = axes if not code else M._AXES2TUPLE[axes]
    if lock is None and ctx.flag("homogeneous"):
        got = M.euler_from_matrix(ctx.array(hom(R)), ax)
    else:
        got = M.euler_from_matrix(ctx.array(R), ax)
    ctx.check(len(got) == 3, "three angles")
    equal(ctx, product(axes, [ctx.sincos_any(a) for a in got]), R, "angles describe the rotation", 1e-5)
    if axes == "sxyz":
        again = M.euler_from_matrix(ctx.array(R))
        equal(ctx, product(axes, [ctx.sincos_any(a) for a in again]), R, "default convention", 1e-5)


def quaternions(ctx, w):
    M = w.mod("transformations")
    p, q = [ctx.real("p" + c, -3, 3) for c in "wxyz"], [ctx.real("q" + c, -3, 3) for c in "wxyz"]
    P, Q = ctx.array(p), ctx.array(q)
    equal(ctx, M.quaternion_multiply(P, Q), qmul(p, q), "product")
    equal(ctx, M.quaternion_conjugate(P), [p[0], -p[1], -p[2], -p[3]], "conjugate")
    ctx.eq(M.quaternion_real(ctx.array([4.0, 1.0, 2.0, 3.0])), 4.0, "real part")
    equal(ctx, M.quaternion_imag(P), p[1:], "imaginary part")
    ctx.assume(dot(p, p) > 1e-2)
    ctx.assume(dot(q, q) > 1e-2)
    inv = M.quaternion_inverse(P)
    equal(ctx, M.quaternion_multiply(P, inv), [1.0, 0.0, 0.0, 0.0], "inverse")
    equal(ctx, M.quaternion_multiply(inv, P), [1.0, 0.0, 0.0, 0.0], "inverse")
    n = dot(p, p)
    A = lists(M.quaternion_matrix(P))
    equal(ctx, A, hom([[x / n for x in r] for r in qmat(p)]), "matrix of any quaternion")
    equal(ctx, list(P) + list(Q), p + q, "arguments unchanged")


def products(ctx, w):
    M = w.mod("transformations")
    P, Q = [ctx.array([k * x for x in quat(ctx, n)]) for k, n in ((length(ctx, "k"), "p"), (length(ctx, "l"), "q"))]
    A, B = lists(M.quaternion_matrix(P)), lists(M.quaternion_matrix(Q))
    C = lists(M.quaternion_matrix(M.quaternion_multiply(P, Q)))
    equal(ctx, C, mm(A, B), "product of quaternions is product of rotations")
    equal(ctx, M.quaternion_matrix(M.quaternion_conjugate(P)), T(A), "conjugate is the opposite rotation")
    equal(ctx, M.quaternion_matrix(M.quaternion_inverse(P)), T(A), "inverse is the opposite rotation")


def from_quaternion(ctx, w, axes, free):
    """One angle is free, the others' halves have rational sines and
    cosines up to a factor (whose square is third)."""
    M = w.mod("transformations")
    half = [(3, 4, 25) if free == 1 else (1, 1, 2), (7, 24, 625), (1, 1, 2)]
    a = ctx.angle("a", -np.pi, np.pi, div=2)
    half[free] = ctx.sincos_any(a * 0.5) + (1,)
    full = [(2 * s * c, c * c - s * s, n) for s, c, n in half]
    if free == 1:
        v = full[1][0] if axes[1] == axes[3] else full[1][1]
        if ctx.flag("side"):
            ctx.assume(v > 1e-3)
        else:
            ctx.assume(v < -1e-3)
    qs = [[c] + [s * float(k == x) for k in "xyz"] for x, (s, c, n) in zip(axes[1:], half)]
    q = qmul(qs[2], qmul(qs[1], qs[0])) if axes[0] == "s" else qmul(qs[0], qmul(qs[1], qs[2]))
    k = length(ctx, "k")
    got = M.euler_from_quaternion(ctx.array([k * x for x in q]), *([axes] if axes != "sxyz" or free else []))
    R = product(axes, [ctx.sincos_any(x) for x in got])
    scale = 1
    for s, c, n in full:
        scale *= n
    A, B, C = [[[x if p != q or x != 1.0 else float(n) for q, x in enumerate(r)] for p, r in enumerate(rmat(t, s, c))] for t, (s, c, n) in zip(axes[1:], full)]
    want = mm(C, mm(B, A)) if axes[0] == "s" else mm(A, mm(B, C))
    equal(ctx, [[scale * x for x in r] for r in R], want, "angles describe the rotation", 1e-1)


def from_matrix(ctx, w, precise, place=3):
    M = w.mod("transformations")
    q = quat(ctx, "q")
    R = qmat(q)
    if not precise:
        # other eigenvectors: q times the imaginary units
        a, b, c, d = q
        basis = [[-b, a, d, -c], [-c, -d, a, b], [-d, c, -b, a]]
        sg = sign(ctx, "sg")
        vecs = basis[:place] + [[sg * x for x in q]] + basis[place:]
        vals = [-1 / 3.0] * 3
        vals.insert(place, 1.0)
        V = [[v[(i + 1) % 4] for v in vecs] for i in range(4)]

        def eigh(m):
            want = [[sum(vals[k] * V[i][k] * V[j][k] for k in range(4)) for j in range(4)] for i in range(4)]
            low = [(i, j) for i in range(4) for j in range(i + 1)]
            if m.shape != (4, 4) or not ctx.same([[m[i, j] for i, j in low]], [[want[i][j] for i, j in low]]):
                return None
            return vals, V

        ctx.provide("eigh", eigh)
    got = list(M.quaternion_from_matrix(ctx.array(hom(R)), isprecise=True) if precise else M.quaternion_from_matrix(ctx.array(hom(R))))
    ctx.check(got[0] > -1e-9, "real part is not negative")
    equal(ctx, qmat(got), R, "quaternion of a rotation", 1e-5)
    ctx.eq(dot(got, got), 1.0, "unit quaternion", 1e-5)


def slerp(ctx, w, f, spin=0, short=True):
    M = w.mod("transformations")
    u, n = quat(ctx, "u"), unit(ctx, "n")
    if f not in (0, 1, 0.5):
        st, ct = ctx.sincos_any(ctx.angle("turn", -np.pi, np.pi))
        u, n = [ct, 0.0, st, 0.0], [1.0, 0.0, 0.0]
    a = ctx.angle("a", 0.01, 3.13, div=4)
    s, c = ctx.sincos_any(a)
    ctx.assume(c < 0.999999)
    ctx.assume(c > -0.999999)
    v = qmul(u, [0.0] + n)
    k, l = length(ctx, "k"), length(ctx, "l")
    q0, q1 = [k * x for x in u], [l * (x * c + y * s) for x, y in zip(u, v)]
    A0, A1 = ctx.array(q0), ctx.array(q1)
    kw = dict(spin=spin, shortestpath=short) if spin or not short else {}
    got = list(M.quaternion_slerp(A0, A1, f, **kw))
    # the shorter way is to -q1 when the angle is obtuse
    b, m = a, 1.0
    if short and f not in (0, 1) and bool(c < 0):
        b, m = np.pi - a, -1.0
    if f in (0, 1):
        want = u if f == 0 else [x * c + y * s for x, y in zip(u, v)]
    else:
        ss, cc = ctx.sincos_any((b + spin * np.pi) * f)
        e0, e1 = ctx.sincos_any(b), 0
        # in the plane of u and v, from u towards m*q1, spin half turns more
        want = [x * cc + m * y * ss for x, y in zip(u, v)]
    equal(ctx, got, want, "interpolated quaternion", 1e-5)
    equal(ctx, list(A0) + list(A1), q0 + q1, "arguments unchanged")


def still(ctx, w):
    """No rotation between the two."""
    M = w.mod("transformations")
    u = quat(ctx, "u")
    k = length(ctx, "k") * sign(ctx, "s")
    got = M.quaternion_slerp(ctx.array(u), ctx.array([k * x for x in u]), 0.5)
    equal(ctx, qmat(list(got)), qmat(u), "interpolation without rotation", 1e-5)


def rand(ctx, w):
    M = w.mod("transformations")
    r = ctx.real("r", 0, 1)
    t, u = ctx.angle("t", 0, 2 * np.pi), ctx.angle("u", 0, 2 * np.pi)
    turns = [t / (2 * np.pi), u / (2 * np.pi)]
    q = M.random_quaternion(ctx.array([r] + turns))
    ctx.eq(dot(list(q), list(q)), 1.0, "random unit quaternion", TOL)
    R = lists(M.random_rotation_matrix(ctx.array([r] + turns)))
    R3 = [x[:3] for x in R[:3]]
    equal(ctx, mm(R3, T(R3)), [x[:3] for x in I4[:3]], "random rotation is orthogonal")
    equal(ctx, R, hom(qmat(list(q))), "random rotation of the random quaternion")


def elementary(ctx, w):
    M = w.mod("transformations")
    R = euler(ctx, "R")
    n, d = [r[2] for r in R], [r[0] for r in R]
    p, t, x = vec(ctx, "p"), vec(ctx, "t"), vec(ctx, "x")
    k, l, f = length(ctx, "k"), length(ctx, "l"), ctx.real("f", -10, 10)
    equal(ctx, M.identity_matrix(), I4, "identity")
    Tm = M.translation_matrix(ctx.array(t))
    equal(ctx, Tm, hom(I4[:3] and [r[:3] for r in I4[:3]], t), "translation")
    equal(ctx, M.translation_from_matrix(Tm), t, "translation of a matrix")
    N = ctx.array([k * a for a in n])
    D = ctx.array([l * a for a in d])
    P, X = ctx.array(p), x + [1.0]
    h = dot([a - b for a, b in zip(x, p)], n)
    at = lambda A, y: mv(lists(A), y)
    equal(ctx, at(M.reflection_matrix(P, N), X), [a - 2 * h * b for a, b in zip(x, n)] + [1.0], "mirrored point")
    equal(ctx, at(M.scale_matrix(f), X), [f * a for a in x] + [1.0], "scaled point")
    equal(ctx, at(M.scale_matrix(f, P), X), [b + f * (a - b) for a, b in zip(x, p)] + [1.0], "point scaled about an origin")
    equal(ctx, at(M.scale_matrix(f, P, N), X), [a + (f - 1) * h * b for a, b in zip(x, n)] + [1.0], "point scaled along a direction")
    equal(ctx, at(M.scale_matrix(f, None, N), X), [a + (f - 1) * dot(x, n) * b for a, b in zip(x, n)] + [1.0], "scaling along a direction about zero")
    equal(ctx, at(M.projection_matrix(P, N), X), [a - h * b for a, b in zip(x, n)] + [1.0], "orthogonal projection")
    sl = ctx.real("sl", -5, 5)
    dirn = [l * (a + sl * b) for a, b in zip(n, d)]
    equal(ctx, at(M.projection_matrix(P, N, ctx.array(dirn)), X), [a - h * (b + sl * c) for a, b, c in zip(x, n, d)] + [1.0], "parallel projection")
    a = ctx.angle("a", -1.5, 1.5)
    s, c = ctx.sincos_any(a)
    equal(ctx, at(M.shear_matrix(a, D, P, N), X), [u + s / c * h * v for u, v in zip(x, d)] + [1.0], "sheared point")
    if ctx.flag("slanted"):
        ctx.assume(sl > 0.1)
        try:
            M.shear_matrix(a, ctx.array(dirn), P, N)
            ctx.check(False, "shear that leaves its plane is refused")
        except ValueError:
            pass


def central(ctx, w, pseudo=False):
    """Perspective projection: on the plane and on the line of sight."""
    M = w.mod("transformations")
    R = euler(ctx, "R")
    n = [r[2] for r in R]
    p, o, x = vec(ctx, "p"), vec(ctx, "o"), vec(ctx, "x")
    k = length(ctx, "k")
    N, P = ctx.array([k * a for a in n]), ctx.array(p)
    dh = dot([a - b for a, b in zip(o, p)], n)
    hx = dot([a - b for a, b in zip(o, x)], n)
    A = lists(M.projection_matrix(P, N, perspective=ctx.array(o), pseudo=pseudo) if pseudo else M.projection_matrix(P, N, perspective=ctx.array(o)))
    y = mv(A, x + [1.0])
    if pseudo:
        B = lists(M.projection_matrix(P, N))
        C = lists(M.projection_matrix(P, N, perspective=ctx.array(o)))
        equal(ctx, mm(B, A), C, "relative depth, then orthogonal projection")
        return
    ctx.assume(hx * hx > 1e-4)
    ctx.eq(y[3], hx, "depth", TOL)
    want = [a + (b - a) * dh / hx for a, b in zip(o, x)]
    ctx.eq([v / y[3] for v in y[:3]], want, "projected point", 1e-5)


def clip(ctx, w, perspective):
    M = w.mod("transformations")
    names = ("left", "right", "bottom", "top", "near", "far")
    l, r, b, t, n, f = v = [ctx.real(x, -10, 10) for x in names]
    try:
        A = lists(M.clip_matrix(*v, perspective=perspective) if perspective else M.clip_matrix(*v))
    except ValueError:
        bad = bool(l >= r) or bool(b >= t) or bool(n >= f) or (perspective and bool(n <= 1e-12))
        ctx.check(bad, "only invalid frusta are refused")
        return
    ctx.check(bool(l < r) and bool(b < t) and bool(n < f) and (not perspective or bool(n > 0)), "invalid frusta are refused")
    sx, sy, sz = [ctx.real(x, -1, 1) for x in ("u", "v", "w")]
    mix = lambda lo, hi, q: lo + (hi - lo) * (q + 1) / 2
    if perspective:
        # on the near and the far plane
        near = ctx.flag("atnear")
        k = 1.0 if near else f / n
        y = mv(A, [k * mix(l, r, sx), k * mix(b, t, sy), k * n, 1.0])
        ctx.eq([a / y[3] for a in y[:3]], [sx, sy, -1.0 if near else 1.0], "normalized coordinates", 1e-5)
    else:
        ctx.eq(mv(A, [mix(l, r, sx), mix(b, t, sy), mix(n, f, sz), 1.0]), [sx, sy, sz, 1.0], "normalized coordinates", 1e-5)


def factors(ctx, w, parts, turns=3):
    """Decomposing what was composed gives an equal transformation."""
    M = w.mod("transformations")
    S = [length(ctx, "s%d" % i) * (sign(ctx, "g%d" % i) if i == 0 else 1.0) for i in range(3)]
    Z = vec(ctx, "z") if "shear" in parts else [0.0] * 3
    ang = [ctx.angle("a%d" % i, -np.pi, np.pi) if i < turns else 0.0 for i in range(3)]
    sc = [ctx.sincos_any(a) if i < turns else (0.0, 1.0) for i, a in enumerate(ang)]
    t = vec(ctx, "t") if "translate" in parts else [0.0] * 3
    kw = dict(scale=ctx.array(S), angles=ang)
    A = mm(product("sxyz", sc), [[1.0, Z[0], Z[1]], [0.0, 1.0, Z[2]], [0.0, 0.0, 1.0]])
    want = hom([[a * b for a, b in zip(r, S)] for r in A], t)
    if "shear" in parts:
        kw["shear"] = ctx.array(Z)
    if "translate" in parts:
        kw["translate"] = ctx.array(t)
    if "perspective" in parts:
        p = [ctx.real("p%d" % i, -3, 3) for i in range(4)]
        for i in range(3):
            ctx.assume(p[i] > 1e-3)
        last = dot(p, t + [1.0])
        ctx.assume(last > 1e-2)
        want = want[:3] + [[dot(p, [r[j] for r in want]) for j in range(4)]]
        want = [[a / last for a in r] for r in want]
        kw["perspective"] = ctx.array(p)
    C = M.compose_matrix(**kw)
    equal(ctx, C, want, "composed transformation", 1e-5)
    ctx.assume(sc[1][1] * sc[1][1] > 1e-4)
    before = lists(C)
    out = M.decompose_matrix(C)
    ctx.check(len(out) == 5, "five factors")
    equal(ctx, C, before, "argument unchanged")
    equal(ctx, M.compose_matrix(*out), want, "recomposed transformation", 1e-4)


def inverses(ctx, w):
    M = w.mod("transformations")
    R, s, t = mm(rmat("z", *ctx.sincos_any(ctx.angle("R", -np.pi, np.pi))), rmat("x", 0.6, 0.8)), ctx.real("s", 0.1, 10) * sign(ctx, "sg"), vec(ctx, "t")
    A = hom([[s * a for a in r] for r in R], t)
    B = hom(rmat("x", *ctx.sincos_any(ctx.angle("b", -np.pi, np.pi))), vec(ctx, "u"))
    inv = lists(M.inverse_matrix(ctx.array(A)))
    equal(ctx, mm(A, inv), I4, "inverse", 1e-5)
    equal(ctx, mm(inv, A), I4, "inverse", 1e-5)
    equal(ctx, M.concatenate_matrices(ctx.array(A), ctx.array(B), ctx.array(A)), mm(A, mm(B, A)), "product of transformations", 1e-5)
    k = ctx.real("k", 0.1, 10) * sign(ctx, "ks")
    ctx.check(bool(M.is_same_transform(ctx.array(A), ctx.array([[k * x for x in r] for r in A]))), "same transformation at another scale")
    e = ctx.real("e", 0.1, 10)
    D = [list(r) for r in A]
    D[ctx.choice("row", 3)][ctx.choice("col", 4)] += e * 10
    ctx.check(not bool(M.is_same_transform(ctx.array(A), ctx.array(D))), "different transformations")


def vectors(ctx, w):
    M = w.mod("transformations")
    a, b = vec(ctx, "a"), vec(ctx, "b")
    A, B = ctx.array(a), ctx.array(b)
    cross = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    equal(ctx, M.vector_product(A, B), cross, "vector product")
    n2 = dot(a, a)
    ctx.assume(n2 > 1e-4)
    ctx.assume(dot(b, b) > 1e-4)
    n = M.vector_norm(A)
    ctx.check(bool(n > 0), "norm is positive")
    ctx.eq(n * n, n2, "norm", TOL)
    u = M.unit_vector(A)
    ctx.eq(dot(list(u), list(u)), 1.0, "unit vector", TOL)
    equal(ctx, [n * x for x in u], a, "direction of the unit vector")
    both = ctx.array([a, b])
    rows = M.vector_norm(both, axis=1)
    ctx.eq([rows[0] * rows[0], rows[1] * rows[1]], [n2, dot(b, b)], "norms of rows", TOL)
    U = lists(M.unit_vector(both, axis=1))
    for x, y, r in zip(U, (a, b), rows):
        equal(ctx, [r * v for v in x], y, "unit rows")
    cols = M.vector_norm(ctx.array(T([a, b])), axis=0)
    ctx.eq([cols[0] * cols[0], cols[1] * cols[1]], [n2, dot(b, b)], "norms of columns", TOL)
    equal(ctx, list(A) + list(B), a + b, "arguments unchanged")
    out = ctx.array([0.0, 0.0, 0.0])
    M.unit_vector(A, out=out)
    equal(ctx, out, list(u), "output argument")


def between(ctx, w):
    M = w.mod("transformations")
    R = euler(ctx, "R")
    t = ctx.angle("t", 0, np.pi)
    s, c = ctx.sincos_any(t)
    k, l = length(ctx, "k"), length(ctx, "l")
    a, b = [k * r[0] for r in R], [l * (r[0] * c + r[1] * s) for r in R]
    ctx.eq_angle(M.angle_between_vectors(ctx.array(a), ctx.array(b)), t, "angle", 1e-5)
    un = M.angle_between_vectors(ctx.array(a), ctx.array(b), directed=False)
    su, cu = ctx.sincos_any(un)
    ctx.eq(cu * cu, c * c, "undirected angle", 1e-5)
    ctx.check(bool(cu > -1e-7), "undirected angle is at most a right angle")


def eig(ctx, pairs):
    """Eigenvalues and vectors of one or several matrices."""
    for A, vals, V in pairs:
        def f(m, A=A, vals=vals, V=V):
            return (list(vals), V) if m.shape == (len(A), len(A)) and ctx.same(m, A) else None
        ctx.provide("eig", f)


def axis_of(ctx, w):
    M = w.mod("transformations")
    a = ctx.angle("a", -np.pi, np.pi)
    s, c = ctx.sincos_any(a)
    ctx.assume(c < 0.999)
    R = mm(turn(ctx, "R1", 2), turn(ctx, "R2", 1))
    W = mm(R, mm(rmat("z", s, c), T(R)))
    n = [r[2] for r in R]
    p = vec(ctx, "p")
    A = hom(W, [x - y for x, y in zip(p, mv(W, p))])
    g = sign(ctx, "g")
    k = ctx.real("k", 0.1, 1) * sign(ctx, "kg")
    place = ctx.choice("place", 3)
    # the other two directions are complex: their real parts do not matter
    col = [[r[0] for r in R], [r[1] for r in R]]
    col.insert(place, [g * x for x in n])
    vals = [c, c]
    vals.insert(place, 1.0)
    c4 = [x + [0.0] for x in col] + [[k * x for x in p] + [k]]
    eig(ctx, [(T(W), vals, T(col)), (A, vals + [1.0], T(c4))])
    t, d, q = M.rotation_from_matrix(ctx.array(A))
    equal(ctx, M.rotation_matrix(t, d, q), A, "rotation from its axis and angle", 1e-5)


def mirror_of(ctx, w):
    M = w.mod("transformations")
    R = mm(turn(ctx, "R1", 2), turn(ctx, "R2", 1))
    n, d, e = [[r[i] for r in R] for i in (2, 0, 1)]
    h = ctx.real("h", -9, 9)
    H = [[float(i == j) - 2 * n[i] * n[j] for j in range(3)] for i in range(3)]
    A = hom(H, [2 * h * x for x in n])
    g, k = sign(ctx, "g"), ctx.real("k", 0.1, 1) * sign(ctx, "kg")
    place = ctx.choice("place", 3)
    u, v = ctx.real("u", -3, 3), ctx.real("v", -3, 3)
    p = [h * a + u * b + v * c for a, b, c in zip(n, d, e)]
    col = [d, e]
    col.insert(place, [g * x for x in n])
    vals = [1.0, 1.0]
    vals.insert(place, -1.0)
    c4 = [x + [0.0] for x in col] + [[k * x for x in p] + [k]]
    eig(ctx, [(H, vals, T(col)), (A, vals + [1.0], T(c4))])
    q, m = M.reflection_from_matrix(ctx.array(A))
    equal(ctx, M.reflection_matrix(q, m), A, "reflection from its plane", 1e-5)


def scale_of(ctx, w, direction, place=0):
    M = w.mod("transformations")
    f = ctx.real("f", -10, 10)
    if ctx.flag("more"):
        ctx.assume(f > 1.1)
    else:
        ctx.assume(f < 0.9)
    R = mm(turn(ctx, "R1", 2), turn(ctx, "R2", 1))
    n, d, e = [[r[i] for r in R] for i in (2, 0, 1)]
    p = vec(ctx, "p")
    k = ctx.real("k", 0.1, 1)
    if direction:
        F = [[float(i == j) + (f - 1) * n[i] * n[j] for j in range(3)] for i in range(3)]
        col = [d, e]
        g = sign(ctx, "g")
        col.insert(place, [x * g for x in n])
        vals = [1.0, 1.0]
        vals.insert(place, f)
    else:
        F = [[f * (i == j) for j in range(3)] for i in range(3)]
        col, vals = [d, e, n], [f] * 3
    A = hom(F, [x - y for x, y in zip(p, mv(F, p))])
    c4 = [x + [0.0] for x in col] + [[k * x for x in p] + [k]]
    eig(ctx, [(F, vals, T(col)), (A, vals + [1.0], T(c4))])
    f2, o, dd = M.scale_from_matrix(ctx.array(A))
    ctx.eq(f2, f, "factor", 1e-5)
    ctx.check((dd is None) == (not direction), "direction of the scaling")
    equal(ctx, M.scale_matrix(f2, o, dd), A, "scaling from its factors", 1e-5)


def registration(ctx, w, kind, n=4, dims=3, flat=False):
    """Points moved by a transformation are registered to it."""
    M = w.mod("transformations")
    if dims == 3:
        Q, P = euler(ctx, "Q"), euler(ctx, "P")
    else:
        Q, P = [[[c, -s], [s, c]] for s, c in (ctx.sincos_any(ctx.angle(x, -np.pi, np.pi)) for x in "QP")]
    D = [ctx.real("d%d" % i, 0.1, 10) for i in range(dims)]
    for i in range(dims - 1):
        ctx.assume(D[i] > D[i + 1] * 1.01)
    if flat:
        # points of a plane, or of a line in the plane
        D[-1] = 0.0
    c, b = [vec(ctx, x)[:dims] for x in "cb"]
    s = ctx.real("s", 0.1, 10) if kind in ("scale", "default") else 1.0
    E = {4: [[1, 1, 1], [-1, -1, 1], [1, -1, -1], [-1, 1, -1]], 6: [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]}[n] if dims == 3 else \
        [[1, 1], [-1, -1], [1, -1], [-1, 1]]
    m = 4 if n == 4 else 2
    X = [[x + y for x, y in zip(c, mv(Q, [d * e for d, e in zip(D, q)]))] for q in E]
    Y = [[x + s * y for x, y in zip(b, mv(P, [d * e for d, e in zip(D, q)]))] for q in E]
    W = mm(P, T(Q))
    lin = [[s * x for x in r] for r in W]
    want = [list(r) + [x - y] for r, x, y in zip(lin, b, mv(lin, c))] + [[0.0] * dims + [1.0]]
    v0, v1 = ctx.array(T(X)), ctx.array(T(Y))
    if kind == "affine":
        # orthonormal or not, a basis of the rows (x, Ax)
        lin = [[ctx.real("a%d%d" % (i, j), -5, 5) for j in range(dims)] for i in range(dims)]
        Y = [[x + y for x, y in zip(b, mv(lin, [p - q for p, q in zip(x0, c)]))] for x0 in X]
        want = [list(r) + [x - y] for r, x, y in zip(lin, b, mv(lin, c))] + [[0.0] * dims + [1.0]]
        v1 = ctx.array(T(Y))
        cent = [[p - q for p, q in zip(x0, c)] + mv(lin, [p - q for p, q in zip(x0, c)]) for x0 in X]

        def svd(mat):
            if mat.shape != (n, 2 * dims) or not ctx.same(mat, cent):
                return None
            rows = [list(q) + mv(lin, q) for q in Q]
            zero = [[0.0] * (2 * dims)] * dims
            return [[0.0] * n] * n, [1.0] * dims + [0.0] * dims, rows + zero

        ctx.provide("svd", svd)
        got = M.affine_matrix_from_points(v0, v1)
    else:
        sg = [sign(ctx, "g%d" % i) for i in range(dims)]
        other = sign(ctx, "other") if flat else None

        def svd(mat):
            A = [[sum(m * s * D[k] * D[k] * P[i][k] * Q[j][k] for k in range(dims)) for j in range(dims)] for i in range(dims)]
            if mat.shape != (dims, dims) or not ctx.same(mat, A):
                return None
            return ([[P[i][k] * sg[k] for k in range(dims)] for i in range(dims)], [m * s * d * d for d in D],
                    [[Q[j][k] * (other if flat and k == dims - 1 else sg[k]) for j in range(dims)] for k in range(dims)])

        ctx.provide("svd", svd)
        if dims == 3 and kind != "default":
            got = M.superimposition_matrix(v0, v1, scale=kind == "scale")
            if kind == "rigid":
                equal(ctx, M.superimposition_matrix(v0, v1), want, "registered by default", 1e-4)
        else:
            got = M.affine_matrix_from_points(v0, v1, shear=False, scale=kind != "rigid")
    equal(ctx, got, want, "registered points", 1e-4)
    equal(ctx, v0, T(X), "arguments unchanged")
    equal(ctx, v1, T(Y), "arguments unchanged")


def horn(ctx, w, scale):
    """Registration by quaternions."""
    M = w.mod("transformations")
    q = quat(ctx, "q")
    R = qmat(q)
    D = [ctx.real("d%d" % i, 0.1, 10) for i in range(3)]
    c, b = vec(ctx, "c"), vec(ctx, "b")
    s = ctx.real("s", 0.1, 10) if scale else 1.0
    E = [[1, 1, 1], [-1, -1, 1], [1, -1, -1], [-1, 1, -1]]
    Z = [[d * e for d, e in zip(D, x)] for x in E]
    X = [[x + y for x, y in zip(c, z)] for z in Z]
    Y = [[x + s * y for x, y in zip(b, mv(R, z))] for z in Z]
    # v0 v1^T is diagonal in the turned frame; eigenvectors are q times 1, i, j, k
    sq = [4 * s * d * d for d in D]
    lam = [sq[0] + sq[1] + sq[2], sq[0] - sq[1] - sq[2], sq[1] - sq[0] - sq[2], sq[2] - sq[0] - sq[1]]
    units = [[1.0, 0, 0, 0], [0, 1.0, 0, 0], [0, 0, 1.0, 0], [0, 0, 0, 1.0]]
    vecs = [qmul(q, u) for u in units]
    order = [[1, 2, 3, 0], [3, 2, 0, 1]][ctx.choice("order", 2)]
    g = sign(ctx, "g")
    vals, cols = [lam[i] for i in order], [[g * x for x in vecs[i]] for i in order]
    V = T(cols)

    def eigh(m):
        want = [[sum(vals[k] * V[i][k] * V[j][k] for k in range(4)) for j in range(4)] for i in range(4)]
        low = [(i, j) for i in range(4) for j in range(i + 1)]
        m = np.asarray(m)
        if m.shape != (4, 4) or not ctx.same([[m[i, j] for i, j in low]], [[want[i][j] for i, j in low]]):
            return None
        return vals, V

    ctx.provide("eigh", eigh)
    lin = [[s * x for x in r] for r in R]
    want = hom(lin, [x - y for x, y in zip(b, mv(lin, c))])
    got = M.superimposition_matrix(ctx.array(T(X)), ctx.array(T(Y)), scale=scale, usesvd=False)
    equal(ctx, got, want, "registered points", 1e-4)


HARNESSES = [
    dict(name="rotations", fn=rotations, params=[dict(form="axis"), dict(form="quaternion")]),
    dict(name="eulers", fn=eulers, params=[dict(axes=a) for a in AXES], thorough=[dict(axes=a, code=True) for a in AXES]),
    dict(name="angles", fn=angles, params=[dict(axes=a) for a in AXES] + [dict(axes=a, lock=l) for a in AXES for l in (0, 1)],
         thorough=[dict(axes=a, code=True) for a in AXES]),
    dict(name="quaternions", fn=quaternions, params=[{}], opts=dict(sqrt_ratio=True)),
    dict(name="from_matrix", fn=from_matrix, params=[dict(precise=True)] + [dict(precise=False, place=k) for k in (0, 3)], thorough=[dict(precise=False, place=k) for k in (1, 2)]),
    dict(name="products", fn=products, params=[{}]),
    dict(name="from_quaternion", fn=from_quaternion, params=[dict(axes=a, free=f) for a in ("sxyz", "ryxz", "szxz") for f in (0, 1, 2)], thorough=[dict(axes=a, free=f) for a in AXES if a not in ("sxyz", "ryxz", "szxz") for f in (0, 1, 2)]),
    dict(name="slerp", fn=slerp, params=[dict(f=0), dict(f=1), dict(f=0.5), dict(f=0.5, short=False)], thorough=[dict(f=0.75), dict(f=0.25), dict(f=0.75, short=False), dict(f=0.5, spin=1), dict(f=0.5, spin=2), dict(f=0.25, short=False)]),
    dict(name="still", fn=still, params=[{}]),
    dict(name="rand", fn=rand, params=[{}]),
    dict(name="elementary", fn=elementary, params=[{}]),
    dict(name="central", fn=central, params=[{}, dict(pseudo=True)]),
    dict(name="clip", fn=clip, params=[dict(perspective=False), dict(perspective=True)]),
    dict(name="factors", fn=factors, params=[dict(parts=[]), dict(parts=["shear", "translate"]), dict(parts=["perspective"], turns=1)], thorough=[dict(parts=["translate", "perspective"], turns=1), dict(parts=["shear", "translate", "perspective"], turns=1), dict(parts=["translate", "perspective"], turns=2)]),
    dict(name="inverses", fn=inverses, params=[{}]),
    dict(name="vectors", fn=vectors, params=[{}]),
    dict(name="between", fn=between, params=[{}]),
    dict(name="axis_of", fn=axis_of, params=[{}]),
    dict(name="mirror_of", fn=mirror_of, params=[{}]),
    dict(name="scale_of", fn=scale_of, params=[dict(direction=False), dict(direction=True)], thorough=[dict(direction=True, place=k) for k in (1, 2)]),
    dict(name="registration", fn=registration, params=[dict(kind="rigid"), dict(kind="scale"), dict(kind="affine"), dict(kind="default", dims=2), dict(kind="scale", flat=True)], thorough=[dict(kind="scale", n=6), dict(kind="affine", dims=2), dict(kind="rigid", dims=2), dict(kind="rigid", dims=2, flat=True), dict(kind="rigid", flat=True)]),
    dict(name="horn", fn=horn, params=[dict(scale=False), dict(scale=True)]),
]
