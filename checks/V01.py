"""Camera matrices, planes, homographies, poses from estimators."""
import itertools
import numpy as np
from checks.I02 import vec
from checks.L02 import T, mm, mv

PRELOAD = ["multiview", "pymap", "pygeometry", "transformations"]
BOUNDS = ("all calibrations, rotations, translations, planes, directions and homographies in general position within the stated ranges; 4 points (two pairs around a centre) and up to 2 directions per plane; up to 3 observations per ground control point")
ASSUMPTIONS = ["doubles are real numbers", "QR, eigenvalue and singular value routines return exact decompositions, of any of the possible signs and scales",
               "the native robust estimators and triangulation return the poses and points they document"]

I3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]


def lists(a):
    return [list(r) for r in a]


def rot(ctx, name):
    return lists(ctx.rotation(name)[1])


def det(a):
    return sum(a[0][i] * (a[1][(i + 1) % 3] * a[2][(i + 2) % 3] - a[1][(i + 2) % 3] * a[2][(i + 1) % 3]) for i in range(3))


def is_rotation(ctx, R, label):
    R = lists(R)
    ctx.eq(mm(R, T(R)), I3, label + " is orthogonal", 1e-6)
    ctx.eq(det(R), 1.0, label + " is not a reflection", 1e-6)


def turn(ctx, name, k):
    """Any rotation about axis k."""
    s, c = ctx.sincos_any(ctx.angle(name, -np.pi, np.pi))
    i, j = (k + 1) % 3, (k + 2) % 3
    R = [[float(p == q) for q in range(3)] for p in range(3)]
    R[i][i] = R[j][j] = c
    R[i][j], R[j][i] = -s, s
    return R


def euler(ctx, name):
    """Any rotation."""
    return mm(turn(ctx, name + "1", 2), mm(turn(ctx, name + "2", 1), turn(ctx, name + "3", 2)))


def sign(ctx, name):
    return 1.0 if ctx.flag(name) else -1.0


def calibration(ctx):
    a, b, c = (ctx.real(x, 0.1, 10) for x in ("fx", "fy", "kz"))
    s, u, v = (ctx.real(x, -5, 5) for x in ("skew", "cx", "cy"))
    return [[a, s, u], [0.0, b, v], [0.0, 0.0, c]]


def projection(ctx, w):
    M = w.mod("multiview")
    K, R, t = calibration(ctx), rot(ctx, "R"), vec(ctx, "t")
    P = M.P_from_KRt(ctx.array(K), ctx.array(R), ctx.array(t))
    ctx.check(tuple(P.shape) == (3, 4), "shape of a projection matrix")
    KR, Kt = mm(K, R), mv(K, t)
    ctx.eq(lists(P), [KR[i] + [Kt[i]] for i in range(3)], "P = K [R | t]", 1e-6)
    lam = ctx.real("scale", 0.1, 10) * sign(ctx, "neg")
    P = [[lam * x for x in r] for r in lists(P)]
    S = [sign(ctx, "s%d" % i) for i in range(3)]
    A = [r[:3] for r in P]

    def qr(m):
        if m.shape != (3, 3) or not ctx.same(m, [[A[2 - j][i] for j in range(3)] for i in range(3)]):
            return None
        q = [[R[2 - j][i] * S[j] for j in range(3)] for i in range(3)]
        r = [[S[i] * lam * K[2 - j][2 - i] for j in range(3)] for i in range(3)]
        return q, r

    ctx.provide("qr", qr)
    k, r, tt = M.KRt_from_P(ctx.array(P))
    ctx.eq(lists(k), [[x / K[2][2] for x in row] for row in K], "calibration", 1e-4)
    ctx.eq(lists(r), R, "rotation", 1e-5)
    ctx.eq(list(tt), t, "translation", 1e-3)


def algebra(ctx, w):
    M = w.mod("multiview")
    x, y = vec(ctx, "x"), vec(ctx, "y")
    C = lists(M.cross_product_matrix(ctx.array(x)))
    ctx.eq(mv(C, y), [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]], "cross product", 1e-6)
    pts = ctx.array([x, y])
    for p, raw in ((pts, [x, y]), (ctx.array(x), x)):
        h = M.homogeneous(p)
        ctx.eq(lists(h) if p is pts else list(h), [a + [1.0] for a in raw] if p is pts else raw + [1.0], "homogeneous points")
        ctx.eq(lists(M.euclidean(h)) if p is pts else list(M.euclidean(h)), raw, "back to Euclidean", 1e-6)
        v = M.homogeneous_vec(p)
        ctx.eq(lists(v) if p is pts else list(v), [a + [0.0] for a in raw] if p is pts else raw + [0.0], "homogeneous vectors")
    k = ctx.real("k", 0.1, 10) * sign(ctx, "neg")
    ctx.eq(list(M.euclidean(ctx.array([k * a for a in x] + [k]))), x, "any scale", 1e-6)
    R, s = rot(ctx, "R"), ctx.real("s", 0.1, 10)
    D = [[s * a for a in r] + [b] for r, b in zip(R, y)] + [[0.0, 0.0, 0.0, 1.0]]
    s2, A, b = M.decompose_similarity_transform(ctx.array(D))
    ctx.eq(s2, s, "scale", 1e-5)
    ctx.eq(lists(A), R, "rotation", 1e-5)
    ctx.eq(list(b), y, "translation", 1e-6)


def angles(ctx, w):
    M = w.mod("multiview")
    R = rot(ctx, "R")
    a = ctx.angle("a", 0, np.pi)
    s, c = ctx.sincos_any(a)
    k, l = ctx.real("k", 0.1, 10), ctx.real("l", 0.1, 10)
    u, v = [k * r[0] for r in R], [l * (r[0] * c + r[1] * s) for r in R]
    got = M.vector_angle(ctx.array(u), ctx.array(v))
    ctx.eq_angle(got, a, "angle of two vectors", 1e-6)
    ctx.check(bool(got > -1e-9) and bool(got < 3.1415927), "angle range")


def direction(ctx, name):
    """Any unit vector."""
    return [r[2] for r in rot(ctx, name)]


def horizontal(ctx, w, pole=0):
    M = w.mod("multiview")
    n = direction(ctx, "n") if not pole else [0.0, 0.0, float(pole)]
    if not pole:
        ctx.assume(n[0] * n[0] + n[1] * n[1] > 1e-6)
    k = ctx.real("k", 0.1, 10)
    p = [k * x for x in n] + [ctx.real("d", -10, 10)]
    R = M.plane_horizontalling_rotation(ctx.array(p))
    ctx.check(R is not None, "rotation to the horizontal")
    is_rotation(ctx, R, "rotation to the horizontal")
    ctx.eq(mv(lists(R), n), [0.0, 0.0, 1.0], "normal becomes vertical", 1e-6)


def upright(ctx, w, pole=0):
    M = w.mod("multiview")
    if not pole:
        # any direction but the poles
        h, az = ctx.real("h", 1e-3, 1), ctx.angle("az", -np.pi, np.pi)
        s, c = ctx.sincos_any(az)
        n = [h * c, h * s, sign(ctx, "hemisphere") * ctx.sqrt(1 - h * h)]
    else:
        n = [0.0, 0.0, float(pole)]
    k = ctx.real("k", 0.1, 10)
    a = ctx.angle("a", -180, 180, unit=np.pi / 180)
    R = M.rotation_matrix_from_up_vector_and_compass(ctx.array([k * x for x in n]), a)
    is_rotation(ctx, R, "rotation of a camera")
    ctx.eq(list(M.camera_up_vector(R)), n, "up vector", 1e-6)
    if not pole:
        got = M.camera_compass_angle(R)
        ctx.eq_angle(got * (np.pi / 180.0), a * (np.pi / 180.0), "compass angle", 1e-5)


def plane(ctx, w, dirs=0, verts=0, corners=4):
    """Points on a plane, and directions in it."""
    M = w.mod("multiview")
    R = euler(ctx, "R")
    u, v, n = T(R)
    h = ctx.real("h", -5, 5)
    a, b = ctx.real("a", 0.5, 5), ctx.real("b", 0.5, 5)
    X = [[s * a * p + h * r for p, r in zip(u, n)] for s in (1, -1)]
    if corners == 4:
        X += [[s * b * q + h * r for q, r in zip(v, n)] for s in (1, -1)]
    k = [ctx.real("k%d" % i, 0.5, 5) for i in range(dirs)]
    # along either axis of the points
    V = [[x * y for y in (v, u)[i % 2]] for i, x in enumerate(k)]
    side = sign(ctx, "side")
    W = []
    for i in range(verts):
        m, e = ctx.real("m%d" % i, 0.2, 5), vec(ctx, "e%d" % i, 3)
        W.append([side * m * r + e[0] * p + e[1] * q for p, q, r in zip(u, v, n)])
    flip, big = sign(ctx, "flip"), 1.0 if dirs or verts else ctx.real("big", 0.2, 5)

    def eig(m):
        if m.shape != (4, 4):
            return None
        # the points may have been scaled: (sx 1) and (sv 0)
        for s in scales:
            A = [[s * c for c in x] + [1.0] for x in X] + [[s * c for c in x] + [0.0] for x in V]
            if not ctx.same(m, [[sum(r[i] * r[j] for r in A) for j in range(4)] for i in range(4)]):
                continue
            N = len(X)
            lu = s * s * (2 * a * a + sum(x * x for i, x in enumerate(k) if i % 2))
            lv = s * s * ((2 * b * b if corners == 4 else 0.0) + sum(x * x for i, x in enumerate(k) if not i % 2))
            cols = [[*n, -s * h], [*u, 0.0], [*v, 0.0], [*[s * h * x for x in n], 1.0]]
            z = [flip * big, 1.0, 1.0, 1.0]
            return [1e-14, lu, lv, N * (1 + s * s * h * h)], [[cols[j][i] * z[j] for j in range(4)] for i in range(4)]
        return None

    pts = ctx.array(X)
    scales = [1.0, 1.0 / pts.std()]
    ctx.provide("eig", eig)
    ctx.assume(pts.std() > 1e-3)
    p = list(M.fit_plane(pts, ctx.array(V) if V else None, ctx.array(W) if W else None))
    ctx.check(len(p) == 4, "plane")
    norm2 = sum(x * x for x in p[:3])
    ctx.check(bool(norm2 > 1e-9), "a plane has a normal")
    for x in X:
        ctx.eq(sum(i * j for i, j in zip(p, x)) + p[3], 0.0, "plane contains its points", 1e-6)
    for x in V:
        ctx.eq(sum(i * j for i, j in zip(p, x)), 0.0, "plane contains its directions", 1e-6)
    if W:
        ctx.check(bool(side * sum(i * j for i, j in zip(p, n)) > 0), "plane faces the verticals")


def motions(ctx, w):
    M = w.mod("multiview")
    U, V = rot(ctx, "U"), rot(ctx, "V")
    su, sv = sign(ctx, "su"), sign(ctx, "sv")
    U, V = [[su * x for x in r] for r in U], [[sv * x for x in r] for r in V]
    l = [ctx.real("l%d" % i, 0.1, 10) for i in range(3)]
    ctx.assume(l[0] > 1.01 * l[1])
    ctx.assume(l[1] > 1.01 * l[2])
    H = mm([[x * k for x, k in zip(r, l)] for r in U], V)
    ctx.provide("svd", lambda m: (U, l, V) if m.shape == (3, 3) and ctx.same(m, H) else None)
    res = M.motion_from_plane_homography(ctx.array(H))
    ctx.check(res is not None and len(res) == 8, "eight candidates")
    keys = set()
    for R, t, n, d in res:
        # in the frames of the decomposition, which are orthogonal
        R, t, n = mm(mm(T(U), lists(R)), T(V)), mv(T(U), list(t)), mv(V, list(n))
        ctx.eq(mm(R, T(R)), I3, "candidate is orthogonal", 1e-6)
        ctx.eq(det(R), su * sv, "candidate is not a reflection", 1e-6)
        ctx.eq(sum(x * x for x in n), 1.0, "normal of a candidate", 1e-6)
        ctx.eq([[d * R[i][j] - t[i] * n[j] for j in range(3)] for i in range(3)], [[l[i] if i == j else 0.0 for j in range(3)] for i in range(3)], "candidate induces the homography", 1e-5)
        keys.add((bool(n[0] > 0), bool(n[2] > 0), bool(d > 0)))
    ctx.check(len(keys) == 8, "candidates differ")


def focal(ctx, w):
    M = w.mod("multiview")
    R = rot(ctx, "R")
    f, g, c = ctx.real("f", 0.2, 5), ctx.real("g", 0.2, 5), ctx.real("c", 0.1, 10)
    # not about the optical axis
    ctx.assume(R[0][2] * R[0][2] > 0.01)
    ctx.assume(R[1][2] * R[1][2] > 0.01)
    D = [f, f, 1.0]
    E = [g, g, 1.0]
    H = [[c * R[i][j] * D[i] / D[j] for j in range(3)] for i in range(3)]
    s = sign(ctx, "s")

    def svd(m):
        if m.shape == (6, 2):
            if not ctx.same([r[0] * f * f + r[1] for r in m], [0.0] * 6):
                return None
            q = ctx.sqrt(1 + f ** 4)
            vh = [[1 / q, -f * f / q], [s * f * f / q, s / q]]
            return np.eye(6), [1.0, 0.0], vh
        if m.shape == (3, 3) and ctx.same(m, [[c * x for x in r] for r in R]):
            return R, [c] * 3, I3
        return None

    ctx.provide("svd", svd)
    ctx.eq(M.focal_from_homography(ctx.array(H)), f, "focal length of a rotating camera", 1e-4)
    H = [[c * R[i][j] * E[i] / D[j] for j in range(3)] for i in range(3)]
    Q = M.R_from_homography(ctx.array(H), f, g)
    ctx.check(Q is not None, "rotation between two views")
    ctx.eq(lists(Q), R, "rotation between two views", 1e-5)


def failing(ctx, w):
    """The decomposition does not converge."""
    M = w.mod("multiview")
    A = [vec(ctx, "a%d" % i) for i in range(3)]
    f, g = ctx.real("f", 0.2, 5), ctx.real("g", 0.2, 5)

    def boom(*a, **k):
        raise np.linalg.LinAlgError("SVD did not converge")

    w.patch(M.np.linalg, "svd", boom)
    ctx.check(M.project_to_rotation_matrix(ctx.array(A)) is None, "no rotation")
    ctx.check(M.R_from_homography(ctx.array(A), f, g) is None, "no rotation between two views")


class Estimator:
    class RobustEstimatorParams:
        iterations = 0
        probability = 0

    class RansacType:
        RANSAC = "ransac"


def estimators(ctx, w, kind):
    M, PR = w.mod("multiview"), w.mod("pyrobust")
    a, b = ctx.array([vec(ctx, "a%d" % i) for i in range(2)]), ctx.array([vec(ctx, "b%d" % i) for i in range(2)])
    thr, its = ctx.real("thr", 0.001, 1), ctx.int("its", 1, 1000)
    R, t = rot(ctx, "R"), vec(ctx, "t")
    inv = [r + [-x] for r, x in zip(T(R), mv(T(R), t))]

    def native(model):
        def f(x, y, threshold, params, type_):
            ctx.eq([lists(x), lists(y)], [lists(a), lists(b)], "correspondences given to the estimator")
            ctx.eq(threshold, thr, "threshold given to the estimator")
            ctx.eq(params.iterations, its, "iterations given to the estimator")

            class Result:
                lo_model = ctx.array(model)
            return Result
        return f

    Rt = [r + [x] for r, x in zip(R, t)]
    names = dict(absolute="ransac_absolute_pose", relative="ransac_relative_pose", known="ransac_absolute_pose_known_rotation", rotation="ransac_relative_rotation")
    model = dict(known=t, rotation=R).get(kind, Rt)
    w.patch(M.pyrobust, "RobustEstimatorParams", Estimator.RobustEstimatorParams)
    w.patch(M.pyrobust, "RansacType", Estimator.RansacType)
    if kind in names:
        w.patch(M.pyrobust, names[kind], native(model))
    if kind == "absolute":
        ctx.eq(lists(M.absolute_pose_ransac(a, b, thr, its, 0.999)), inv, "pose is the inverse of the native one", 1e-6)
    elif kind == "relative":
        ctx.eq(lists(M.relative_pose_ransac(a, b, thr, its, 0.999)), inv, "pose is the inverse of the native one", 1e-6)
    elif kind == "known":
        got = M.absolute_pose_known_rotation_ransac(a, b, thr, its, 0.999)
        ctx.eq(lists(got), [I3[i] + [-t[i]] for i in range(3)], "pose is the inverse of the native one", 1e-6)
    elif kind == "rotation":
        ctx.eq(lists(M.relative_pose_ransac_rotation_only(a, b, thr, its, 0.999)), T(R), "rotation is the inverse of the native one", 1e-6)
    else:
        S, u = rot(ctx, "S"), vec(ctx, "u")

        def refine(m, x, y, n):
            ctx.eq([lists(x), lists(y)], [lists(a), lists(b)], "correspondences to refine on")
            ctx.eq(n, its, "iterations of the refinement")
            ctx.eq(lists(m), inv, "pose to refine is the inverse", 1e-6)
            return ctx.array([r + [x] for r, x in zip(S, u)])

        w.patch(M.pygeometry, "relative_pose_refinement", refine)
        got = M.relative_pose_optimize_nonlinear(a, b, ctx.array(t), ctx.array(R), its)
        ctx.eq(lists(got), [r + [-x] for r, x in zip(T(S), mv(T(S), u))], "refined pose is the inverse of the native one", 1e-6)
    ctx.eq([R, t], [[list(r[:3]) for r in Rt], [r[3] for r in Rt]], "inputs are kept")


def control(ctx, w, n=3, known=(1, 1, 1), twice=False):
    """A ground control point seen by shots of which some are reconstructed."""
    M, PM, G = w.mod("multiview"), w.mod("pymap"), w.mod("pygeometry")
    X = vec(ctx, "X")
    thr, ang, depth = ctx.real("thr", 0.001, 0.1), ctx.real("ang", 0.1, 30), ctx.real("depth", 0.0, 1)
    shots, g, rays = {}, PM.GroundControlPoint(), []
    bearings = {}
    for i in range(n):
        R, o, d = rot(ctx, "R%d" % i), vec(ctx, "o%d" % i), ctx.real("d%d" % i, 0.5, 20)
        # the point in the frame of the camera; its bearing
        b = direction(ctx, "b%d" % i)
        # camera centre at X - d R^T b
        o = [x - d * y for x, y in zip(X, mv(T(R), b))]
        p = G.Pose()
        p.set_rotation_matrix(ctx.array(R))
        p.set_origin(ctx.array(o))

        class Camera:
            def __init__(self, i, b):
                self.i, self.b = i, b

            def pixel_bearing(self, x):
                ctx.eq(list(x), obs[self.i], "observation of the camera")
                return ctx.array(self.b)

        class Shot:
            pass
        s = Shot()
        s.pose, s.camera, s.id = p, Camera(i, b), "im%d" % i
        if known[i]:
            shots["im%d" % i] = s
            rays.append((o, d, mv(T(R), b)))
        bearings[i] = b
    obs = {i: [ctx.real("px%d" % i, -0.5, 0.5), ctx.real("py%d" % i, -0.5, 0.5)] for i in range(n)}
    for i in range(n):
        ob = PM.GroundControlPointObservation()
        ob.shot_id, ob.projection = "im%d" % i, ctx.array(obs[i])
        g.add_observation(ob)
    ok = ctx.flag("ok")

    def midpoint(os, bs, ths, angle, dep):
        ctx.check(len(os) == len(bs) == len(ths) == len(rays), "one ray per reconstructed image")
        ctx.eq(list(ths), [thr] * len(rays), "thresholds")
        ctx.eq(angle, ang * (np.pi / 180.0), "angle in radians", 1e-9)
        ctx.eq(dep, depth, "depth")
        for o, b, (oo, d, bb) in zip(os, bs, rays):
            ctx.eq(list(o), oo, "centre of the ray", 1e-6)
            ctx.eq(list(b), bb, "direction of the ray", 1e-6)
            ctx.eq([x + d * y for x, y in zip(o, b)], X, "ray goes through the point", 1e-5)
        return (True, ctx.array(X)) if ok else (False, ctx.array([0.0] * 3))

    w.patch(M.pygeometry, "triangulate_bearings_midpoint", midpoint)
    got = M.triangulate_gcp(g, shots, thr, ang, depth)
    if len(rays) >= 2 and ok:
        ctx.check(got is not None, "intersection of the rays")
        ctx.eq(list(got), X, "intersection of the rays", 1e-6)
    else:
        ctx.check(got is None, "nothing to intersect")


HARNESSES = [
    dict(name="projection", fn=projection),
    dict(name="algebra", fn=algebra),
    dict(name="angle", fn=angles),
    dict(name="horizontal", fn=horizontal, params=[dict(pole=p) for p in (0, 1, -1)]),
    dict(name="upright", fn=upright, params=[dict(pole=p) for p in (0, 1, -1)]),
    dict(name="plane", fn=plane, params=[dict(), dict(dirs=1, corners=2), dict(dirs=2, verts=1), dict(verts=2)]),
    dict(name="motions", fn=motions, opts=dict(sqrt_ratio=True)),
    dict(name="focal", fn=focal),
    dict(name="failing decomposition", fn=failing),
    dict(name="estimators", fn=estimators, params=[dict(kind=k) for k in ("absolute", "relative", "known", "rotation", "refine")]),
    dict(name="control point", fn=control, params=[dict(), dict(known=[1, 0, 1]), dict(known=[0, 1, 0]), dict(n=2, known=[1, 1])]),
]
