"""Aligning a reconstruction to measured positions."""
import numpy as np
from checks.I02 import pose, vec
from checks.L02 import T, forward, mm, mv
from checks.R02 import value

PRELOAD = ["align", "types", "pymap", "multiview", "transformations"]
BOUNDS = "4 or 5 images: centres a tetrahedron or rectangle with any position, orientation and lengths along its axes (3 on a line, 2 or 1 images too), any world position, heading, orientation and scale; up to two images without position"
ASSUMPTIONS = ["doubles are real numbers", "singular values and eigenvectors are exact (any of the valid choices of sign)",
               "the map and pose classes are reference models of the native ones"]

TETRA = [(1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)]
RECT = [(1, 1, 0), (1, -1, 0), (-1, 1, 0), (-1, -1, 0)]
LINE = [(-1, 0, 0), (0, 0, 0), (1, 0, 0)]


def scaled(A, s, E, D, b):
    return [x + s * y for x, y in zip(b, mv(A, [d * e for d, e in zip(D, E)]))]


def svd(ctx, P, Q, sv, name="other"):
    """Decomposition sum_k sv[k] P[:,k] Q[:,k]^T, with any signs."""
    n = len(sv)
    null = [not np.any(v != 0) for v in sv]
    sg = [1] * n
    other = [(-1 if ctx.flag("%s%d" % (name, k)) else 1) if null[k] else sg[k] for k in range(n)]

    def f(m):
        if m.shape != (n, n):
            return None
        want = [[sum(sv[k] * P[i][k] * Q[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
        if not ctx.same(m, want):
            return None
        U = [[P[i][k] * sg[k] for k in range(n)] for i in range(n)]
        # the sign of a direction without extent is free on both sides
        V = [[Q[j][k] * other[k] for j in range(n)] for k in range(n)]
        return U, list(sv), V

    ctx.provide("svd", f)


def axes(ctx, Q, ev):
    """Eigenvectors of Q diag(ev) Q^T."""
    def f(m):
        if m.shape != (3, 3):
            return None
        want = [[sum(ev[k] * Q[i][k] * Q[j][k] for k in range(3)) for j in range(3)] for i in range(3)]
        return ([1e-13 if isinstance(x, (int, float)) and x == 0 else x for x in ev], Q) if ctx.same(m, want) else None

    ctx.provide("eig", f)


def scene(ctx, w, pattern, Q, D, c, cam_rot=None, missing=1):
    Ty, G = w.mod("types"), w.mod("pygeometry")
    rec = Ty.Reconstruction()
    cam = G.Camera.create_spherical()
    cam.id = "model"
    rec.add_camera(cam)
    X = [scaled(Q, 1, E, D, c) for E in pattern]
    r0, R0 = ctx.rotation("first") if cam_rot is None else (None, None)
    for k, x in enumerate(X + [vec(ctx, "lost%d" % i) for i in range(missing)]):
        p = G.Pose()
        if cam_rot is not None:
            p.set_rotation_matrix(ctx.array(cam_rot(k)))
        elif k == 0:
            p.set_rotation_matrix(ctx.array([list(r) for r in R0]))
        p.set_origin(ctx.array(x))
        rec.create_shot("im%d" % k, "model", p)
    rec.create_point("pt", ctx.array(vec(ctx, "pt")))
    return rec, X


def points_follow(ctx, rec, res, before):
    ctx.eq(list(rec.points["pt"].coordinates), forward((res[0], None, [list(r) for r in res[1]], list(res[2])), before), "points move along", 1e-5)


def aligned(ctx, rec, res, Xp, n):
    s, A, b = res
    ctx.check(bool(s > 0), "positive scale")
    ctx.eq(mm([list(r) for r in A], T([list(r) for r in A])), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "rotation", 1e-6)
    a = [list(r) for r in A]
    det = sum(a[0][i] * (a[1][(i + 1) % 3] * a[2][(i + 2) % 3] - a[1][(i + 2) % 3] * a[2][(i + 1) % 3]) for i in range(3))
    ctx.eq(det, 1.0, "no reflection", 1e-6)
    for k in range(n):
        ctx.eq(list(rec.shots["im%d" % k].pose.get_origin()), Xp[k], "centre at its measured position", 1e-5)


CFG = dict(bundle_use_gcp=True, bundle_use_gps=True, bundle_compensate_gps_bias=False, align_method="naive", align_orientation_prior="horizontal")


def lengths(ctx, pattern):
    D = [ctx.real("d%d" % k, 0.5, 100) if any(E[k] for E in pattern) else 0.0 for k in range(3)]
    if sum(any(E[k] for E in pattern) for k in range(3)) > 1:
        # distinct, so that the axes are unique
        ctx.assume(D[0] > D[1] + 0.1)
        if D[2] != 0.0:
            ctx.assume(D[1] > D[2] + 0.1)
    return D


def naive(ctx, w, shape, missing=1, gcp=0, rig=False, method="naive"):
    """n images, of which the first have exact positions."""
    pattern = {"tetra": TETRA, "rect": RECT, "line": LINE, "two": LINE[::2], "one": LINE[1:2]}[shape]
    A = w.mod("align")
    D = lengths(ctx, pattern)
    q, Q = ctx.rotation("shape")
    p, P = ctx.rotation("world")
    Q, P = [list(r) for r in Q], [list(r) for r in P]
    c, b = vec(ctx, "c"), vec(ctx, "b")
    s = ctx.real("s", 0.1, 100)
    n = len(pattern)
    sq = [sum(e[k] ** 2 for e in (pattern if n != 2 else pattern + pattern[1:])) for k in range(3)]
    if n == 2:
        # the second position is used twice
        sq = [8, 0, 0]
    if n > 1:
        svd(ctx, P, Q, [s * d * d * k / (3 if n == 2 else 1) for d, k in zip(D, sq)])
    if method == "auto":
        # not close to a line
        ctx.assume(D[0] < 50 * D[1])
        axes(ctx, Q, [d * d * k for d, k in zip(D, sq)])
    rec, X = scene(ctx, w, pattern, Q, D, c, missing=missing)
    if rig:
        M = w.mod("pymap")
        rec.add_rig_camera(M.RigCamera(w.mod("pygeometry").Pose(), "front"))
        rec.add_rig_camera(M.RigCamera(pose(ctx, w, "back")[0], "back"))
        rec.add_rig_instance(M.RigInstance("inst"))
        rec.rig_instances["inst"].pose = pose(ctx, w, "inst")[0]
        for r in ("front", "back"):
            rec.create_shot(r, "model", rig_camera_id=r, rig_instance_id="inst")
    Xp = [scaled(P, s, E, D, b) for E in pattern]
    for k in range(n - gcp):
        rec.shots["im%d" % k].metadata.gps_position.value = ctx.array(Xp[k])
    points = []
    if gcp:
        points = ground_control(ctx, w, rec, X[n - gcp:], Xp[n - gcp:])
    lost = {k: value(rec.shots[k].pose) for k in rec.shots if int(k[2:]) >= n} if not rig else {}
    pt = list(rec.points["pt"].coordinates)
    res = A.align_reconstruction(rec, points, dict(CFG, align_method=method))
    ctx.check(res is not None, "aligned")
    if n == 1:
        ctx.eq(res[0], 1.0, "scale of a translation")
        s = 1.0
    points_follow(ctx, rec, res, pt)
    if rig:
        # the calibration of a rig fixes the scale
        ctx.eq(res[0], 1.0, "scale of a rig")
        Xp = [scaled(P, 1, E, D, b) for E in pattern]
    aligned(ctx, rec, res, Xp, n)
    if n > 1 and not rig:
        ctx.eq(res[0], s, "scale", 1e-6)
    for k, (R, t) in lost.items():
        origin = [-x for x in mv(T(R), t)]
        ctx.eq(list(rec.shots[k].pose.get_origin()), forward((res[0], None, [list(r) for r in res[1]], list(res[2])), origin), "images without position move along", 1e-5)


def ground_control(ctx, w, rec, X, Xp):
    """Points measured exactly, seen by every image; the frame of the
    reference and the intersection of rays are stand-ins."""
    M, G = w.mod("pymap"), w.mod("pygeometry")
    out = []
    seen = ["im0", "im1", "im2"]

    class Frame:
        lat = lon = alt = 0.0

        @staticmethod
        def to_topocentric(lat, lon, alt):
            return (lat, lon, alt)

    w.patch(w.mod("types"), "TopocentricConverter", lambda *a: Frame)
    for k, y in enumerate(Xp):
        g = M.GroundControlPoint()
        g.id = "g%d" % k
        g.lla = dict(zip(("latitude", "longitude", "altitude"), y))
        g.has_altitude = True
        g.survey_point_id = k
        for im in seen:
            o = M.GroundControlPointObservation()
            o.shot_id = im
            o.projection = np.array([0.01 * k, 0.02 * k])
            g.add_observation(o)
        out.append(g)
    hidden = M.GroundControlPoint()
    hidden.id = "hidden"
    out.append(hidden)

    def triangulate(point, shots, *a, **kw):
        if point.id == "hidden":
            return None
        ctx.check(set(seen) <= set(shots), "images of the ground control points")
        return ctx.array(X[int(point.id[1:])])

    w.patch(w.mod("multiview"), "triangulate_gcp", triangulate)
    return out


# upright image axes in terms of the stored ones: (right, down) for each EXIF orientation
UP = {1: ((0, 1), (1, 1)), 3: ((0, -1), (1, -1)), 6: ((1, -1), (0, 1)), 8: ((1, 1), (0, -1))}


def stored(o, x, y):
    """Stored rotation rows such that upright right and down are x and y."""
    rows = [None, None, None]
    (i, a), (j, b) = UP[o]
    rows[i] = [a * v for v in x]
    rows[j] = [b * v for v in y]
    r0, r1 = rows[0], rows[1]
    rows[2] = [r0[(k + 1) % 3] * r1[(k + 2) % 3] - r0[(k + 2) % 3] * r1[(k + 1) % 3] for k in range(3)]
    return rows


def prior(ctx, w, shape, kind, orientation, method="orientation_prior", full=False):
    """Level cameras at one height, measured positions up to a heading."""
    pattern = {"rect": RECT, "line": LINE, "two": LINE[::2], "one": LINE[1:2]}[shape]
    A, G = w.mod("align"), w.mod("pygeometry")
    n = len(pattern)
    D = lengths(ctx, pattern)
    turn = lambda a: ctx.sincos_any(a)
    lo, hi = (-3.14159265, 3.14159265) if full else (0.1, 1.4)
    th, ph = ctx.angle("tilt"), ctx.angle("azimuth")
    ps, al = [ctx.angle(x, lo, hi) for x in ("own", "heading")]
    (st, ct), (sp, cp), (ss, cs), (sa, ca) = map(turn, (th, ph, ps, al))
    ctx.assume(st > 0.01)
    up = [st * cp, st * sp, ct]
    # rotation taking up to z about the horizontal axis, then any heading
    ax = [sp, -cp]
    L = [[ct + ax[0] ** 2 * (1 - ct), ax[0] * ax[1] * (1 - ct), ax[1] * st],
         [ax[0] * ax[1] * (1 - ct), ct + ax[1] ** 2 * (1 - ct), -ax[0] * st],
         [-ax[1] * st, ax[0] * st, ct]]
    Z = [[cs, -ss, 0.0], [ss, cs, 0.0], [0.0, 0.0, 1.0]]
    W = [[ca, -sa, 0.0], [sa, ca, 0.0], [0.0, 0.0, 1.0]]
    Q = mm(T(L), Z)
    c, b, s = vec(ctx, "c"), vec(ctx, "b"), ctx.real("s", 0.1, 100)
    if n > 1:
        sq = [sum(e[k] ** 2 for e in pattern) for k in range(2)]
        svd(ctx, [r[:2] for r in W[:2]], [r[:2] for r in Z[:2]], [s * d * d * k for d, k in zip(D, sq)])

    pitch = ctx.angle("pitch")
    sn, cn = turn(pitch)
    ctx.assume(cn > 0.05)

    def camera(k):
        # axes in the level frame (z up), then in the reconstruction
        head = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][k % 4]
        x = [head[0], head[1], 0.0]
        fwd = [-head[1], head[0], 0.0]
        if kind == "vertical":
            y = [-v for v in fwd]
        elif kind == "horizontal":
            y = [0.0, 0.0, -1.0]
        else:
            # any pitch: down is mostly down
            y = [-sn * f for f in fwd[:2]] + [-cn]
        inv = T(L)
        return stored(orientation, mv(inv, x), mv(inv, y))

    rec, X = scene(ctx, w, pattern, Q, D, c, cam_rot=camera, missing=0)
    Xp = [scaled(W, s, E, D, b) for E in pattern]
    for k in range(n):
        m = rec.shots["im%d" % k].metadata
        m.gps_position.value = ctx.array(Xp[k])
        m.orientation.value = orientation

    sign = 1 if ctx.flag("normal") else -1
    col = 1 if sign > 0 else 2

    def eig(m):
        if m.shape != (4, 4):
            return None
        p = [sign * v for v in up] + [0.0]
        if not ctx.same([sum(m[i][k] * p[k] for k in range(4)) for i in range(4)], [0.0] * 4):
            return None
        ev = [1.0, 2.0, 3.0, 4.0]
        ev[col] = 0.0
        V = [[(p[i] if j == col else 0.0) for j in range(4)] for i in range(4)]
        return ev, V

    ctx.provide("eig", eig)
    if method == "auto" and n > 2:
        axes(ctx, Q, [d * d * sum(e[k] ** 2 for e in pattern) for k, d in enumerate(D)])
    pt = list(rec.points["pt"].coordinates)
    res = A.align_reconstruction(rec, [], dict(CFG, align_method=method, align_orientation_prior=kind))
    ctx.check(res is not None, "aligned")
    points_follow(ctx, rec, res, pt)
    if n == 1:
        ctx.eq(res[0], 1.0, "scale of a single image")
    aligned(ctx, rec, res, Xp, n)
    for k in range(n):
        R, _ = value(rec.shots["im%d" % k].pose)
        (i, a), (j, d) = UP[orientation]
        x, y = [a * v for v in R[i]], [d * v for v in R[j]]
        ctx.eq(x[2], 0.0, "horizon", 1e-6)
        if kind == "vertical":
            ctx.eq(y[2], 0.0, "camera looks down", 1e-6)
            ctx.eq(R[2][2], -1.0, "camera looks down", 1e-6)
        elif kind == "horizontal":
            ctx.eq(y[2], -1.0, "camera is upright", 1e-6)
        else:
            ctx.eq(y[2], -cn, "pitch of the camera is kept", 1e-6)


def bias(ctx, w, shape, gps=True):
    """Ground control gives the frame; what is left between the positions
    of the images and theirs is the bias of the camera."""
    pattern = {"tetra": TETRA, "rect": RECT}[shape]
    A, G = w.mod("align"), w.mod("pygeometry")
    D = lengths(ctx, pattern)
    (q, Q), (p, P), (o, O) = ctx.rotation("shape"), ctx.rotation("world"), ctx.rotation("gps")
    Q, P, O = [[list(r) for r in m] for m in (Q, P, O)]
    c, b, d, e = [vec(ctx, "off." + x) for x in "cbde"]
    s, k = ctx.real("s", 0.1, 100), ctx.real("k", 0.1, 10)
    n = len(pattern)
    sq = [sum(e_[i] ** 2 for e_ in pattern) for i in range(3)]
    # points are the images' centres moved by d
    svd(ctx, P, Q, [s * x * x * y for x, y in zip(D, sq)])
    W = mm(O, P)
    svd(ctx, W, P, [k * s * s * x * x * y for x, y in zip(D, sq)], "second")
    rec, X = scene(ctx, w, pattern, Q, D, c, missing=0)
    world = [scaled(P, s, E, D, b) for E in pattern]
    off = mv(P, mv(T(Q), [s * x for x in d]))
    sim = lambda x: [u + k * v for u, v in zip(e, mv(O, x))]
    for i in range(n):
        if gps:
            rec.shots["im%d" % i].metadata.gps_position.value = ctx.array(sim(world[i]))
    points = ground_control(ctx, w, rec, [[u + v for u, v in zip(x, d)] for x in X], [[u + v for u, v in zip(y, off)] for y in world])
    cfg = dict(CFG, bundle_compensate_gps_bias=True)
    pt = list(rec.points["pt"].coordinates)
    res = A.align_reconstruction(rec, points, cfg, bias_override=True)
    ctx.check(res is not None, "aligned")
    points_follow(ctx, rec, res, pt)
    ctx.eq(res[0], s, "scale", 1e-6)
    aligned(ctx, rec, res, world, n)
    got = rec.biases["model"]
    if not gps:
        ctx.eq(list(got.translation), [0.0] * 3, "no bias without positions")
        ctx.eq(got.scale, 1.0, "no bias without positions")
        return
    for i in range(n):
        ctx.eq(list(got.transform(ctx.array(sim(world[i])))), world[i], "bias takes the positions to the images", 1e-5)


HARNESSES = [
    dict(name="naive", fn=naive, params=[dict(shape="tetra"), dict(shape="rect"), dict(shape="one"), dict(shape="two", missing=0), dict(shape="rect", method="auto"), dict(shape="rect", missing=0, gcp=1), dict(shape="tetra", missing=0, rig=True)],
         thorough=[dict(shape="line"), dict(shape="rect", missing=2)]),
    dict(name="prior", fn=prior, params=[dict(shape="rect", kind="horizontal", orientation=8), dict(shape="rect", kind="no_roll", orientation=6), dict(shape="rect", kind="vertical", orientation=3),
                                         dict(shape="line", kind="no_roll", orientation=1, method="auto"), dict(shape="one", kind="horizontal", orientation=3, method="auto")],
         thorough=[dict(shape="line", kind=k, orientation=o) for k in ("no_roll", "horizontal", "vertical") for o in (1, 3, 6, 8)]),
    dict(name="bias", fn=bias, params=[dict(shape="tetra"), dict(shape="tetra", gps=False)], thorough=[dict(shape="rect")], budget=dict(thorough=300)),
]
