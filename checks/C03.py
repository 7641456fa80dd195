"""Analytic derivatives of the camera models (geometry/camera_*_functions.h)."""
from checks.C02 import MODELS, K, PI2, camera, direction, distort
from checks.Q01 import unit
from checks.I02 import vec

NATIVE = {"camera": dict(sources=["geometry/src/camera.cc", "foundation/src/newton_raphson.cc"])}
BOUNDS = ("all ten camera models, all parameter values within the stated ranges, all points in general position and all poses (rotation angle 0.05 to 3.1); "
          "in compositions of two poses one of them turns about a coordinate axis")
ASSUMPTIONS = ["doubles are real numbers", "the image of a spherical camera is not composed with poses (bundle adjustment compares its directions)"]
TOL = 1e-6
# order of the camera parameters within the library
LIBRARY = {m: K[:n] for m, n in dict(perspective=2, fisheye=2, fisheye_opencv=4, fisheye62=8, fisheye624=12, spherical=0, radial=2, simple_radial=1).items()}
LIBRARY["brown"] = ["k1", "k2", "k3", "p1", "p2"]
LIBRARY["dual"] = ["transition", "k1", "k2"]


class D:
    """A value and its partial derivatives."""

    def __init__(self, v, d=None):
        self.v, self.d = v, d or {}

    def __add__(self, o):
        if not isinstance(o, D):
            return D(self.v + o, self.d)
        d = dict(self.d)
        for k, x in o.d.items():
            d[k] = d[k] + x if k in d else x
        return D(self.v + o.v, d)

    __radd__ = __add__

    def scaled(self, k):
        return {n: x * k for n, x in self.d.items()}

    def __neg__(self):
        return D(-self.v, self.scaled(-1.0))

    def __sub__(self, o):
        return self + -o

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        if not isinstance(o, D):
            return D(self.v * o, self.scaled(o))
        return D(self.v * o.v, self.scaled(o.v)) + D(0.0, o.scaled(self.v))

    __rmul__ = __mul__

    def inv(self):
        i = 1 / self.v
        return D(i, self.scaled(-i * i))

    def __truediv__(self, o):
        return self * o.inv() if isinstance(o, D) else self * (1 / o)

    def __pow__(self, n):
        r = D(1.0)
        for _ in range(n):
            r = r * self
        return r


def root(ctx, x, v=None):
    v = ctx.sqrt(x.v) if v is None else v
    return D(v, x.scaled(1 / (2 * v)))


def atan2(y, x, angle):
    n = x.v * x.v + y.v * y.v
    return D(angle) + D(0.0, y.scaled(x.v / n)) - D(0.0, x.scaled(y.v / n))


def var(name, v):
    return D(v, {name: 1.0})


def project(ctx, model, p, X, known):
    """Documented image of the point X; known: values of the radius and angles."""
    x, y, z = X
    if model == "spherical":
        lon = atan2(x, z, known["lon"])
        h = root(ctx, x * x + z * z, known["h"])
        lat = atan2(-y, h, known["lat"])
        return [lon * (1 / PI2), -lat * (1 / PI2)]
    if model != "dual" and "fisheye" not in model:
        u, v = x / z, y / z
    else:
        r = root(ctx, x * x + y * y, known["r"])
        t = atan2(r, z, known["theta"]) / r
        u, v = x * t, y * t
        if model == "dual":
            l = p["transition"]
            u, v = l * (x / z) + (1 - l) * u, l * (y / z) + (1 - l) * v
    u, v = distort(model, p, u, v)
    f = p["focal"]
    return [f * u + p.get("cx", 0.0), f * p.get("aspect_ratio", 1.0) * v + p.get("cy", 0.0)]


def names(model):
    if model == "spherical":
        return []
    scaled = model in ("perspective", "fisheye", "dual")
    return LIBRARY[model] + ["focal"] + ([] if scaled else ["aspect_ratio", "cx", "cy"])


def setting(ctx, model, distorted=True):
    """A camera and a point in its frame with what is known about it."""
    args, p = camera(ctx, model, distorted=distorted)
    known = {}
    if model == "spherical":
        lon = ctx.angle("lon", -3, 3)
        lat = ctx.angle("lat", -1.5, 1.5)
        d = ctx.real("d", 0.1, 10)
        (sa, ca), (so, co) = ctx.sincos_any(lat), ctx.sincos_any(lon)
        x = [d * ca * so, -d * sa, d * ca * co]
        known = dict(lon=lon, lat=lat, h=d * ca, norm=d)
    elif "fisheye" in model or model == "dual":
        theta = ctx.angle("theta", 0.05, 1.4 if model == "dual" else 3)
        h = unit(ctx, "h", 2)
        d = ctx.real("d", 0.1, 10)
        s, c = ctx.sincos_any(theta)
        x = [d * s * h[0], d * s * h[1], d * c]
        known = dict(r=d * s, theta=theta, norm=d)
    else:
        z = ctx.real("z", 0.1, 10)
        x = [ctx.real("x", -2, 2) * z, ctx.real("y", -2, 2) * z, z]
    return args, p, x, known


def compare(ctx, out, got, order, label):
    """out: values, then one row of partial derivatives for each of them."""
    n = len(got)
    ctx.eq(out[:n], [g.v for g in got], label + ": value", TOL)
    k = n
    for i, g in enumerate(got):
        for o in order:
            ctx.eq(out[k], g.d.get(o, 0.0), "%s: derivative of coordinate %d by %s" % (label, i, o), TOL)
            k += 1


def camera_only(ctx, w, model):
    args, p, x, known = setting(ctx, model)
    q = {n: var(n, v) for n, v in p.items()}
    X = [var("XYZ"[i], x[i]) for i in range(3)]
    out = w.native("camera").call("jac_camera", args + x)
    compare(ctx, out, project(ctx, model, q, X, known), ["X", "Y", "Z"] + names(model), model)


def rotation(ctx, r, a, n, s, c):
    """Derivatives of the rotation by minus the vector r = a n."""
    theta2 = r[0] * r[0] + r[1] * r[1] + r[2] * r[2]
    t = root(ctx, theta2, a)
    S, Cc = D(s, t.scaled(c)), D(c, t.scaled(-s))
    k = [-(x / t) for x in r]
    R = [[(1 - Cc) * k[i] * k[j] for j in range(3)] for i in range(3)]
    for i in range(3):
        j, l = (i + 1) % 3, (i + 2) % 3
        R[i][i] = R[i][i] + Cc
        R[j][l] = R[j][l] - S * k[i]
        R[l][j] = R[l][j] + S * k[i]
    return R


def posed(ctx, name, axis=None):
    """A pose as its parameters and its rotation matrix with derivatives."""
    a = ctx.angle(name + "a", 0.05, 3.1)
    n = unit(ctx, name + "n") if axis is None else [float(i == axis) for i in range(3)]
    s, c = ctx.sincos_any(a)
    v = [a * x for x in n]
    t = vec(ctx, name + "t")
    r = [var(name + "r%d" % i, v[i]) for i in range(3)]
    T = [var(name + "t%d" % i, t[i]) for i in range(3)]
    R = rotation(ctx, r, a, n, s, c)
    return v + t, R, T


def move(R, T, X):
    d = [x - t for x, t in zip(X, T)]
    return [R[i][0] * d[0] + R[i][1] * d[1] + R[i][2] * d[2] for i in range(3)]


def back(R, T, x):
    """The point that the pose takes to x (values)."""
    return [sum(R[j][i].v * x[j] for j in range(3)) + T[i].v for i in range(3)]


def order(poses):
    return ["X", "Y", "Z"] + [p + k + str(i) for p in poses for k in "rt" for i in range(3)]


def same_values(x, v):
    return [D(b, a.d) for a, b in zip(x, v)]


def composed(ctx, w, model, what, axes):
    args, p, x, known = setting(ctx, model, distorted=what == "pose")
    q = {n: var(n, v) for n, v in p.items()}
    rig = what.startswith("rig")
    seq = ["A", "B"] if rig else ["A"]
    P = [posed(ctx, n, a) for n, a in zip(seq, axes)]
    point = x
    for _, R, T in reversed(P):
        mid = point
        point = back(R, T, point)
    X = [var("XYZ"[i], point[i]) for i in range(3)]
    for i, (_, R, T) in enumerate(P):
        X = same_values(move(R, T, X), x if i == len(P) - 1 else mid)
    N = w.native("camera")
    ins = args + [point] + [k[0] for k in P]
    if "normalized" in what:
        n2 = X[0] * X[0] + X[1] * X[1] + X[2] * X[2]
        n = root(ctx, n2, known["norm"] if "norm" in known else None)
        out = N.call("jac_rig_normalized" if rig else "jac_normalized", ins)
        compare(ctx, out, [v / n for v in X], order(seq), what)
        return
    got = project(ctx, model, q, X, known)
    if what == "point":
        compare(ctx, N.call("jac_pose_point", ins), got, ["X", "Y", "Z"], what)
        return
    compare(ctx, N.call("jac_rig" if rig else "jac_pose", ins), got, order(seq) + names(model), what)


HARNESSES = [
    dict(name="camera", fn=camera_only, params=[dict(model=m) for m in MODELS]),
    dict(name="pose", fn=composed, params=[dict(model=m, what="pose", axes=[k]) for k, m in zip([0, 1, 2] * 4, [m for m in MODELS if m != "spherical"])]
         + [dict(model=m, what="point", axes=[1]) for m in ("perspective", "dual")]
         + [dict(model=m, what="point", axes=[None]) for m in ("perspective", "simple_radial")]),
    dict(name="turned", fn=composed, params=[dict(model="perspective", what="normalized", axes=[None]), dict(model="perspective", what="pose", axes=[None])]),
    dict(name="rig", fn=composed, params=[dict(model="perspective", what="rig", axes=[0, 1]), dict(model="radial", what="rig", axes=[2, 0]), dict(model="dual", what="rig", axes=[2, 1]),
                                          dict(model="perspective", what="rig", axes=[None, 1]), dict(model="perspective", what="rig", axes=[1, None]),
                                          dict(model="perspective", what="rig normalized", axes=[1, 2])]),
]
