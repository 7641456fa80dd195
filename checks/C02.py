"""Native camera models (geometry/camera.h)."""
import math
from engine import taylor
from checks.Q01 import unit
from checks.I02 import vec

NATIVE = {"camera": dict(sources=["geometry/src/camera.cc", "foundation/src/newton_raphson.cc"])}
BOUNDS = ("all ten camera models, all parameter values within the stated ranges, all points and viewing directions in general position (0.05 to 3 rad "
          "off the axis for the fisheye models, in front of the camera for the others), image sizes 1 to 5000, mappings of images up to 3 x 2 pixels")
ASSUMPTIONS = ["doubles and floats are real numbers"]
TOL = 1e-6
PI2 = 2 * math.pi
MODELS = ["perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62", "fisheye624", "spherical", "dual", "radial", "simple_radial"]
DISTORTION = {"perspective": 2, "brown": 5, "fisheye": 2, "fisheye_opencv": 4, "fisheye62": 8, "fisheye624": 12, "spherical": 0, "dual": 2, "radial": 2, "simple_radial": 1}
K = ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3"]
NAMES = {m: K[:n] for m, n in DISTORTION.items()}
NAMES["brown"] = ["k1", "k2", "k3", "p1", "p2"]
# order of Camera::Parameters
ORDER = ["transition", "k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "focal", "aspect_ratio", "cx", "cy", "s0", "s1", "s2", "s3"]
FLAT = ("perspective", "brown", "radial", "simple_radial")
SCALED = ("perspective", "fisheye", "dual")


def camera(ctx, model, prefix="", distorted=True):
    """Constructor arguments and named parameters."""
    p = {}
    if model == "spherical":
        return [6], p
    args = [MODELS.index(model)]
    if model == "dual":
        p["transition"] = ctx.real(prefix + "l", 0.1, 0.9)
    p["focal"] = ctx.real(prefix + "f", 0.1, 5)
    if model not in SCALED:
        p["aspect_ratio"] = ctx.real(prefix + "ar", 0.5, 2)
        p["cx"], p["cy"] = ctx.real(prefix + "cx", -1, 1), ctx.real(prefix + "cy", -1, 1)
    for n in NAMES[model]:
        p[n] = ctx.real(prefix + n, -1, 1) if distorted else 0.0
    if model == "dual":
        return args + [p["transition"], p["focal"], p["k1"], p["k2"]], p
    return args + [p["focal"]] + ([p["aspect_ratio"], p["cx"], p["cy"]] if model not in SCALED else []) + [p[n] for n in NAMES[model]], p


def direction(ctx, model, prefix=""):
    """A point in front of the camera and its undistorted image: point, (x, y)."""
    if model == "spherical":
        lon = ctx.angle(prefix + "lon", -0.49, 0.49, unit=PI2)
        lat = ctx.angle(prefix + "lat", -0.24, 0.24, unit=PI2)
        d = ctx.real(prefix + "d", 0.1, 10)
        (sa, ca), (so, co) = ctx.sincos_any(lat * PI2), ctx.sincos_any(lon * PI2)
        return [d * ca * so, -d * sa, d * ca * co], [lon, -lat]
    if "fisheye" in model or model == "dual":
        theta = ctx.angle(prefix + "theta", 0.05, 1.4 if model == "dual" else 3)
        h = unit(ctx, prefix + "h", 2)
        d = ctx.real(prefix + "d", 0.1, 10)
        s, c = ctx.sincos_any(theta)
        x = [theta * h[0], theta * h[1]]
        if model == "dual":
            return [d * s * h[0], d * s * h[1], d * c], x, [s / c * h[0], s / c * h[1]]
        return [d * s * h[0], d * s * h[1], d * c], x
    z = ctx.real(prefix + "z", 0.1, 10)
    x, y = ctx.real(prefix + "x", -2, 2), ctx.real(prefix + "y", -2, 2)
    return [x * z, y * z, z], [x, y]


def distort(model, p, x, y):
    r2 = x * x + y * y
    k = [p.get(n, 0.0) for n in K[:6]]
    radial = 1.0
    for i, v in enumerate(k):
        radial = radial + v * r2 ** (i + 1)
    p1, p2 = p.get("p1", 0.0), p.get("p2", 0.0)
    s = [p.get(n, 0.0) for n in K[8:]]
    dx = 2 * p1 * x * y + p2 * (r2 + 2 * x * x) + s[0] * r2 + s[1] * r2 * r2
    dy = 2 * p2 * x * y + p1 * (r2 + 2 * y * y) + s[2] * r2 + s[3] * r2 * r2
    return x * radial + dx, y * radial + dy


def image(model, p, q):
    """Documented image of a point whose undistorted image is known."""
    if model == "spherical":
        return q[1]
    if model == "dual":
        l = p["transition"]
        x, y = [l * a + (1 - l) * b for a, b in zip(q[2], q[1])]
    else:
        x, y = q[1]
    x, y = distort(model, p, x, y)
    f = p["focal"]
    return [f * x + p.get("cx", 0.0), f * p.get("aspect_ratio", 1.0) * y + p.get("cy", 0.0)]


def project(ctx, w, model, n):
    args, p = camera(ctx, model)
    q = [direction(ctx, model, "q%d" % i) for i in range(n)]
    out = w.native("camera").call("project", args + [n, [x[0] for x in q]])
    want = [v for x in q for v in image(model, p, x)]
    ctx.eq(out[:2 * n], want, "projection of a point", TOL)
    ctx.eq(out[2 * n:], want, "projection of points", TOL)


def axis(ctx, w, model):
    """Points on the optical axis."""
    args, p = camera(ctx, model)
    z = ctx.real("z", 0.1, 10)
    out = w.native("camera").call("project", args + [1, 0.0, 0.0, z])
    want = [p.get("cx", 0.0), p.get("cy", 0.0)]
    ctx.eq(out, want + want, "projection of the optical axis", TOL)
    b = w.native("camera").call("bearing", args + [1] + want)
    ctx.eq(b, [0.0, 0.0, 1.0] * 2, "bearing of the principal point", TOL)


def unproject(ctx, w, model):
    """Bearings of an undistorted camera invert its projection."""
    args, p = camera(ctx, model, distorted=False)
    q = direction(ctx, model)
    d = q[0][2] * ctx.sqrt(q[1][0] * q[1][0] + q[1][1] * q[1][1] + 1.0) if model in FLAT else ctx.sqrt(sum(x * x for x in q[0]))
    out = w.native("camera").call("bearing", args + [1] + image(model, p, q))
    want = [x / d for x in q[0]]
    ctx.eq(out, want + want, "bearing of the image of a point", TOL)


def pixels(ctx, w, n, order):
    W, H = ctx.int("w", 1, 5000), ctx.int("h", 1, 5000)
    ctx.assume(W >= H if order else W < H)
    size = W if order else H
    pts = [[ctx.real("x%d" % i, -100, 100), ctx.real("y%d" % i, -100, 100)] for i in range(n)]
    out = w.native("camera").call("pixels", [W, H, n, pts])
    k = 0
    a = [[(x - (W - 1) * 0.5) / size, (y - (H - 1) * 0.5) / size] for x, y in pts]
    b = [[x * size + (W - 1) * 0.5, y * size + (H - 1) * 0.5] for x, y in pts]
    for i in range(n):
        ctx.eq(out[k:k + 4], a[i] + a[i], "normalized coordinates of a pixel", TOL)
        ctx.eq(out[k + 4:k + 8], b[i] + b[i], "pixel of normalized coordinates", TOL)
        k += 8
    for want, l in ((a, "normalized coordinates of pixels"), (b, "pixels of normalized coordinates")):
        for _ in range(2):
            ctx.eq(out[k:k + 2 * n], [v for r in want for v in r], l, TOL)
            k += 2 * n


def parameters(ctx, w, model):
    args, p = camera(ctx, model)
    out = w.native("camera").call("parameters", args)
    ctx.eq(out[:2], [float(MODELS.index(model)), 1.0], "projection type")
    n = int(out[2])
    ctx.check("".join(chr(int(x)) for x in out[3:3 + n]) == model, "name of the model")
    k = 3 + n
    for i, name in enumerate(ORDER):
        had, got, mapped = out[k + 3 * i:k + 3 * i + 3]
        ctx.eq(had, float(name in p), "the model has a parameter")
        ctx.eq([got, mapped], [p.get(name, -1e9)] * 2, "value of a parameter")
    k += 3 * len(ORDER)
    rest = {int(out[k + 1 + 2 * i]): out[k + 2 + 2 * i] for i in range(int(out[k]))}
    if model == "spherical":
        rest.pop(len(ORDER), None)
    ctx.check(set(rest) == {ORDER.index(x) for x in p}, "parameter types")
    for i, v in rest.items():
        ctx.eq(v, p[ORDER[i]], "value of a parameter by its type")


def change(ctx, w, model, which):
    args, p = camera(ctx, model)
    v = ctx.real("new", -10, 10)
    N = w.native("camera")
    before = N.call("change_parameter", args + [ORDER.index([x for x in ORDER if x not in p][0]), v])
    ctx.eq(before[0], 1.0, "a parameter the model does not have cannot be set")
    if which not in p:
        return
    out = N.call("change_parameter", args + [ORDER.index(which), v])
    types = N.call("parameters", args)
    k = 3 + len(model) + 3 * len(ORDER)
    types = [ORDER[int(types[k + 1 + 2 * i])] for i in range(int(types[k]))]
    ctx.eq(out[0], 0.0, "setting a parameter")
    ctx.eq(before[1:], [p[t] for t in types], "parameters after a refused change")
    ctx.eq(out[1:], [v if t == which else p[t] for t in types], "parameters after a change")


def all_at_once(ctx, w, model):
    a, p = camera(ctx, model, "a")
    b, q = camera(ctx, model, "b")
    x = direction(ctx, model)
    N = w.native("camera")
    ctx.eq(N.call("set_parameters", [a, b, x[0]]), image(model, q, x), "projection after setting all parameters", TOL)
    out = N.call("same_camera", [a, x[0]])
    ctx.eq(out[:2], out[2:], "projection of a camera built from types and values", TOL)


def matrices(ctx, w, model, order):
    args, p = camera(ctx, model)
    W, H = ctx.int("w", 1, 5000), ctx.int("h", 1, 5000)
    ctx.assume(W >= H if order else W < H)
    s = W if order else H
    f, ar, cx, cy = [p.get(n, d) for n, d in (("focal", 1.0), ("aspect_ratio", 1.0), ("cx", 0.0), ("cy", 0.0))]
    out = w.native("camera").call("matrices", args + [W, H])
    ctx.eq(out[:9], [f, 0.0, cx, 0.0, f * ar, cy, 0.0, 0.0, 1.0], "calibration matrix", TOL)
    ctx.eq(out[9:], [f * s, 0.0, cx * s + W * 0.5, 0.0, f * ar * s, cy * s + H * 0.5, 0.0, 0.0, 1.0], "calibration matrix in pixels", TOL)


def mapping(ctx, w, source, W, H):
    a, p = camera(ctx, source, "a", distorted=False)
    b = [0, ctx.real("f", 0.5, 2), 0.0, 0.0]
    out = w.native("camera").call("mapping", [a, b, W, H])
    ctx.eq(out[:4], [float(H), float(W)] * 2, "size of the maps")
    u, v = out[4:4 + W * H], out[4 + W * H:4 + 2 * W * H]
    q = out[4 + 2 * W * H:]
    s = max(W, H)
    for i in range(W * H):
        ctx.eq([u[i], v[i]], [q[2 * i] * s + W * 0.5, q[2 * i + 1] * s + H * 0.5], "source of a mapped pixel", 1e-4)


def sizes(ctx, w):
    for n in range(14):
        out = w.native("camera").call("wrong_distortion", [n, [0.0] * n])
        want = sum(b for b, k in ((1, 5), (2, 4), (4, 8), (8, 12)) if k != n)
        ctx.eq(out[0], float(want), "a wrong number of distortion coefficients is refused")


LENSES = {
    "perspective": [[-0.1, 0.03], [-0.3, 0.08], [0.2, 0.05]],
    "simple_radial": [[-0.05], [-0.25], [0.3]],
    "radial": [[-0.2, 0.05]],
    "brown": [[-0.1, 0.03, 0.001, 0.002, 0.001], [-0.2, 0.05, 0.001, 0.01, 0.02]],
    "fisheye": [[-0.1, 0.03], [0.1, -0.02]],
    "fisheye_opencv": [[-0.1, 0.03, 0.001, 0.001]],
    "fisheye62": [[-0.1, 0.03, 0.001, 0.001, 0.001, 0.0, 0.005, 0.003]],
    "fisheye624": [[-0.1, 0.03, 0.001, 0.001, 0.001, 0.0, 0.005, 0.003, 0.05, 0.01, -0.05, 0.01]],
    "dual": [[0.5, 0.0, 0.0], [0.7, -0.05, 0.01]],
}


def lens(model, k):
    """A camera with given distortion."""
    if model == "dual":
        return [7, k[0], 0.8, k[1], k[2]]
    return [MODELS.index(model), 0.8] + ([] if model in SCALED else [1.1, 0.02, -0.03]) + k


def round_trip(ctx, w, model, k, radius, width, along):
    """Distorted cameras: the bearing of the image of every point of a piece of
    the image plane is the direction of the point."""
    flat = model in FLAT
    n = 2 if model in ("brown", "fisheye62", "fisheye624") else 1
    r = taylor.make(ctx, "r", radius - width, radius + width, 0, n)
    if n == 2:
        v = taylor.make(ctx, "v", along - width, along + width, 1, n)
        h = [v, ctx.sqrt(1.0 - v * v)]
    else:
        h = [along, math.sqrt(1 - along * along)]
    s, c = (r, 1.0) if flat else ctx.sincos_any(r)
    out = w.native("camera").call("project_bearing", lens(model, k) + [s * h[0], s * h[1], c])
    d = ctx.sqrt(r * r + 1.0) if flat else 1.0
    want = [s * h[0] / d, s * h[1] / d, c / d]
    ctx.eq([a - b for a, b in zip(out[2:], want)], [0.0] * 3, "bearing of the image of a point, distorted", 1e-5)


M = [dict(model=m) for m in MODELS]
HARNESSES = [
    dict(name="project", fn=project, params=[dict(model=m, n=1) for m in MODELS], thorough=[dict(model=m, n=3) for m in MODELS]),
    dict(name="axis", fn=axis, params=[dict(model=m) for m in MODELS]),
    dict(name="unproject", fn=unproject, params=[dict(model=m) for m in MODELS if m != "dual"]),
    dict(name="pixels", fn=pixels, params=[dict(n=n, order=o) for n in (1, 2) for o in (True, False)]),
    dict(name="parameters", fn=parameters, params=M),
    dict(name="change", fn=change, params=[dict(model=m, which=k) for m in MODELS for k in ("focal", "transition", "k2", "p1", "s3", "cy")][::1]),
    dict(name="all at once", fn=all_at_once, params=M),
    dict(name="matrices", fn=matrices, params=[dict(model=m, order=o) for m in MODELS for o in (True, False)]),
    dict(name="mapping", fn=mapping, params=[dict(source=m, W=a, H=b) for m in ("perspective", "brown", "fisheye") for a, b in ((2, 1), (1, 2))],
         thorough=[dict(source=m, W=3, H=2) for m in ("perspective", "brown", "fisheye")]),
    dict(name="roundtrip", fn=round_trip, params=[dict(model=m, k=k, radius=r, width=0.01, along=a) for m in MODELS if m in LENSES for k in LENSES[m][:2]
                                                   for r, a in ((0.3, 0.6), (0.8, -0.28))],
         thorough=[dict(model=m, k=k, radius=r, width=0.02, along=a) for m in MODELS if m in LENSES for k in LENSES[m] for a in (0.6, -0.28)
                   for r in (0.1, 0.14, 0.18, 0.22, 0.26, 0.3, 0.34, 0.38, 0.42, 0.46, 0.5, 0.54, 0.58, 0.62, 0.66, 0.7, 0.74, 0.78, 0.82, 0.86, 0.9, 0.94)]),
    dict(name="sizes", fn=sizes, params=[{}]),
]
