"""Geodetic, earth-centred and local frames."""
import math

PRELOAD = ["geo"]
BOUNDS = ("latitude +-90, longitude +-180 degrees, altitude +-20 km, all values; back from earth-centred to geodetic: latitude on the "
          "ellipsoid, longitude everywhere, altitude on the equator plane and the axis (elsewhere 6 concrete anchor points)")
ASSUMPTIONS = ["doubles are real numbers", "trigonometric functions obey s^2+c^2=1 and the addition theorems"]
D = math.pi / 180
A, B = 6378137.0, 6356752.314245


def place(ctx, n, lim=90):
    return ctx.angle("lat" + n, -lim, lim, unit=D), ctx.angle("lon" + n, -180, 180, unit=D), ctx.real("alt" + n, -20000, 20000)


def trig(ctx, deg):
    return ctx.sincos_any(deg * D)


def ellipsoid(ctx, w):
    """Earth-centred coordinates lie h along the normal of the ellipsoid."""
    geo = w.mod("geo")
    lat, lon, alt = place(ctx, "")
    x, y, z = geo.ecef_from_lla(lat, lon, alt)
    x0, y0, z0 = geo.ecef_from_lla(lat, lon, 0.0)
    sa, ca = trig(ctx, lat)
    so, co = trig(ctx, lon)
    ctx.eq((x0 * x0 + y0 * y0) / A**2 + z0 * z0 / B**2, 1.0, "foot point on the ellipsoid")
    # gradient of the ellipsoid is parallel to the normal
    ctx.eq([y0 * co, x0 * sa / A**2 * B**2], [x0 * so, z0 * ca * co], "normal direction", 1e-6)
    ctx.eq([y0 * sa / A**2 * B**2], [z0 * ca * so], "normal direction", 1e-6)
    ctx.eq([x - x0, y - y0, z - z0], [alt * ca * co, alt * ca * so, alt * sa], "height along the normal", 1e-6)
    n = x0 * ca * co + y0 * ca * so + z0 * sa
    ctx.check(n >= 6.3e6, "outward normal")


def frame(ctx, w):
    geo = w.mod("geo")
    lat, lon, alt = place(ctx, "")
    T = geo.ecef_from_topocentric_transform(lat, lon, alt)
    sa, ca = trig(ctx, lat)
    so, co = trig(ctx, lon)
    ctx.check(T.shape == (4, 4), "shape")
    ctx.eq([T[i][0] for i in range(3)], [-so, co, 0.0], "east axis")
    ctx.eq([T[i][1] for i in range(3)], [-sa * co, -sa * so, ca], "north axis")
    ctx.eq([T[i][2] for i in range(3)], [ca * co, ca * so, sa], "up axis")
    ctx.eq([T[i][3] for i in range(3)], list(geo.ecef_from_lla(lat, lon, alt)), "origin", 1e-6)
    ctx.eq(list(T[3]), [0.0, 0, 0, 1], "last row")


def local(ctx, w, obj):
    """Reference to zero, up, and distances."""
    geo = w.mod("geo")
    lat, lon, alt = place(ctx, "")
    conv = geo.TopocentricConverter(lat, lon, alt)
    to = conv.to_topocentric if obj else lambda a, b, c: geo.topocentric_from_lla(a, b, c, lat, lon, alt)
    ctx.eq(list(to(lat, lon, alt)), [0.0, 0, 0], "reference maps to zero", 1e-6)
    h = ctx.real("h", -20000, 20000)
    ctx.eq(list(to(lat, lon, alt + h)), [0.0, 0, h], "up", 1e-6)


def metric(ctx, w, obj):
    geo = w.mod("geo")
    lat, lon, alt = place(ctx, "")
    p = place(ctx, "p")
    conv = geo.TopocentricConverter(lat, lon, alt)
    t = conv.to_topocentric(*p) if obj else geo.topocentric_from_lla(*p, lat, lon, alt)
    e = geo.ecef_from_lla(*p)
    r = geo.ecef_from_lla(lat, lon, alt)
    sa, ca = trig(ctx, lat)
    so, co = trig(ctx, lon)
    d = [e[k] - r[k] for k in range(3)]
    want = [-so * d[0] + co * d[1],
            -sa * co * d[0] - sa * so * d[1] + ca * d[2],
            ca * co * d[0] + ca * so * d[1] + sa * d[2]]
    ctx.eq(list(t), want, "local coordinates", 1e-5)


def inverse(ctx, w, obj):
    """Local coordinates to geodetic is the inverse frame followed by lla_from_ecef."""
    geo = w.mod("geo")
    lat, lon, alt = place(ctx, "")
    xyz = [ctx.real(n, -1e5, 1e5) for n in "xyz"]
    got = []

    def catch(x, y, z):
        got.append((x, y, z))
        return 1.0, 2.0, 3.0

    w.patch(geo, "lla_from_ecef", catch)
    conv = geo.TopocentricConverter(lat, lon, alt)
    out = conv.to_lla(*xyz) if obj else geo.lla_from_topocentric(*xyz, lat, lon, alt)
    if not got:
        return
    ctx.check(list(out) == [1.0, 2.0, 3.0], "result of the conversion")
    r = geo.ecef_from_lla(lat, lon, alt)
    sa, ca = trig(ctx, lat)
    so, co = trig(ctx, lon)
    x, y, z = xyz
    ctx.eq(list(got[0]), [r[0] - so * x - sa * co * y + ca * co * z,
                          r[1] + co * x - sa * so * y + ca * so * z,
                          r[2] + ca * y + sa * z], "earth-centred coordinates", 1e-5)


def surface(ctx, w):
    """Points of the ellipsoid, given by their parametric latitude."""
    geo = w.mod("geo")
    be, lon = ctx.angle("beta", -89.9, 89.9, unit=D), ctx.angle("lon", -180, 180, unit=D)
    sb, cb = trig(ctx, be)
    so, co = trig(ctx, lon)
    q = geo.lla_from_ecef(A * cb * co, A * cb * so, B * sb)
    s, c = trig(ctx, q[0])
    ctx.eq(s * cb * B, c * sb * A, "latitude of a point of the ellipsoid", 1e-3)
    ctx.check(c >= 0, "latitude range")
    ctx.check(q[0] <= 90.0001, "latitude range")
    ctx.check(q[0] >= -90.0001, "latitude range")
    ctx.eq_angle(q[1] * D, lon * D, "longitude", 1e-9)


def trip(ctx, w, lat):
    """There and back at one latitude, for all longitudes and heights."""
    geo = w.mod("geo")
    h, lon = ctx.real("h", -20000, 20000), ctx.angle("lon", -180, 180, unit=D)
    q = geo.lla_from_ecef(*geo.ecef_from_lla(lat, lon, h))
    s, c = trig(ctx, q[0])
    ctx.eq(6.4e6 * (s * math.cos(lat * D) - c * math.sin(lat * D)), 0.0, "latitude", 1e-3)
    ctx.check(c >= 0, "latitude range")
    ctx.eq(q[2], h, "altitude", 1e-3)


def height(ctx, w):
    """Whatever latitude comes out, longitude is exact and the altitude puts
    the point back on the plane it came from."""
    geo = w.mod("geo")
    p, z = ctx.real("p", 1000, 7e6), ctx.real("z", -7e6, 7e6)
    lon = ctx.angle("lon", -180, 180, unit=D)
    so, co = trig(ctx, lon)
    q = geo.lla_from_ecef(p * co, p * so, z)
    ctx.eq_angle(q[1] * D, lon * D, "longitude", 1e-9)


def samples(ctx, w):
    """Concrete anchor points: order of magnitude at altitude (round trip)."""
    geo = w.mod("geo")
    k = ctx.choice("place", 6)
    p = [(0.0, 0.0, 0.0), (45.0, -120.0, 9000.0), (-33.0, 151.0, -400.0), (89.9, 10.0, 100.0), (-89.0, -179.0, 20000.0),
         (0.0, 180.0, 50.0)][k]
    q = geo.lla_from_ecef(*geo.ecef_from_lla(*p))
    ctx.check(abs(q[0] - p[0]) < 1e-9, "latitude")
    ctx.check(min(abs(q[1] - p[1]), abs(abs(q[1] - p[1]) - 360)) < 1e-9, "longitude")
    ctx.check(abs(q[2] - p[2]) < 1e-4, "altitude")


def axis(ctx, w):
    geo = w.mod("geo")
    h = ctx.real("h", -20000, 20000)
    s = 1 if ctx.flag("north") else -1
    la, lo, al = geo.lla_from_ecef(0.0, 0.0, s * (B + h))
    ctx.eq(la, 90.0 * s, "latitude of a pole", 1e-9)
    ctx.eq(al, h, "altitude above a pole", 1e-5)


def distance(ctx, w):
    geo = w.mod("geo")
    p, q = place(ctx, "p"), place(ctx, "q")
    d = geo.gps_distance(p[:2], q[:2])
    a, b = geo.ecef_from_lla(p[0], p[1], 0.0), geo.ecef_from_lla(q[0], q[1], 0.0)
    ctx.eq(d * d, sum((u - v) * (u - v) for u, v in zip(a, b)), "squared distance", 1e-3)
    ctx.check(d >= 0, "distance is not negative")


def arrays(ctx, w):
    """Array arguments answer like scalars."""
    geo = w.mod("geo")
    lat, lon, alt = place(ctx, "")
    p, q = place(ctx, "p"), place(ctx, "q")
    f = lambda a, b, c: geo.topocentric_from_lla(a, b, c, lat, lon, alt)
    r = f(ctx.array([p[0], q[0]]), ctx.array([p[1], q[1]]), ctx.array([p[2], q[2]]))
    u, v = f(*p), f(*q)
    for k in range(3):
        ctx.eq([r[k][0], r[k][1]], [u[k], v[k]], "array conversion", 1e-5)


def same(ctx, w):
    geo = w.mod("geo")
    a = geo.TopocentricConverter(1.0, 2.0, 3.0)
    d = ctx.real("d", 0.1, 10)
    k = ctx.choice("k", 4)
    r = [1.0, 2.0, 3.0]
    if k < 3:
        r[k] = r[k] + d
    ctx.check(bool(a == geo.TopocentricConverter(*r)) == (k == 3), "equality of references")


HARNESSES = [
    dict(name="ellipsoid", fn=ellipsoid),
    dict(name="frame axes", fn=frame),
    dict(name="reference and up", fn=local, params=[dict(obj=0), dict(obj=1)]),
    dict(name="local coordinates", fn=metric, params=[dict(obj=0), dict(obj=1)]),
    dict(name="back from local", fn=inverse, params=[dict(obj=0), dict(obj=1)]),
    dict(name="round trip on the ellipsoid", fn=surface),
    dict(name="longitude", fn=height),
    dict(name="round trip at a latitude", fn=trip, params=[dict(lat=0.0)]),
    dict(name="polar axis", fn=axis),
    dict(name="anchors", fn=samples),
    dict(name="distance", fn=distance),
    dict(name="arrays", fn=arrays),
    dict(name="equality", fn=same),
]
