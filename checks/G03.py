"""Interpolation of GPS tracks and the tags made from positions."""
import datetime
import math

PRELOAD = ["geotag_from_gpx"]
BOUNDS = "logs of 2..3 fixes (thorough 4), arbitrary times within a day, positions over the globe, elevations +-10 km or unknown"
ASSUMPTIONS = ["times are exact (the encoding does not round to microseconds)"]


class Span:
    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return self.s

    @property
    def seconds(self):
        return self.s


class Time:
    """A symbolic instant."""

    def __init__(self, s):
        self.s = s

    def __lt__(self, o):
        return self.s < o.s

    def __le__(self, o):
        return self.s <= o.s

    def __gt__(self, o):
        return self.s > o.s

    def __ge__(self, o):
        return self.s >= o.s

    def __eq__(self, o):
        return self.s == o.s

    def __hash__(self):
        return 1

    def timestamp(self):
        return self.s

    def __sub__(self, o):
        if isinstance(o, Time):
            return Span(self.s - o.s)
        return Time(self.s - o.total_seconds())

    def __add__(self, o):
        return Time(self.s + o.total_seconds())


E0 = datetime.datetime(2020, 2, 28, 20, 0, 0)


class FakeDatetime:
    datetime = datetime.datetime

    @staticmethod
    def timedelta(days=0, seconds=0):
        return Span(seconds + 86400 * days)


def when(ctx, s):
    return E0 + datetime.timedelta(seconds=s) if ctx.concrete else Time(s)


def secs(t):
    return t.s if isinstance(t, Time) else (t - E0).total_seconds()


def log(ctx, w, n, none=0):
    m = w.mod("geotag_from_gpx")
    if not ctx.concrete:
        w.patch(m, "datetime", FakeDatetime)
    T, pts = [], []
    for k in range(n):
        T.append(ctx.real("t%d" % k, 0, 86400))
        if k:
            ctx.assume(T[k] >= T[k - 1] + 1e-3)
        ele = None if none & (1 << k) else ctx.real("ele%d" % k, -10000, 10000)
        pts.append((when(ctx, T[k]), ctx.real("lat%d" % k, -90, 90), ctx.real("lon%d" % k, -180, 180), ele))
    return m, T, pts


def interpolate(ctx, w, n, none=0):
    m, T, pts = log(ctx, w, n, none)
    t = ctx.real("t", -10, 86410)
    w.patch(m, "compute_bearing", lambda *a: 0.0)
    if bool(t < T[0]) or bool(t >= T[-1]):
        try:
            m.interpolate_lat_lon(pts, when(ctx, t))
        except ValueError:
            ctx.check(True, "refused")
            return
        ctx.check(False, "a time outside the log is refused")
        return
    k = [bool(t < x) for x in T].index(True)
    a, b = pts[k - 1], pts[k]
    lat, lon, _, ele = m.interpolate_lat_lon(pts, when(ctx, t))
    f = (t - T[k - 1]) / (T[k] - T[k - 1])
    tol = 1e-4
    ctx.eq(lat, a[1] + f * (b[1] - a[1]), "latitude", tol)
    ctx.eq(lon, a[2] + f * (b[2] - a[2]), "longitude", tol)
    if a[3] is None or b[3] is None:
        ctx.check(ele is None, "unknown elevation")
    else:
        ctx.eq(ele, a[3] + f * (b[3] - a[3]), "elevation", 1e-2)
    for j in range(n - 1):
        lat, lon, _, ele = m.interpolate_lat_lon(pts, pts[j][0])
        ctx.eq([lat, lon], pts[j][1:3], "position at a fix", tol)


def bearing(ctx, w):
    m = w.mod("geotag_from_gpx")
    D = math.pi / 180
    k = ctx.choice("case", 4)
    lon = ctx.angle("lon", -179, 179, unit=D)
    d = ctx.angle("d", 0.5, 80, unit=D)
    if k < 2:
        a, b = ctx.angle("a", -80, 0, unit=D), ctx.angle("b", 1, 80, unit=D)
        q = m.compute_bearing(a, lon, b, lon) if k == 0 else m.compute_bearing(b, lon, a, lon)
        ctx.eq(q, [0.0, 180.0][k], "bearing along a meridian", 1e-6)
    else:
        q = m.compute_bearing(0.0, lon, 0.0, lon + d if k == 2 else lon - d)
        ctx.eq(q, [90.0, 270.0][k - 2], "bearing along the equator", 1e-6)


def resample(ctx, w, n, steps):
    m, T, pts = log(ctx, w, n)
    dt = ctx.real("dt", 1, 86400)
    ctx.assume(dt * (steps + 1) > T[-1] - T[0])
    out = m.sample_gpx(pts, 0.0, dt)
    k = 0
    ctx.check(len(out) >= 1, "first fix kept")
    span = T[-1] - T[0]
    cnt = 0
    while bool((cnt + 1) * dt <= span):
        cnt += 1
    ctx.check(len(out) == cnt + 1, "number of samples")
    for j, p in enumerate(out):
        tj = T[0] + j * dt
        ctx.eq(secs(p[0]), tj, "sample time", 1e-4)
        seg = 0
        while seg < n - 2 and bool(tj > T[seg + 1]):
            seg += 1
        a, b = pts[seg], pts[seg + 1]
        f = (tj - T[seg]) / (T[seg + 1] - T[seg])
        for c, nm in ((1, "latitude"), (2, "longitude"), (3, "elevation")):
            ctx.eq(p[c], a[c] + f * (b[c] - a[c]), "sample " + nm, 1e-2)


def dms(ctx, w):
    m = w.mod("geotag_from_gpx")
    v = ctx.real("v", -180, 180)
    d, mi, s, ref = m.to_deg(v, ["S", "N"])
    a = -v if bool(v < 0) else v
    got = d + mi / 60 + s / 3600
    ctx.check(got - a <= 1e-9, "degrees, minutes and seconds, not above")
    ctx.check(a - got <= 1e-9, "degrees, minutes and seconds, not below")
    ctx.check(d >= 0, "degrees range")
    ctx.check(mi >= 0, "minutes range")
    ctx.check(mi <= 59, "minutes range")
    ctx.check(s >= 0, "seconds range")
    if bool(v < 0):
        ctx.check(ref == "S", "hemisphere")
    elif bool(v > 0):
        ctx.check(ref == "N", "hemisphere")


class Meta(dict):
    store = {}

    def __init__(self, name):
        dict.__init__(self, Meta.store.get(name, {}))
        self.name = name

    def read(self):
        pass

    def write(self):
        Meta.store[self.name] = dict(self)


class Value:
    def __init__(self, v):
        self.value = v


class Exiv:
    ImageMetadata = Meta


def value(fr):
    return fr[0] / fr[1]


def near(ctx, a, b, tol, label):
    ctx.check(a - b <= tol, label)
    ctx.check(b - a <= tol, label)


def tags(ctx, w, how, what):
    m = w.mod("geotag_from_gpx")
    w.patch(m, "pyexiv2", Exiv)
    w.patch(m, "make_fraction", lambda a, b: (a, b))
    Meta.store = {"im.jpg": {}}
    lat = ctx.real("lat", -90, 90) if what == "lat" else 12.5
    lon = ctx.real("lon", -180, 180) if what == "lon" else -3.25
    ele = ctx.real("ele", -10000, 10000) if what == "ele" else 5.0
    if what == "none":
        ele = None
    brg = ctx.real("bearing", 0, 360) if what == "bearing" else 12.5
    if how == "direct":
        m.add_gps_to_exif("im.jpg", lat, lon, brg, ele)
    else:
        t = E0 + datetime.timedelta(seconds=100)
        off = 60
        Meta.store["im.jpg"]["Exif.Photo.DateTimeOriginal"] = Value(t)
        seen = []

        def interp(p, q):
            seen.append(q)
            return lat, lon, brg, ele

        w.patch(m, "interpolate_lat_lon", interp)
        m.add_exif_using_timestamp("im.jpg", [], off)
        ctx.check(seen == [t - datetime.timedelta(seconds=off)], "time offset is subtracted")
    r = Meta.store["im.jpg"]
    for v, nm, refs in ((lat, "Latitude", "SN"), (lon, "Longitude", "WE")):
        d = r["Exif.GPSInfo.GPS" + nm]
        a = -v if bool(v < 0) else v
        got = value(d[0]) + value(d[1]) / 60 + value(d[2]) / 3600
        near(ctx, got, a, 1e-9, nm)
        if bool(v < 0):
            ctx.check(r["Exif.GPSInfo.GPS%sRef" % nm] == refs[0], "hemisphere " + nm)
        elif bool(v > 0):
            ctx.check(r["Exif.GPSInfo.GPS%sRef" % nm] == refs[1], "hemisphere " + nm)
    near(ctx, value(r["Exif.GPSInfo.GPSImgDirection"]), brg, 0.011, "bearing")
    if ele is None:
        ctx.check("Exif.GPSInfo.GPSAltitude" not in r, "unknown altitude is not written")
    else:
        below = bool(ele < 0)
        near(ctx, value(r["Exif.GPSInfo.GPSAltitude"]), -ele if below else ele, 0.011, "altitude")
        ctx.check(r["Exif.GPSInfo.GPSAltitudeRef"] == ("1" if below else "0"), "altitude reference")


HARNESSES = [
    dict(name="interpolate", fn=interpolate,
         params=[dict(n=2), dict(n=3), dict(n=3, none=7), dict(n=3, none=4), dict(n=3, none=2)], thorough=[dict(n=4), dict(n=5)]),
    dict(name="bearing", fn=bearing),
    dict(name="resample by time", fn=resample, params=[dict(n=2, steps=2), dict(n=3, steps=2)], thorough=[dict(n=4, steps=3)]),
    dict(name="degrees minutes seconds", fn=dms),
    dict(name="written tags", fn=tags,
         params=[dict(how=h, what=x) for h in ("direct", "time") for x in ("lat", "lon", "ele", "none", "bearing")]),
]
