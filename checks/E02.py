"""Positions and capture times decoded from image metadata."""
import calendar

from exifread.utils import Ratio

from checks.E01 import SymRatio, Tag, extract, ratio, value

PRELOAD = ["exif"]
BOUNDS = "numerators and denominators 0..10^6; sub-seconds of 1..7 digits; offsets with every sign, hour and minute digit; three calendar days"
ASSUMPTIONS = ["doubles are real numbers; times of day are exact"]


def time_shim(ctx, w):
    if not ctx.concrete:
        from engine import dtshim
        w.patch(w.mod("exif"), "datetime", dtshim.MODULE)


def dms(ctx, name):
    r = [ratio(ctx, name + k, 10**6) for k in ("deg", "min", "sec")]
    v = [value(ctx, x) for x in r]
    dec = None if None in v else v[0] + v[1] / 60 + v[2] / 3600
    return Tag([x[0] for x in r]), dec


def position(ctx, w, ref, alt, dji=0, dop=False):
    time_shim(ctx, w)
    tags, xmp = {}, []
    if alt or dji or dop:
        lat, lon = ctx.int("lat", 0, 90), ctx.int("lon", 0, 180)
        tags["GPS GPSLatitude"], tags["GPS GPSLongitude"] = [
            Tag([Ratio(v, 1) if ctx.concrete else SymRatio(v, 1) for v in (x, 0, 0)]) for x in (lat, lon)]
    else:
        tags["GPS GPSLatitude"], lat = dms(ctx, "lat")
        tags["GPS GPSLongitude"], lon = dms(ctx, "lon")
    south = west = False
    if ref:
        south, west = ctx.flag("south"), ctx.flag("west")
        tags["GPS GPSLatitudeRef"] = Tag("S" if south else "N")
        tags["GPS GPSLongitudeRef"] = Tag("W" if west else "E")
    lat = None if lat is None else -lat if south else lat
    lon = None if lon is None else -lon if west else lon
    h = None
    if alt:
        r = ratio(ctx, "alt", 10**6)
        if alt == 2:
            tags["GPS GPSAltitude"], h = Tag([r[1]]), r[1] * 1.0
        else:
            tags["GPS GPSAltitude"], h = Tag([r[0]]), value(ctx, r)
        if ctx.flag("altitude reference"):
            below = ctx.int("below", 0, 1)
            tags["GPS GPSAltitudeRef"] = Tag([below])
            if h is not None and bool(below == 1):
                h = -h
    if dji:
        x, y = ctx.real("dji_lon", 0, 180), ctx.real("dji_lat", 0, 90)
        sx, sy = ctx.flag("dji_west"), ctx.flag("dji_south")
        xmp = [{"@drone-dji:Longitude": "%s%s" % ("-" if sx else "+", x), "@drone-dji:Latitude": "%s%s" % ("-" if sy else "+", y)}]
        lon, lat = -x if sx else x, -y if sy else y
        if dji == 2:
            h = ctx.real("dji_alt", -500, 9000)
            xmp[0]["@drone-dji:AbsoluteAltitude"] = ("%s" if bool(h < 0) else "+%s") % h
    if dop:
        r = ratio(ctx, "dop", 1000)
        tags["GPS GPSDOP"] = Tag([r[0]])
        dop = value(ctx, r)
    else:
        dop = None
    g = extract(ctx, w, tags, xmp)["gps"]
    if lat is None or lon is None:
        ctx.check("latitude" not in g and "longitude" not in g, "an undefined coordinate is no position")
    else:
        ctx.eq([g["latitude"], g["longitude"]], [lat, lon], "signed decimal degrees")
    if h is None:
        ctx.check("altitude" not in g, "no altitude")
    else:
        ctx.eq(g["altitude"], h if bool(h <= 1e4) else 1e4, "altitude")
    if dop is None:
        ctx.check("dop" not in g, "no dilution of precision")
    else:
        ctx.eq(g["dop"], dop, "dilution of precision")


def nothing(ctx, w):
    d = extract(ctx, w, {})
    ctx.check(d["gps"] == {}, "no position without tags")
    ctx.eq(d["capture_time"], 0.0, "no time without tags")


DAYS = ["2020:02:29", "1999:12:31", "1969:12:31"]


def epoch(day):
    return float(calendar.timegm(tuple(int(x) for x in day.split(":")) + (0, 0, 0)))


def two(ctx, name):
    """Two digits and the number they write."""
    a, b = ctx.digit(name + "1"), ctx.digit(name + "2")
    return a + b, num(ctx, a) * 10 + num(ctx, b)


def num(ctx, ch):
    return int(ch) if ctx.concrete else ctx.tokens[ch]


def clock(ctx, name):
    """A time of day as text, its seconds, and whether it is one."""
    (h, hv), (m, mv), (s, sv) = two(ctx, name + "h"), two(ctx, name + "m"), two(ctx, name + "s")
    ok = bool(hv < 24) and bool(mv < 60) and bool(sv < 60)
    return "%s:%s:%s" % (h, m, s), hv * 3600 + mv * 60 + sv, ok


KEYS = [("EXIF DateTimeOriginal", "EXIF SubSecTimeOriginal", "EXIF Tag 0x9011"),
        ("EXIF DateTimeDigitized", "EXIF SubSecTimeDigitized", "EXIF Tag 0x9012"),
        ("Image DateTime", "Image SubSecTime", "Image Tag 0x9010")]


def stamp(ctx, tags, k, day, sub, off):
    """Adds time stamp k to the tags; returns its UTC time or None if invalid."""
    key = KEYS[k]
    text, t, ok = clock(ctx, "t%d" % k)
    tags[key[0]] = Tag(DAYS[day] + " " + text)
    t = t + epoch(DAYS[day])
    if sub:
        digits = [ctx.digit("sub%d_%d" % (k, i)) for i in range(sub)]
        tags[key[1]] = Tag("".join(digits))
        f = 0
        for ch in digits:
            f = f * 10 + num(ctx, ch)
        t = t + f * 1.0 / 10.0**sub
        ok = ok and sub <= 6
    if off:
        neg = ctx.flag("west of Greenwich %d" % k)
        (h, hv), (m, mv) = two(ctx, "oh%d" % k), two(ctx, "om%d" % k)
        tags[key[2]] = Tag(("-" if neg else "+") + h + ":" + m)
        o = hv * 3600 + mv * 60
        t = t + o if neg else t - o
    return t if ok else None


def local_time(ctx, w, k, sub, off, day=0):
    time_shim(ctx, w)
    tags = {}
    t = stamp(ctx, tags, k, day, sub, off)
    d = extract(ctx, w, tags)
    ctx.eq(d["capture_time"], 0.0 if t is None else t, "UTC instant", 1e-5)


def preference(ctx, w, has):
    """The first valid time stamp counts."""
    time_shim(ctx, w)
    tags = {}
    want = 0.0
    found = [stamp(ctx, tags, k, k, 0, 0) for k in range(3) if has & (1 << k)]
    for t in found:
        if t is not None:
            want = t
            break
    ctx.eq(extract(ctx, w, tags)["capture_time"], want, "the first valid time stamp", 1e-5)


def bad_offset(ctx, w):
    time_shim(ctx, w)
    tags = {}
    t = stamp(ctx, tags, 0, 0, 0, 0)
    tags[KEYS[0][2]] = Tag(["   :  ", "", "ab:cd", "Z"][ctx.choice("offset", 4)])
    ctx.eq(extract(ctx, w, tags)["capture_time"], 0.0 if t is None else t, "an unreadable offset is ignored", 1e-5)


def gps_time(ctx, w, fallback):
    time_shim(ctx, w)
    h, m = ctx.int("hours", 0, 99), ctx.int("minutes", 0, 99)
    s, n, d = ratio(ctx, "seconds", 10**5)
    one = (lambda v: Ratio(v, 1)) if ctx.concrete else (lambda v: SymRatio(v, 1))
    tags = {"GPS GPSDate": Tag(DAYS[0]), "GPS GPSTimeStamp": Tag([one(h), one(m), s])}
    t = None
    if bool(d > 0) and bool(h < 24) and bool(m < 60):
        sec = n * 1.0 / d
        # seconds are written with six decimals
        if bool(sec < 59.999999):
            t = epoch(DAYS[0]) + h * 3600 + m * 60 + sec
        else:
            ctx.assume(sec >= 60)
    if fallback:
        u = stamp(ctx, tags, 0, 1, 0, 0)
        t = u if t is None else t
    ctx.eq(extract(ctx, w, tags)["capture_time"], 0.0 if t is None else t, "UTC instant", 1e-5)


def whole_number_time(ctx, w):
    """GPS times stored as plain numbers."""
    time_shim(ctx, w)
    h, m, s = ctx.int("hours", 0, 23), ctx.int("minutes", 0, 59), ctx.int("seconds", 0, 59)
    tags = {"GPS GPSDate": Tag(DAYS[1]), "GPS GPSTimeStamp": Tag([h, m, s])}
    ctx.eq(extract(ctx, w, tags)["capture_time"], epoch(DAYS[1]) + h * 3600 + m * 60 + s, "UTC instant", 1e-5)


def orientation(ctx, w):
    if ctx.flag("has orientation"):
        v = ctx.choice("orientation", 9)
        tags = {"Image Orientation": Tag([v])}
    else:
        v, tags = 0, {}
    ctx.check(extract(ctx, w, tags)["orientation"] == (v or 1), "orientation")


HARNESSES = [
    dict(name="position", fn=position, opts=dict(div0="fork"),
         params=[dict(ref=r, alt=a) for r in (0, 1) for a in (0, 1, 2)] + [dict(ref=1, alt=0, dop=True)] + [dict(ref=1, alt=1, dji=1), dict(ref=1, alt=1, dji=2)]),
    dict(name="no tags", fn=nothing),
    dict(name="local time", fn=local_time, params=[dict(k=k, sub=s, off=o) for k in range(3) for s, o in ((0, 0), (3, 1), (6, 1), (7, 0))]
         + [dict(k=0, sub=s, off=1, day=2) for s in (0, 1, 2)],
         thorough=[dict(k=k, sub=s, off=o, day=d) for k in range(3) for s in range(8) for o in (0, 1) for d in range(3)]),
    dict(name="preference", fn=preference, params=[dict(has=h) for h in range(1, 8)]),
    dict(name="unreadable offset", fn=bad_offset),
    dict(name="GPS time", fn=gps_time, params=[dict(fallback=f) for f in (0, 1)], opts=dict(div0="fork")),
    dict(name="whole GPS time", fn=whole_number_time),
    dict(name="orientation", fn=orientation),
]
