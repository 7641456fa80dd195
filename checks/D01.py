"""The reference position invented for a dataset."""
PRELOAD = ["dataset", "geo", "io", "pymap"]
BOUNDS = "up to 3 images, each with or without measured latitude, longitude, accuracy and altitude (any values); up to 3 ground control points with or without a position"
ASSUMPTIONS = ["doubles are real numbers", "files are kept in memory; numbers written to JSON are read back unchanged"]

KINDS = ["none", "empty", "latitude", "longitude", "plain", "dop"]


def exif(ctx, data, im, kind, far=False):
    e = {"camera": "cam", "width": 10, "height": 10}
    lat, lon = ctx.real("lat." + im, -90, 90), ctx.real("lon." + im, -180, 180)
    g = {"latitude": lat, "longitude": lon, "altitude": ctx.real("alt." + im, -100, 9000)}
    w = None
    if kind == "dop":
        dop = ctx.real("dop." + im, -1, 200)
        g["dop"] = dop
        w = 1.0 / (dop if bool(dop > 0.01) else 0.01)
    elif kind == "plain":
        w = 1.0 / 15
    elif kind == "latitude":
        del g["longitude"]
    elif kind == "longitude":
        del g["latitude"]
    if kind == "empty":
        g = {}
    if kind != "none":
        e["gps"] = g
    data.save_exif(im, e)
    return (w, lat, lon) if w is not None else None


def within(ctx, ref, used):
    tot = sum(w for w, _, _ in used)
    for got, i, name in ((ref.lat, 1, "latitude"), (ref.lon, 2, "longitude")):
        ctx.eq(got, sum(u[0] * u[i] for u in used) / tot, name + " is the weighted mean", 1e-9)
        lo = hi = used[0][i]
        if len(used) < 3:
            for u in used[1:]:
                lo, hi = (u[i] if bool(u[i] < lo) else lo), (u[i] if bool(u[i] > hi) else hi)
            ctx.check((got >= lo - 1e-9) & (got <= hi + 1e-9) if not isinstance(got, float) else lo - 1e-9 <= got <= hi + 1e-9, name + " within the measurements")
    ctx.eq(ref.alt, 0.0, "altitude of the reference")


def images(ctx, w, kinds):
    names = ["im%d.jpg" % k for k in range(len(kinds))]
    data = w.dataset(names)
    used = [u for u in (exif(ctx, data, n, k) for n, k in zip(names, kinds)) if u]
    # a point far from everything is not looked at when images have positions
    M = w.mod("pymap")
    pts = [gcp(M, "p", {"latitude": 89.0, "longitude": 179.0, "altitude": 1000.0})]
    data.save_ground_control_points(pts)
    D = w.mod("dataset")
    ctx.check(not data.reference_exists(), "no reference before")
    data.init_reference()
    ref = data.load_reference()
    if used:
        within(ctx, ref, used)
    else:
        ctx.eq([ref.lat, ref.lon, ref.alt], [89.0, 179.0, 0.0], "ground control points when no image has a position")
    other = D.invent_reference_from_gps_and_gcp(data, names[::-1])
    ctx.eq([other.lat, other.lon, other.alt], [ref.lat, ref.lon, ref.alt], "independent of the order of images", 1e-9)
    if used:
        some = [n for n, k in zip(names, kinds) if k in ("plain", "dop")]
        data.init_reference(some[:1])
        keep = data.load_reference()
        ctx.eq([keep.lat, keep.lon, keep.alt], [ref.lat, ref.lon, ref.alt], "an existing reference stays")
        one = D.invent_reference_from_gps_and_gcp(data, some[:1])
        ctx.eq([one.lat, one.lon], [used[0][1], used[0][2]], "only the given images count", 1e-9)


def gcp(M, id, lla):
    g = M.GroundControlPoint()
    g.id = id
    g.survey_point_id = 0
    if lla:
        g.lla = lla
        g.has_altitude = "altitude" in lla
    return g


def points(ctx, w, known):
    M = w.mod("pymap")
    data = w.dataset(["im0.jpg", "im1.jpg"])
    for n in data.images():
        exif(ctx, data, n, "none")
    pts, used = [], []
    for k, has in enumerate(known):
        lla = {}
        if has:
            lla = {"latitude": ctx.real("lat%d" % k, -90, 90), "longitude": ctx.real("lon%d" % k, -180, 180), "altitude": ctx.real("alt%d" % k, -100, 9000)}
            used.append((1.0, lla["latitude"], lla["longitude"]))
        pts.append(gcp(M, "g%d" % k, lla))
    data.load_ground_control_points = lambda: list(pts)
    data.init_reference()
    ref = data.load_reference()
    if used:
        within(ctx, ref, used)
    else:
        ctx.eq([ref.lat, ref.lon, ref.alt], [0.0, 0.0, 0.0], "origin without any measurement")


HARNESSES = [
    dict(name="images", fn=images, params=[dict(kinds=list(k)) for k in (
        ["plain"], ["dop"], ["none", "empty"], ["dop", "dop"], ["plain", "dop"], ["latitude", "plain", "longitude"], ["dop", "none", "plain"], ["dop", "dop", "dop"], ["empty", "dop", "latitude"])],
        thorough=[dict(kinds=[a, b, c]) for a in KINDS for b in KINDS for c in KINDS]),
    dict(name="points", fn=points, params=[dict(known=k) for k in ([], [0], [1], [1, 0], [1, 1], [0, 1, 1], [1, 1, 1])]),
]
