"""Ground control points through the line format and the JSON format."""
import io as pyio

PRELOAD = ["io", "dataset"]
BOUNDS = "line files of 1..3 lines over two images (and an image outside the dataset), any coordinates; JSON files of 1..2 points with 0..2 observations"
ASSUMPTIONS = ["doubles are real numbers", "numbers are written in full in text files", "map projections (pyproj) are an arbitrary function of the planar position"]


class Proj:
    """Stand-in for pyproj: remembers the systems and applies a linear map."""

    def __init__(self, a):
        self.a = a
        self.made = []
        outer = self

        class CRS:
            def __new__(cls, s):
                return s

            @staticmethod
            def from_epsg(n):
                return "EPSG:%d" % n

            @staticmethod
            def from_user_input(s):
                return s

        class Transformer:
            @staticmethod
            def from_proj(src, dst, **kw):
                outer.made.append((src, dst))
                t = Transformer()
                t.xy = kw.get("always_xy", False)
                return t

            from_crs = from_proj

            def transform(self, x, y, *z):
                a = outer.a
                r = a[0] * x + a[1] * y, a[2] * x + a[3] * y
                return (r[::-1] if self.xy else r) + z  # longitude first on request

        self.CRS, self.Transformer = CRS, Transformer


EXIF = {"a.jpg": dict(width=400, height=300), "b.jpg": dict(width=300, height=600)}
SYSTEMS = [("WGS84", None), ("WGS84 UTM 32N", "+proj=utm +zone=32 +north"), ("WGS84 UTM 5S", "+proj=utm +zone=5 +south"),
           ("+proj=utm +zone=10 +south", "+proj=utm +zone=10 +south"), ("EPSG:3857", "EPSG:3857")]


def number(v):
    return "NaN" if v is None else "%s" % (v if not isinstance(v, float) else repr(v))


def lines(ctx, w, images, nans, same, system=0, extra="", name=""):
    """images: image of each line; nans: bit set of lines of unknown height;
    same: bit set of lines that repeat the position of the first line."""
    m = w.mod("io")
    proj = Proj([ctx.real("A%d" % k, -2, 2) for k in range(4)])
    if SYSTEMS[system][1]:
        w.patch(m, "pyproj", proj)
    rows, text = [], ["# a comment", "  " + SYSTEMS[system][0] if system == 0 else SYSTEMS[system][0], ""]
    for k, im in enumerate(images):
        if k and same & (1 << k):
            e, n = rows[0][0], rows[0][1]
            a = rows[0][2] if not nans & (1 << k) else None
        else:
            e, n = ctx.real("e%d" % k, -1e6, 1e6), ctx.real("n%d" % k, -1e6, 1e6)
            a = None if nans & (1 << k) else ctx.real("h%d" % k, -1000, 9000)
        u, v = ctx.real("u%d" % k, 0, 600), ctx.real("v%d" % k, 0, 600)
        rows.append((e, n, a, u, v, im))
        text.append("%s %s %s %s %s %s%s" % (number(e), number(n), number(a), number(u), number(v), im, extra))
        text.append("#" if k == 0 else "   ")
    got = m.read_gcp_list(pyio.StringIO("\n".join(text) + "\n"), EXIF)
    # the groups of lines with one position
    groups = []
    for r in rows:
        if r[5] not in EXIF:
            continue
        for g in groups:
            q = g[0]
            if bool(q[0] == r[0]) and bool(q[1] == r[1]) and (q[2] is None) == (r[2] is None) and (q[2] is None or bool(q[2] == r[2])):
                g.append(r)
                break
        else:
            groups.append([r])
    ctx.check(len(got) == len(groups), "one point per distinct position")
    ctx.check(len({p.id for p in got}) == len(got), "distinct names")
    for p, g in zip(got, groups):
        e, n, a = g[0][:3]
        if SYSTEMS[system][1]:
            lat, lon = proj.a[0] * e + proj.a[1] * n, proj.a[2] * e + proj.a[3] * n
        else:
            lat, lon = n, e
        ctx.eq([p.lla["latitude"], p.lla["longitude"]], [lat, lon], "position", 1e-6)
        ctx.check(bool(p.has_altitude) == (a is not None), "known height")
        if a is not None:
            ctx.eq(p.lla["altitude"], a, "height")
        obs = p.observations
        ctx.check([o.shot_id for o in obs] == [r[5] for r in g], "observed images")
        for o, r in zip(obs, g):
            W, H = EXIF[r[5]]["width"], EXIF[r[5]]["height"]
            S = max(W, H)
            ctx.eq([o.projection[0] * S, o.projection[1] * S], [r[3] - (W - 1) / 2, r[4] - (H - 1) / 2], "normalized observation", 1e-6)
    if SYSTEMS[system][1]:
        ctx.check(len(proj.made) == 1 and SYSTEMS[system][1] in proj.made[0][0] and proj.made[0][1] == "EPSG:4326", "coordinate system")


def gcps(ctx, w, pos, nobs):
    """pos: per point 0 no position, 1 without height, 2 with height."""
    M = w.mod("pymap")
    pts, want = [], []
    for k, (p, n) in enumerate(zip(pos, nobs)):
        g = M.GroundControlPoint()
        g.id = "gcp-%d" % k
        lla = None
        if p:
            lla = dict(latitude=ctx.real("lat%d" % k, -90, 90), longitude=ctx.real("lon%d" % k, -180, 180))
            g.lla = dict(lla, altitude=ctx.real("alt%d" % k, -500, 9000) if p == 2 else 0.0)
            g.has_altitude = p == 2
            if p == 2:
                lla = dict(g.lla)
        obs = []
        for j in range(n):
            o = M.GroundControlPointObservation()
            o.shot_id = "ab"[j] + ".jpg"
            xy = [ctx.real("x%d%d" % (k, j), -1, 1), ctx.real("y%d%d" % (k, j), -1, 1)]
            o.projection = ctx.array(xy)
            g.add_observation(o)
            obs.append((o.shot_id, xy))
        pts.append(g)
        want.append((g.id, lla, obs))
    return pts, want


def same(ctx, got, want, label):
    ctx.check([g.id for g in got] == [x[0] for x in want], label + ": points")
    for g, (_, lla, obs) in zip(got, want):
        if lla is None:
            ctx.check(not g.lla, label + ": no position")
        else:
            ctx.eq([g.lla["latitude"], g.lla["longitude"]], [lla["latitude"], lla["longitude"]], label + ": position")
            ctx.check(bool(g.has_altitude) == ("altitude" in lla), label + ": known height")
            if "altitude" in lla:
                ctx.eq(g.lla["altitude"], lla["altitude"], label + ": height")
        ctx.check([o.shot_id for o in g.observations] == [o[0] for o in obs], label + ": observed images")
        for o, (_, xy) in zip(g.observations, obs):
            ctx.eq(list(o.projection), xy, label + ": observation")


def json_format(ctx, w, pos, nobs):
    m = w.mod("io")
    pts, want = gcps(ctx, w, pos, nobs)
    f = pyio.StringIO()
    m.write_ground_control_points(pts, f)
    same(ctx, m.read_ground_control_points(pyio.StringIO(f.getvalue())), want, "read back")
    same(ctx, pts, want, "original")


def dataset(ctx, w):
    """Both files of a dataset are read, in image coordinates of the right image."""
    ds = w.dataset(["a.jpg", "b.jpg"])
    for k in EXIF:
        ds.save_exif(k, dict(EXIF[k], camera="c"))
    pts, want = gcps(ctx, w, (2, 1), (2, 1))
    ds.save_ground_control_points(pts)
    same(ctx, ds.load_ground_control_points(), want, "JSON file")
    e, n, h, u, v = [ctx.real(k, -100, 100) for k in "enhuv"]
    with ds.io_handler.open_wt("/data/gcp_list.txt") as f:
        f.write("WGS84\n" + " ".join(number(x) for x in (e, n, h, u, v)) + " b.jpg\n")
    got = ds.load_ground_control_points()
    ctx.check(len(got) == 3, "points of both files")
    same(ctx, [g for g in got if g.id.startswith("gcp")], want, "JSON points among both")
    g = [g for g in got if not g.id.startswith("gcp")][0]
    ctx.eq([g.lla["latitude"], g.lla["longitude"], g.lla["altitude"]], [n, e, h], "line point")
    ctx.eq(list(g.observations[0].projection), [(u - 149.5) / 600, (v - 299.5) / 600], "line observation")


LINES = ([dict(images=("a.jpg", "b.jpg"), nans=n, same=s) for n in (0, 1, 2, 3) for s in (0, 2)]
         + [dict(images=("a.jpg", "b.jpg", "b.jpg"), nans=n, same=s) for n, s in ((0, 4), (7, 4), (5, 4), (7, 6), (0, 0), (6, 2))]
         + [dict(images=("out.jpg", "b.jpg", "a.jpg"), nans=n, same=s) for n, s in ((0, 6), (7, 6), (0, 4))]
         + [dict(images=("a.jpg", "b.jpg"), nans=n, same=2, system=k) for k in range(1, len(SYSTEMS)) for n in (0, 3)]
         + [dict(images=("a.jpg",), nans=0, same=0, extra="  point-name")])
HARNESSES = [
    dict(name="line format", fn=lines, params=LINES,
         thorough=[dict(images=i, nans=n, same=s) for i in (("a.jpg", "b.jpg", "a.jpg"), ("a.jpg", "a.jpg", "out.jpg"), ("b.jpg", "out.jpg", "b.jpg")) for n in range(8) for s in (0, 2, 4, 6)] + LINES),
    dict(name="JSON format", fn=json_format, params=[dict(pos=p, nobs=n) for p in ((2, 1), (0, 2), (1, 1)) for n in ((2, 1), (0, 2))]),
    dict(name="dataset files", fn=dataset),
]
