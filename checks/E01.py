"""Focal length and sensor data from image metadata; cameras built from it."""
from exifread.utils import Ratio

PRELOAD = ["exif"]
BOUNDS = "tag numerators and denominators 0..10^4 (0..100 for both focal lengths; numerators of resolutions and 35 mm focals also negative), image sizes 1..20000, every presence combination; one make per kind of hard-coded table"
ASSUMPTIONS = ["doubles are real numbers"]


class SymRatio(Ratio):
    """An EXIF rational with unknown terms."""

    def __new__(cls, n, d):
        self = super().__new__(cls, 0, 1)
        self._n, self._d = n, d
        return self

    num = numerator = property(lambda s: s._n)
    den = denominator = property(lambda s: s._d)

    def __str__(self):
        return "ratio"

    __repr__ = __str__

    def __format__(self, spec):
        return "ratio"


class Tag:
    def __init__(self, values):
        self.values = values


class Tags(dict):
    pass


def ratio(ctx, name, hi=10000, lo=0):
    n, d = ctx.int(name + "_num", lo, hi), ctx.int(name + "_den", 0, hi)
    return Ratio(n, d) if ctx.concrete else SymRatio(n, d), n, d


class File:
    name = "image.jpg"

    def read(self, *a):
        return b""

    def seek(self, *a):
        pass


def extract(ctx, w, tags, xmp=(), size=(3000, 4000), use_size=True):
    m = w.mod("exif")

    class Reader:
        class utils:
            pass

        @staticmethod
        def process_file(f, **kw):
            return tags

    Reader.utils.Ratio = Ratio
    w.patch(m, "exifread", Reader)
    w.patch(m, "get_xmp", lambda f: list(xmp))
    return m.extract_exif_from_file(File(), lambda: size, use_size, "image.jpg")


def value(ctx, r):
    """None for an undefined ratio."""
    _, n, d = r
    if bool(d == 0):
        return None
    return (n * 1.0) / d


UNIT_MM = {2: 25.4, 3: 10.0, 4: 1.0, 5: 0.001}


def focal(ctx, w, f35, f, plane, table):
    m = w.mod("exif")
    tags = {}
    width = ctx.int("width", 1, 20000)
    v35 = vf = sensor = None
    if f35:
        r = ratio(ctx, "f35", 100, -100)
        if f35 == 2:  # stored as a whole number
            tags["EXIF FocalLengthIn35mmFilm"] = Tag([r[1]])
            v35 = r[1] * 1.0
        else:
            tags["EXIF FocalLengthIn35mmFilm"] = Tag([r[0]])
            v35 = value(ctx, r)
    if f:
        r = ratio(ctx, "focal", 100)
        tags["EXIF FocalLength"] = Tag([r[0]])
        vf = value(ctx, r)
    if plane:
        unit = ctx.int("unit", 0, 6)
        tags["EXIF FocalPlaneResolutionUnit"] = Tag([unit])
        x, y = ratio(ctx, "xres", lo=-10000), ratio(ctx, "yres", lo=-10000)
        tags["EXIF FocalPlaneXResolution"] = Tag([x[0]])
        if plane == 2:
            tags["EXIF FocalPlaneYResolution"] = Tag([y[0]])
        for k, mm in UNIT_MM.items():
            if bool(unit == k):
                res = value(ctx, x)
                if res is not None and bool(res <= 0):
                    res = value(ctx, y) if plane == 2 else None
                    if res is not None and bool(res <= 0):
                        res = None
                if res is not None:
                    sensor = width / res * mm
    entry = ctx.real("table", 0.5, 100)
    w.patch(m, "sensor_data", lambda: {"maker one": entry} if table else {"other": 1.0})
    tags["Image Make"] = Tag("Maker")
    tags["Image Model"] = Tag("Maker One")
    if sensor is None and table:
        sensor = entry
    d = extract(ctx, w, tags, size=(1000, width))
    if v35 is not None and bool(v35 > 0):
        want = v35 / 36.0
    elif sensor is not None and vf is not None:
        want = vf / sensor
    else:
        want = 0.0
    ctx.eq(d["focal_ratio"], want, "relative focal")
    ctx.check(d["focal_ratio"] >= 0, "never negative")


def sizes(ctx, w, exif, img, use):
    tags, n = {}, 0
    W = [ctx.int("w%d" % k, 1, 20000) for k in range(3)]
    H = [ctx.int("h%d" % k, 1, 20000) for k in range(3)]
    if exif:
        tags["EXIF ExifImageWidth"], tags["EXIF ExifImageLength"] = Tag([W[0]]), Tag([H[0]])
    if img:
        tags["Image ImageWidth"], tags["Image ImageLength"] = Tag([W[1]]), Tag([H[1]])
    d = extract(ctx, w, tags, size=(H[2], W[2]), use_size=use)
    k = 2 if not use or not (exif or img) else 0 if exif else 1
    ctx.eq([d["width"], d["height"]], [W[k], H[k]], "image size")
    ctx.check(d["make"] == "unknown" and d["model"] == "unknown", "unknown camera")


class Data:
    def __init__(self, prior):
        self.config = {"default_focal_prior": prior}


FULL = ("brown", "radial", "simple_radial", "fisheye_opencv", "fisheye62", "fisheye624")


def hard(ctx, pt, own):
    if pt in FULL or own in FULL:
        d = {k: ctx.real("hard_" + k, -1, 1) for k in ("k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3", "c_x", "c_y")}
        d["focal_x"], d["focal_y"] = ctx.real("hard_fx", 0.2, 3), ctx.real("hard_fy", 0.2, 3)
    else:
        d = {"focal": ctx.real("hard_focal", 0.2, 3), "k1": ctx.real("hard_k1", -1, 1), "k2": ctx.real("hard_k2", -1, 1)}
    if own == "dual":
        d["transition"] = ctx.real("hard_transition", 0, 1)
    if own:
        d["projection_type"] = own
    return d


def tables(entry):
    return {"allmaker": {"ALL": entry}, "modelmaker": {"MODEL": {"best one": entry, "other": {"focal": 9.0, "k1": 9.0, "k2": 9.0}}},
            "focalmaker": {"FOCAL": {20: entry, 25: {"focal": 9.0, "k1": 9.0, "k2": 9.0}}}}


DIST = {"perspective": ["k1", "k2"], "fisheye": ["k1", "k2"], "dual": ["k1", "k2"], "radial": ["k1", "k2"], "simple_radial": ["k1"],
        "brown": ["k1", "k2", "k3", "p1", "p2"], "fisheye_opencv": ["k1", "k2", "k3", "k4"],
        "fisheye62": ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2"],
        "fisheye624": ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3"]}


def check_camera(ctx, c, pt, calib, width, height, label):
    """calib: the calibration the camera must carry (None: unit with zero distortion)."""
    pt = "spherical" if pt == "equirectangular" else pt  # two names of one projection
    ctx.check(c.projection_type == pt, label + ": projection")
    ctx.eq([c.width, c.height], [width, height], label + ": image size")
    ctx.check(c.id == "the camera", label + ": camera name")
    if pt in ("spherical", "equirectangular"):
        return
    if pt in FULL:
        fx, fy = calib.get("focal_x", calib.get("focal")), calib.get("focal_y", calib.get("focal"))
        ctx.eq([c.focal, c.aspect_ratio * c.focal], [fx, fy], label + ": focal")
        ctx.eq(list(c.principal_point), [calib.get("c_x", 0.0), calib.get("c_y", 0.0)], label + ": principal point")
    else:
        ctx.eq(c.focal, calib["focal"], label + ": focal")
    for k in DIST[pt]:
        ctx.eq(getattr(c, k), calib.get(k, 0.0), label + ": " + k)
    if pt == "dual":
        ctx.eq(c.transition, calib["transition"], label + ": transition")


def camera(ctx, w, pt, source, own=None):
    m = w.mod("exif")
    prior = ctx.real("prior", 0.2, 3)
    ratio_ = ctx.real("ratio", 0.549, 0.563)  # 35 mm focal 20 when rounded
    entry = hard(ctx, pt, own)
    w.patch(m, "camera_calibration", lambda t=tables(entry): [t])
    md = {"width": ctx.int("width", 1, 20000), "height": ctx.int("height", 1, 20000), "camera": "the camera",
          "projection_type": pt if pt != "none" else None, "make": "unknown", "model": "unknown", "focal_ratio": ratio_}
    if pt == "none":
        del md["projection_type"]
    want_pt = "perspective" if pt == "none" else pt
    if source in ("ALL", "MODEL", "FOCAL"):
        md["make"], md["model"] = " " + source.capitalize() + "Maker", "Best One "
        calib = entry
        want_pt = own or want_pt
    elif source == "metadata":
        calib = {"focal": ratio_}
        if ctx.flag("wrong model of a known make"):
            md["make"], md["model"] = "ModelMaker", "unheard"
    elif source == "metadata xy":
        md["focal_x"], md["c_x"], md["c_y"] = ctx.real("fx", 0.2, 3), ctx.real("cx", -1, 1), ctx.real("cy", -1, 1)
        calib = {"focal": md["focal_x"], "c_x": md["c_x"], "c_y": md["c_y"]}
    else:
        md["focal_ratio"] = 0.0
        calib = {"focal": prior}
    c = m.camera_from_exif_metadata(md, Data(prior))
    check_camera(ctx, c, want_pt, calib, md["width"], md["height"], "camera")
    if source in ("ALL", "MODEL", "FOCAL") and pt not in FULL and not own:
        # a second image of the same make, taken with another projection
        for other in ("fisheye", "perspective", "spherical"):
            md2 = dict(md, projection_type=other)
            c = m.camera_from_exif_metadata(md2, Data(prior))
            check_camera(ctx, c, other, calib, md["width"], md["height"], "later camera")
    if not own and pt in ("perspective", "fisheye", "brown") and source != "metadata xy":
        # the next image of an unknown make is not affected
        md3 = dict(md, make="unknown", focal_ratio=0.0)
        c = m.camera_from_exif_metadata(md3, Data(prior))
        check_camera(ctx, c, pt, {"focal": prior}, md["width"], md["height"], "unrelated camera")


CAMERAS = ([dict(pt=p, source=s) for p in ("perspective", "fisheye", "brown", "radial", "simple_radial", "fisheye_opencv", "fisheye62",
            "fisheye624", "equirectangular", "spherical", "none") for s in ("ALL", "metadata", "default") if not (p == "none" and s == "ALL")]
           + [dict(pt=p, source=s) for p in ("perspective", "brown") for s in ("MODEL", "FOCAL")]
           + [dict(pt=p, source="metadata xy") for p in FULL]
           + [dict(pt="perspective", source=s, own=o) for s in ("ALL", "MODEL") for o in ("brown", "fisheye", "dual")])


HARNESSES = [
    dict(name="relative focal", fn=focal, opts=dict(div0="fork"),
         params=[dict(f35=a, f=1, plane=b, table=c) for a in (0, 1, 2) for b in (0, 1, 2) for c in (False, True)]
         + [dict(f35=1, f=0, plane=2, table=True), dict(f35=0, f=0, plane=0, table=True)]),
    dict(name="image size", fn=sizes, params=[dict(exif=a, img=b, use=c) for a in (0, 1) for b in (0, 1) for c in (False, True)]),
    dict(name="camera from metadata", fn=camera, params=CAMERAS, opts=dict(int_hash="value")),
]
