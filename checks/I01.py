"""Camera models through JSON objects, parameter vectors and calibration files."""
PRELOAD = ["io", "dataset"]
BOUNDS = "every projection type; parameters in [-5, 5], focals in [0.05, 20], image sizes 0..10^5"
ASSUMPTIONS = ["doubles are real numbers", "JSON keeps doubles exactly (shortest round-trip notation)",
               "the camera class is a reference model of the native one"]

DIST = {"brown": ["k1", "k2", "k3", "p1", "p2"], "fisheye_opencv": ["k1", "k2", "k3", "k4"],
        "fisheye62": ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2"],
        "fisheye624": ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3"],
        "radial": ["k1", "k2"], "simple_radial": ["k1"],
        "perspective": ["k1", "k2"], "fisheye": ["k1", "k2"], "dual": ["k1", "k2"], "spherical": []}
TYPES = list(DIST)


def make(ctx, w, pt, p="", id="cam", zero=()):
    """A camera with unknown parameters, and its parameters by name."""
    C = w.mod("pygeometry").Camera
    v = {k: ctx.real(p + k, -5, 5) for k in DIST[pt]}
    if pt != "spherical":
        v["focal"] = ctx.real(p + "focal", 0.05, 20)
    if pt in ("brown", "fisheye_opencv", "fisheye62", "fisheye624", "radial", "simple_radial"):
        v["aspect_ratio"] = ctx.real(p + "aspect", 0.05, 20)
        v["cx"], v["cy"] = ctx.real(p + "cx", -5, 5), ctx.real(p + "cy", -5, 5)
        d = [v[k] for k in DIST[pt]]
        f = getattr(C, "create_" + pt)
        c = f(v["focal"], v["aspect_ratio"], ctx.array([v["cx"], v["cy"]]), d[0] if pt == "simple_radial" else ctx.array(d))
    elif pt == "dual":
        v["transition"] = ctx.real(p + "transition", 0, 1)
        c = C.create_dual(v["transition"], v["focal"], v["k1"], v["k2"])
    elif pt == "spherical":
        c = C.create_spherical()
    else:
        c = getattr(C, "create_" + pt)(v["focal"], v["k1"], v["k2"])
    c.id = id
    c.width, c.height = ctx.int(p + "width", 0, 100000), ctx.int(p + "height", 0, 100000)
    return c, v


def same(ctx, c, v, pt, id, size, label):
    ctx.check(c.projection_type == pt, label + ": projection type")
    ctx.check(c.id == id, label + ": name")
    ctx.eq([c.width, c.height], list(size), label + ": image size")
    for k, x in v.items():
        if k in ("cx", "cy"):
            ctx.eq(c.principal_point["xy".index(k[1])], x, label + ": " + k)
        else:
            ctx.eq(getattr(c, k), x, label + ": " + k)


def forms(ctx, w, pt):
    io = w.mod("io")
    c, v = make(ctx, w, pt)
    size = c.width, c.height
    import io as pyio
    same(ctx, io.camera_from_json("cam", io.camera_to_json(c)), v, pt, "cam", size, "object")
    same(ctx, io.camera_from_json("cam", io.json_loads(io.json_dumps(io.camera_to_json(c)))), v, pt, "cam", size, "text")
    vec = io.camera_to_vector(c)
    same(ctx, io.camera_from_vector("cam", c.width, c.height, pt, vec), v, pt, "cam", size, "vector")
    same(ctx, c, v, pt, "cam", size, "original")
    io.camera_to_vector(io.camera_from_vector("other", c.width, c.height, pt, list(reversed(vec))))
    del pyio


def files(ctx, w, a, b):
    """Calibration files of several cameras."""
    io = w.mod("io")
    c, v = make(ctx, w, a, "a_", "one cam")
    d, u = make(ctx, w, b, "b_", "other cam")
    cams = {"one cam": c, "other cam": d}
    ds = w.dataset(["x.jpg"])
    ds.save_camera_models(cams)
    ds.save_camera_models_overrides({"other cam": d})
    for got, label in ((ds.load_camera_models(), "file"), (io.cameras_from_json(io.cameras_to_json(cams)), "objects")):
        ctx.check(sorted(got) == sorted(cams), label + ": cameras")
        same(ctx, got["one cam"], v, a, "one cam", (c.width, c.height), label)
        same(ctx, got["other cam"], u, b, "other cam", (d.width, d.height), label)
    got = ds.load_camera_models_overrides()
    ctx.check(sorted(got) == ["other cam"], "overrides: cameras")
    same(ctx, got["other cam"], u, b, "other cam", (d.width, d.height), "overrides")


HARNESSES = [
    dict(name="stored forms", fn=forms, params=[dict(pt=t) for t in TYPES]),
    dict(name="calibration files", fn=files, params=[dict(a=a, b=TYPES[i - 1]) for i, a in enumerate(TYPES)]),
]
