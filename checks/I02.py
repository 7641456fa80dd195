"""Reconstructions through the JSON file format."""
from checks import I01

PRELOAD = ["io", "types"]
BOUNDS = "reconstructions of two cameras, a two-camera rig instance, one or two single shots, a panorama shot and two points; every measurement present or absent"
ASSUMPTIONS = ["doubles are real numbers", "JSON keeps doubles exactly",
               "the map and camera classes are reference models of the native ones"]


def vec(ctx, name, n=3, lim=1000):
    return [ctx.real("%s%d" % (name, k), -lim, lim) for k in range(n)]


def pose(ctx, w, name):
    r, R = ctx.rotation(name + "_r")
    t = vec(ctx, name + "_t")
    return w.mod("pygeometry").Pose(ctx.array(r), ctx.array(t)), ([list(x) for x in R], t)


def same_pose(ctx, p, want, label):
    R, t = want
    ctx.eq([list(x) for x in p.get_rotation_matrix()], R, label + " rotation")
    ctx.eq(list(p.translation), t, label + " translation", 1e-6)


FIELDS = [("orientation", 0), ("capture_time", 1), ("gps_accuracy", 1), ("gps_position", 3), ("gravity_down", 3),
          ("compass_angle", 1), ("compass_accuracy", 1), ("sequence_key", "text")]


def measurements(ctx, w, name, mask):
    m = w.mod("pymap").ShotMeasurements()
    v = {}
    for k, (f, n) in enumerate(FIELDS):
        if mask & (1 << k):
            if n == 0:
                x = ctx.int(name + f, 0, 8)
            elif n == "text":
                x = "a sequence"
            elif n == 1:
                x = ctx.real(name + f, -1e9, 1e9)
            else:
                x = vec(ctx, name + f)
            v[f] = x
            getattr(m, f).value = ctx.array(x) if n == 3 else x
    return m, v


def same_measurements(ctx, m, v, label):
    for f, n in FIELDS:
        got = getattr(m, f)
        ctx.check(bool(got.has_value) == (f in v), "%s: %s present" % (label, f))
        if f in v and n == "text":
            ctx.check(got.value == v[f], "%s: %s" % (label, f))
        elif f in v:
            ctx.eq(list(got.value) if n == 3 else got.value, v[f], "%s: %s" % (label, f))


def build(ctx, w, mask, scale, cov, pano, ref, camtypes):
    T, G, M = w.mod("types"), w.mod("pygeometry"), w.mod("pymap")
    rec = T.Reconstruction()
    want = dict(cams={}, shots={}, points={})
    for k, pt in enumerate(camtypes):
        c, v = I01.make(ctx, w, pt, "c%d_" % k, "cam%d" % k)
        rec.add_camera(c)
        want["cams"]["cam%d" % k] = (v, pt, (c.width, c.height))
    r, R = ctx.rotation("bias_r")
    bt, bs = vec(ctx, "bias_t"), ctx.real("bias_s", 0.1, 10)
    rec.set_bias("cam1", G.Similarity(ctx.array(r), ctx.array(bt), bs))
    want["bias"] = ([list(x) for x in R], bt, bs)
    # a rig of two cameras
    want["rig_cams"] = {}
    for k in ("left", "right"):
        p, pv = pose(ctx, w, k)
        rec.add_rig_camera(M.RigCamera(p, k))
        want["rig_cams"][k] = pv
    p, pv = pose(ctx, w, "instance")
    rec.add_rig_instance(M.RigInstance("inst"))
    rec.rig_instances["inst"].pose = p
    want["instance"] = pv
    for k, (s, rc) in enumerate((("s_left", "left"), ("s_right", "right"))):
        rec.create_shot(s, "cam%d" % k, rig_camera_id=rc, rig_instance_id="inst")
        want["shots"][s] = dict(cam="cam%d" % k, rc=rc, ri="inst")
    p, pv = pose(ctx, w, "single")
    rec.create_shot("single", "cam0", p)
    want["shots"]["single"] = dict(cam="cam0", rc="cam0", ri="single", pose=pv)
    if pano:
        p, pv = pose(ctx, w, "pano")
        rec.create_pano_shot("pano", "cam1", p)
        want["pano"] = dict(cam="cam1", pose=pv)
    for k, s in enumerate(list(want["shots"])):
        d = want["shots"][s]
        m, v = measurements(ctx, w, s + "_", mask if k == 0 else mask ^ 255 if k == 1 else 255)
        rec.shots[s].metadata = m
        d["meas"] = v
        if scale:
            d["scale"] = ctx.real(s + "_scale", -5, 5)
            rec.shots[s].scale = d["scale"]
            d["cc"] = ctx.int(s + "_cc", 0, 1000)
            rec.shots[s].merge_cc = d["cc"]
        if cov:
            d["cov"] = [vec(ctx, "%s_cov%d_" % (s, j), 2) for j in range(2)]
            rec.shots[s].covariance = ctx.array(d["cov"])
    if pano:
        m, v = measurements(ctx, w, "pano_", mask)
        rec.pano_shots["pano"].metadata = m
        want["pano"]["meas"] = v
    for k in range(2):
        x, c = vec(ctx, "x%d_" % k), [ctx.int("col%d_%d" % (k, j), 0, 255) for j in range(3)]
        pt = rec.create_point("%d" % (k * 7), ctx.array(x))
        pt.color = ctx.array(c)
        want["points"]["%d" % (k * 7)] = (x, c)
    if ref:
        want["ref"] = [ctx.real("lat", -90, 90), ctx.real("lon", -180, 180), ctx.real("alt", -500, 9000)]
        rec.reference = w.mod("geo").TopocentricConverter(*want["ref"])
    return rec, want


def same(ctx, rec, want, label):
    ctx.check(sorted(rec.cameras.keys()) == sorted(want["cams"]), label + ": cameras")
    for k, (v, pt, size) in want["cams"].items():
        I01.same(ctx, rec.cameras[k], v, pt, k, size, label + ": camera")
    b = rec.biases["cam1"]
    ctx.eq([list(x) for x in b.get_rotation_matrix()], want["bias"][0], label + ": bias rotation")
    ctx.eq(list(b.translation) + [b.scale], want["bias"][1] + [want["bias"][2]], label + ": bias")
    b = rec.biases["cam0"]
    ctx.eq([list(x) for x in b.get_rotation_matrix()] + [list(b.translation), [b.scale]],
           [[1.0, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 0], [1]], label + ": no bias")
    for k, pv in want["rig_cams"].items():
        same_pose(ctx, rec.rig_cameras[k].pose, pv, label + ": rig camera")
    ri = rec.rig_instances["inst"]
    same_pose(ctx, ri.pose, want["instance"], label + ": rig instance")
    ctx.check(dict(ri.rig_camera_ids) == {"s_left": "left", "s_right": "right"}, label + ": rig instance members")
    extra = {"inst", "single"} | ({"panoshot_pano"} if "pano" in want else set())
    ctx.check(set(rec.rig_instances.keys()) == extra, label + ": rig instances")
    ctx.check(sorted(rec.shots.keys()) == sorted(want["shots"]), label + ": shots")
    for k, d in want["shots"].items():
        s = rec.shots[k]
        ctx.check((s.camera.id, s.rig_camera_id, s.rig_instance_id) == (d["cam"], d["rc"], d["ri"]), label + ": shot references")
        if "pose" in d:
            same_pose(ctx, s.pose, d["pose"], label + ": shot pose")
        same_measurements(ctx, s.metadata, d["meas"], label + ": shot")
        if "scale" in d:
            ctx.eq([s.scale, s.merge_cc], [d["scale"], d["cc"]], label + ": shot scale and group")
        if "cov" in d:
            ctx.eq([list(x) for x in s.covariance], d["cov"], label + ": shot covariance")
    ctx.check(sorted(rec.pano_shots.keys()) == (["pano"] if "pano" in want else []), label + ": panoramas")
    if "pano" in want:
        s, d = rec.pano_shots["pano"], want["pano"]
        ctx.check(s.camera.id == d["cam"], label + ": panorama camera")
        same_pose(ctx, s.pose, d["pose"], label + ": panorama pose")
        same_measurements(ctx, s.metadata, d["meas"], label + ": panorama")
    ctx.check(sorted(rec.points.keys()) == sorted(want["points"]), label + ": points")
    for k, (x, c) in want["points"].items():
        ctx.eq(list(rec.points[k].coordinates), x, label + ": point coordinates")
        ctx.eq(list(rec.points[k].color), c, label + ": point colour")
    if "ref" in want:
        ctx.eq([rec.reference.lat, rec.reference.lon, rec.reference.alt], want["ref"], label + ": reference")


def roundtrip(ctx, w, mask=255, scale=1, cov=1, pano=1, ref=1, camtypes=("perspective", "brown"), via="text"):
    io = w.mod("io")
    rec, want = build(ctx, w, mask, scale, cov, pano, ref, camtypes)
    if via == "text":
        obj = io.json_loads(io.json_dumps(io.reconstructions_to_json([rec])))
        got = io.reconstructions_from_json(obj)
    else:
        ds = w.dataset(["x.jpg"])
        ds.save_reconstruction([rec], "r.json", minify=via == "minified")
        got = ds.load_reconstruction("r.json")
    ctx.check(len(got) == 1, "one reconstruction")
    same(ctx, got[0], want, "read back")
    same(ctx, rec, want, "original")


def rigs(ctx, w):
    """Rig cameras and assignments kept in files of their own."""
    M = w.mod("pymap")
    ds = w.dataset(["x.jpg"])
    cams = {"cam%d" % k: I01.make(ctx, w, "perspective", "c%d_" % k, "cam%d" % k)[0] for k in range(2)}
    ds.save_camera_models(cams)
    p, pv = pose(ctx, w, "left")
    q, qv = pose(ctx, w, "cam1")
    ds.save_rig_cameras({"left": M.RigCamera(p, "left"), "cam1": M.RigCamera(q, "cam1")})
    got = ds.load_rig_cameras()
    ctx.check(sorted(got) == ["cam0", "cam1", "left"], "rig cameras")
    same_pose(ctx, got["left"].pose, pv, "rig camera")
    same_pose(ctx, got["cam1"].pose, qv, "overridden rig camera")
    same_pose(ctx, got["cam0"].pose, ([[1.0, 0, 0], [0, 1, 0], [0, 0, 1]], [0.0, 0, 0]), "default rig camera")
    ctx.check(all(v.id == k for k, v in got.items()), "rig camera names")


def metadata(ctx, w, mask):
    io = w.mod("io")
    m, v = measurements(ctx, w, "m_", mask)
    r = io.json_to_pymap_metadata(io.json_loads(io.json_dumps(io.pymap_metadata_to_json(m))))
    same_measurements(ctx, r, v, "measurements")


HARNESSES = [
    dict(name="reconstruction", fn=roundtrip, params=[
        dict(), dict(via="file"), dict(via="minified", pano=0), dict(mask=0), dict(scale=0, cov=0, ref=0), dict(mask=0xAA, pano=0), dict(mask=0x55, cov=0),
        dict(camtypes=("spherical", "fisheye")), dict(camtypes=("dual", "fisheye624")), dict(camtypes=("radial", "fisheye62")),
        dict(camtypes=("simple_radial", "fisheye_opencv"))]),
    dict(name="rig files", fn=rigs),
    dict(name="measurements", fn=metadata, params=[dict(mask=m) for m in range(0, 256, 3)], thorough=[dict(mask=m) for m in range(256)]),
]
