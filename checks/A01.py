"""Moving a reconstruction by a similarity."""
from checks.I02 import pose, vec
from checks.L02 import forward, mm, mv, similarity
from checks.R02 import value

PRELOAD = ["align", "types", "pymap"]
BOUNDS = "reconstructions of one camera, a rig of up to three cameras with two instances, a single image and two points; every pose, rig geometry, point and similarity"
ASSUMPTIONS = ["doubles are real numbers", "the map and pose classes are reference models of the native ones"]


def moves(ctx, w, rig, n=2, insts=1, whole=False):
    """Every point and camera moves; the cameras see what they saw."""
    A, T, G, M = w.mod("align"), w.mod("types"), w.mod("pygeometry"), w.mod("pymap")
    rec = T.Reconstruction()
    cam = G.Camera.create_perspective(ctx.real("f", 0.5, 2), ctx.real("k1", -0.1, 0.1), ctx.real("k2", -0.1, 0.1))
    cam.id, cam.width, cam.height = "model", 100, 50
    params = [cam.focal, cam.k1, cam.k2]
    rec.add_camera(cam)
    if rig:
        cams = ["L", "R", "M"][:n]
        for c in cams:
            rec.add_rig_camera(M.RigCamera(pose(ctx, w, "rig" + c)[0], c))
        for i in range(insts):
            rec.add_rig_instance(M.RigInstance("inst%d" % i))
            rec.rig_instances["inst%d" % i].pose = pose(ctx, w, "inst%d" % i)[0]
            for c in cams[:max(1, n - i)]:
                rec.create_shot("%s%d" % (c, i), "model", rig_camera_id=c, rig_instance_id="inst%d" % i)
    rec.create_shot("single", "model", pose(ctx, w, "single")[0])
    pts = {p: vec(ctx, p) for p in ("p0", "p1")}
    for k, (p, x) in enumerate(pts.items()):
        rec.create_point(p, x)
        rec.points[p].color = [k, 100, 200 + k]
        rec.add_observation("single", p, M.Observation(0.25 * k, -0.5, 0.004, 1, 2, 3, k))
    before = {s: value(rec.shots[s].pose) for s in rec.shots}
    centre = {s: list(rec.shots[s].pose.get_origin()) for s in rec.shots}
    sim = similarity(ctx, "sim")
    if whole:
        sim = (ctx.real("scale", 0.1, 10),) + sim[1:]
        gcp = object()

        def stub(*a, **k):
            return sim[0], ctx.array(sim[2]), ctx.array(sim[3])

        w.patch(A, "compute_reconstruction_similarity", stub)
        res = A.align_reconstruction(rec, [], {"bundle_compensate_gps_bias": False})
        ctx.check(res is not None, "similarity returned")
    else:
        A.apply_similarity(rec, sim[0], ctx.array(sim[2]), ctx.array(sim[3]))
    s = sim[0]
    ctx.check(set(rec.shots) == set(before) and set(rec.points) == set(pts), "images and points")
    for p, x in pts.items():
        y = forward(sim, x)
        ctx.eq(list(rec.points[p].coordinates), y, "moved point", 1e-7)
        for im, (R, t) in before.items():
            R2, t2 = value(rec.shots[im].pose)
            seen = [a + b for a, b in zip(mv(R2, y), t2)]
            ctx.eq(seen, [s * (a + b) for a, b in zip(mv(R, x), t)], "point seen by the camera", 1e-6)
    for im, (R, t) in before.items():
        ctx.eq(list(rec.shots[im].pose.get_origin()), forward(sim, centre[im]), "moved camera centre", 1e-6)
        R2, t2 = value(rec.shots[im].pose)
        ctx.eq(mm(R2, sim[2]), R, "moved camera orientation", 1e-7)
    c = rec.cameras["model"]
    ctx.eq([c.focal, c.k1, c.k2], params, "calibration")
    ctx.check((c.width, c.height) == (100, 50), "image size")
    for k, p in enumerate(pts):
        ctx.check([int(v) for v in rec.points[p].color] == [k, 100, 200 + k], "colour")
        o = rec.points[p].get_observations()
        ctx.check({sh.id: f for sh, f in o.items()} == {"single": k}, "observations")
        ob = rec.shots["single"].get_observation(k)
        ctx.eq(list(ob.point), [0.25 * k, -0.5], "observation")


HARNESSES = [
    dict(name="moves", fn=moves, params=[dict(rig=False), dict(rig=True), dict(rig=False, whole=True), dict(rig=True, n=1, insts=2)], thorough=[dict(rig=True, insts=2), dict(rig=True, n=3), dict(rig=True, whole=True)]),
]
