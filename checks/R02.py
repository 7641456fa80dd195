"""Rig calibration from a reconstruction, and placing instances with it."""
import itertools
from checks.I02 import pose, vec

PRELOAD = ["rig", "types", "reconstruction"]
BOUNDS = "rigs of up to three cameras with any relative poses, one to three instances anywhere in the world, one or two rigs, incomplete instances, any listing order"
ASSUMPTIONS = ["doubles are real numbers", "the map and pose classes are reference models of the native ones",
               "singular values are only needed of multiples of orthogonal matrices"]


def compose(a, b):
    """World to camera a after b."""
    (A, s), (B, t) = a, b
    R = [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    return R, [sum(A[i][k] * t[k] for k in range(3)) + s[i] for i in range(3)]


def inverse(a):
    A, s = a
    T = [[A[j][i] for j in range(3)] for i in range(3)]
    return T, [-sum(T[i][k] * s[k] for k in range(3)) for i in range(3)]


def value(p):
    return [list(r) for r in p.get_rotation_matrix()], list(p.translation)


def same(ctx, got, want, label, tol=1e-7):
    ctx.eq(got[0], want[0], label + " rotation", tol)
    ctx.eq(got[1], want[1], label + " translation", tol)


def scene(ctx, w, cams, instances):
    """A reconstruction of images of rigs; instances: name -> rig cameras."""
    T, G = w.mod("types"), w.mod("pygeometry")
    rec = T.Reconstruction()
    calib = {}
    for c in cams:
        cam = G.Camera.create_spherical()
        cam.id = "model"
        rec.add_camera(cam)
        calib[c] = pose(ctx, w, "rig" + c)
    return rec, calib


def calibrate(ctx, w, cams, instances, missing=()):
    """Derived rig cameras reproduce the relative poses of every instance."""
    G, rig = w.mod("pygeometry"), w.mod("rig")
    rec, calib = scene(ctx, w, cams, instances)
    table = {}
    for i, group in enumerate(instances):
        ip, _ = pose(ctx, w, "world%d" % i)
        table["inst%d" % i] = []
        for c in group:
            im = "%s_%d.jpg" % (c, i)
            table["inst%d" % i].append((im, c))
            if im in missing:
                continue
            rec.create_shot(im, "model", calib[c][0].compose(ip))
    got = rig.create_rig_cameras_from_reconstruction(rec, table)
    complete = [g for i, g in enumerate(instances) if not any("%s_%d.jpg" % (c, i) in missing for c in g)]
    want = {c for g in complete for c in g}
    ctx.check(set(got) == want, "rig cameras found")
    # the larger set of instances of one set of cameras comes first
    for g in complete:
        if not all(c in got for c in g):
            continue
        ctx.check(all(got[c].id == c for c in g), "rig camera id")
        for a, b in itertools.combinations(sorted(g), 2):
            same(ctx, value(got[b].pose.relative_to(got[a].pose)),
                 compose((calib[b][1][0], calib[b][1][1]), inverse((calib[a][1][0], calib[a][1][1]))), "relative pose")


def placed(ctx, w, n, which, assigned=True):
    """Adding an image by its pose places every image of its instance."""
    G, M, R, rig = w.mod("pygeometry"), w.mod("pymap"), w.mod("reconstruction"), w.mod("rig")
    cams = ["L", "R", "M"][:n]
    rec, calib = scene(ctx, w, cams, None)
    for c in cams:
        rec.add_rig_camera(M.RigCamera(calib[c][0], c))
    # another instance that must not move
    oth, othv = pose(ctx, w, "other")
    rec.add_rig_instance(M.RigInstance("other"))
    rec.rig_instances["other"].pose = oth
    rec.create_shot("other.jpg", "model", rig_camera_id=cams[0], rig_instance_id="other")
    ims = ["%s.jpg" % c for c in cams]
    assign = rig.rig_assignments_per_image({"one": list(zip(ims, cams)), "other": [("other.jpg", cams[0])]})
    w.patch(R.helpers, "get_image_metadata", lambda data, im: M.ShotMeasurements())

    class Data:
        def load_exif(self, im):
            return dict(camera="model")

    p, pv = pose(ctx, w, "shot")
    if not assigned:
        added = R.add_shot(Data(), rec, assign, "alone.jpg", p)
        ctx.check(set(added) == {"alone.jpg"} and set(rec.shots) == {"alone.jpg", "other.jpg"}, "one image added")
        s = rec.shots["alone.jpg"]
        ctx.check(list(rec.rig_instances[s.rig_instance_id].shots) == ["alone.jpg"], "an instance of its own")
        same(ctx, value(s.pose), pv, "pose of the image")
    else:
        added = R.add_shot(Data(), rec, assign, ims[which], p)
        ctx.check(set(added) == set(ims) and set(rec.shots) == set(ims) | {"other.jpg"}, "all images of the instance added")
        ctx.check(sorted(rec.rig_instances["one"].shots) == sorted(ims), "one instance")
        same(ctx, value(rec.shots[ims[which]].pose), pv, "pose of the image")
        for k, im in enumerate(ims):
            s = rec.shots[im]
            ctx.check(s.rig_camera_id == cams[k] and s.rig_instance_id == "one" and s.camera.id == "model", "rig of the image")
            rel = compose(calib[cams[k]][1], inverse(calib[cams[which]][1]))
            same(ctx, value(s.pose), compose(rel, pv), "pose of the images of the rig")
        ip = value(rec.rig_instances["one"].pose)
        for k, im in enumerate(ims):
            same(ctx, compose(calib[cams[k]][1], ip), value(rec.shots[im].pose), "instance pose composes back")
    same(ctx, value(rec.shots["other.jpg"].pose), compose(calib[cams[0]][1], othv), "other instances stay")
    for c in cams:
        same(ctx, value(rec.rig_cameras[c].pose), calib[c][1], "rig calibration stays")


LR, RL, LRM = ["L", "R"], ["R", "L"], ["L", "R", "M"]
O = dict(abstracted_ok=True)
HARNESSES = [
    dict(name="calibrate", fn=calibrate, params=[
        dict(cams=LR, instances=[LR]), dict(cams=LR, instances=[LR, RL]),
        dict(cams=LRM, instances=[LRM]),
        dict(cams=LRM, instances=[LR, ["M"]]), dict(cams=LR, instances=[LR, LR], missing=["R_0.jpg"]),
        dict(cams=LRM, instances=[LR, LR, LRM]),
        dict(cams=LR, instances=[LR], missing=["R_0.jpg"])],
        thorough=[dict(cams=LR, instances=[LR, RL, LR]), dict(cams=LRM, instances=[LRM, ["M", "L", "R"]])]),
    dict(name="placed", fn=placed, params=[dict(n=2, which=0), dict(n=2, which=1), dict(n=1, which=0), dict(n=3, which=1), dict(n=2, which=0, assigned=False)]),
]
