"""Rig instances from image names, and the assignments used afterwards."""
import itertools

PRELOAD = ["rig", "types", "reconstruction_helpers", "dataset"]
BOUNDS = "up to 4 images with any stem, tag and order, up to 4 naming patterns in any order; assignments of up to 3 images"
ASSUMPTIONS = ["file names are drawn from stems and tags chosen by the solver", "the map classes are reference models of the native ones"]
PATTERNS = {"left": "(_L)", "right": "(_R)", "all": "(^whole.*$)", "front": "(^front)"}
# name parts: (prefix, stem, tag); a pattern removes its part
NAMES = [(p, s, t) for p in ("", "front") for s in ("1", "2") for t in ("", "_L", "_R", "_L_R")]


def expected(p, s, t, order):
    """(rig camera, rest) by construction of the name."""
    if s == "whole":
        return None, None
    for o in order:
        if o == "left" and "_L" in t:
            return o, p + s + t.replace("_L", "") + ".jpg"
        if o == "right" and "_R" in t:
            return o, p + s + t.replace("_R", "") + ".jpg"
        if o == "front" and p == "front":
            return o, s + t + ".jpg"
    return None, None


ORDERS = [["left", "right"], ["right", "left"], ["front", "left", "right"], ["all", "right", "front", "left"], ["left"], []]


def grouping(ctx, w, n, order, first, pool=None):
    rig = w.mod("rig")
    parts = []
    ks = []
    for k in range(n):
        if pool:
            j = pool[ctx.choice("name%d" % k, len(pool))]
        else:
            j = first if k == 0 else ctx.choice("name%d" % k, len(NAMES) + 1)
        ks.append(j)
        parts.append(("", "whole", "") if j == len(NAMES) else NAMES[j])
    ctx.assume(len(set(ks)) == n)
    ims = [p + s + t + ".jpg" for p, s, t in parts]
    order = ORDERS[order]
    inst, single = rig.create_instances_with_patterns(list(ims), {o: PATTERNS[o] for o in order})
    want = {im: expected(p, s, t, order) for im, (p, s, t) in zip(ims, parts)}
    groups = {}
    for im in ims:
        groups.setdefault(want[im][1], set()).add((im, want[im][0]))
    lone = {im for im, _ in groups.pop(None, set())}
    ctx.check(len(single) == len(set(single)) and set(single) == lone, "single images")
    listed = [im for i in inst.values() for im, _ in i]
    ctx.check(sorted(listed + list(single)) == sorted(ims), "every image exactly once")
    ctx.check(sorted(sorted(map(tuple, i)) for i in inst.values()) == sorted(sorted(g) for g in groups.values()), "instances")
    # grouping of the instances by their set of rig cameras
    by = rig.group_instances(inst)
    flat = sorted(sorted(map(tuple, i)) for l in by.values() for i in l)
    ctx.check(flat == sorted(sorted(g) for g in groups.values()), "groups keep every instance")
    sets = [{frozenset(c for _, c in i) for i in l} for l in by.values()]
    ctx.check(all(len(s) == 1 for s in sets) and len({next(iter(s)) for s in sets}) == len(sets), "one group per set of rig cameras")
    for im in ims:
        got = rig.find_image_rig(im, {o: PATTERNS[o] for o in order})
        ctx.check(tuple(got) == want[im], "rig of an image")


def assigned(ctx, w, old, first=0, calibrated=False):
    """Assignments through their file, per image, and in a reconstruction."""
    rig, M, T, H = w.mod("rig"), w.mod("pymap"), w.mod("types"), w.mod("reconstruction_helpers")
    ims = ["a.jpg", "b.jpg", "c.jpg", "d.jpg"]
    data = w.dataset(ims)
    inst, cam, has = [], [], []
    for k in range(3):
        inst.append(ctx.choice("inst%d" % k, 3) if k else first)
        cam.append(ctx.choice("cam%d" % k, 2) if k else 0)
    table = {}
    for k in range(3):
        if inst[k] == 2:
            continue
        for (o, c) in table.get("i%d" % inst[k], []):
            ctx.assume(c != "rc%d" % cam[k])
        table.setdefault("i%d" % inst[k], []).append((ims[k], "rc%d" % cam[k]))
    if old:
        with data.io_handler.open_wt("/data/rig_assignments.json") as f:
            w.mod("io").json_dump(list(table.values()), f)
    else:
        data.save_rig_assignments(table)
    got = data.load_rig_assignments()
    norm = lambda t: sorted(sorted(tuple(x) for x in i) for i in t.values())
    ctx.check(norm(got) == norm(table) and (old or sorted(got) == sorted(table)), "assignments read back")
    per = rig.rig_assignments_per_image(got)
    where = {im: i for i, l in table.items() for im, _ in l}
    ctx.check(set(per) == set(where), "assigned images")
    for im in where:
        i, c, mates = per[im]
        ctx.check(c == dict(table[where[im]])[im] and sorted(mates) == sorted(o for o, _ in table[where[im]]), "assignment of an image")
        ctx.check(old or i == where[im], "instance of an image")
    for a, b in itertools.combinations(sorted(where), 2):
        ctx.check((per[a][0] == per[b][0]) == (where[a] == where[b]), "same instance")
    # initial reconstruction from the measured positions
    exif = {}
    pos = {}
    for k, im in enumerate(ims):
        lost = bool(ctx.flag("lost%d" % k)) if k in (0, 3) else False
        pos[im] = None if lost else [ctx.real("%s%s" % (v, im[0]), -100, 100) for v in "xy"]
        exif[im] = dict(camera="cam%d" % (k % 2), orientation=1)
        if not lost:
            exif[im]["gps"] = dict(latitude=pos[im][0], longitude=pos[im][1])

    class Ref:
        lat = lon = alt = 0.0

        def to_topocentric(self, a, b, c):
            return a, b, c

    G = w.mod("pygeometry")
    cams = {}
    for c in ("cam0", "cam1"):
        cams[c] = G.Camera.create_spherical()
        cams[c].id = c

    calib = {}
    from checks.I02 import pose
    if calibrated:
        for c in ("rc0", "rc1"):
            calib[c] = M.RigCamera(pose(ctx, w, c)[0], c)

    class Data:
        config = dict(use_altitude_tag=False)

        def init_reference(self, images=None):
            pass

        def load_reference(self):
            return Ref()

        def load_rig_cameras(self):
            return calib

        def load_rig_assignments(self):
            return data.load_rig_assignments()

        def load_camera_models(self):
            return cams

        def load_exif(self, im):
            return exif[im]

    w.patch(H, "rotation_from_shot_metadata", lambda shot: None)
    # the reference is only stored
    w.patch(T.Reconstruction, "set_reference", lambda self, r: None)
    w.patch(T.Reconstruction, "reference", property(lambda self: None, lambda self, r: None))
    rec = H.reconstruction_from_metadata(Data(), ims)
    ctx.check(set(rec.shots) == {im for im in ims if pos[im]}, "images with a position")
    for im in rec.shots:
        s = rec.shots[im]
        mates = set(rec.rig_instances[s.rig_instance_id].shots)
        if im in where:
            ctx.check(s.rig_camera_id == dict(table[where[im]])[im], "rig camera in the reconstruction")
            ctx.check(mates == {o for o, _ in table[where[im]] if pos[o]}, "instance in the reconstruction")
        else:
            ctx.check(s.rig_camera_id == exif[im]["camera"] and mates == {im}, "image without assignment")
            ctx.eq(list(s.pose.get_origin())[:2], pos[im], "position of an image")
    for i, l in table.items():
        seen = [im for im, _ in l if pos[im]]
        if not seen:
            continue
        # the instance stands where one of its images was measured
        near = [rec.shots[im].pose.get_origin() for im in seen]
        if len(seen) == 1:
            ctx.eq(list(near[0])[:2], pos[seen[0]], "instance at the measured position", 1e-7)
        elif not calibrated:
            ok = False
            for im, o in zip(seen, near):
                ok = ok or bool(((o[0] - pos[im][0]) ** 2 + (o[1] - pos[im][1]) ** 2) <= 1e-12)
            ctx.check(ok, "instance at a measured position")
        for im in seen:
            c = dict(table[where[im]])[im]
            want = calib[c].pose if c in calib else G.Pose()
            rel = rec.shots[im].pose.relative_to(rec.rig_instances[rec.shots[im].rig_instance_id].pose)
            ctx.eq([list(r) for r in rel.get_rotation_matrix()] + [list(rel.translation)],
                   [list(r) for r in want.get_rotation_matrix()] + [list(want.translation)], "calibration of the rig", 1e-7)


HARNESSES = [
    dict(name="grouping", fn=grouping, params=[dict(n=3, order=o, first=f) for o in (0, 2, 3) for f in (1, 3, 9, 16)] + [dict(n=2, order=o, first=f) for o in (1, 4, 5) for f in (0, 2, 11)] + [dict(n=4, order=0, first=0, pool=[1, 2, 5, 6])],
         thorough=[dict(n=4, order=o, first=f) for o in (0, 1, 2, 3) for f in (1, 2, 3, 6, 9, 11)] + [dict(n=3, order=o, first=f) for o in range(6) for f in range(17)]),
    dict(name="assigned", fn=assigned, params=[dict(old=False), dict(old=True), dict(old=False, first=2), dict(old=False, calibrated=True)], thorough=[dict(old=False, first=1), dict(old=True, first=2), dict(old=False, first=2, calibrated=True)]),
]
