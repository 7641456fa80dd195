"""Incremental reconstruction over every outcome of its numeric steps."""
import itertools

import numpy as np

PRELOAD = ["reconstruction", "types", "pymap", "dataset", "multiview"]
BOUNDS = "4 or 5 images, with and without a rig instance of two, several sets of tracks and rankings of the pairs; every outcome of each bootstrap, each triangulation after it, each resection and each outlier removal"
ASSUMPTIONS = ["bundle adjustment, alignment, two-view geometry, the resection kernel and the triangulation kernels are stand-ins whose success or failure is chosen by the solver",
               "the map and pose classes are reference models of the native ones"]

SCENES = {
    # images -> groups of images that share six points
    "all": ("abcd", ["abcd"]),
    "chain": ("abcde", ["abc", "bcd", "cde"]),
    "line": ("abcd", ["abc", "bcd"]),
    "apart": ("abcde", ["abc", "de"]),
    "star": ("abcd", ["abc", "abd"]),
}


def build(ctx, w, images, groups, rigs, config):
    M, G = w.mod("pymap"), w.mod("pygeometry")
    data = w.dataset([i + ".jpg" for i in images])
    cams = {}
    for c in ("cam0", "cam1"):
        cams[c] = G.Camera.create_spherical()
        cams[c].id = c
    for k, i in enumerate(images):
        data.save_exif(i + ".jpg", dict(camera="cam%d" % (k % 2), orientation=1, width=100, height=50))
    data.save_camera_models(cams)
    rcs = {}
    for r in ("left", "right"):
        rcs[r] = M.RigCamera(G.Pose(), r)
    data.save_rig_cameras(rcs)
    data.save_rig_assignments({"inst%d" % k: [(i + ".jpg", r) for i, r in zip(m, ("left", "right"))] for k, m in enumerate(rigs)})
    data.config.update(dict(processes=1, triangulation_type="FULL", five_point_algo_min_inliers=5, resection_min_inliers=5, save_partial_reconstructions=False, filter_final_point_cloud=False), **config)
    tm = M.TracksManager()
    n = 0
    for g in groups:
        for _ in range(6):
            for i in g:
                tm.add_observation(i + ".jpg", "%d" % n, M.Observation(0.01 * images.index(i), 0.02 * n, 1.0, n, 2, 3, n))
            n += 1
    return data, tm


def incremental(ctx, w, scene, rigs, order, lose=0, procs=1, **config):
    R, M, G, MV = w.mod("reconstruction"), w.mod("pymap"), w.mod("pygeometry"), w.mod("multiview")
    images, groups = SCENES[scene]
    data, tm = build(ctx, w, images, groups, rigs, dict(config, processes=procs))
    name = lambda i: i + ".jpg"
    mates = {i: next((m for m in rigs if i in m), i) for i in images}
    pairs = [p for p in itertools.combinations(images, 2) if sum(p[0] in g and p[1] in g for g in groups)]
    pairs = pairs[order:] + pairs[:order]
    if order % 2:
        pairs = [(b, a) for a, b in pairs]
    ranked = [(name(a), name(b)) for a, b in pairs]
    state = dict(boot=0, tries=0, few=False, seen=None, left=lose, log=[])

    def two_view(*a, **k):
        state["boot"] += 1
        ctx.check(state["boot"] <= len(pairs), "each pair at most once")
        s = state["boot"]
        out = 2 if ctx.flag("boot%d" % s) else int(bool(ctx.flag("few%d" % s)))
        state["few"] = out == 1
        state["log"].append(("boot", out == 2))
        if out == 0:
            return None, None, [], {}
        return np.eye(3), np.array([1.0, 0.0, 0.0]), list(range(6)), {}

    def bearing(self, p):
        state["seen"] = images[int(round(float(p[0]) / 0.01))]
        a = 0.1 + 0.13 * round(float(p[1]) / 0.02)
        return np.array([np.cos(a), 0.0, np.sin(a)])

    def ransac(bs, Xs, *a):
        ok = bool(ctx.flag("resect%d" % state["tries"]))
        state["tries"] += 1
        if state["tries"] > 12:
            raise RuntimeError("growing does not end")
        state["log"].append(("resect", state["seen"], ok))
        d = 1.0 if ok else -1.0
        return np.array([[d, 0, 0, 0], [0, 1.0, 0, 0], [0, 0, d, 0]])

    def midpoint(os, bs, thr, angle, depth):
        if state["few"]:
            return False, np.zeros(3)
        return True, np.array([1e6 * float(x) for x in bs[0]])

    times = dict(run=1.0, setup=0.0, teardown=0.0)

    def report():
        state["adjusted"] = state.get("adjusted", 0) + 1
        if state["adjusted"] > 200:
            raise RuntimeError("growing does not end")
        return dict(wall_times=dict(times), num_images=1, num_points=1, num_reprojections=1, brief_report="")

    class BA:
        bundle = staticmethod(lambda *a: report())
        bundle_shot_poses = staticmethod(lambda *a: report())
        bundle_local = staticmethod(lambda m, cp, rp, gcp, s, cfg: (list(m.get_landmarks().keys()), report()))

    class SFM:
        BAHelpers = BA

        @staticmethod
        def count_tracks_per_shot(tm, shots, tracks):
            t = set(tracks)
            return {s: sum(x in t for x in tm.get_shot_observations(s)) for s in shots}

    def errors(self, tm, kind):
        bad = set()
        if state["left"] and self.get_landmarks():
            state["left"] -= 1
            if ctx.flag("lost%d" % state["left"]):
                bad = set(sorted(self.get_landmarks().keys())[:3])
        out = {}
        for s in self.get_shots().values():
            out[s.id] = {lm.id: np.array([1.0 if lm.id in bad else 0.0, 0.0]) for lm in s.get_valid_landmarks()}
        return out

    w.patch(R, "compute_image_pairs_sequential", lambda *a, **k: list(ranked))
    w.patch(R, "compute_image_pairs", lambda *a, **k: list(ranked))
    w.patch(w.mod("tracking"), "all_common_tracks_with_features", lambda *a, **k: {p: (["0"], np.zeros((6, 2)), np.zeros((6, 2))) for p in ranked})
    w.patch(R, "two_view_reconstruction_general", two_view)
    w.patch(R, "align_reconstruction", lambda *a, **k: True)
    w.patch(R, "pysfm", SFM)
    w.patch(R, "current_memory_usage", lambda: 0)
    w.patch(MV, "absolute_pose_ransac", ransac)
    w.patch(G.Camera, "pixel_bearing", bearing)
    w.patch(G.Camera, "pixel_bearing_many", lambda self, ps: np.array([bearing(self, p) for p in ps]))
    w.patch(G, "triangulate_bearings_midpoint", midpoint)
    w.patch(G, "point_refinement", lambda os, bs, x, n: x)
    w.patch(M.Map, "compute_reprojection_errors", errors)

    rep, recs = R.incremental_reconstruction(data, tm)

    sizes = [len(r.shots) for r in recs]
    ctx.check(sizes == sorted(sizes, reverse=True), "largest first")
    inside = {}
    for k, r in enumerate(recs):
        for s in r.shots:
            ctx.check(s not in inside, "at most one reconstruction per image")
            inside[s] = k
    for i in images:
        for j in mates[i]:
            ctx.check(inside.get(name(i)) == inside.get(name(j)), "a rig instance is in one reconstruction")
    left = list(rep["not_reconstructed_images"])
    ctx.check(sorted(left) == sorted(name(i) for i in images if name(i) not in inside), "images left")
    ctx.check(len(recs) == sum(1 for e in state["log"] if e[0] == "boot" and e[1]), "every start that worked is returned")
    for r in recs:
        inst = {}
        for s in r.shots.values():
            i = s.id[0]
            ctx.check(s.camera.id == "cam%d" % (images.index(i) % 2), "camera of an image")
            inst.setdefault(s.rig_instance_id, set()).add(i)
            rc = s.rig_camera_id
            ctx.check(rc == ("left", "right")[mates[i].index(i)] if len(mates[i]) > 1 else True, "rig camera of an image")
        ctx.check(sorted(map(sorted, inst.values())) == sorted({tuple(sorted(mates[s[0]])) for s in r.shots}, key=list) or
                  sorted(map(sorted, inst.values())) == sorted([sorted(m) for m in {mates[s[0]] for s in r.shots}]), "rig instances")
        for p in r.points.values():
            ctx.check(len(p.get_observations()) >= 2, "points are seen twice")
            for s, f in p.get_observations().items():
                ctx.check(f == int(p.id) and name(s.id[0]) in tm.get_track_observations(p.id), "observations come from the tracks")
    # replay of the outcomes: what must be in each reconstruction
    free, log, k, made = set(images), list(state["log"]), 0, []
    for a, b in pairs:
        if a not in free or b not in free:
            continue
        ctx.check(k < len(log) and log[k][0] == "boot", "the pair is tried")
        ok = log[k][1]
        k += 1
        if not ok:
            continue
        cur = set(mates[a]) | set(mates[b])
        free -= cur
        failed = set()
        while k < len(log) and log[k][0] == "resect":
            _, i, good = log[k]
            k += 1
            ctx.check(i in free and i not in failed, "only images left are added")
            if good:
                cur |= set(mates[i])
                free -= set(mates[i])
                failed = set()
            else:
                failed.add(i)
        made.append((cur, failed))
    ctx.check(k == len(log), "nothing else is tried")
    ctx.check(sorted(sorted(c) for c, _ in made) == sorted(sorted(s[0] for s in r.shots) for r in recs), "content of the reconstructions")
    at = {}
    for c, failed in made:
        r = next(r for r in recs if {s[0] for s in r.shots} == c)
        # an image left at the end of growth that shares enough points was tried after the last success
        later = set()
        for c2, _ in made[made.index((c, failed)) + 1:]:
            later |= c2
        for i in set(images) - set().union(*[x for x, _ in made[:made.index((c, failed)) + 1]]):
            common = sum(t in r.points for t in tm.get_shot_observations(name(i)))
            if common >= 5 and not lose:
                ctx.check(i in failed, "every image that could be added was tried")
    # nothing shared between the reconstructions
    for r, q in itertools.combinations(recs, 2):
        ctx.check(r.map is not q.map, "separate maps")
    steps = [s for x in rep["reconstructions"] if "grow" in x for s in x["grow"]["steps"]]
    ctx.check(sorted(i for s in steps for i in s["images"]) == sorted(name(j) for e in log if e[0] == "resect" and e[2] for j in mates[e[1]]), "reported steps")


def prior(ctx, w, n):
    """Reconstruction from known poses: images, poses and reference stay."""
    R, M, G, T = w.mod("reconstruction"), w.mod("pymap"), w.mod("pygeometry"), w.mod("types")
    images = "abcd"
    data, tm = build(ctx, w, images, ["abcd", "ab"], ["ab"], {})
    rec = T.Reconstruction()
    rec.reference = w.mod("geo").TopocentricConverter(*[ctx.real(v, -80, 80) for v in ("lat", "lon", "alt")])
    data.save_reference(w.mod("geo").TopocentricConverter(0.0, 0.0, 0.0))
    rec.cameras = data.load_camera_models()
    rec.rig_cameras = data.load_rig_cameras()
    assign = R.rig.rig_assignments_per_image(data.load_rig_assignments())
    poses, inst = {}, {}
    has = []
    for i in ("ab", "c", "d"):
        if not ctx.flag("prior." + i):
            continue
        has.append(i)
        p = G.Pose()
        p.set_rotation_matrix(ctx.array([list(r) for r in (ctx.rotation("r")[1] if i == "ab" else np.eye(3))]))
        poses[i] = [ctx.real("o%s%s" % (i, v), -40, 40) for v in "xyz"]
        p.set_origin(ctx.array(poses[i]))
        R.add_shot(data, rec, assign, i[0] + ".jpg", p)
    good = [bool(ctx.flag("good%d" % k)) for k in range(2)]
    pts = [[ctx.real("p%d%s" % (k, v), -40, 40) for v in "xyz"] for k in range(2)]
    calls = []

    def midpoint(os, bs, thr, angle, depth):
        calls.append(len(os))
        k = len(calls) % 2
        return good[k], ctx.array(pts[k])

    w.patch(G.Camera, "pixel_bearing", lambda self, p: np.array([0.0, 0.0, 1.0]))
    w.patch(G.Camera, "pixel_bearing_many", lambda self, ps: np.array([[0.0, 0.0, 1.0] for p in ps]))
    w.patch(G, "triangulate_bearings_midpoint", midpoint)
    w.patch(G, "point_refinement", lambda os, bs, x, n: x)
    before = {s.id: (list(s.pose.get_origin()), s.rig_instance_id, s.rig_camera_id, s.camera.id) for s in rec.shots.values()}
    rep, out = R.reconstruct_from_prior(data, tm, rec)
    want = {i + ".jpg" for i in "".join(has)}
    ctx.check(set(out.shots) == want, "images of the prior")
    ctx.check(sorted(rep["not_reconstructed_images"]) == sorted({i + ".jpg" for i in images} - want), "images left")
    for v in ("lat", "lon", "alt"):
        ctx.eq(getattr(out.reference, v), getattr(rec.reference, v), "reference")
    for s in out.shots.values():
        o, ri, rc, c = before[s.id]
        ctx.eq(list(s.pose.get_origin()), o, "position of an image")
        ctx.eq([list(r) for r in s.pose.get_rotation_matrix()], [list(r) for r in rec.shots[s.id].pose.get_rotation_matrix()], "rotation of an image")
        ctx.check(s.rig_instance_id == ri and s.rig_camera_id == rc and s.camera.id == c, "rig and camera of an image")
    ctx.check(set(out.cameras) == set(rec.cameras), "cameras")
    ctx.check(all(t in tm.get_track_ids() for t in out.points), "points are tracks")
    for p in out.points.values():
        ctx.check({s.id for s in p.get_observations()} == set(tm.get_track_observations(p.id)) & want, "observations of a point")
    ctx.check(len(calls) == sum(len(set(tm.get_track_observations(t)) & want) >= 2 for t in tm.get_track_ids()), "tracks seen twice are triangulated")


RIGS = [[], ["ab"], ["bc"], ["ac", "bd"]]
HARNESSES = [
    dict(name="incremental", fn=incremental, opts=dict(samples=2),
         params=[dict(scene="all", rigs=[], order=0), dict(scene="star", rigs=["bc"], order=1), dict(scene="line", rigs=["bc"], order=2, local_bundle_radius=0),
                 dict(scene="apart", rigs=["ad"], order=3), dict(scene="all", rigs=["ac"], order=0, lose=2), dict(scene="star", rigs=["ab"], order=0, procs=2),
                 dict(scene="line", rigs=[], order=0, bundle_interval=1, retriangulation_ratio=0.5)],
         thorough=[dict(scene=s, rigs=r, order=o, lose=l) for s in sorted(SCENES) for r in RIGS for o in range(4) for l in (0, 3)]),
    dict(name="prior", fn=prior, params=[dict(n=1)], opts=dict(samples=2)),
]
