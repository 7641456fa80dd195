"""Points triangulated from tracks."""
import math

import numpy as np
from checks.I02 import pose, vec
from checks.L02 import T, mv

PRELOAD = ["reconstruction", "types", "pymap"]
BOUNDS = "5 reconstructed images (any centres, one with any rotation) and one that is not; 5 tracks, any bearings, any answer of the kernels; robust mode: tracks of 2 to 4 observations of one of two points or of none, two arbitrary draws followed by evenly spread ones"
ASSUMPTIONS = ["doubles are real numbers", "the kernels (midpoint triangulation, refinement) are stand-ins that may answer anything; robust mode: they answer the point when all rays given meet in it",
               "the map and pose classes are reference models of the native ones"]

CFG = dict(triangulation_refinement_iterations=10)
AXES = [np.eye(3), np.array([[0.0, 1, 0], [0, 0, 1], [1, 0, 0]]), np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])]


def scene(ctx, w, n, still=False):
    """n images; their centres and rotations."""
    Ty, G = w.mod("types"), w.mod("pygeometry")
    rec = Ty.Reconstruction()
    cam = G.Camera.create_spherical()
    cam.id = "cam"
    rec.add_camera(cam)
    for k in range(n):
        rec.create_shot("s%d" % k, "cam")
    return rec, place(ctx, w, rec, "o", still)


def place(ctx, w, rec, name, still=False):
    G = w.mod("pygeometry")
    where = {}
    for k, s in enumerate(sorted(rec.shots)):
        R = [list(r) for r in (ctx.rotation(name + "_r")[1] if k == 1 and not still else AXES[k % 3])]
        # apart, so that the rays of an image are known by their origin
        o = [x + y for x, y in zip((100.0 * k, 0.0, 0.0), [0.0, 5.0, k % 2] if still else vec(ctx, name + s, 3, 40))]
        p = G.Pose()
        p.set_rotation_matrix(ctx.array(R))
        p.set_origin(ctx.array(o))
        rec.shots[s].pose = p
        where[s] = (o, R)
    return where


def match(ctx, where, row):
    """Image whose centre is the given one."""
    row = list(row)
    for s, (o, _) in where.items():
        if hasattr(ctx, "same"):
            if ctx.same(row, o):
                return s
        elif np.allclose(np.array(row, dtype=float), np.array(o, dtype=float), atol=1e-6):
            return s
    return None


TRACKS = {"t0": "0123", "t1": "02", "t2": "39", "t3": "012", "t4": "12"}
# t2 is also seen in an image that is not reconstructed, t3 is a point already


def observe(w, table, ids):
    M = w.mod("pymap")
    tm = M.TracksManager()
    for k, t in enumerate(sorted(table)):
        for s in table[t]:
            tm.add_observation("s" + s, t, M.Observation(0.01 * int(s), 0.02 * k, 1.0 + k, k, 2, int(s), ids(s, k)))
    return tm


def full(ctx, w, op, given):
    R, G = w.mod("reconstruction"), w.mod("pygeometry")
    rec, where = scene(ctx, w, 5)
    tm = observe(w, TRACKS, lambda s, k: 10 * k + int(s))
    thr, ang, depth = ctx.real("threshold", 1e-4, 1), ctx.real("angle", 0, 90), ctx.real("depth", 1e-4, 10)
    cfg = dict(CFG, triangulation_type="FULL", triangulation_threshold=thr, triangulation_min_ray_angle=ang, triangulation_min_depth=depth)
    bearing = {(t, s): vec(ctx, "b.%s%s" % (t, s), 3, 1) for t in TRACKS for s in TRACKS[t]}
    order = sorted(TRACKS)

    def pixel_bearing(self, p):
        k, s = round(float(p[1]) / 0.02), round(float(p[0]) / 0.01)
        return ctx.array(bearing[order[k], str(s)])

    w.patch(G.Camera, "pixel_bearing", pixel_bearing)
    old = vec(ctx, "old")
    rec.create_point("t3", ctx.array(old))
    rec.add_observation("s0", "t3", tm.get_observation("s0", "t3"))
    state = dict(where=where, calls=[])
    good = {t: ctx.flag("good." + t) for t in ("t0", "t1", "t4")}
    if op != "add":
        good["t3"] = True
    raw = {t: vec(ctx, "raw." + t) for t in TRACKS}
    fine = {t: vec(ctx, "fine." + t) for t in TRACKS}

    def rays(os, bs):
        ss = [match(ctx, state["where"], o) for o in os]
        ctx.check(None not in ss and len(set(ss)) == len(ss), "rays start at the centres of the images")
        t = [t for t in TRACKS if {s for s in TRACKS[t] if s != "9"} == {s[1:] for s in ss}]
        ctx.check(len(t) == 1, "all images of the track are used")
        t = t[0]
        for s, b in zip(ss, bs):
            ctx.eq(list(b), mv(T(state["where"][s][1]), bearing[t, s[1:]]), "directions in the world")
        return t

    def midpoint(os, bs, thresholds, angle, mindepth):
        t = rays(os, bs)
        ctx.check(t not in state["calls"], "each track once")
        state["calls"].append(t)
        for x in thresholds:
            ctx.eq(x, thr, "threshold of the kernel")
        ctx.check(len(thresholds) == len(os), "a threshold per ray")
        ctx.eq(angle, ang * (math.pi / 180), "minimum angle in radians")
        ctx.eq(mindepth, depth, "minimum depth")
        return good[t], ctx.array(raw[t])

    def refine(os, bs, x, n):
        t = rays(os, bs)
        ctx.eq(list(x), raw[t], "refinement starts at the point")
        return ctx.array(fine[t])

    w.patch(G, "triangulate_bearings_midpoint", midpoint)
    w.patch(G, "point_refinement", refine)

    def verify(tracks, keep):
        want = {t for t in tracks if good.get(t)}
        ctx.check(set(rec.points.keys()) == want | keep, "points are the accepted tracks")
        for t in want:
            ctx.eq(list(rec.points[t].coordinates), fine[t], "position of a point")
            obs = rec.points[t].get_observations()
            ctx.check({s.id for s in obs} == {"s" + s for s in TRACKS[t]}, "observations of a point")
            for s, f in obs.items():
                k = order.index(t)
                ctx.check(f == 10 * k + int(s.id[1:]), "feature of an observation")
        for t in keep:
            ctx.eq(list(rec.points[t].coordinates), old, "other points stay")

    if op == "add":
        R.triangulate_shot_features(tm, rec, set(given), cfg)
        tracks = {t for t in TRACKS if any("s" + s in given for s in TRACKS[t])} - {"t3"}
        verify(tracks, {"t3"})
    else:
        R.retriangulate(tm, rec, cfg)
        verify(set(TRACKS), set())
        # after the images have moved
        state["where"], state["calls"] = place(ctx, w, rec, "moved"), []
        R.retriangulate(tm, rec, cfg)
        verify(set(TRACKS), set())


def robust(ctx, w, groups, op="add", draws=2, down=False, still=False):
    """groups: point each observation looks at, "x" for none."""
    R, G = w.mod("reconstruction"), w.mod("pygeometry")
    n = len(groups)
    rec, where = scene(ctx, w, n, still)
    tm = observe(w, {"t": "".join(map(str, range(n)))}, lambda s, k: int(s))
    thr = ctx.real("threshold", 1e-3, 0.1 if still else 0.5)
    cfg = dict(CFG, triangulation_type="ROBUST", triangulation_threshold=thr, triangulation_min_ray_angle=1.0, triangulation_min_depth=0.001)
    at = {g: [400.0 * ord(g) - 38900.0, -30.0, 150.0] if still else vec(ctx, "point" + g) if g == "a" else [ctx.real("pointb", -50, 50), 300.0, 20.0] for g in sorted(set(groups)) if g != "x"}
    junk = vec(ctx, "junk")
    good = {g: ctx.flag("good" + g) for g in at}

    def unit(x, o):
        d = [a - b for a, b in zip(x, o)]
        l = ctx.sqrt(sum(v * v for v in d))
        ctx.assume(l > 0.001)
        return [v / l for v in d]

    world = {}
    for k, g in enumerate(groups):
        s = "s%d" % k
        o = where[s][0]
        to = {h: unit(at[h], o) for h in at}
        world[s] = to[g] if g != "x" else [0.0, 0.0, 1.0] if still else [ctx.real("astray%d" % k, -1, 1), 0.0, 1.0]
        for h in at:
            if h != g:
                ctx.assume(ctx.sqrt(sum((a - b) * (a - b) for a, b in zip(to[h], world[s]))) > thr + 1e-6)
    w.patch(G.Camera, "pixel_bearing", lambda self, p: ctx.array(mv(where["s%d" % round(float(p[0]) / 0.01)][1], world["s%d" % round(float(p[0]) / 0.01)])))

    def group(os):
        gs = {groups[int(match(ctx, where, o)[1:])] for o in os}
        return gs.pop() if len(gs) == 1 and gs != {"x"} else None

    def midpoint(os, bs, thresholds, angle, mindepth):
        g = group(os)
        if g is None:
            return False, ctx.array(junk)
        return good[g], ctx.array(at[g])

    w.patch(G, "triangulate_bearings_midpoint", midpoint)
    w.patch(G, "point_refinement", lambda os, bs, x, it: x)
    # the first draws are any, the others cover [0, 1) evenly
    first = [(ctx.choice("draw%d" % k, 4) + 0.5) / 4 for k in range(draws)]
    rest = [(k + 0.5) / (11 - draws) for k in range(11 - draws)]
    seq = iter(first + (rest[::-1] if down else rest))
    w.patch(np.random, "rand", lambda *a: next(seq, 0.5))
    (R.triangulate_shot_features if op == "add" else lambda a, b, c, d: R.retriangulate(a, b, d))(tm, rec, {"s0"}, cfg)
    size = {g: groups.count(g) for g in at if good[g] and groups.count(g) > 1}
    if not size:
        ctx.check(len(rec.points) == 0, "no point without agreement")
        return
    ctx.check(set(rec.points.keys()) == {"t"}, "agreeing observations make a point")
    got = {s.id for s in rec.points["t"].get_observations()}
    g = [g for g in size if size[g] == max(size.values()) and got == {"s%d" % k for k in range(n) if groups[k] == g}]
    ctx.check(len(g) == 1, "the point has the largest set of agreeing observations and no other")
    ctx.eq(list(rec.points["t"].coordinates), at[g[0]], "position of the point", 1e-6)


HARNESSES = [
    dict(name="full", fn=full, params=[dict(op="add", given=["s0", "s4"]), dict(op="add", given=["s0", "s1", "s2", "s9"]), dict(op="all", given=[])]),
    dict(name="robust", fn=robust, params=[dict(groups=g, draws=d) for g, d in (("aa", 0), ("xx", 0), ("aaa", 0), ("xaa", 0), ("axa", 1), ("aax", 0), ("aaxa", 0))] + [dict(groups="xaa", op="all", draws=0, down=True)] + [dict(groups=g, draws=1, still=True) for g in ("aaabb", "bbaaa", "xabab")],
         thorough=[dict(groups=g, draws=2) for g in ("xbaa", "aaa", "xaa", "aabb", "abab", "aabx", "aaab", "baaa")], opts=dict(witnesses=4)),
]
