"""Removing observations with a large reprojection error."""
from checks.I02 import pose, vec

PRELOAD = ["reconstruction", "types", "pymap"]
BOUNDS = "3 images, 4 points seen by 3, 2, 2 and 1 of them (up to 8 errors), any error vectors of two (perspective) or three (spherical) components, any threshold; automatic threshold: 3 errors with one non-zero component, or 2 of two components"
ASSUMPTIONS = ["doubles are real numbers", "the map classes are reference models of the native ones"]

SEEN = {"a": ["s0", "s1", "s2"], "b": ["s0", "s1"], "c": ["s1", "s2"], "d": ["s2"]}


def scene(ctx, w, seen, errors):
    Ty, M, G = w.mod("types"), w.mod("pymap"), w.mod("pygeometry")
    rec = Ty.Reconstruction()
    cam = G.Camera.create_spherical()
    cam.id = "cam"
    rec.add_camera(cam)
    for s in ("s0", "s1", "s2"):
        rec.create_shot(s, "cam", pose(ctx, w, s)[0])
    for k, p in enumerate(seen):
        rec.create_point(p, ctx.array(vec(ctx, p)))
        rec.points[p].color = [k, 1, 2]
        for j, s in enumerate(seen[p]):
            rec.add_observation(s, p, M.Observation(0.1 * k, 0.1 * j, 1.0, 0, 0, 0, k))
        rec.points[p].reprojection_errors = {s: ctx.array(errors[p, s]) for s in seen[p] if (p, s) in errors}
    return rec


def state(rec):
    return {s: {l.id: rec.shots[s].get_landmark_observation(l).id for l in rec.shots[s].get_valid_landmarks()} for s in rec.shots}


def verify(ctx, rec, before, xyz, seen, out, n):
    """out: observations to remove."""
    obs = {p: [s for s in seen[p] if (p, s) not in out] for p in seen}
    touched = {p for p, _ in out}
    gone = {p for p in touched if len(obs[p]) < 2}
    ctx.check(n == len(out), "number of observations removed")
    ctx.check(set(rec.points.keys()) == set(seen) - gone, "points left with too few observations go")
    got = state(rec)
    ctx.check(set(got) == set(before), "images")
    for s in before:
        want = {p: f for p, f in before[s].items() if p not in gone and s in obs[p]}
        ctx.check(got[s] == want, "observations of an image")
    for p in rec.points.keys():
        l = rec.points[p]
        ctx.check({s.id for s in l.get_observations()} == set(obs[p]), "observations of a point")
        ctx.check(set(l.reprojection_errors) == set(obs[p]) & xyz[p][1], "errors of a point")
        ctx.eq(list(l.coordinates), xyz[p][0], "coordinates stay")
        ctx.check([int(c) for c in l.color] == [list(seen).index(p), 1, 2], "color stays")


def memory(rec):
    return {p: (list(rec.points[p].coordinates), set(rec.points[p].reprojection_errors)) for p in rec.points.keys()}


def config(kind, **kw):
    return dict(dict(bundle_outlier_filtering_type=kind, bundle_outlier_fixed_threshold=0.5, bundle_outlier_auto_ratio=3.0), **kw)


def square(e):
    return sum(x * x for x in e)


def fixed(ctx, w, dims, only=None, known=4, kind="FIXED"):
    R = w.mod("reconstruction")
    seen = {p: SEEN[p] for p in list(SEEN)[:known]}
    errors = {(p, s): [ctx.real("e.%s.%s.%d" % (p, s, i), -10, 10) for i in range(dims)] for p in seen for s in seen[p] if not (p == "b" and s == "s1")}
    rec = scene(ctx, w, seen, errors)
    before, xyz = state(rec), memory(rec)
    t = ctx.real("threshold", 1e-4, 10) if kind == "FIXED" else 1.0
    cfg = config(kind, bundle_outlier_fixed_threshold=t)
    args = [] if only is None else [only]
    looked = [k for k in errors if only is None or k[0] in only]
    out = {k for k in looked if bool(square(errors[k]) > t * t)}
    n = R.remove_outliers(rec, cfg, *args)
    verify(ctx, rec, before, xyz, seen, out, n)
    if only is None:
        ctx.check(R.remove_outliers(rec, cfg) == 0, "nothing is left to remove")


def median(ctx, l):
    l = list(l)
    out = []
    while l:
        k = 0
        for i in range(1, len(l)):
            if bool(l[i] < l[k]):
                k = i
        out.append(l.pop(k))
    h = len(out) // 2
    return out[h] if len(out) % 2 else (out[h - 1] + out[h]) / 2


def auto(ctx, w, n, dims, only=False, ratio=None):
    """Threshold from the median error and its spread."""
    R = w.mod("reconstruction")
    seen = {"a": SEEN["a"][:n]} if not only else {"a": ["s0"], "b": SEEN["b"][:n - 1]}
    keys = [(p, s) for p in seen for s in seen[p]]
    errors = {k: [ctx.real("e.%s.%d" % (k, i), -10, 10) if i < dims else 0.0 for i in range(2)] for k in keys}
    rec = scene(ctx, w, seen, errors)
    before, xyz = state(rec), memory(rec)
    ratio = ratio or ctx.real("ratio", 0.1, 10)
    mean = [median(ctx, [errors[k][i] for k in keys]) for i in range(2)]
    dist = [ctx.sqrt(square([e - m for e, m in zip(errors[k], mean)])) for k in keys] if dims > 1 else [abs(errors[k][0] - mean[0]) for k in keys]
    std = 1.486 * median(ctx, dist)
    t2 = ratio * ratio * square([m + std for m in mean])
    ids = ["a"] if only else list(seen)
    out = {k for k in keys if k[0] in ids and bool(square(errors[k]) > t2)}
    got = R.remove_outliers(rec, config("AUTO", bundle_outlier_auto_ratio=ratio), *([ids] if only else []))
    verify(ctx, rec, before, xyz, seen, out, got)


HARNESSES = [
    dict(name="fixed", fn=fixed, params=[dict(dims=2), dict(dims=3), dict(dims=2, only=["b", "c"]), dict(dims=2, only=[]), dict(dims=2, kind="NONE", known=2)],
         thorough=[dict(dims=3, only=["a", "d"])]),
    dict(name="auto", fn=auto, params=[dict(n=2, dims=1, ratio=0.5), dict(n=3, dims=1, ratio=0.75, only=True)], thorough=[dict(n=3, dims=1, ratio=0.5), dict(n=2, dims=2)], opts=dict(witnesses=6)),
]
