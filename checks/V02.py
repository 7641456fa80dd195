"""Relative motion of two images."""
import numpy as np
from engine import rot as rotation
from checks.I02 import vec
from checks.L02 import T, mm, mv
from checks.V01 import Estimator, lists, rot

PRELOAD = ["reconstruction", "multiview", "matching", "pygeometry"]
BOUNDS = "any motions, bearings and thresholds; up to 3 candidate motions of a homography with up to 3 correspondences and any support; 8 correspondences with support 4 to 8 for each of the essential-matrix motions; 3 image pairs with any counts"
ASSUMPTIONS = ["doubles are real numbers", "the native robust estimators, refinement and triangulation return arbitrary motions and points",
               "the support of a motion in the choice among motions is a stand-in of compute_inliers_bearings, itself checked on its own"]


def norm(ctx, x):
    return ctx.sqrt(sum(a * a for a in x))


def minus(x, y):
    return [a - b for a, b in zip(x, y)]


def inliers(ctx, w, n=2, turned=False, free=None):
    """Exactly the correspondences that triangulate and project where seen.
    All but one of them can be fixed: every other one of these is right."""
    M = w.mod("matching")
    R, t = rot(ctx, "R"), vec(ctx, "t", lim=10)
    if not turned:
        R = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
    b1, b2 = [vec(ctx, "b%d" % i, lim=1) for i in range(n)], [vec(ctx, "c%d" % i, lim=1) for i in range(n)]
    X = [vec(ctx, "X%d" % i, lim=100) for i in range(n)]
    found = [ctx.flag("f%d" % i) for i in range(n)]
    thr = ctx.real("thr", 0.001, 0.5)
    if free is not None:
        t = [0.0, 1.0, 0.0]
        for i in range(n):
            if i != free:
                X[i], b1[i], b2[i] = [0.0, 3.0, 4.0], [0.0, 0.6, 0.8 if i % 2 else -0.8], [0.0, 0.447213595499958, 0.894427190999916]

    def many(x, y, r, s):
        ctx.eq([lists(x), lists(y), lists(r), list(s)], [b1, b2, R, t], "triangulated")
        return [(f, ctx.array(p)) for f, p in zip(found, X)]

    w.patch(M.pygeometry, "triangulate_two_bearings_midpoint_many", many)
    Y = [mv(T(R), minus(p, t)) for p in X]
    for p, q in zip(X, Y):
        ctx.assume(sum(a * a for a in p) > 0.01)
        ctx.assume(sum(a * a for a in q) > 0.01)
    got = M.compute_inliers_bearings(ctx.array(b1), ctx.array(b2), ctx.array(R), ctx.array(t), thr)
    ctx.check(len(got) == n, "one answer per correspondence")
    for i in range(n):
        ok = bool(got[i])
        if not found[i]:
            ctx.check(not ok, "not triangulated")
            continue
        e1 = norm(ctx, minus([a / norm(ctx, X[i]) for a in X[i]], b1[i]))
        e2 = norm(ctx, minus([a / norm(ctx, Y[i]) for a in Y[i]], b2[i]))
        if ok:
            ctx.check(e1 < thr, "error in the first image")
            ctx.check(e2 < thr, "error in the second image")
        else:
            ctx.check(not (bool(e1 < thr) and bool(e2 < thr)), "inlier left out")


def turned(ctx, w):
    inliers(ctx, w, 1, True)


class Support:
    """Stand-in of compute_inliers_bearings: support of each motion, which
    goes from the second image to the first."""

    def __init__(self, ctx, w, b1, b2, thr):
        self.ctx, self.b1, self.b2, self.thr = ctx, b1, b2, thr
        self.known = []
        w.patch(w.mod("matching"), "compute_inliers_bearings", self.run)

    def add(self, R, t, ok):
        self.known.append((R, t, ok))

    def run(self, b1, b2, R, t, threshold=0.01):
        ctx = self.ctx
        ctx.eq([lists(b1), lists(b2)], [self.b1, self.b2], "bearings to test")
        ctx.eq(threshold, self.thr, "threshold of the test")
        for r, s, ok in self.known:
            if ctx.same(lists(R), r) and ctx.same(list(t), s):
                return list(ok)
        ctx.check(False, "support of an unknown motion")
        return [False] * len(self.b1)


def translation(ctx, name, m):
    """Of length m .. m + 0.5: tells motions apart."""
    return [ctx.real(name + "0", m, m + 0.2), ctx.real(name + "1", -0.3, 0.3), ctx.real(name + "2", -0.3, 0.3)]


def inverse(R, t):
    return T(R), [-x for x in mv(T(R), t)]


def is_pose(ctx, R, t, want, label):
    ctx.eq(lists(rotation.exp(list(R))), want[0], label + ": rotation", 1e-5)
    ctx.eq(list(t), want[1], label + ": translation", 1e-5)


def plane_stub(ctx, w, b1, b2, thr, motions):
    RC = w.mod("reconstruction")

    class CV2:
        RANSAC = RC.cv2.RANSAC
        Rodrigues = staticmethod(RC.cv2.Rodrigues)

        @staticmethod
        def findHomography(x, y, method, t):
            ctx.eq([lists(x), lists(y)], [[[a[0] / a[2], a[1] / a[2]] for a in b] for b in (b1, b2)], "image points", 1e-6)
            ctx.eq(t, thr, "threshold of the homography")
            return "H", None

    def candidates(H):
        ctx.check(H == "H", "homography")
        return motions and [(ctx.array(R), ctx.array(t), ctx.array([0.0, 0.0, 1.0]), 1.0) for R, t in motions]

    w.patch(RC, "cv2", CV2)
    w.patch(RC.multiview, "motion_from_plane_homography", candidates)


def bearings(ctx, n):
    return [[[ctx.real("%s%d%d" % (k, i, j), -1, 1) for j in range(2)] + [1.0] for i in range(n)] for k in "bc"]


def plane(ctx, w, k=3, n=2):
    """The candidate of a homography with the most support."""
    RC = w.mod("reconstruction")
    b1, b2 = bearings(ctx, n)
    thr = ctx.real("thr", 0.001, 0.5)
    motions = [(rot(ctx, "R%d" % i), translation(ctx, "t%d" % i, i + 1)) for i in range(k)]
    S = Support(ctx, w, b1, b2, thr)
    ok = []
    for i, (R, t) in enumerate(motions):
        ok.append([ctx.flag("ok%d%d" % (i, j)) for j in range(n)])
        S.add(*inverse(R, t), ok[i])
    plane_stub(ctx, w, b1, b2, thr, motions)
    R, t, inl = RC.two_view_reconstruction_plane_based(ctx.array(b1), ctx.array(b2), thr)
    if not k:
        ctx.check(R is None and t is None and len(inl) == 0, "no motion")
        return
    inl = [int(i) for i in inl]
    best = max(sum(o) for o in ok)
    ctx.check(len(inl) == best, "motion with the most support")
    hit = [i for i in range(k) if [j for j in range(n) if ok[i][j]] == inl]
    ctx.check(len(hit) > 0, "support of the motion")
    near = [i for i in hit if ctx.same(list(t), motions[i][1])]
    ctx.check(len(near) == 1, "motion with that support")
    is_pose(ctx, R, t, motions[near[0]], "motion of the second camera")


def refined(ctx, w, b1, b2, S, pairs, its):
    """Native refinement: from each known motion (first to second image,
    cut to its support) to another."""
    def refine(m, x, y, n):
        ctx.eq(n, its, "iterations of the refinement")
        for (R, t), (Q, u), count in pairs:
            if ctx.same([list(r[:3]) for r in m], R) and ctx.same([r[3] for r in m], t):
                ctx.eq([lists(x), lists(y)], [b1[:count], b2[:count]], "refined on the support")
                return ctx.array([r + [s] for r, s in zip(Q, u)])
        ctx.check(False, "refinement of an unknown motion")
        return m

    w.patch(w.mod("multiview").pygeometry, "relative_pose_refinement", refine)


def mask(n, count):
    return [i < count for i in range(n)]


def essential_scene(ctx, w, b1, b2, thr, its, S, reversal, counts):
    """Motion (second image to first) and its reversal, with their supports."""
    n = len(b1)
    R, t = rot(ctx, "R"), translation(ctx, "t", 1)
    # not its own inverse
    ctx.assume((R[0][1] - R[1][0]) * (R[0][1] - R[1][0]) > 0.01)
    starts = [(R, t)] + ([inverse(R, t)] if reversal else [])
    pairs, out = [], []
    for i, (r, s) in enumerate(starts):
        c = counts[ctx.choice("before%d" % i, len(counts))]
        S.add(r, s, mask(n, c))
        if c > 5:
            Q, u = rot(ctx, "Q%d" % i), translation(ctx, "u%d" % i, 2 + i)
            pairs.append((inverse(r, s), (Q, u), c))
            c = counts[ctx.choice("after%d" % i, len(counts))]
            S.add(*inverse(Q, u), mask(n, c))
            out.append(((Q, u), c))
        else:
            out.append((inverse(r, s), c))
    refined(ctx, w, b1, b2, S, pairs, its)
    return R, t, out


def essential(ctx, w, reversal=True):
    RC = w.mod("reconstruction")
    n = 8
    b1, b2 = bearings(ctx, n)
    thr, its = ctx.real("thr", 0.001, 0.5), ctx.int("its", 1, 1000)
    ratio = ctx.real("ratio", 0.5, 1.0)
    S = Support(ctx, w, b1, b2, thr)
    R, t, out = essential_scene(ctx, w, b1, b2, thr, its, S, reversal, [5, 6, 8])
    r, s, inl = RC.two_view_reconstruction_5pt(ctx.array(b1), ctx.array(b2), ctx.array(R), ctx.array(t), thr, its, reversal, ratio)
    good = [(p, c) for p, c in out if c > 5]
    if not good or len(good) == 2 and bool(min(good[0][1], good[1][1]) / max(good[0][1], good[1][1]) > ratio):
        ctx.check(r is None and s is None and len(inl) == 0, "no motion, or two that cannot be told apart")
        return
    ctx.check(r is not None and s is not None, "motion found")
    inl = [int(i) for i in inl]
    best = max(c for p, c in good)
    ctx.check(inl == list(range(best)), "motion with the most support")
    near = [p for p, c in good if c == best and (len(good) == 1 or good[0][1] != good[1][1] or ctx.same(list(s), p[1]))]
    ctx.check(len(near) > 0, "motion with that support")
    is_pose(ctx, r, s, near[0], "motion of the second camera")


def cameras(ctx, bs):
    class Camera:
        def __init__(self, k):
            self.k = k

        def pixel_bearing_many(self, p):
            ctx.check(p == "p%d" % self.k, "points of the camera")
            return ctx.array(bs[self.k])

    return [Camera(0), Camera(1)]


def general(ctx, w, reversal=False):
    RC = w.mod("reconstruction")
    n = 8
    b1, b2 = bearings(ctx, n)
    thr, its = ctx.real("thr", 0.001, 0.5), ctx.int("its", 1, 1000)
    S = Support(ctx, w, b1, b2, thr)
    R, t, out = essential_scene(ctx, w, b1, b2, thr, its, S, reversal, [5, 7])
    motions = [(rot(ctx, "P%d" % i), translation(ctx, "p%d" % i, 4 + i)) for i in range(ctx.choice("candidates", 3))]
    pc = []
    for i, m in enumerate(motions):
        pc.append((0, 6, 8)[ctx.choice("support%d" % i, 3)])
        S.add(*inverse(*m), mask(n, pc[-1]))
    plane_stub(ctx, w, b1, b2, thr, motions)
    w.patch(RC.multiview.pyrobust, "RobustEstimatorParams", Estimator.RobustEstimatorParams)
    w.patch(RC.multiview.pyrobust, "RansacType", Estimator.RansacType)

    def ransac(x, y, threshold, params, type_):
        ctx.eq([lists(x), lists(y)], [b1, b2], "correspondences given to the estimator")
        ctx.eq(threshold, thr, "threshold given to the estimator")
        r, s = inverse(R, t)

        class Result:
            lo_model = ctx.array([a + [b] for a, b in zip(r, s)])
        return Result

    w.patch(RC.multiview.pyrobust, "ransac_relative_pose", ransac)
    c1, c2 = cameras(ctx, [b1, b2])
    ratio = ctx.real("ratio", 0.5, 1.0)
    r, s, inl, report = RC.two_view_reconstruction_general("p0", "p1", c1, c2, thr, its, reversal, ratio)
    good = [(p, c) for p, c in out if c > 5]
    if len(good) == 2 and bool(min(good[0][1], good[1][1]) / max(good[0][1], good[1][1]) > ratio):
        good = []
    all_ = good + list(zip(motions, pc))
    if not all_:
        ctx.check(r is None and s is None and len(inl) == 0, "no motion")
        return
    ctx.check(r is not None and s is not None, "motion found")
    inl = [int(i) for i in inl]
    best = max(c for p, c in all_)
    ctx.check(inl == list(range(best)), "motion with the most support")
    near = [p for p, c in all_ if c == best and ctx.same(list(s), p[1])]
    ctx.check(len(near) > 0, "motion with that support")
    is_pose(ctx, r, s, near[0], "motion of the second camera")


def only_rotation(ctx, w, n=2):
    RC = w.mod("reconstruction")
    b1, b2 = ([vec(ctx, "%s%d" % (k, i), lim=1) for i in range(n)] for k in "bc")
    thr = ctx.real("thr", 0.001, 0.5)
    R = rot(ctx, "R")
    w.patch(RC.multiview.pyrobust, "RobustEstimatorParams", Estimator.RobustEstimatorParams)
    w.patch(RC.multiview.pyrobust, "RansacType", Estimator.RansacType)

    def ransac(x, y, threshold, params, type_):
        ctx.eq([lists(x), lists(y)], [b1, b2], "correspondences given to the estimator")
        ctx.eq(threshold, thr, "threshold given to the estimator")

        class Result:
            lo_model = ctx.array(R)
        return Result

    w.patch(RC.multiview.pyrobust, "ransac_relative_rotation", ransac)
    c1, c2 = cameras(ctx, [b1, b2])
    r, inl = RC.two_view_reconstruction_rotation_only("p0", "p1", c1, c2, thr)
    inl = [int(i) for i in inl]
    # the native rotation goes from the first image to the second
    ctx.eq(lists(rotation.exp(list(r))), R, "rotation of the second camera", 1e-5)
    for i in range(n):
        e = norm(ctx, minus(mv(T(R), b2[i]), b1[i]))
        ctx.check(e < thr if i in inl else e >= thr, "support of the rotation")


def ranking(ctx, w, n=3):
    """Pairs with parallax, those with the most first."""
    RC = w.mod("reconstruction")
    data = w.dataset(["im%d.jpg" % i for i in range(n + 1)])
    thr = ctx.real("thr", 0.001, 0.1)
    total = [ctx.choice("n%d" % i, 3) + 9 for i in range(n)]
    rotational = [ctx.choice("k%d" % i, 4) + 5 for i in range(n)]
    pairs = {("im%d.jpg" % i, "im%d.jpg" % (i + 1)): i for i in range(n)}

    class Data:
        config = dict(data.config, five_point_algo_threshold=thr, processes=1)

        @staticmethod
        def load_camera_models():
            return {"cam%d" % i: "camera%d" % i for i in range(n + 1)}

        @staticmethod
        def load_exif(im):
            return dict(camera="cam" + im[2])

    tracks = {p: (None, ["a%d" % i] * total[i], ["b%d" % i] * total[i]) for p, i in pairs.items()}

    def rotation_only(p1, p2, c1, c2, threshold):
        i = int(p1[0][1])
        ctx.check(p1 == ["a%d" % i] * total[i] and p2 == ["b%d" % i] * total[i], "points of the pair")
        ctx.check((c1, c2) == ("camera%d" % i, "camera%d" % (i + 1)), "cameras of the pair")
        ctx.eq(threshold, 4 * thr, "threshold of the pair")
        return None, list(range(rotational[i]))

    w.patch(RC, "two_view_reconstruction_rotation_only", rotation_only)
    got = RC.compute_image_pairs(tracks, Data)
    score = [a - b for a, b in zip(total, rotational)]
    want = [p for p, i in pairs.items() if score[i] >= 0.3 * total[i]]
    ctx.check(sorted(got) == sorted(want), "pairs not explained by a rotation")
    s = [score[pairs[p]] for p in got]
    ctx.check(s == sorted(s, reverse=True), "best pairs first")


HARNESSES = [
    dict(name="inliers", fn=inliers, opts=dict(branch_timeout=200), params=[dict(free=0), dict(free=1), dict(n=3, free=1)], thorough=[dict()]),
    dict(name="inliers of a turned camera", fn=turned, opts=dict(branch_timeout=200)),
    dict(name="plane", fn=plane, params=[dict(), dict(k=2, n=3), dict(k=1), dict(k=0)]),
    dict(name="essential", fn=essential, params=[dict(), dict(reversal=False)]),
    dict(name="general", fn=general, params=[dict()], thorough=[dict(reversal=True)]),
    dict(name="rotation", fn=only_rotation, opts=dict(branch_timeout=200)),
    dict(name="ranking", fn=ranking, params=[dict(n=2)], thorough=[dict()]),
]
