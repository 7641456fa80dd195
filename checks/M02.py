"""Ad-hoc match filters and renumbering of matches on masked features."""
from checks import M01

PRELOAD = ["matching", "feature_loading", "feature_loader", "features", "masking", "config"]
BOUNDS = "a match anywhere and one in the middle for every combination of camera kinds and makers, 7 matches for the share of static ones; 3 features per image with every mask, every outcome of the ratio test and of the robust stage"
ASSUMPTIONS = ["displacements are not within 1e-9 of the static threshold"]

MAKERS = [("Other", "Other"), ("VTrans_Camera", "VTrans_Camera"), ("VTrans_Camera", "Other"), ("BlackVue", "DR900")]


class Cam:
    def __init__(self, projection_type):
        self.projection_type = projection_type

    def pixel_bearing_many(self, p):
        import numpy as np
        return np.array([[q[0], q[1], 1.0] for q in p])


def kept(ctx, p1, p2, matches, pano, makers):
    """The matches that survive, by the documentation."""
    def static(a, b):
        d = p1[a][:2] - p2[b][:2]
        return bool(d[0] ** 2 + d[1] ** 2 < 1e-6)

    moving = [m for m in matches if not static(*m)]
    left = list(matches) if len(matches) - len(moving) > 0.85 * len(matches) else moving
    out = []
    for a, b in left:
        ok = True
        for p, is_pano, (make, model) in ((p1[a], pano[0], makers[0]), (p2[b], pano[1], makers[1])):
            y = p[1]
            if is_pano and not (bool(y > -0.125) and bool(y < 0.125)):
                ok = False
            if make == model == "VTrans_Camera" and not bool(y > -0.255):
                ok = False
            if make.lower() == "blackvue" and not bool(y < 0.263):
                ok = False
        if ok:
            out.append((a, b))
    return out


def run(ctx, w, p1, p2, matches, pano, makers):
    mt = w.mod("matching")

    class Data:
        def load_exif(self, im):
            make, model = makers[0 if im == "a" else 1]
            return dict(make=make, model=model)

    kinds = ["spherical" if k else "perspective" for k in pano]
    given = list(matches)
    got = mt.apply_adhoc_filters(Data(), given, "a", Cam(kinds[0]), p1, "b", Cam(kinds[1]), p2)
    return [(int(m[0]), int(m[1])) for m in got]


def filters(ctx, w, pano):
    m1, m2 = MAKERS[ctx.choice("maker1", 4)], MAKERS[ctx.choice("maker2", 4)]
    free = ctx.choice("match", 2)  # the other one is somewhere in the middle
    y1 = [ctx.real("y1%d" % k, -0.5, 0.5) if k == free else 0.01 for k in range(2)]
    y2 = [ctx.real("y2%d" % k, -0.5, 0.5) if k != free else 0.05 for k in range(2)]
    for k in [free]:
        d = y1[k] - y2[1 - k]
        ctx.assume(((d - 0.001) ** 2 > 1e-18) & ((d + 0.001) ** 2 > 1e-18))
    p1 = ctx.array([[0.1 * k, y1[k], 1.0] for k in range(2)])
    p2 = ctx.array([[0.1 * (1 - k), y2[k], 1.0] for k in range(2)])
    matches = [(0, 1), (1, 0)]
    got = run(ctx, w, p1, p2, matches, pano, (m1, m2))
    ctx.check(got == kept(ctx, p1, p2, matches, pano, (m1, m2)), "matches left")


def static(ctx, w, n):
    d = [[ctx.real("dx%d" % k, 0, 0.01), ctx.real("dy%d" % k, 0, 0.01) if k < 2 else 0.0] for k in range(n)]
    for k in range(n):
        ctx.assume((d[k][0] ** 2 + d[k][1] ** 2 - 1e-6) ** 2 > 1e-24)
    p1 = ctx.array([[0.05 * k, 0.0, 1.0] for k in range(n)])
    p2 = ctx.array([[0.05 * k + d[k][0], d[k][1], 1.0] for k in range(n)])
    matches = [(k, k) for k in range(n)]
    got = run(ctx, w, p1, p2, matches, (False, False), (MAKERS[0], MAKERS[0]))
    ctx.check(got == kept(ctx, p1, p2, matches, (False, False), (MAKERS[0], MAKERS[0])), "matches left")


def masked(ctx, w, how, filtered):
    """Numbers of matches found on masked features."""
    import numpy as np
    n = 3
    mt, ft = w.mod("matching"), w.mod("features")
    table = M01.Table.__new__(M01.Table)
    table.d = [[ctx.real("d%d" % i, 0, 100) if i == j else 40.0 + 3 * i + 5 * j for j in range(n)] for i in range(n)]
    masks = {im: np.array([ctx.flag("m%s%d" % (im, k)) for k in range(n)]) for im in ("a.jpg", "b.jpg")}
    w.patch(mt, "cv2", M01.cv_stub(table, []))
    points = {"a.jpg": np.array([[0.1 * k, 0.0, 1.0, 0.0] for k in range(n)]),
              "b.jpg": np.array([[0.1 * k + (0.0 if k == 1 else 0.02), 0.0, 1.0, 0.0] for k in range(n)])}
    least = ctx.choice("least", 2)
    cfg = dict(lowes_ratio=0.8, matching_use_filters=filtered, matching_use_segmentation=False, matcher_type="BRUTEFORCE",
               symmetric_matching=False, robust_matching_min_match=least)
    f1, f2 = M01.descriptors(0, n), M01.descriptors(100, n)
    data = M01.data_stub(ctx, w, cfg, f1, f2, None, None, points)
    w.patch(w.mod("masking"), "load_features_mask", lambda data, im, *a, **k: masks[im])
    keep = {}

    def robust(p1, p2, c1, c2, matches, config):
        out = []
        for a, b in matches:
            i, j = round(float(p1[a][0]) * 10), round(float(p2[b][0]) * 10 - 0.1)
            if (i, j) not in keep:
                keep[i, j] = ctx.flag("keep%d%d" % (i, j))
            if keep[i, j]:
                out.append((a, b))
        return np.array(out)

    w.patch(mt, "robust_match", robust)
    cam = Cam("perspective")
    free = {im: [k for k in range(n) if masks[im][k]] for im in masks}
    want = []
    if min(len(v) for v in free.values()) >= 2:
        for i in free["a.jpg"]:
            t = M01.kept(table, i, [100 + j for j in free["b.jpg"]], 0.8)
            if t is not None:
                want.append((i, t - 100))
        if filtered and want != [(1, 1)]:
            want = [m for m in want if m != (1, 1)]
    if how == "descriptors":
        got = mt.match_descriptors("a.jpg", "b.jpg", cam, cam, data, {})
    elif how == "full":
        got = mt.match("a.jpg", "b.jpg", cam, cam, data, {}, None)
    else:
        back = {im: {k: i for i, k in enumerate(free[im])} for im in free}
        # matches between masked features, given by the caller
        given = [(back["a.jpg"][i], back["b.jpg"][j]) for i, j in want]
        got = mt.match_robust("a.jpg", "b.jpg", given, cam, cam, data, {}, True)
    if how != "descriptors":
        if len(want) < least:
            want = []
        want = [m for m in want if keep.get(m, False)]
        if len(want) < least:
            want = []
    ctx.check([(int(a), int(b)) for a, b in got] == want, "matches in numbers of the feature table")


def unmasked_robust(ctx, w):
    """The robust stage alone, on numbers of the whole table."""
    import numpy as np
    mt = w.mod("matching")
    n = 3
    f = M01.descriptors(0, n)
    cfg = dict(matching_use_segmentation=False, robust_matching_min_match=0)
    data = M01.data_stub(ctx, w, cfg, f, f, None, None)
    mask = np.array([ctx.flag("m%d" % k) for k in range(n)])
    w.patch(w.mod("masking"), "load_features_mask", lambda data, im, *a, **k: mask)
    ks = [ctx.flag("k%d" % k) for k in range(n)]
    given = np.array([(0, 2), (1, 0), (2, 1)])
    w.patch(mt, "robust_match", lambda p1, p2, c1, c2, ms, c: np.array([m for m, k in zip(ms, ks) if k]))
    got = mt.match_robust("a.jpg", "b.jpg", given, None, None, data, {}, False)
    ctx.check([(int(a), int(b)) for a, b in got] == [tuple(map(int, m)) for m, k in zip(given, ks) if k], "matches")


HARNESSES = [
    dict(name="areas", fn=filters, params=[dict(pano=p) for p in ((False, False), (True, False), (False, True), (True, True))]),
    dict(name="static", fn=static, params=[dict(n=7)], thorough=[dict(n=9)]),
    dict(name="masks", fn=masked, params=[dict(how=h, filtered=f) for h, f in (("descriptors", False), ("descriptors", True), ("full", False), ("full", True), ("robust", False))]),
    dict(name="robust on whole tables", fn=unmasked_robust),
]
