"""Feature tables stay aligned through masking and storage."""

PRELOAD = ["features", "feature_loading", "masking", "dataset", "config"]
BOUNDS = "3 features (2 values per descriptor), every mask, every combination of optional tables, labels 0..255, instances 0..32767"
ASSUMPTIONS = ["storage as 32 bit floats is treated as exact", "descriptors of a byte type hold bytes"]
N = 3


def bundle(ctx, w, seg, inst, dep, desc=True, n=N, bytes_=True):
    f = w.mod("features")
    pts = [[ctx.real("p%d%d" % (k, j), -100, 100) for j in range(4)] for k in range(n)]
    D = [[(ctx.int if bytes_ else ctx.real)("d%d%d" % (k, j), 0, 255) for j in range(2)] for k in range(n)]
    C = [[ctx.int("c%d%d" % (k, j), 0, 255) for j in range(3)] for k in range(n)]
    S = [ctx.int("s%d" % k, 0, 255) for k in range(n)]
    I = [ctx.int("i%d" % k, 0, 32767) for k in range(n)]
    Z = [ctx.real("z%d" % k, 0, 1000) for k in range(n)]
    sem = f.SemanticData(ctx.array(S), ctx.array(I) if inst else None, [{"name": "sky"}]) if seg else None
    fd = f.FeaturesData(ctx.array(pts), ctx.array(D) if desc else None, ctx.array(C), sem, ctx.array(Z) if dep else None)
    return fd, dict(p=pts, d=D, c=C, s=S, i=I, z=Z)


def same(ctx, fd, t, rows, seg, inst, dep, desc, cols=4):
    ctx.check(len(fd.points) == len(rows), "number of features")
    for k, r in enumerate(rows):
        ctx.eq(list(fd.points[k][:cols]), t["p"][r][:cols], "point")
        ctx.eq(list(fd.colors[k]), t["c"][r], "colour")
        if desc:
            ctx.eq(list(fd.descriptors[k]), t["d"][r], "descriptor")
        if seg:
            ctx.eq(fd.semantic.segmentation[k], t["s"][r], "segmentation")
            ctx.eq(fd.get_segmentation()[k], t["s"][r], "segmentation")
            if inst:
                ctx.eq(fd.semantic.instances[k], t["i"][r], "instance")
        if dep:
            ctx.eq(fd.depths[k], t["z"][r], "depth")
    ctx.check(len(fd.colors) == len(rows), "number of colours")
    if desc:
        ctx.check(len(fd.descriptors) == len(rows), "number of descriptors")
    else:
        ctx.check(fd.descriptors is None, "no descriptors")
    if seg:
        ctx.check(len(fd.semantic.segmentation) == len(rows), "number of labels")
        ctx.check(fd.has_instances() == bool(inst), "instances present")
        if inst:
            ctx.check(len(fd.semantic.instances) == len(rows), "number of instances")
    else:
        ctx.check(not fd.semantic and fd.get_segmentation() is None, "no labels")
    if dep:
        ctx.check(len(fd.depths) == len(rows), "number of depths")
    else:
        ctx.check(fd.depths is None, "no depths")


def opts(ctx):
    k = ctx.choice("tables", 3)
    return k > 0, k > 1


def masked(ctx, w):
    import numpy as np
    seg, inst = opts(ctx)
    dep, desc = ctx.flag("depths"), ctx.flag("descriptors")
    fd, t = bundle(ctx, w, seg, inst, dep, desc)
    m = [ctx.flag("m%d" % k) for k in range(N)]
    r = fd.mask(np.array(m))
    same(ctx, r, t, [k for k in range(N) if m[k]], seg, inst, dep, desc)
    same(ctx, fd, t, list(range(N)), seg, inst, dep, desc)
    idx = np.array([2, 0])
    same(ctx, fd.mask(idx), t, [2, 0], seg, inst, dep, desc)


TYPES = [("HAHOG", True), ("HAHOG", False), ("SIFT", False), ("AKAZE", True), ("AKAZE", False), ("ORB", True), ("SURF", False)]


def stored(ctx, w, ftype):
    name, as_bytes = TYPES[ftype]
    seg, inst = opts(ctx)
    fd, t = bundle(ctx, w, seg, inst, False, True, bytes_=as_bytes)
    ds = w.dataset(["a.jpg", "b.jpg"])
    ds.config["feature_type"] = name
    ds.config["hahog_normalize_to_uchar"] = as_bytes
    ds.config["akaze_descriptor"] = "MLDB" if as_bytes else "KAZE"
    ctx.check(not ds.features_exist("a.jpg"), "no features before saving")
    ds.save_features("a.jpg", fd)
    ctx.check(ds.features_exist("a.jpg"), "features exist")
    r = ds.load_features("a.jpg")
    same(ctx, r, t, list(range(N)), seg, inst, False, True)
    if seg:
        ctx.check(len(r.semantic.labels) == len(fd.semantic.labels), "label names")


def words(ctx, w):
    ds = w.dataset(["a.jpg", "b.jpg"])
    x = [[ctx.int("w%d%d" % (k, j), 0, 65535) for j in range(2)] for k in range(N)]
    ds.save_words("a.jpg", ctx.array(x))
    ctx.eq(ds.load_words("a.jpg"), x, "words")


def loader(ctx, w, dep):
    """Masked loading: features, words and bearings select the same rows."""
    import numpy as np
    seg, inst = opts(ctx)
    fl = w.mod("feature_loading")
    fd, t = bundle(ctx, w, seg, inst, dep, True)
    m = [ctx.flag("m%d" % k) for k in range(N)]
    wd = [[ctx.int("w%d" % k, 0, 9)] for k in range(N)]

    class Data:
        config = dict(features_bake_segmentation=False, feature_type="HAHOG", hahog_normalize_to_uchar=True)

        def load_features(self, im):
            return fd

        def load_words(self, im):
            return ctx.array(wd)

    class Cam:
        def pixel_bearing_many(self, p):
            return ctx.array([[q[0], q[1], 1.0] for q in p]) if len(p) else np.zeros((0, 3))

    w.patch(w.mod("masking"), "load_features_mask", lambda *a, **k: np.array(m))
    L, data = fl.FeatureLoader(), Data()
    rows = [k for k in range(N) if m[k]]
    allrows = list(range(N))
    order = ctx.flag("masked first")
    for masked in ((True, False) if order else (False, True)):
        r = rows if masked else allrows
        got = L.load_all_data(data, "a.jpg", masked, False)
        same(ctx, got, t, r, seg, inst, dep, True, cols=3)
        words = L.load_words(data, "a.jpg", masked)
        ctx.check(len(words) == len(r), "number of words")
        for k, q in enumerate(r):
            ctx.eq(list(words[k]), wd[q], "word")
        b = L.load_bearings(data, "a.jpg", masked, Cam())
        ctx.check(len(b) == len(r), "number of bearings")
        for k, q in enumerate(r):
            ctx.eq(list(b[k]), t["p"][q][:2] + [1.0], "bearing")
        aug = L.load_all_data(data, "a.jpg", masked, True)
        if seg:
            ctx.check(len(aug.descriptors) == len(r), "number of descriptors")
            for k, q in enumerate(r):
                ctx.eq(list(aug.descriptors[k][:2]), t["d"][q], "augmented descriptor")
                ctx.eq(aug.descriptors[k][2], 35 * t["s"][q], "label in the descriptor")
    if not any(m):
        return
    u = L.load_points_colors_segmentations_instances(data, "a.jpg")
    same(ctx, u, t, allrows, seg, inst, False, False, cols=3)


def baked(ctx, w):
    """Ignored labels baked in the features, combined with a mask image."""
    import numpy as np
    seg = True
    fl = w.mod("feature_loading")
    fd, t = bundle(ctx, w, True, True, False, True)
    has = ctx.flag("mask image")
    m = [ctx.flag("m%d" % k) for k in range(N)] if has else [True] * N
    ign = [ctx.int("g0", 0, 255), ctx.int("g1", 0, 255)]

    class Data:
        config = dict(features_bake_segmentation=True)

        def load_features(self, im):
            return fd

        def segmentation_ignore_values(self, im):
            return ign

        def load_mask(self, im):
            return np.ones((2, 2)) if has else None

    w.patch(w.mod("masking"), "load_features_mask", lambda *a, **k: np.array(m))
    L = fl.FeatureLoader()
    got = L.load_all_data(Data(), "a.jpg", True, False)
    rows = [k for k in range(N) if m[k] and not any(bool(t["s"][k] == v) for v in ign)]
    same(ctx, got, t, rows, True, True, False, True, cols=3)


HARNESSES = [
    dict(name="mask", fn=masked),
    dict(name="save and load", fn=stored, params=[dict(ftype=k) for k in range(len(TYPES))]),
    dict(name="words", fn=words),
    dict(name="masked loading", fn=loader, params=[dict(dep=False), dict(dep=True)]),
    dict(name="baked labels", fn=baked),
]
