"""Features and the masks and labels of their pixels."""
import numpy as np

PRELOAD = ["pygeometry", "masking", "features_processing", "features", "feature_loading", "dataset", "upright"]
BOUNDS = "1 to 3 features anywhere in the image, images of any size up to 10000 and every EXIF orientation, masks and segmentations of up to 3x4 pixels with any values"
ASSUMPTIONS = ["features lie in the image, not within 1e-6 of the edge of a mask pixel", "reading the mask and segmentation files and detecting features are stand-ins",
               "nearest-neighbour resizing takes the pixel at the floor of the scaled index (tested with whole factors)"]
IM = "a.jpg"


def raw(ctx, name, w, h):
    """A feature: its place in the image as stored, in [0, 1], and its coordinates."""
    fx, fy = ctx.real(name + ".x", 0, 1), ctx.real(name + ".y", 0, 1)
    s = w if bool(w >= h) else h
    return fx, fy, [(fx - 0.5) * w / s, (fy - 0.5) * h / s]


def upright(fx, fy, o):
    return {1: (fx, fy), 3: (1 - fx, 1 - fy), 6: (1 - fy, fx), 8: (fy, 1 - fx)}[o]


def cell(ctx, u, n):
    """Index of the pixel, decided on the way; keeps away from the edges."""
    for k in range(n):
        if k == n - 1 or bool(u * n < k + 1):
            ctx.assume(u * n > k + 1e-6)
            ctx.assume(u * n < k + 1 - 1e-6)
            return k


def values(ctx, name, shape, hi=255):
    return [[ctx.int("%s%d%d" % (name, i, j), 0, hi) for j in range(shape[1])] for i in range(shape[0])]


def cv(np_):
    class CV:
        INTER_NEAREST = 0

        @staticmethod
        def resize(im, size, interpolation=None):
            assert interpolation == 0
            h, w = im.shape[:2]
            return im[np.array([i * h // size[1] for i in range(size[1])])][:, np.array([j * w // size[0] for j in range(size[0])])]
    return CV


def dataset(ctx, w, o, mask, seg, ignore, size=None):
    data = w.dataset([IM])
    W, H = size or (ctx.int("width", 1, 10000), ctx.int("height", 1, 10000))
    data.save_exif(IM, dict(width=W, height=H, orientation=o, camera="c"))
    cam = w.mod("pygeometry").Camera.create_perspective(1.0, 0.0, 0.0)
    cam.id = "c"
    data.save_camera_models({"c": cam})
    data.config["segmentation_ignore_values"] = ignore
    w.patch(data, "load_mask", lambda im: mask if im == IM else None)
    w.patch(data, "load_segmentation", lambda im: seg if im == IM else None)
    return data, W, H


def agree(ctx, x, y, label):
    ctx.check((x & y) | ((x ^ True) & (y ^ True)), label)


def table(ctx, w, v, name="m"):
    return ctx.array(v) if v is not None else None


def valid(v, i, j):
    return v is None or bool(v[i][j] != 0)


def kept(ctx, w, o, shape, user, labels, seg_shape=None):
    """Positions: one feature, masks with any values."""
    mk = w.mod("masking")
    w.patch(mk, "cv2", cv(np))
    sshape = seg_shape or shape
    m = values(ctx, "m", shape) if user else None
    s = values(ctx, "s", sshape) if labels else None
    ign = [7, 0, 255] if labels == 1 else []
    data, W, H = dataset(ctx, w, o, table(ctx, w, m), table(ctx, w, s), ign)
    fx, fy, p = raw(ctx, "f", W, H)
    u, v = upright(fx, fy, o)
    i, j = cell(ctx, v, shape[0]), cell(ctx, u, shape[1])
    got = mk.load_features_mask(data, IM, ctx.array([p + [ctx.real("size", 0, 1)]]))
    ctx.check(len(got) == 1, "one answer per feature")
    good = valid(m, i, j)
    if s is not None and ign:
        a, b = (i, j) if not seg_shape else (cell(ctx, v, sshape[0]), cell(ctx, u, sshape[1]))
        good = good and not any(bool(s[a][b] == x) for x in ign)
    ctx.check(bool(got[0]) == good, "kept exactly when its pixel is valid")
    ctx.check(len(mk.load_features_mask(data, IM, np.zeros((0, 3)))) == 0, "no features")


def given(ctx, w, o):
    """A mask given by the caller is used instead."""
    mk = w.mod("masking")
    m = values(ctx, "m", (2, 2))
    data, W, H = dataset(ctx, w, o, table(ctx, w, values(ctx, "x", (2, 2)), "x"), None, [])
    fs = [raw(ctx, "f%d" % k, W, H) for k in range(2)]
    want = []
    for fx, fy, p in fs:
        u, v = upright(fx, fy, o)
        want.append(valid(m, cell(ctx, v, 2), cell(ctx, u, 2)))
    got = mk.load_features_mask(data, IM, ctx.array([p for _, _, p in fs]), table(ctx, w, m))
    ctx.check([bool(g) for g in got] == want, "the given mask decides")


def combined(ctx, w, a, b):
    """Masks with any values and of any of two sizes."""
    mk = w.mod("masking")
    w.patch(mk, "cv2", cv(np))
    A = values(ctx, "a", a) if a else None
    B = values(ctx, "b", b) if b else None
    r = mk.combine_masks(table(ctx, w, A), table(ctx, w, B))
    if A is None and B is None:
        ctx.check(r is None, "no mask")
        return
    shape = max(x for x in (a, b) if x)
    ctx.check(list(r.shape) == shape, "size of the result")
    for i in range(shape[0]):
        for j in range(shape[1]):
            ok = True
            for V, s in ((A, a), (B, b)):
                if V is not None:
                    ok = ok & (V[i * s[0] // shape[0]][j * s[1] // shape[1]] != 0)
            agree(ctx, r[i, j] != 0, ok, "valid in both")


def labels(ctx, w, n):
    mk = w.mod("masking")
    s = values(ctx, "s", (2, 2))
    ign = [ctx.int("ignore%d" % k, 0, 255) for k in range(n)]
    r = mk.mask_from_segmentation(ctx.array(s), ign)
    for i in range(2):
        for j in range(2):
            ok = True
            for x in ign:
                ok = ok & (s[i][j] != x)
            agree(ctx, r[i, j] != 0, ok, "labels to ignore")


def detect(ctx, w, bake, o, fixed=True):
    """Detection through loading: masked, sorted, with their labels."""
    fp, ft, fl = w.mod("features_processing"), w.mod("features"), w.mod("feature_loading")
    m, s, t = [[255, 128], [1, 0 if ctx.flag("m") else 64]], [[3, 4]], values(ctx, "i", (1, 2))
    ign = [3]
    data, W, H = dataset(ctx, w, o, ctx.image(np.array(m, dtype=np.uint8)), ctx.image(np.array(s, dtype=np.uint8)), ign, (400, 300) if fixed else None)
    w.patch(w.mod("masking"), "cv2", cv(np))
    data.config.update(features_bake_segmentation=bake, matcher_type="FLANN", matching_bow_neighbors=0, feature_type="HAHOG")
    fs = [raw(ctx, "f%d" % k, W, H) for k in range(2)]
    if fixed:
        for v, c in zip(fs[1], (0.3, 0.7)):
            ctx.assume(v > c - 0.1)
            ctx.assume(v < c + 0.1)
    sizes = [ctx.real("size%d" % k, 0, 1) for k in range(2)]
    ctx.assume(sizes[0] - sizes[1] > 1e-3 if ctx.flag("first") else sizes[1] - sizes[0] > 1e-3)
    pts = [p + [z, 0.0] for (_, _, p), z in zip(fs, sizes)]
    at = []
    for fx, fy, _ in fs:
        u, v = upright(fx, fy, o)
        at.append((cell(ctx, v, 2), cell(ctx, u, 2)))
    saved = {}
    w.patch(fp.features, "extract_features", lambda *a: (ctx.array(pts), np.array([[10.0, 11], [20, 21]]), np.array([[1, 2, 3], [4, 5, 6]])))
    w.patch(data, "save_features", lambda im, f: saved.__setitem__(im, f))
    w.patch(data, "load_features", lambda im: saved.get(im))
    w.patch(data, "features_exist", lambda im: im in saved)

    class Picture:
        shape = (H, W, 3)

    fp.detect(IM, Picture(), ctx.image(np.array(s, dtype=np.uint8)) if bake else None, ctx.array(t) if bake else None, data)
    order = sorted(range(2), key=lambda k: 0 if bool(sizes[k] < sizes[1 - k]) else 1)
    good = [valid(m, at[k][0], at[k][1]) and not any(bool(s[0][at[k][1]] == x) for x in ign) for k in range(2)]
    rows = order if bake else [k for k in order if good[k]]

    def compare(f, rows):
        ctx.check(len(f.points) == len(rows) == len(f.descriptors) == len(f.colors), "number of features")
        for q, k in enumerate(rows):
            ctx.eq(list(f.points[q][:3]), pts[k][:3], "feature")
            ctx.eq(list(f.descriptors[q]), [[10.0, 11], [20, 21]][k], "descriptor")
            ctx.check([int(c) for c in f.colors[q]] == [[1, 2, 3], [4, 5, 6]][k], "colour")
            if bake:
                ctx.eq(f.semantic.segmentation[q], s[0][at[k][1]], "label of a feature")
                ctx.eq(f.semantic.instances[q], t[0][at[k][1]], "instance of a feature")

    compare(saved[IM], rows)
    L = fl.FeatureLoader()
    compare(L.load_all_data(data, IM, False, False), rows)
    compare(L.load_all_data(data, IM, True, False), [k for k in rows if good[k]])
    words = np.array([[1], [2]])[: len(rows)]
    w.patch(data, "load_words", lambda im: words)
    ctx.check([int(x[0]) - 1 for x in L.load_words(data, IM, True)] == [q for q, k in enumerate(rows) if good[k]], "words of the features kept")
    L.clear_cache()


ORI = [1, 3, 6, 8]
HARNESSES = [
    dict(name="kept", fn=kept, opts=dict(int_arrays=True, lazy_bools=True), params=[dict(o=o, shape=[2, 3], user=True, labels=0) for o in ORI] + [dict(o=6, shape=[2, 2], user=True, labels=1), dict(o=8, shape=[1, 2], user=True, labels=1, seg_shape=[2, 4]),
                                       dict(o=3, shape=[1, 2], user=False, labels=1), dict(o=1, shape=[2, 2], user=False, labels=2), dict(o=1, shape=[1, 1], user=False, labels=0)],
         thorough=[dict(o=o, shape=[3, 4], user=True, labels=1) for o in ORI] + [dict(o=o, shape=[4, 2], user=True, labels=1, seg_shape=[2, 1]) for o in ORI]),
    dict(name="given", fn=given, params=[dict(o=1), dict(o=6)], thorough=[dict(o=3), dict(o=8)]),
    dict(name="combined", fn=combined, opts=dict(lazy_bools=True), params=[dict(a=[2, 2], b=[2, 2]), dict(a=[1, 2], b=[2, 4]), dict(a=[2, 2], b=None), dict(a=None, b=[1, 2]), dict(a=None, b=None), dict(a=[3, 2], b=[1, 1])]),
    dict(name="labels", fn=labels, opts=dict(int_arrays=True, lazy_bools=True), params=[dict(n=k) for k in (0, 1, 2)]),
    dict(name="detect", fn=detect, opts=dict(int_arrays=True, lazy_bools=True), params=[dict(bake=b, o=o) for b in (True, False) for o in (1, 6)], thorough=[dict(bake=b, o=o, fixed=False) for b in (True, False) for o in (3, 8)]),
]
