"""Pixel <-> normalized image coordinates."""

PRELOAD = ["features", "pygeometry"]
BOUNDS = "1 or 2 points per table, image sizes 1..100000, coordinates in +-1e6 (all values within)"
ASSUMPTIONS = ["doubles are real numbers"]


def size(ctx):
    return ctx.int("width", 1, 100000), ctx.int("height", 1, 100000)


def coords(ctx, n, name="p", lim=1e6):
    return [[ctx.real("%s%d%s" % (name, k, c), -lim, lim) for c in "xy"] for k in range(n)]


def arrays(ctx, w, n=2):
    f = w.mod("features")
    W, H = size(ctx)
    p = coords(ctx, n)
    S = W if bool(W >= H) else H
    a = ctx.array(p)
    q = f.normalized_image_coordinates(a, W, H)
    for k in range(n):
        ctx.eq(q[k][0] * S, p[k][0] - (W - 1) / 2, "normalized x")
        ctx.eq(q[k][1] * S, p[k][1] - (H - 1) / 2, "normalized y")
        ctx.eq(list(a[k]), p[k], "input is left alone")
    ctx.check(q.shape == (n, 2), "shape")
    ctx.eq(f.denormalized_image_coordinates(q, W, H), p, "there and back")
    r = coords(ctx, n, "r", 10.0)
    b = f.denormalized_image_coordinates(ctx.array(r), W, H)
    for k in range(n):
        ctx.eq(b[k][0], r[k][0] * S + (W - 1) / 2, "pixel x")
        ctx.eq(b[k][1], r[k][1] * S + (H - 1) / 2, "pixel y")
    ctx.eq(f.normalized_image_coordinates(b, W, H), r, "back and there")


def keypoints(ctx, w, n=2, cols=4):
    f = w.mod("features")
    W, H = size(ctx)
    S = W if bool(W >= H) else H
    p = [[ctx.real("p%d%d" % (k, j), -1000, 1000) for j in range(cols)] for k in range(n)]
    desc = ctx.array([[ctx.real("d%d" % k, 0, 1)] for k in range(n)])
    col = ctx.array([[ctx.int("c%d" % k, 0, 255)] * 3 for k in range(n)])
    a, d2, c2 = f.normalize_features(ctx.array(p), desc, col, W, H)
    for k in range(n):
        ctx.eq(a[k][0] * S, p[k][0] - (W - 1) / 2, "keypoint x")
        ctx.eq(a[k][1] * S, p[k][1] - (H - 1) / 2, "keypoint y")
        ctx.eq(a[k][2] * S, p[k][2], "keypoint size")
        for j in range(3, cols):
            ctx.eq(a[k][j], p[k][j], "keypoint angle and response")
    ctx.eq(d2, desc, "descriptors")
    ctx.eq(c2, col, "colours")


def features_of_image(ctx, w):
    """extract_features on top of a detector that returns arbitrary keypoints."""
    f = w.mod("features")
    W, H = 6, 4
    import numpy as np

    turn = ctx.flag("portrait")
    img = ctx.image(np.arange(W * H * 3, dtype=np.uint8).reshape((W, H, 3) if turn else (H, W, 3)))
    w_, h_ = (H, W) if turn else (W, H)
    x, y = ctx.int("px", 0, w_ - 1), ctx.int("py", 0, h_ - 1)
    sx, sy = ctx.real("sx", 0, 0.49), ctx.real("sy", 0, 0.49)
    s = ctx.real("size", 0.1, 10)
    x, y = int(x), int(y)
    pts = ctx.array([[x + sx, y + sy, s, 0.5]])
    desc = ctx.array([[0.25, 0.75]])
    cfg = w.mod("config").default_config()
    cfg["feature_type"] = "SIFT"
    cfg["feature_root"] = False
    cfg["feature_process_size"] = -1
    w.patch(f, "extract_features_sift", lambda *a, **k: (pts, desc))
    p, d, c = f.extract_features(img, cfg, False)
    ctx.eq(p[0][0] * 6, x + sx - (w_ - 1) / 2, "feature x")
    ctx.eq(p[0][1] * 6, y + sy - (h_ - 1) / 2, "feature y")
    ctx.eq(p[0][2] * 6, s, "feature size")
    ctx.eq(list(c[0]), [int(v) for v in img[y, x]], "feature colour")


HARNESSES = [
    dict(name="arrays", fn=arrays, params=[dict(n=1), dict(n=2)]),
    dict(name="keypoints", fn=keypoints, params=[dict(n=2, cols=3), dict(n=2, cols=4)]),
    dict(name="features of an image", fn=features_of_image),
]
