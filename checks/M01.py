"""Ratio test and mutual matches of the three descriptor matchers."""
PRELOAD = ["matching", "feature_loading", "feature_loader", "features", "config"]
BOUNDS = "2 query and 3 train features one way, 2 x 2 features symmetric; distances in [0, 1000], ratio in [0, 1]; every mask and preference of the back end"
ASSUMPTIONS = ["the nearest-neighbour back ends return the two nearest allowed train features of a query in order (the brute-force matcher exactly, the index and word tables whatever they prefer)"]


def descriptors(first, n, binary=False):
    import numpy as np
    return np.array([[first + k, 1] for k in range(n)], dtype=np.uint8 if binary else np.float32)


class Table:
    """Distances between features of image 1 (numbers 0..) and image 2 (numbers 100..)."""

    def __init__(self, ctx, n, m):
        self.d = [[ctx.real("d%d%d" % (i, j), 0, 1000) for j in range(m)] for i in range(n)]

    def __call__(self, a, b):
        a, b = int(a), int(b)
        return self.d[a][b - 100] if a < 100 else self.d[b][a - 100]

    def nearest(self, q, train, k, dist=None):
        dist = dist or (lambda t: self(q, t))
        out = []
        for t in train:
            d = dist(t)
            pos = len(out)
            while pos and bool(d < dist(out[pos - 1])):
                pos -= 1
            out.insert(pos, t)
        return out[:k]


class Match:
    def __init__(self, q, t, d):
        self.queryIdx, self.trainIdx, self.distance, self.imgIdx = q, t, d, 0


def cv_stub(table, log):
    import cv2

    class Matcher:
        """Distances are those of the table when the kind suits the descriptors, others unrelated."""

        def __init__(self, kind, crossCheck=False):
            if crossCheck:
                raise NotImplementedError("cross check")
            self.kind, self.train = kind, []

        def distance(self, q, t, binary):
            d = table(q, t)
            if self.kind == ("hamming" if binary else "l2"):
                return d
            if self.kind == "sl2" and not binary:
                return d * d
            return 1 / (1 + d)

        def add(self, l):
            self.train += list(l)

        def clear(self):
            self.train = []

        def train_(self):
            pass

        def knnMatch(self, q, *args, k=None, mask=None, masks=None, **kw):
            args = list(args)
            if args and not isinstance(args[0], (int, float)):
                train = [args.pop(0)]
            else:
                train = self.train
            if args:
                k = args.pop(0)
            if args:
                mask = args.pop(0)
            if masks is not None and len(masks):
                mask = masks[0]
            import numpy as np
            log.append(len(q))
            assert len(train) == 1
            if kw.get("compactResult"):
                raise NotImplementedError("compact result")
            if mask is not None:
                assert mask.shape == (len(q), len(train[0])), "mask shape"
            out = []
            for i in range(len(q)):
                ids = [int(r[0]) for j, r in enumerate(train[0]) if mask is None or mask[i][j]]
                back = {int(r[0]): j for j, r in enumerate(train[0])}
                dist = lambda t: self.distance(q[i][0], t, np.asarray(q).dtype == np.uint8)
                out.append([Match(i, back[t], dist(t)) for t in table.nearest(q[i][0], ids, k, dist)])
            return out

    names = {"BruteForce": "l2", 2: "l2", "BruteForce-Hamming": "hamming", 4: "hamming", "BruteForce-SL2": "sl2", 6: "sl2"}
    norms = {cv2.NORM_L2: "l2", cv2.NORM_L2SQR: "sl2", cv2.NORM_HAMMING: "hamming"}
    named = lambda name: Matcher(names.get(name, "other"))

    class CV2:
        DescriptorMatcher_create = staticmethod(named)
        DescriptorMatcher = type("D", (), {"create": staticmethod(named)})
        BFMatcher = BFMatcher_create = staticmethod(lambda normType=cv2.NORM_L2, crossCheck=False: Matcher(norms.get(normType, "other"), crossCheck))

        def __getattr__(self, n):
            return getattr(cv2, n)

    return CV2()


class Index:
    """FLANN index over some descriptors: squared distances."""

    def __init__(self, ctx, table, train):
        self.ctx, self.table, self.train = ctx, table, train

    def knnSearch(self, q, k, *a, params=None, **kw):
        import numpy as np
        idx, dist = [], []
        back = {int(r[0]): j for j, r in enumerate(self.train)}
        for i in range(len(q)):
            best = self.table.nearest(q[i][0], list(back), k)
            idx.append([back[t] for t in best])
            dist.append([self.table(q[i][0], t) ** 2 for t in best])
        return np.array(idx, dtype=np.int32), self.ctx.array(dist)


def kept(table, q, train, ratio):
    """The train feature matched to a query, if any."""
    two = table.nearest(q, train, 2)
    if len(two) < 2 or not bool(table(q, two[0]) < ratio * table(q, two[1])):
        return None
    return two[0]


def pairs(ms):
    return sorted((int(m[0]), int(m[1])) for m in ms)


def forward(table, n, m, ratio, mask):
    r = []
    for i in range(n):
        t = kept(table, i, [100 + j for j in range(m) if mask is None or mask[i][j]], ratio)
        if t is not None:
            r.append((i, t - 100))
    return r


def backward(table, n, m, ratio, mask):
    r = []
    for j in range(m):
        t = kept(table, 100 + j, [i for i in range(n) if mask is None or mask[i][j]], ratio)
        if t is not None:
            r.append((t, j))
    return r


def setup(ctx, w, n, m, masked=False, binary=False):
    import numpy as np
    mt = w.mod("matching")
    table = Table(ctx, n, m)
    ratio = ctx.real("ratio", 0, 1)
    mask = np.array([[ctx.flag("m%d%d" % (i, j)) for j in range(m)] for i in range(n)]) if masked else None
    log = []
    w.patch(mt, "cv2", cv_stub(table, log))
    return mt, table, ratio, mask, dict(lowes_ratio=ratio, flann_checks=8, bow_num_checks=20), descriptors(0, n, binary), descriptors(100, m, binary)


def brute(ctx, w, symmetric, masked, n, m, binary=False):
    mt, table, ratio, mask, cfg, f1, f2 = setup(ctx, w, n, m, masked, binary)
    if symmetric:
        got = mt.match_brute_force_symmetric(f1, f2, cfg, mask)
        b = backward(table, n, m, ratio, mask)
        want = [p for p in forward(table, n, m, ratio, mask) if p in b]
    else:
        got = mt.match_brute_force(f1, f2, cfg, mask)
        want = forward(table, n, m, ratio, mask)
    ctx.check(pairs(got) == sorted(want), "matches kept")


def flann(ctx, w, symmetric, n, m):
    mt, table, ratio, mask, cfg, f1, f2 = setup(ctx, w, n, m)
    i1, i2 = Index(ctx, table, f1), Index(ctx, table, f2)
    if symmetric:
        got = mt.match_flann_symmetric(f1, i1, f2, i2, cfg)
        b = backward(table, n, m, ratio, mask)
        want = [p for p in forward(table, n, m, ratio, mask) if p in b]
    else:
        got = mt.match_flann(i1, f2, cfg)
        want = backward(table, n, m, ratio, None)
    ctx.check(pairs(got) == sorted(want), "matches kept")


def words_stub(ctx, table, w1, w2, ratio, log):
    import numpy as np

    def match_using_words(fa, wa, fb, wb, r, checks):
        a, b = int(fa[0][0]) // 100, int(fb[0][0]) // 100
        ctx.check(a != b, "features of both images")
        own, other = (w1, w2) if a == 0 else (w2, w1)
        ctx.check(np.shape(wa) == own.shape and bool((np.asarray(wa) == own).all()), "words of the query image")
        ctx.check(np.shape(wb) == (len(other),) and bool((np.asarray(wb) == other[:, 0]).all()), "nearest word of the other image")
        ctx.eq(r, ratio, "configured ratio")
        log.append(a)
        out = []
        ids = [int(x[0]) for x in fb]
        for i in range(len(fa)):
            t = kept(table, fa[i][0], ids, r)
            if t is not None:
                out.append((i, ids.index(t)))
        return np.array(out, dtype=np.int32).reshape(-1, 2)

    return match_using_words


def words(ctx, w, symmetric, n, m):
    import numpy as np
    mt, table, ratio, mask, cfg, f1, f2 = setup(ctx, w, n, m)
    w1 = np.arange(2 * n).reshape(n, 2).astype(np.int32)
    w2 = 50 + np.arange(2 * m).reshape(m, 2).astype(np.int32)
    w.patch(mt.pyfeatures, "match_using_words", words_stub(ctx, table, w1, w2, ratio, []))
    want = forward(table, n, m, ratio, None)
    if symmetric:
        got = mt.match_words_symmetric(f1, w1, f2, w2, cfg)
        b = backward(table, n, m, ratio, None)
        want = [p for p in want if p in b]
    else:
        got = mt.match_words(f1, w1, f2, w2, cfg)
    ctx.check(pairs(got) == sorted(want), "matches kept")


def data_stub(ctx, w, cfg, f1, f2, w1, w2, points=None):
    import numpy as np
    ft = w.mod("features")
    conf = dict(w.mod("config").default_config(), **cfg)

    class Data:
        config = conf

        def load_features(self, im):
            f = f1 if im == "a.jpg" else f2
            p = points[im] if points else np.array([[0.01 * k, 0.01 * k, 1.0, 0.0] for k in range(len(f))])
            return ft.FeaturesData(p, f, np.zeros((len(f), 3)), None)

        def load_words(self, im):
            return w1 if im == "a.jpg" else w2

        def load_mask(self, im):
            return None

        def load_segmentation(self, im):
            return None

        def segmentation_ignore_values(self, im):
            return []

        def load_exif(self, im):
            return dict(make="", model="", width=100, height=100, orientation=1)

    w.patch(w.mod("feature_loader"), "instance", w.mod("feature_loading").FeatureLoader())
    return Data()


def pipeline(ctx, w, kind, symmetric):
    """The matcher chosen by the configuration, from stored features to matches."""
    import numpy as np
    n, m = 2, 2
    mt, table, ratio, mask, cfg, f1, f2 = setup(ctx, w, n, m)
    w1 = np.arange(2 * n).reshape(n, 2).astype(np.int32)
    w2 = 50 + np.arange(2 * m).reshape(m, 2).astype(np.int32)
    w.patch(mt.pyfeatures, "match_using_words", words_stub(ctx, table, w1, w2, ratio, []))
    w.patch(w.mod("features"), "build_flann_index", lambda d, c: Index(ctx, table, d))
    cfg.update(matching_use_filters=False, matching_use_segmentation=False)
    data = data_stub(ctx, w, cfg, f1, f2, w1, w2)
    override = dict(matcher_type=kind, symmetric_matching=symmetric)
    got = mt.match_descriptors("a.jpg", "b.jpg", None, None, data, override)
    fw, bw = forward(table, n, m, ratio, None), backward(table, n, m, ratio, None)
    if symmetric:
        want = [p for p in fw if p in bw]
    else:
        want = bw if kind == "FLANN" else fw
    ctx.check(pairs(got) == sorted(want), "matches kept")


HARNESSES = [
    dict(name="brute force", fn=brute, params=[dict(symmetric=False, masked=False, n=2, m=3), dict(symmetric=False, masked=False, n=1, m=3, binary=True), dict(symmetric=True, masked=False, n=2, m=2),
                                               dict(symmetric=False, masked=True, n=1, m=3), dict(symmetric=True, masked=True, n=2, m=2)],
         thorough=[dict(symmetric=False, masked=True, n=2, m=3), dict(symmetric=True, masked=False, n=2, m=3)]),
    dict(name="index", fn=flann, params=[dict(symmetric=False, n=3, m=2), dict(symmetric=True, n=2, m=2)],
         thorough=[dict(symmetric=True, n=2, m=3)]),
    dict(name="words", fn=words, params=[dict(symmetric=False, n=2, m=3), dict(symmetric=True, n=2, m=2)],
         thorough=[dict(symmetric=True, n=2, m=3)]),
    dict(name="by configuration", fn=pipeline, params=[dict(kind=k, symmetric=s) for k in ("BRUTEFORCE", "FLANN", "WORDS") for s in (True, False)]),
]
