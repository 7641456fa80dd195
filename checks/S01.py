"""Selection of candidate image pairs."""
import itertools

PRELOAD = ["pairs_selection", "context", "config", "feature_loader", "vlad", "bow"]
BOUNDS = "up to 4 images, overlapping or distinct reference and candidate sets, neighbour counts 0..3 and any maximum distance, positions on a line or in a plane, any times and descriptor distances"
ASSUMPTIONS = ["the nearest-neighbour tree returns the k nearest points in order, strictly within the bound",
               "no two images tie as neighbours of a third one", "the local frame is a stand-in (checked by G01)"]
A, B, C, D = "a.jpg", "b.jpg", "c.jpg", "d.jpg"


class Tree:
    def __init__(self, points, **kw):
        import numpy as np
        self.p = [list(np.ravel(r)) for r in points]

    def query(self, x, k=1, eps=0, p=2, distance_upper_bound=float("inf"), workers=1):
        import numpy as np
        x = list(np.ravel(np.asarray(x, dtype=object)))
        found = []
        for j, q in enumerate(self.p):
            d = sum((a - b) ** 2 for a, b in zip(x, q))
            if distance_upper_bound < 1e7 if isinstance(distance_upper_bound, (int, float)) else True:
                if not bool(d < distance_upper_bound ** 2):
                    continue
            pos = len(found)
            while pos and bool(d < found[pos - 1][0]):
                pos -= 1
            found.insert(pos, (d, j))
        k = int(k)
        found = found[:k]
        idx = [j for _, j in found] + [len(self.p)] * (k - len(found))
        dist = [d for d, _ in found] + [float("inf")] * (k - len(found))
        if k == 1:
            return dist[0], idx[0]
        r = np.empty(k, dtype=object)
        r[:] = dist
        return r, np.array(idx)


class Spatial:
    cKDTree = KDTree = Tree
    simplices = []

    class QhullError(Exception):
        pass

    @staticmethod
    def Delaunay(points, incremental=False):
        class R:
            simplices = Spatial.simplices.pop(0) if Spatial.simplices else []

        return R


class Local:
    def to_topocentric(self, lat, lon, alt):
        return lat, lon, alt


def ps(w):
    m = w.mod("pairs_selection")
    w.patch(m, "spatial", Spatial)
    return m


def partners(ctx, d, ref, cand, k, bound=None):
    """The k candidates nearest to ref, by squared distance d(x, y)."""
    rest = []
    for c in cand:
        if c == ref:
            continue
        v = d(ref, c)
        if bound is not None and not bool(v < bound):
            continue
        pos = len(rest)
        while pos and bool(v < rest[pos - 1][0]):
            pos -= 1
        rest.insert(pos, (v, c))
    return [c for _, c in rest[:k]]


def distinct(ctx, d, ims):
    for x in ims:
        o = [y for y in ims if y != x]
        for y in o:
            ctx.assume(d(x, y) > 1e-6)
        for y, z in itertools.combinations(o, 2):
            ctx.assume((d(x, y) - d(x, z)) ** 2 > 1e-12)


def key(a, b):
    return (a, b) if a < b else (b, a)


SETS = [([A, B, C], [A, B, C]), ([A, B], [C, D]), ([B], [A, B, C]), ([C, A], [B, C]), ([D, C, B, A], [D, B, A])]


def positions(ctx, ims, plane):
    pos = {}
    for k, im in enumerate(ims):
        pos[im] = (ctx.real("x" + im[0], -100, 100), (ctx.real("y" + im[0], -100, 100) if plane else 0.0))
    return pos


def exifs(ctx, pos, missing=None):
    e = {im: dict(gps=dict(latitude=p[0], longitude=p[1], altitude=5.0 * k), camera="cam") for k, (im, p) in enumerate(sorted(pos.items()))}
    if missing is not None:
        kind = ctx.choice("missing", 4)
        if kind == 0:
            del e[missing]["gps"]
        elif kind == 1:
            e[missing]["gps"] = {}
        else:
            del e[missing]["gps"]["latitude" if kind == 2 else "longitude"]
    return e


def by_distance(ctx, w, sets, k, limit, plane=False, missing=False):
    m = ps(w)
    ref, cand = SETS[sets]
    ims = sorted(set(ref) | set(cand))
    pos = positions(ctx, ims, plane)
    d = lambda a, b: (pos[a][0] - pos[b][0]) ** 2 + (pos[a][1] - pos[b][1]) ** 2
    distinct(ctx, d, ims)
    mx = ctx.real("max", 0.01, 300) if limit else 0
    if limit:
        for x, y in itertools.combinations(ims, 2):
            ctx.assume((d(x, y) - mx ** 2) ** 2 > 1e-12)
    e = exifs(ctx, pos, ims[ctx.choice("who", len(ims))] if missing else None)
    got = m.match_candidates_by_distance(list(ref), list(cand), e, Local(), k, mx)
    want = set()
    if not missing and (k or limit):
        for r in ref:
            want |= {key(r, c) for c in partners(ctx, d, r, cand, k or 99, mx ** 2 if limit else None)}
    ctx.check(len(list(got)) == len(set(got)) and set(got) == want, "pairs by distance")


def by_time(ctx, w, sets, k):
    m = ps(w)
    ref, cand = SETS[sets]
    ims = sorted(set(ref) | set(cand))
    t = {im: ctx.real("t" + im[0], 0, 1e6) for im in ims}
    d = lambda a, b: (t[a] - t[b]) ** 2
    distinct(ctx, d, ims)
    got = m.match_candidates_by_time(list(ref), list(cand), {im: dict(capture_time=t[im]) for im in ims}, k)
    want = set()
    for r in ref:
        want |= {key(r, c) for c in partners(ctx, d, r, cand, k)}
    ctx.check(set(got) == want, "pairs by time")


def by_order(ctx, w):
    m = ps(w)
    k = ctx.choice("neighbours", 6)
    ims = [D, A, C, B]
    n = (k + 1) // 2
    got = m.match_candidates_by_order(list(ims), list(ims), k)
    want = {key(ims[i], ims[j]) for i in range(4) for j in range(4) if 0 < abs(i - j) <= n}
    ctx.check(set(got) == want, "pairs by order")
    for ref, cand in SETS:
        got = m.match_candidates_by_order(list(ref), list(cand), k)
        for p in got:
            ctx.check(p == key(*p) and p[0] != p[1] and ((p[0] in ref and p[1] in cand) or (p[1] in ref and p[0] in cand)), "admissible pair")


def by_graph(ctx, w, ref, cand):
    import numpy as np
    m = ps(w)
    ims = sorted(set(ref) | set(cand))
    pos = {im: (3.0 * k * k, 1.0 * k) for k, im in enumerate(ims)}
    e = exifs(ctx, pos)
    tri = [(0, 1, 2), (1, 2, 3), (0, 2, 3), (0, 1, 3)]
    rounds = ctx.choice("rounds", 3)
    used = [[t for t in tri if ctx.flag("t%d%d" % (r, t[0] + t[1] + t[2]))] for r in range(min(rounds, 1) + 1)]
    if rounds == 2:
        used.append(tri[2:3])
    ctx.assume(bool(used[0]))
    Spatial.simplices = [list(u) for u in used]
    order = []
    real = m.get_representative_points
    w.patch(m, "get_representative_points", lambda images, *a: order.append(list(images)) or real(images, *a))
    got = m.match_candidates_by_graph(list(ref), list(cand), e, Local(), rounds)
    if rounds < 1 or len(cand) < 4:
        want = set()
    else:
        ctx.check(len(order) == 1 and sorted(order[0]) == ims, "every image is a vertex")
        o = order[0]
        want = set()
        for u in used:
            for t in u:
                for x, y in itertools.combinations(t, 2):
                    x, y = o[x], o[y]
                    if (x in ref and y in cand) or (y in ref and x in cand):
                        want.add(key(x, y))
    ctx.check(set(got) == want, "edges of the triangulations")


def appearance(ctx, w, kind, others, k, n):
    """The k nearest images by descriptor distance, or k of the same and k of other cameras."""
    import numpy as np
    m = ps(w)
    ims = [A, B, C, D][:n]
    ref, cand = ims[:2], ims
    table = {}
    for x, y in itertools.combinations(ims, 2):
        if x in ref or y in ref:
            table[x, y] = table[y, x] = ctx.real("d" + x[0] + y[0], 0.1, 10)
    dist = lambda x, y: table[x, y]
    for x in ref:
        for y, z in itertools.combinations([c for c in cand if c != x], 2):
            ctx.assume((dist(x, y) - dist(x, z)) ** 2 > 1e-12)
    cam = {im: ("one", "two")[ctx.choice("cam" + im[0], 2)] if others and im != A else "one" for im in ims}
    e = {im: dict(camera=cam[im]) for im in ims}
    lost = ctx.choice("no histogram", 3)  # nobody, a candidate, a reference image
    lost = [None, ims[-1], A][lost]
    hist = {im: np.array([1.0 * j]) for j, im in enumerate(ims) if im != lost}

    def table_distances(image, other, histograms):
        ds, os = [], []
        if image in histograms:
            for o in sorted(other):
                if o != image and o in histograms:
                    ds.append(dist(image, o))
                    os.append(o)
        return ds, os

    class Data:
        config = dict(processes=1)

    w.patch(w.mod("context"), "memory_available", lambda: None)
    if kind == "bow":
        # one-word histograms whose differences are looked up in the table
        class H:
            def __init__(self, im):
                self.im = im

            def __sub__(self, o):
                return Diff(dist(self.im, o.im))

        class Diff:
            def __init__(self, v):
                self.v = ctx.array([v])

            def __abs__(self):
                return self.v

        h = {im: H(im) for im in hist}
        w.patch(m, "load_histograms", lambda data, need: {im: h[im] for im in need if im in h})
        w.patch(m, "bow_distances", lambda image, other, histograms: (image,) + table_distances(image, other, histograms))
        got = m.match_candidates_with_bow(Data(), list(ref), list(cand), e, Local(), k, 0, 0, others)
    else:
        w.patch(m, "vlad_histograms", lambda need, data: {im: hist[im] for im in need if im in hist})
        w.patch(w.mod("vlad").pyfeatures, "compute_vlad_distances", lambda hs, image, other: table_distances(image, other, hs))
        got = m.match_candidates_with_vlad(Data(), list(ref), list(cand), e, Local(), k, 0, 0, others, {})
    want = {}
    for r in ref:
        if r == lost:
            continue
        ok = [c for c in cand if c != lost]
        if others:
            groups = [[c for c in ok if cam[c] == cam[r]], [c for c in ok if cam[c] != cam[r]]]
        else:
            groups = [ok]
        for g in groups:
            for c in partners(ctx, dist, r, g, k):
                want[key(r, c)] = dist(r, c)
    ctx.check(set(got) == set(want), "nearest images by appearance")
    for p in want:
        ctx.eq(got[p], want[p], "distance of a pair")


def bow_l1(ctx, w):
    import numpy as np
    m = ps(w)
    h = {im: ctx.array([ctx.real("h%s%d" % (im[0], k), 0, 1) for k in range(3)]) for im in (A, B, C)}
    im, ds, other = m.bow_distances(A, [A, B, C, D], h)
    ctx.check(im == A and list(other) == [B, C], "images compared")
    for o, v in zip(other, ds):
        ctx.eq(v, sum(abs(x - y) for x, y in zip(h[A], h[o])), "histogram distance")
    im, ds, other = m.bow_distances(D, [A, B, C], h)
    ctx.check(im == D and len(ds) == 0 and len(other) == 0, "no histogram, no partners")


def preempted(ctx, w, kind):
    """Appearance restricted to the nearest images by position."""
    m = ps(w)
    ims = [A, B, C]
    pos = positions(ctx, ims, False)
    d = lambda a, b: (pos[a][0] - pos[b][0]) ** 2
    distinct(ctx, d, ims)
    e = exifs(ctx, pos)
    cands, need = m.preempt_candidates([A], list(ims), e, Local(), 1, 0)
    want = partners(ctx, d, A, ims, 1)
    ctx.check(set(cands) == {A} and sorted(cands[A]) == want and set(need) >= {A} | set(want), "candidates near the image")


def merged(ctx, w, sets):
    """Rules together: canonical unique pairs, first image a reference image."""
    m = ps(w)
    ref, cand = SETS[sets]
    ims = sorted(set(ref) | set(cand))
    n = len(ims)
    x = {im: 3.0 ** k for k, im in enumerate(ims)}
    which = ctx.choice("rule", 5)
    has_gps = ctx.flag("gps of all images") or which > 3
    e = {im: dict(gps=dict(latitude=x[im], longitude=0.0), capture_time=-x[im], camera="c") for im in ims}
    if not has_gps:
        del e[cand[0]]["gps"]
    cfg = dict(w.mod("config").default_config())
    for k in cfg:
        if k.startswith("matching_") and (k.endswith("_neighbors") or k.endswith("_distance") or k.endswith("_rounds")):
            cfg[k] = 0
    over = {}
    k = 1 + ctx.choice("neighbours", 2)
    if which in (0, 3):
        over["matching_gps_neighbors"] = k
    if which in (1, 3):
        over["matching_time_neighbors"] = k
    if which == 2:
        over["matching_order_neighbors"] = k
    # the times and positions of the rules are symbolic in the harnesses above

    class Data:
        config = cfg

        def init_reference(self):
            pass

        def load_reference(self):
            return Local()

    # an arbitrary further rule, by the bag of words
    extra = {key(r, c): 0.5 for r in ref for c in cand if r != c}
    extra = {p: v for p, v in extra.items() if ctx.flag("bow" + p[0][0] + p[1][0])} if which == 4 else {}
    if which == 4:
        over["matching_bow_neighbors"] = 1
    w.patch(m, "match_candidates_with_bow", lambda *a, **kw: dict(extra) if over.get("matching_bow_neighbors") else {})
    got, report = m.match_candidates_from_metadata(list(ref), list(cand), e, Data(), over)
    want = set()
    d = lambda a, b: (x[a] - x[b]) ** 2
    if which == 4:
        want = set(extra)
    elif which == 0 and not has_gps:
        want = {key(r, c) for r in ref for c in cand if r != c}  # no rule left: all pairs
    else:
        if which in (0, 3) and has_gps:
            for r in ref:
                want |= {key(r, c) for c in partners(ctx, d, r, cand, k)}
        if which in (1, 3):
            for r in ref:
                want |= {key(r, c) for c in partners(ctx, d, r, cand, k)}
        if which == 2:
            want = set(m.match_candidates_by_order(sorted(ref), list(cand), k))
    ctx.check(len(got) == len({key(*p) for p in got}), "no pair twice")
    ctx.check({key(*p) for p in got} == want, "pairs of all rules")
    for p in got:
        ctx.check(p[0] in ref and p[0] != p[1] and (p[1] in cand or (p[0] in cand and p[1] in ref)), "a reference image first")


HARNESSES = [
    dict(name="distance", fn=by_distance, params=[dict(sets=s, k=k, limit=l) for s, k, l in ((0, 1, False), (1, 1, False), (2, 1, False), (2, 3, False), (2, 0, True), (3, 1, True), (3, 2, False), (0, 0, False))]
         + [dict(sets=2, k=1, limit=False, plane=True), dict(sets=0, k=1, limit=False, missing=True), dict(sets=1, k=1, limit=False, missing=True)],
         thorough=[dict(sets=0, k=1, limit=True), dict(sets=1, k=2, limit=False), dict(sets=1, k=0, limit=True), dict(sets=0, k=2, limit=True), dict(sets=4, k=1, limit=False), dict(sets=4, k=2, limit=False), dict(sets=1, k=1, limit=True), dict(sets=2, k=1, limit=True, plane=True)]),
    dict(name="time", fn=by_time, params=[dict(sets=s, k=k) for s, k in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 1), (3, 1), (3, 2))], thorough=[dict(sets=4, k=1), dict(sets=4, k=2)]),
    dict(name="order", fn=by_order),
    dict(name="graph", fn=by_graph, params=[dict(ref=[A, B, C, D], cand=[A, B, C, D]), dict(ref=[A, C], cand=[B, D, A, C]), dict(ref=[A], cand=[B, C, D])]),
    dict(name="appearance", fn=appearance, params=[dict(kind=k, others=o, k=1, n=3) for k in ("bow", "vlad") for o in (False, True)] + [dict(kind="vlad", others=False, k=2, n=4)],
         thorough=[dict(kind="bow", others=True, k=1, n=4), dict(kind="vlad", others=True, k=2, n=4)]),
    dict(name="histograms", fn=bow_l1),
    dict(name="preempted", fn=preempted, params=[dict(kind="bow")]),
    dict(name="merged", fn=merged, params=[dict(sets=s) for s in range(len(SETS))]),
]
