"""Tracks: connected components of the matches, with the data of their features."""

PRELOAD = ["pymap", "unionfind", "tracking"]
BOUNDS = ("3 images, up to 4 matches (quick: 3) over every choice of image pairs, 4 feature rows per image with arbitrary "
          "values, feature numbers / minimum length / labels / depths symbolic")
ASSUMPTIONS = ["a feature number indexes the feature table of its image"]
ROWS = 4
IMS = ["b.jpg", "a.jpg", "c.jpg"]
PAIRS = [(0, 1), (1, 2), (0, 2), (1, 0)]


def tables(ctx, missing, opt):
    """Per-image tables (features, colours, labels, instances, depths)."""
    f, c, s, i, d = {}, {}, {}, {}, {}
    for k, im in enumerate(IMS):
        if k == missing:
            continue
        f[im] = ctx.array([[ctx.real("f%d%d%s" % (k, r, n), -1, 1) for n in "xys"] for r in range(ROWS)])
        c[im] = ctx.array([[ctx.int("c%d%d%s" % (k, r, n), 0, 255) for n in "rgb"] for r in range(ROWS)])
        if opt & 1 and k != 1:
            s[im] = ctx.array([ctx.int("s%d%d" % (k, r), 0, 255) for r in range(ROWS)])
        if opt & 2 and k != 0:
            i[im] = ctx.array([ctx.int("i%d%d" % (k, r), 0, 255) for r in range(ROWS)])
        if opt & 4 and k != 2:
            d[im] = ctx.array([ctx.real("d%d%d" % (k, r), 0, 100) for r in range(ROWS)])
    return f, c, s, i, d


def components(nodes, edges):
    comp = list(range(len(nodes)))
    for a, b in edges:
        if comp[a] != comp[b]:
            x, y = comp[a], comp[b]
            comp = [x if k == y else k for k in comp]
    return [[n for n, k in zip(nodes, comp) if k == g] for g in sorted(set(comp))]


def run(ctx, w, pairs, missing=-1, opt=0):
    tracking = w.mod("tracking")
    f, c, s, i, d = tables(ctx, missing, opt)
    minlen = ctx.int("min_length", 0, 4)
    matches = {}
    nodes, edges = [], []

    def node(im, fid):
        for k, (im2, f2) in enumerate(nodes):
            if im == im2 and bool(fid == f2):
                return k
        nodes.append((im, fid))
        return len(nodes) - 1

    for k, p in enumerate(pairs):
        a, b = IMS[PAIRS[p][0]], IMS[PAIRS[p][1]]
        fa, fb = ctx.int("m%da" % k, 0, ROWS - 1), ctx.int("m%db" % k, 0, ROWS - 1)
        matches.setdefault((a, b), []).append((fa, fb))
    for (a, b), l in matches.items():
        for fa, fb in l:
            edges.append((node(a, fa), node(b, fb)))
    tm = tracking.create_tracks_manager(f, c, s, i, matches, minlen, d, True, 0.5)
    want = []
    for comp in components(nodes, edges):
        ims = [im for im, _ in comp]
        if len(set(ims)) == len(ims) and bool(minlen <= len(ims)):
            left = [(im, fid) for im, fid in comp if im in f]
            if left:
                want.append(left)
    got = []
    for t in tm.get_track_ids():
        obs = tm.get_track_observations(t)
        if obs:
            got.append((t, obs))
    ctx.check(len(got) == len(want), "number of tracks")
    for comp in want:
        im0, f0 = comp[0]
        hit = [(t, o) for t, o in got if im0 in o and bool(o[im0].id == f0)]
        ctx.check(len(hit) == 1, "one track for a component")
        t, obs = hit[0]
        ctx.check(set(obs) == set(im for im, _ in comp), "images of a track")
        for im, fid in comp:
            o = obs[im]
            ctx.check(o.id == fid, "feature number")
            ctx.eq([o.point[0], o.point[1], o.scale], list(f[im][fid]), "position and scale")
            ctx.eq(list(o.color), list(c[im][fid]), "colour")
            ctx.eq(o.segmentation, s[im][fid] if im in s else -1, "segmentation label")
            ctx.eq(o.instance, i[im][fid] if im in i else -1, "instance label")
            if im in d:
                v = d[im][fid]
                ctx.check(o.depth_prior is not None, "depth prior present")
                ctx.eq(o.depth_prior.value, v, "depth value")
                ctx.check(o.depth_prior.is_radial is True, "depth kind")
                ctx.eq(o.depth_prior.std_deviation, 0.5 * v if bool(v > 1.0) else 0.5, "depth deviation")
            else:
                ctx.check(o.depth_prior is None, "no depth prior")


def no_depth(ctx, w):
    """Undefined depths give no prior."""
    tracking = w.mod("tracking")
    nan, inf = float("nan"), float("inf")
    k = ctx.choice("kind", 3)
    v = ctx.real("d", 0, 9)
    d = {"a": ctx.array([[nan, inf, -inf][k], v]), "b": ctx.array([v, [nan, inf, -inf][k]])}
    f = {"a": ctx.array([[0.0, 0, 1], [1.0, 0, 1]]), "b": ctx.array([[0.0, 0, 1], [1.0, 0, 1]])}
    c = {"a": ctx.array([[0, 0, 0], [1, 1, 1]]), "b": ctx.array([[0, 0, 0], [1, 1, 1]])}
    fa, fb = ctx.int("fa", 0, 1), ctx.int("fb", 0, 1)
    tm = tracking.create_tracks_manager(f, c, {}, {}, {("a", "b"): [(fa, fb)]}, 2, d)
    for im, fid, bad in (("a", fa, 0), ("b", fb, 1)):
        o = tm.get_observation(im, tm.get_track_ids()[0])
        if bool(fid == bad):
            ctx.check(o.depth_prior is None, "no prior from an undefined depth")
        else:
            ctx.eq(o.depth_prior.value, v, "depth value")


def lookup(ctx, w):
    """Common tracks of two images."""
    tracking, pymap = w.mod("tracking"), w.mod("pymap")
    tm = pymap.TracksManager()
    x = {}
    for t in ("0", "1", "2"):
        for im in ("a", "b"):
            if ctx.flag("%s%s" % (t, im)):
                x[t, im] = ctx.real("x%s%s" % (t, im), -1, 1)
                tm.add_observation(im, t, pymap.Observation(x[t, im], 0.25, 1.0, 0, 0, 0, 7))
    if not any((t, "a") in x for t in "012") or not any((t, "b") in x for t in "012"):
        return
    both = [t for t in "012" if (t, "a") in x and (t, "b") in x]
    tracks, p1, p2 = tracking.common_tracks(tm, "a", "b")
    ctx.check(sorted(tracks) == both, "common tracks")
    for k, t in enumerate(tracks):
        ctx.eq(p1[k][0], x[t, "a"], "first point")
        ctx.eq(p2[k][0], x[t, "b"], "second point")
    n = ctx.int("min", 1, 3)
    r = tracking.all_common_tracks_with_features(tm, min_common=n)
    if bool(n <= len(both)):
        ctx.check(list(r) in ([("a", "b")], [("b", "a")]), "pair listed")
        key = list(r)[0]
        tr, q1, q2 = r[key]
        ctx.check(sorted(tr) == both, "common tracks of the pair")
        for k, t in enumerate(tr):
            ctx.eq(q1[k][0], x[t, key[0]], "first point of the pair")
            ctx.eq(q2[k][0], x[t, key[1]], "second point of the pair")
    else:
        ctx.check(len(r) == 0, "pair below the minimum is not listed")


def P(*pairs, **kw):
    return dict(pairs=list(pairs), **kw)


HARNESSES = [
    dict(name="components", fn=run,
         params=[P(0, 0), P(0, 1, opt=7), P(0, 3), P(0, 1, 2), P(0, 1, 0), P(0, 0, 1, missing=1), P(0, 0, 0)],
         thorough=[P(0, 1, 2, 0), P(0, 1, 2, 3), P(0, 0, 1, 1), P(0, 1, 1, opt=7), P(0, 2, 1, missing=0, opt=7)],
         budget=dict(quick=40, thorough=800)),
    dict(name="undefined depth", fn=no_depth),
    dict(name="common tracks", fn=lookup),
]
