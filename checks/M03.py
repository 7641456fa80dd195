"""Orientation of stored matches."""
import itertools
import pickle as real_pickle

PRELOAD = ["matching", "dataset", "tracking", "config"]
BOUNDS = "3 images, every set of matched pairs in every orientation and every set of reference images, up to 2 matches per pair with any feature numbers"
ASSUMPTIONS = ["pickling and compressing keep integers as they are"]
IMS = ["b.jpg", "a.jpg", "c.jpg"]


class Pickle:
    """The real pickling, with symbolic integers written as reserved numbers."""

    def __init__(self):
        self.table = []

    def out(self, x):
        import numpy as np
        if isinstance(x, dict):
            return {k: self.out(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return type(x)(self.out(v) for v in x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array([self.out(v) for v in x.ravel()], dtype=int).reshape(x.shape)
        if type(x).__module__.startswith("engine"):
            self.table.append(x)
            return 10 ** 9 + len(self.table) - 1
        return x

    def back(self, x):
        import numpy as np
        if isinstance(x, dict):
            return {k: self.back(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return type(x)(self.back(v) for v in x)
        if isinstance(x, np.ndarray) and x.dtype.kind == "i":
            r = np.empty(x.shape, dtype=object)
            r.ravel()[:] = [self.back(int(v)) for v in x.ravel()]
            return r
        if isinstance(x, int) and x >= 10 ** 9:
            return self.table[x - 10 ** 9]
        return x

    def dump(self, obj, f, *a, **k):
        real_pickle.dump(self.out(obj), f, *a, **k)

    def dumps(self, obj, *a, **k):
        return real_pickle.dumps(self.out(obj), *a, **k)

    @property
    def Unpickler(self):
        me = self

        class U(real_pickle.Unpickler):
            def load(self):
                return me.back(super().load())

        return U

    def __getattr__(self, n):
        return getattr(real_pickle, n)


def rows(m):
    return [[r[0], r[1]] for r in m]


def stored(ctx, w, form):
    import numpy as np
    mt, tr = w.mod("matching"), w.mod("tracking")
    ds = w.dataset(sorted(IMS))
    if not ctx.concrete:
        w.patch(w.mod("dataset"), "pickle", Pickle())
    pairs = {}
    for k, (i, j) in enumerate(itertools.combinations(range(3), 2)):
        o = ctx.choice("pair%d" % k, 3)  # absent or one of the orientations
        if o:
            key = (IMS[i], IMS[j]) if o == 1 else (IMS[j], IMS[i])
            n = (2, 1, 0)[k] if form == 0 else 1
            m = [(ctx.int("f%d%d" % (k, q), 0, 99999), ctx.int("g%d%d" % (k, q), 0, 99999)) for q in range(n)]
            pairs[key] = m
    given = {k: (ctx.array(v) if v else np.array([])) for k, v in pairs.items()}
    ref = [im for k, im in enumerate(IMS) if ctx.flag("ref%d" % k)]
    reachable = all(a in ref or b in ref for a, b in pairs)
    try:
        mt.save_matches(ds, list(ref), given)
        ok = True
    except RuntimeError:
        ok = False
    ctx.check(ok == reachable, "an unreachable pair is an error")
    if not ok:
        return
    # each pair once, under a reference image, columns in its order
    count = {}
    for im in IMS:
        if not ds.matches_exists(im):
            continue
        for other, m in ds.load_matches(im).items():
            ctx.check(im in ref, "stored under a reference image")
            key = tuple(sorted((im, other)))
            count[key] = count.get(key, 0) + 1
            want = pairs.get((im, other))
            if want is None and (other, im) in pairs:
                want = [(b, a) for a, b in pairs[other, im]]
            ctx.check(want is not None and len(want) == len(m), "number of stored matches")
            for r, s in zip(rows(m), want):
                ctx.eq(r, list(s), "columns of the stored matches")
    ctx.check(sorted(count) == sorted(tuple(sorted(p)) for p in pairs) and all(v == 1 for v in count.values()), "every pair stored once")
    for (a, b), m in pairs.items():
        for x, y, want in ((a, b, m), (b, a, [(q, p) for p, q in m])):
            got = ds.find_matches(x, y)
            ctx.check(len(got) == len(want), "number of matches found")
            for r, s in zip(rows(got), want):
                ctx.eq(r, list(s), "matches in the order asked for")
    for x, y in itertools.permutations(IMS, 2):
        if (x, y) not in pairs and (y, x) not in pairs:
            ctx.check(len(ds.find_matches(x, y)) == 0, "no matches of an unmatched pair")
    asked = [im for k, im in enumerate(IMS) if ctx.flag("asked%d" % k)] if form == 2 else list(IMS)
    got = tr.load_matches(ds, asked)
    seen = set()
    for (x, y), m in got.items():
        key = tuple(sorted((x, y)))
        ctx.check(key not in seen and x in asked and y in asked, "pairs loaded")
        seen.add(key)
        want = pairs.get((x, y))
        if want is None:
            ctx.check((y, x) in pairs, "a matched pair")
            want = [(b, a) for a, b in pairs[y, x]]
        ctx.check(len(m) == len(want), "number of matches loaded")
        for r, s in zip(rows(m), want):
            ctx.eq(r, list(s), "columns of the loaded matches")
    ctx.check(seen == {tuple(sorted(p)) for p in pairs if p[0] in asked and p[1] in asked}, "all pairs loaded")


def again(ctx, w):
    """Matching the images of two groups one after the other, then one pair again."""
    mt = w.mod("matching")
    ds = w.dataset(sorted(IMS))
    if not ctx.concrete:
        w.patch(w.mod("dataset"), "pickle", Pickle())
    x, y = ([(ctx.int("f%d" % k, 0, 9999), ctx.int("g%d" % k, 0, 9999))] for k in range(2))
    mt.save_matches(ds, ["a.jpg"], {("a.jpg", "b.jpg"): ctx.array(x)})
    mt.save_matches(ds, ["c.jpg"], {("b.jpg", "c.jpg"): ctx.array(y)})
    ctx.eq(rows(ds.find_matches("b.jpg", "a.jpg")), [[b, a] for a, b in x], "first group")
    ctx.eq(rows(ds.find_matches("b.jpg", "c.jpg")), [[a, b] for a, b in y], "second group")
    mt.save_matches(ds, ["a.jpg"], {("b.jpg", "a.jpg"): ctx.array(y)})
    ctx.eq(rows(ds.find_matches("b.jpg", "a.jpg")), [[a, b] for a, b in y], "replaced")
    ctx.eq(rows(ds.find_matches("c.jpg", "b.jpg")), [[b, a] for a, b in y], "second group kept")


HARNESSES = [
    dict(name="saved", fn=stored, params=[dict(form=0), dict(form=2)]),
    dict(name="again", fn=again),
]
