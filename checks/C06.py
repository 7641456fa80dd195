"""Tracks managers (map/tracks_manager.h)."""
import itertools
import os

NATIVE = {"tracks": dict(sources=["map/src/tracks_manager.cc", "sfm/src/tracks_helpers.cc"], flags=["-include", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "cxx", "stream_stub", "streams.h")])}
BOUNDS = "sequences of up to 4 operations on 2 images and 2 tracks, tracks on up to 3 images, two managers of two tracks merged; all coordinates and sizes"
ASSUMPTIONS = ["doubles are real numbers", "text streams keep six digits of a number (symbolically: all), the native replays use the real ones"]
TOL = 1e-5
KEYS = 9

class Reader:
    def __init__(self, out):
        self.out, self.k = out, 0

    def take(self, n):
        self.k += n
        return self.out[self.k - n:self.k]

    def n(self):
        return int(self.take(1)[0])

class State:
    """What a manager tells of itself."""

    def __init__(self, ctx, out, label):
        r = Reader(out)
        self.counts, self.by_shot, self.by_track = [r.n()], {}, {}
        for _ in range(r.n()):
            s, has = r.n(), r.n()
            ctx.check(has and s not in self.by_shot, label + ": images listed once")
            self.by_shot[s] = {}
            for _ in range(r.n()):
                t = r.n()
                self.by_shot[s][t] = r.take(KEYS)
                ctx.eq(r.take(KEYS), self.by_shot[s][t], label + ": single observation")
        self.counts.append(r.n())
        for _ in range(r.n()):
            t = r.n()
            ctx.check(t not in self.by_track, label + ": tracks listed once")
            self.by_track[t] = {}
            for _ in range(r.n()):
                s = r.n()
                self.by_track[t][s] = r.take(KEYS)
        ctx.check(self.counts == [len(self.by_shot), len(self.by_track)], label + ": counts")

def observation(ctx, name, feature, k):
    """Values of an observation: position, size, colour, feature, labels."""
    return [ctx.real(name + "x", -1, 1), ctx.real(name + "y", -1, 1), ctx.real(name + "s", 0, 10), 10 + k, 20 + k, 30 + k, feature, 40 + k, 50 + k]

def add(s, t, o):
    return [1, s, t, o]

def equal(ctx, state, want, label, ever=None):
    """want: {(shot, track): observation}."""
    for got, pick in ((state.by_shot, lambda a, b: (a, b)), (state.by_track, lambda a, b: (b, a))):
        pairs = {pick(a, b): o for a, d in got.items() for b, o in d.items()}
        ctx.check(set(pairs) == set(want), label + ": observations")
        for p in sorted(set(pairs) & set(want)):
            ctx.eq(pairs[p], want[p], label + ": values", TOL)
    ever = set(want) if ever is None else ever
    ctx.check(set(state.by_shot) <= {s for s, _ in ever} and set(state.by_track) <= {t for _, t in ever}, label + ": nothing else")

def history(ctx, w, first, n):
    """Observations are added, replaced and removed."""
    ops, want, ever = [], {}, set()
    for k in range(n):
        if k == 0:
            op, s, t = 1, first, 0
        else:
            op, s, t = 1 + ctx.choice("op%d" % k, 2), ctx.choice("s%d" % k, 2), ctx.choice("t%d" % k, 2)
        if op == 1:
            o = observation(ctx, "o%d" % k, 60 + k, k)
            ops.append(add(s, t, o))
            want[s, t] = o
            ever.add((s, t))
        else:
            if s not in {a for a, _ in ever} or t not in {b for _, b in ever}:
                ctx.assume(False)
            ops.append([2, s, t])
            want.pop((s, t), None)
    equal(ctx, State(ctx, w.native("tracks").call("state", [ops, 0], nout=2000), "history"), want, "history", ever)

SEEN = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (2, 2)]

def some(ctx, seen):
    want = {p: observation(ctx, "o%d%d" % p, 60 + k, k) for k, p in enumerate(seen)}
    return want, [add(s, t, o) for (s, t), o in want.items()]

def subset(ctx, w, seen):
    want, ops = some(ctx, seen)
    tracks = [t for t in range(4) if ctx.flag("t%d" % t)]
    shots = [s for s in range(4) if ctx.flag("s%d" % s)]
    out = w.native("tracks").call("subset", [ops, 0, len(tracks), len(shots), tracks, shots], nout=2000)
    equal(ctx, State(ctx, out, "subset"), {p: o for p, o in want.items() if p[0] in shots and p[1] in tracks}, "subset")

def common(ctx, w, seen):
    want, ops = some(ctx, seen)
    a, b = ctx.choice("a", 3), ctx.choice("b", 3)
    r = Reader(w.native("tracks").call("common", [ops, 0, a, b], nout=500))
    got = {}
    for _ in range(r.n()):
        t = r.n()
        ctx.check(t not in got, "common observations: once")
        got[t] = r.take(2 * KEYS)
    both = [t for t in range(4) if (a, t) in want and (b, t) in want]
    ctx.check(sorted(got) == both, "common observations: tracks")
    for t in both:
        if t in got:
            ctx.eq(got[t], want[a, t] + want[b, t], "common observations: in order")

def connectivity(ctx, w, seen, every):
    want, ops = some(ctx, seen)
    tracks = [] if every & 1 else [t for t in range(4) if ctx.flag("t%d" % t)]
    shots = [] if every & 2 else [s for s in range(4) if ctx.flag("s%d" % s)]
    if not every & 1 and not tracks or not every & 2 and not shots:
        ctx.assume(False)
    r = Reader(w.native("tracks").call("connectivity", [ops, 0, len(tracks), len(shots), tracks, shots], nout=500))
    got = {}
    for _ in range(r.n()):
        a, b = r.n(), r.n()
        ctx.check(a < b and (a, b) not in got, "connectivity: pairs in order")
        got[a, b] = r.n()
    count = {}
    for t in tracks or range(4):
        ims = [s for s in (shots or range(4)) if (s, t) in want]
        for p in itertools.combinations(ims, 2):
            count[p] = count.get(p, 0) + 1
    ctx.check(got == count, "connectivity: number of tracks in common")

def helpers(ctx, w, seen):
    """Connections are added and removed one by one; the count of an image is of its own tracks in the list."""
    want, ops = some(ctx, seen)
    pairs, edits = set(want), []
    for k in range(2):
        op, s = 1 + ctx.choice("op%d" % k, 2), ctx.choice("s%d" % k, 2)
        tracks = [[0], [1, 2], [2, 0]][ctx.choice("t%d" % k, 3)]
        edits.append([op, s, len(tracks), tracks])
        more = {(s, t) for t in tracks}
        pairs = pairs | more if op == 1 else pairs - more
    shots, tracks = [[0, 1, 2], [2, 0], []][ctx.choice("shots", 3)], [[0, 1, 2], [1, 5], []][ctx.choice("tracks", 3)]
    r = Reader(w.native("tracks").call("helpers", [ops, 0, edits, 0, len(shots), len(tracks), shots, tracks], nout=500))
    counts = [r.take(2) for _ in range(r.n())]
    ctx.check(sorted(counts) == [[s, sum((s, t) in pairs for t in tracks)] for s in sorted(shots)], "helpers: counts")
    rest = r.out[r.k:]
    got = [tuple(rest[i:i + 2]) for i in range(0, len(rest), 3)]
    ctx.check(sorted(got) == sorted(pairs), "helpers: connections")
    ctx.check(all(x == 1 for x in rest[2::3]), "helpers: connections of tracks")

def merge(ctx, w, layout, free):
    """Tracks of several managers that share features become one."""
    tracks, ops = [], []
    for m, manager in enumerate(layout):
        for t, shots in enumerate(manager):
            obs = {}
            for s in shots:
                # features are only the same within one image
                f = ctx.choice("f%d%d%d" % (m, t, s), 2) if s in free else 10 + 4 * m + t
                obs[s] = observation(ctx, "o%d%d%d" % (m, t, s), f, len(tracks))
                ops.append(add(s, t, obs[s]))
            tracks.append(obs)
        ops.append(0)
    out = w.native("tracks").call("merge", [len(layout), ops], nout=2000)
    state = State(ctx, out, "merge")
    groups = list(range(len(tracks)))
    for i, j in itertools.combinations(range(len(tracks)), 2):
        if any(s in tracks[j] and tracks[i][s][6] == tracks[j][s][6] for s in tracks[i]):
            groups = [groups[i] if g == groups[j] else g for g in groups]
    clusters = [[i for i in range(len(tracks)) if groups[i] == g] for g in sorted(set(groups))]
    ctx.check(len(state.by_track) == len(clusters), "merge: number of tracks")
    ctx.check({(s, t) for t, d in state.by_track.items() for s in d} == {(s, t) for s, d in state.by_shot.items() for t in d}, "merge: both sides")
    for c in clusters:
        shots = {s for i in c for s in tracks[i]}
        # a merged track by what it is made of (the colour numbers the original tracks)
        match = [d for d in state.by_track.values() if all(int(o[3]) - 10 in c for o in d.values())]
        ctx.check(len(match) == 1 and set(match[0]) == shots, "merge: images of a track")
        for d in match:
            for s, o in d.items():
                i = int(o[3]) - 10
                if i in c and s in tracks[i]:
                    ctx.eq(o, tracks[i][s], "merge: observations")
    for t, d in state.by_track.items():
        for s, o in d.items():
            if t in state.by_shot.get(s, {}):
                ctx.eq(state.by_shot[s][t], o, "merge: both sides agree")

def error(ctx, w, kind, known):
    """Unknown images and tracks."""
    want, ops = some(ctx, [(0, 0), (0, 1), (1, 1)])
    args = {"observation": [0, 1, 0], "shot": [1, 3, 0], "track": [2, 0, 3], "common first": [3, 3, 0, 0], "common second": [3, 0, 0, 3],
            "has": [4, 3, 0], "remove shot": [4, 0, 0], "remove track": [4, 0, 0], "observation of unknown": [0, 3, 0]}[kind]
    if kind == "remove shot":
        ops = ops + [[2, 3, 0]]
    if kind == "remove track":
        ops = ops + [[2, 0, 3]]
    try:
        out = w.native("tracks").call("lookup", [ops, 0, args], nout=50)
    except RuntimeError:
        out = None
    if kind == "has":
        ctx.check(out is not None and not out[0], "an unknown image has no observations")
    else:
        ctx.check(out is None, "error: " + kind)

def roundtrip(ctx, w, seen):
    want, ops = some(ctx, seen)
    equal(ctx, State(ctx, w.native("tracks").call("roundtrip", [ops, 0], nout=2000), "written and read"), want, "written and read")

def parse(ctx, w, version, wrong):
    """Older files have fewer values."""
    n = {0: 8, 1: 9, 2: 11, 3: 11}[version] - 2
    lines, want = [], {}
    for k, (s, t) in enumerate([(0, 0), (1, 0), (1, 1)]):
        o = observation(ctx, "o%d" % k, 60 + k, k)
        values = [(1, o[6]), (0, o[0]), (0, o[1])] + ([(0, o[2])] if version else []) + [(1, c) for c in o[3:6]] + [(1, c) for c in o[7:9]]
        m = n + (wrong if k == 1 else 0)
        values = (values + [(1, 7)] * 3)[:m]
        lines += [s, t, m, values]
        want[s, t] = o[:2] + [o[2] if version else 0.0] + o[3:7] + (o[7:] if version > 1 else [-1, -1])
    try:
        out = w.native("tracks").call("parse", [version, 3, lines], nout=500)
    except RuntimeError:
        out = None
    if wrong or version > 2:
        ctx.check(out is None, "malformed files are an error")
        return
    ctx.check(out is not None, "file of version %d" % version)
    if out is not None:
        equal(ctx, State(ctx, out, "file of version %d" % version), want, "file of version %d" % version)

def unite(ctx, w, n, first, more):
    """Sets of elements joined in pairs."""
    joined = list(first)
    for k in range(more):
        joined.append((ctx.choice("a%d" % k, n), ctx.choice("b%d" % k, n)))
    r = Reader(w.native("tracks").call("unite", [n, len(joined), joined], nout=100))
    got = sorted(sorted(r.n() for _ in range(r.n())) for _ in range(r.n()))
    sets = [{i} for i in range(n)]
    for a, b in joined:
        x, y = [next(s for s in sets if i in s) for i in (a, b)]
        if x is not y:
            sets.remove(y)
            x |= y
    ctx.check(got == sorted(sorted(s) for s in sets), "joined sets")

HARNESSES = [
    dict(name="unite", fn=unite, params=[dict(n=4, first=[], more=2), dict(n=7, first=[[0, 1], [2, 3], [0, 2], [4, 5]], more=1), dict(n=7, first=[[0, 1], [2, 3], [1, 3], [5, 4], [5, 2]], more=1)],
         thorough=[dict(n=4, first=[], more=3)]),
    dict(name="history", fn=history, params=[dict(first=0, n=3), dict(first=0, n=4)], thorough=[dict(first=0, n=5)]),
    dict(name="subset", fn=subset, params=[dict(seen=SEEN)]),
    dict(name="common", fn=common, params=[dict(seen=SEEN)]),
    dict(name="connectivity", fn=connectivity, params=[dict(seen=SEEN, every=e) for e in range(4)]),
    dict(name="helpers", fn=helpers, params=[dict(seen=SEEN)]),
    dict(name="merge", fn=merge, params=[dict(layout=[[[0, 1], [0]], [[0, 1], [1, 2]]], free=[0, 1]), dict(layout=[[[0], [1]], [], [[0, 1], [2]]], free=[0, 1]),
                                         dict(layout=[[[0], [0, 1], [1, 2], [2, 3], [3]]], free=[0, 1]), dict(layout=[], free=[])]),
    dict(name="error", fn=error, params=[dict(kind=k, known=0) for k in ("observation", "shot", "track", "common first", "common second", "has", "remove shot", "remove track", "observation of unknown")]),
    dict(name="roundtrip", fn=roundtrip, params=[dict(seen=SEEN), dict(seen=[])]),
    dict(name="parse", fn=parse, params=[dict(version=v, wrong=x) for v in range(3) for x in (0, -1, 1)] + [dict(version=3, wrong=0)]),
]
