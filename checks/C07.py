"""Maps: cameras, rigs, shots, points and their links (map/map.h)."""
import math

from checks.C01 import any_rotation, comp, inv, spun
from checks.C02 import camera
from checks.C06 import KEYS, Reader, observation
from checks.I02 import vec
from checks.Q01 import mm, mv, T

NATIVE = {"map": dict(sources=["map/src/" + f + ".cc" for f in ("map", "shot", "rig", "landmark", "observation", "tracks_manager")]
                      + ["geometry/src/camera.cc", "foundation/src/newton_raphson.cc", "geo/src/geo.cc"], libs=["-lglog"])}
BOUNDS = ("sequences of up to 3 operations on maps of up to 3 shots, 2 rig instances, 2 rig cameras, 2 cameras and 2 points; "
          "all poses, positions and sizes in general position")
ASSUMPTIONS = ["doubles are real numbers", "a feature of an image is observed by one point", "normal shots and panorama shots do not share rig instances"]
TOL = 1e-6
OPT = dict(opts=dict(rotations=True))

def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, (list, tuple)) else [x]

def op(code, *args):
    a = flat(args)
    return [code, len(a)] + a

def write(p):
    return [p[0], p[1]]

def optional(r, n):
    has = r.n()
    v = r.take(n)
    return v if has else None

class State:
    """What a map tells of itself; all its cross references are checked here."""

    def __init__(self, ctx, r, label):
        self.ctx, self.label = ctx, label
        self.cameras, self.rigs, self.instances, self.points = {}, {}, {}, {}
        counted = []

        def group(into, read):
            counted.append(r.n())
            n = r.n()
            for _ in range(n):
                key = r.n()
                self.true(key not in into, "listed once")
                into[key] = read()
            counted[-1] = counted[-1] == n
        group(self.cameras, lambda: dict(ok=self.true(r.n(), "camera of its name"), values=r.take(r.n()),
                                         has=self.true(r.n(), "camera with a correction"), bias=r.take(7)))
        counted.append(r.n() == len(self.cameras))
        group(self.rigs, lambda: dict(ok=self.true(r.n(), "rig camera of its name"), pose=self.pose(r)))
        group(self.instances, lambda: dict(ok=self.true(r.n(), "instance of its name"), pose=self.pose(r), same=self.true(r.n(), "number of shots"),
                                           shots={r.n(): self.true(r.n(), "shot of the instance") for _ in range(r.n())}))
        self.shots = {}, {}
        group(self.shots[0], lambda: self.shot(r))
        group(self.shots[1], lambda: self.shot(r))
        group(self.points, lambda: self.point(r))
        self.true(all(counted), "counts")
        self.reference = r.take(3)
        self.links()

    def true(self, c, label):
        self.ctx.check(bool(c), self.label + ": " + label)
        return True

    def pose(self, r):
        return [r.take(3) for _ in range(3)], r.take(3)

    def shot(self, r):
        self.true(r.n(), "shot of its name")
        s = dict(camera=r.n())
        self.true(r.n(), "camera of the shot")
        s["instance"] = r.n()
        self.true(r.n(), "instance of the shot")
        s["rig"] = r.n()
        self.true(r.n(), "rig camera of the shot")
        s["pose"] = self.pose(r)
        self.ctx.eq(flat(self.pose(r)), flat(s["pose"]), self.label + ": pose of a constant shot", TOL)
        s["group"], s["scale"] = r.n(), r.take(1)[0]
        s["measures"] = [optional(r, n) for n in (1, 3, 1, 1, 1, 1, 3, 3, 1)] + [r.n(), r.take(3)]
        s["seen"] = {}
        n = r.n()
        self.true(r.n() == n, "list of points")
        for _ in range(n):
            l = r.n()
            self.true(r.n(), "point of an observation")
            s["seen"][l] = r.take(KEYS)
            self.ctx.eq(r.take(KEYS), s["seen"][l], self.label + ": observation of a feature")
        features = [f for f in range(8) if r.n()]
        self.true(features == sorted(int(o[6]) for o in s["seen"].values()), "features known")
        return s

    def point(self, r):
        self.true(r.n(), "point of its name")
        p = dict(at=r.take(3), color=r.take(3), errors=[i for i in range(3) if r.n()], seen={})
        n, m = r.n(), r.n()
        self.true(n == m, "number of observations")
        for _ in range(m):
            s = r.n()
            self.true(r.n(), "shot of an observation")
            p["seen"][s] = r.n()
            self.true(r.n(), "feature in a shot")
        return p

    def all_shots(self):
        return [(k, s) for g in self.shots for k, s in g.items()]

    def links(self):
        """Both directions of each link, and the poses of shots."""
        there = {(s, l): int(o[6]) for s, x in self.all_shots() for l, o in x["seen"].items()}
        back = {(s, l): f for l, p in self.points.items() for s, f in p["seen"].items()}
        self.true(there == back, "observations seen from shots and points")
        there = {(s, x["instance"]) for s, x in self.all_shots()}
        self.true(there == {(s, i) for i, x in self.instances.items() for s in x["shots"]}, "shots of instances")
        for s, x in self.all_shots():
            want = comp(self.rigs[x["rig"]]["pose"], self.instances[x["instance"]]["pose"])
            self.ctx.eq(flat(x["pose"]), flat(want), self.label + ": pose of a shot", TOL)

def same_measures(ctx, x, y, label):
    ctx.eq(x["scale"], y["scale"], label + ": scale")
    for u, v in zip(x["measures"], y["measures"]):
        ctx.check((u is None) == (v is None), label + ": known measurements")
        if u is not None:
            ctx.eq(u, v, label + ": measurements")

def equal(ctx, a, b, label, observations=True):
    """Two maps are the same."""
    ctx.check((set(a.cameras), set(a.rigs), set(a.instances), set(a.shots[0]), set(a.shots[1]), set(a.points)) ==
              (set(b.cameras), set(b.rigs), set(b.instances), set(b.shots[0]), set(b.shots[1]), set(b.points)), label + ": contents")
    for c in a.cameras:
        ctx.eq(a.cameras[c]["values"] + a.cameras[c]["bias"], b.cameras[c]["values"] + b.cameras[c]["bias"], label + ": camera", TOL)
    for kind in ("rigs", "instances"):
        for c, x in getattr(a, kind).items():
            ctx.eq(flat(x["pose"]), flat(getattr(b, kind)[c]["pose"]), label + ": poses of " + kind, TOL)
    for k in (0, 1):
        for s, x in a.shots[k].items():
            y = b.shots[k][s]
            ctx.check([x[q] for q in ("camera", "instance", "rig", "group")] == [y[q] for q in ("camera", "instance", "rig", "group")], label + ": shot")
            same_measures(ctx, x, y, label)
            if observations:
                ctx.check(set(x["seen"]) == set(y["seen"]), label + ": observations")
                for l in x["seen"]:
                    ctx.eq(x["seen"][l], y["seen"][l], label + ": observation")
            else:
                ctx.check(not x["seen"], label + ": no observations")
    for l, p in a.points.items():
        ctx.eq(p["at"] + p["color"], b.points[l]["at"] + b.points[l]["color"], label + ": point")
    ctx.eq(a.reference, b.reference, label + ": reference")

def same_measures(ctx, x, y, label):
    ctx.eq(x["scale"], y["scale"], label + ": scale")
    for u, v in zip(x["measures"], y["measures"]):
        ctx.check((u is None) == (v is None), label + ": known measurements")
        if u is not None:
            ctx.eq(u, v, label + ": measurements")

CAM = [0, 0.9, -0.1, 0.01]
IDENTITY = ([[float(i == j) for j in range(3)] for i in range(3)], [0.0] * 3)

def any_pose(ctx, name):
    return any_rotation(ctx, name + "r"), vec(ctx, name + "t")

def simple(points=(0, 1), shots=(0, 1)):
    """Shots of their own instances, with points; all poses are trivial."""
    ops = [op(1, 0, CAM), op(2, 0, write(IDENTITY))]
    for s in shots:
        ops += [op(3, s), op(5, s, 0, 0, s, write(IDENTITY))]
    for l in points:
        ops += [op(7, l, [1.0 + l, 2.0, 3.0], [40 + l, 50, 60]), op(25, l)]
    return ops

FEATURE = {(0, 0): 3, (0, 1): 4, (1, 0): 4, (1, 1): 5}

def shows(ctx, seen, k=0):
    return {p: observation(ctx, "o%d%d" % p, FEATURE[p], k + i) for i, p in enumerate(seen)}

def seen_matches(ctx, st, seen, label):
    got = {(s, l): o for s, x in st.all_shots() for l, o in x["seen"].items()}
    ctx.check(set(got) == set(seen), label + ": observations")
    for p in sorted(set(got) & set(seen)):
        ctx.eq(got[p], seen[p], label + ": observation", TOL)

def run_state(ctx, w, ops, label, failed=()):
    r = Reader(w.native("map").call("state", [ops, 0], nout=4096))
    got = [i for i in range(r.n()) if r.n()]
    ctx.check(got == list(failed), label + ": operations refused")
    return State(ctx, r, label)

# ---- observations ----
def links(ctx, w, seen, steps, pano=0):
    """Observations added and removed, points and shots removed: both ends agree."""
    label = "links"
    seen = [tuple(p) for p in seen]
    ops = simple()
    if pano:
        ops = [o if not (o[0] == 5 and o[2] == 1) else [6] + o[1:] for o in ops]
    state = shows(ctx, seen)
    shots, points = {0, 1}, {0, 1}
    errors = {0: {0, 1, 2}, 1: {0, 1, 2}}

    def addition(s):
        return 9 if pano and s == 1 else 8
    for (s, l), o in state.items():
        ops.append(op(addition(s), s, l, o))
    bad = []
    moves = [("remove",) + p for p in FEATURE] + [("add",) + p for p in FEATURE] + [("again",) + p for p in FEATURE] \
        + [("shot", s) for s in shots] + [("point", l) for l in points] + [("pointer", 0), ("clean", 1), ("clean", 2), ("clean", 3), ("clear", 0)]
    for k in range(steps):
        m = moves[ctx.choice("m%d" % k, len(moves))]
        n = len(ops)
        if m[0] in ("add", "again"):
            s, l = m[1:]
            if pano and s == 1 and l not in points:
                ctx.assume(False)
            present = (s, l) in state
            if (m[0] == "again") != present:
                ctx.assume(False)
            f = FEATURE[s, l] if m[0] == "add" else 6 + l
            o = observation(ctx, "n%d" % k, f, k + 5)
            ops.append(op(addition(s), s, l, o))
            if s in shots and l in points:
                state[s, l] = o
            else:
                bad.append(n)
        elif m[0] == "remove":
            s, l = m[1:]
            if pano and s == 1:
                ctx.assume(False)
            ops.append(op(10, s, l))
            if (s, l) in state:
                del state[s, l]
                errors[l].discard(s)
            else:
                bad.append(n)
        elif m[0] == "shot":
            s = m[1]
            ops.append(op(12 if pano and s == 1 else 11, s))
            if s in shots:
                shots.discard(s)
                for p in [p for p in state if p[0] == s]:
                    del state[p]
                    errors[p[1]].discard(s)
            else:
                bad.append(n)
        elif m[0] in ("point", "pointer"):
            l = m[1]
            ops.append(op(13 if m[0] == "point" else 14, l))
            if l in points:
                points.discard(l)
                state = {p: o for p, o in state.items() if p[1] != l}
            else:
                bad.append(n)
        elif m[0] == "clean":
            ops.append(op(15, m[1]))
            gone = {l for l in points if sum(p[1] == l for p in state) < m[1]}
            points -= gone
            state = {p: o for p, o in state.items() if p[1] not in gone}
        else:
            ops.append(op(16, 0))
            points, state = set(), {}
    st = run_state(ctx, w, ops, label, bad)
    ctx.check({s for s, _ in st.all_shots()} == shots, label + ": shots")
    ctx.check(set(st.points) == points, label + ": points")
    ctx.check({l: set(p["errors"]) for l, p in st.points.items()} == {l: errors[l] for l in points}, label + ": errors of removed observations")
    seen_matches(ctx, st, state, label)

# ---- rigs ----
def rigs(ctx, w, changes):
    """Poses of the shots of rigs follow the instance and the rig camera."""
    label = "rigs"
    a, b, i0 = (any_pose(ctx, n) for n in "abi")
    if changes == ["remove"]:
        # (Whether a rig camera is the identity matters to what is left of a rig.)
        a = IDENTITY[0], [ctx.real("a0", 0.1, 1), 0.0, 0.0]
    ops = [op(1, 0, CAM), op(1, 1, CAM), op(2, 0, write(a)), op(2, 1, write(b)), op(2, 2, write(IDENTITY)), op(3, 0), op(3, 1)]
    # The pose of the first shot gives that of the instance.
    ops += [op(5, 0, 0, 0, 0, write(comp(a, i0))), op(4, 1, 1, 1, 0, write(IDENTITY)), op(4, 2, 0, 2, 1, write(IDENTITY))]
    rig, inst, shots, bad = {0: a, 1: b, 2: IDENTITY}, {0: i0, 1: IDENTITY}, {0: (0, 0), 1: (0, 1), 2: (1, 2)}, []
    for k, c in enumerate(changes):
        n = len(ops)
        p = any_pose(ctx, "p%d" % k) if c in ("instance", "rig", "from", "single", "multi", "late") else None
        if c == "instance":
            ops.append(op(18, 0, write(p)))
            inst[0] = p
        elif c == "rig":
            ops.append(op(19, 0, 1, write(p)))
            rig[1] = p
        elif c == "from":
            ops.append(op(20, 0, 1, write(p)))
            inst[0] = comp(inv(rig[1]), p)
        elif c == "single":
            ops.append(op(17, 2, write(p)))
            inst[1] = p
        elif c == "multi":
            ops.append(op(17, 0, write(p)))
            bad.append(n)
        elif c == "remove":
            ops.append(op(11, 1))
            del shots[1]
        elif c == "late":
            ops.append(op(5, 1, 1, 1, 0, write(p)))
            shots[1] = (0, 1)
            inst[0] = comp(inv(rig[1]), p)
        elif c == "same":
            # A rig camera takes one shot of an instance.
            ops.append(op(5, 3, 0, 0, 0, write(IDENTITY)))
            bad.append(n)
        elif c == "gone":
            ops += [op(11, 2), op(23, 1)]
            del shots[2], inst[1]
    st = run_state(ctx, w, ops, label, bad)
    ctx.check({s: (x["instance"], x["rig"]) for s, x in st.all_shots()} == shots, label + ": shots of instances")
    ctx.check(set(st.instances) == set(inst), label + ": instances")
    for i in inst:
        ctx.eq(flat(st.instances[i]["pose"]), flat(inst[i]), label + ": poses of instances", TOL)
    for r in rig:
        ctx.eq(flat(st.rigs[r]["pose"]), flat(rig[r]), label + ": poses of rig cameras", TOL)
    ctx.check({s: x["camera"] for s, x in st.all_shots()} == {s: int(s == 1) for s in shots}, label + ": cameras of shots")

def refused(ctx, w):
    """Unknown names and names already there are errors that change nothing."""
    label = "refused"
    ops = simple() + [op(8, 0, 0, observation(ctx, "o", 3, 0))]
    ops += [op(3, 2), op(6, 2, 0, 0, 2, write(IDENTITY))]
    wrong = [op(2, 0, write(IDENTITY)), op(3, 0)]
    for code in (4, 5, 6):
        there = 2 if code == 6 else 0
        wrong += [op(code, there, 0, 0, 0, write(IDENTITY)), op(code, 3, 1, 0, 0, write(IDENTITY)), op(code, 3, 0, 1, 0, write(IDENTITY)),
                  op(code, 3, 0, 0, 3, write(IDENTITY)), op(code, 3, 0, 0, 0, write(IDENTITY))]
    o = observation(ctx, "w", 5, 0)
    wrong += [op(7, 0, [0.0] * 3, [0] * 3), op(8, 3, 0, o), op(8, 0, 3, o), op(9, 0, 0, o), op(9, 2, 3, o), op(10, 0, 1), op(10, 3, 0), op(10, 0, 3),
              op(11, 3), op(11, 2), op(12, 3), op(12, 0), op(13, 3), op(14, 3), op(17, 3, write(IDENTITY)), op(18, 3, write(IDENTITY)),
              op(19, 0, 1, write(IDENTITY)), op(20, 0, 1, write(IDENTITY)), op(21, 1, [0.1] * 3, [0.0] * 3, 1.0), op(23, 3)]
    first = run_state(ctx, w, ops, label)
    k = ctx.choice("k", len(wrong) + 1)
    if k < len(wrong):
        ops = ops + [wrong[k]]
        then = run_state(ctx, w, ops, label, [len(ops) - 1])
    else:
        # A camera created again stays as it was.
        then = run_state(ctx, w, ops + [op(1, 0, [0, 0.5, 0.2, 0.1])], label)
    equal(ctx, then, first, label)

# ---- copies and updates ----
def metadata(ctx, s, pano, k):
    x = [ctx.real("m%d%d" % (k, i)) for i in range(24)]
    v = [x[0], x[1:4], x[4], x[5], x[6], 3, x[7:10], x[10:13], x[13], 4, x[14:17]]
    return op(22, s, pano, 7, x[17], v)

def copies(ctx, w, observations, extra):
    """A copy is equal to the map, and independent of it."""
    label = "copy"
    a, b, i0, i1, i2 = (any_pose(ctx, n) for n in ("a", "b", "i", "j", "k"))
    ops = [op(1, 0, CAM), op(1, 1, 4, [0.9, 1.0, 0.1, 0.2] + [0.01 * i for i in range(8)]),
           op(2, 0, write(a)), op(2, 1, write(b)), op(2, 2, write(IDENTITY)), op(3, 0), op(3, 1)]
    ops += [op(5, 0, 0, 0, 0, write(comp(a, i0))), op(4, 1, 1, 1, 0, write(IDENTITY)), op(6, 2, 0, 2, 1, write(i1))]
    ops += [op(7, 0, vec(ctx, "l0"), [1, 2, 3]), op(7, 1, vec(ctx, "l1"), [4, 5, 6])]
    ops += [metadata(ctx, 0, 0, 0), metadata(ctx, 2, 1, 1), op(24, vec(ctx, "ref"))]
    r = ctx.rotation("bias")[0]
    ops += [op(21, 1, list(r), vec(ctx, "tb"), ctx.real("sb", 0.5, 2))]
    ops += [op(8, 0, 0, observation(ctx, "o0", 3, 0)), op(8, 0, 1, observation(ctx, "o1", 4, 1)), op(8, 1, 0, observation(ctx, "o2", 4, 2)),
            op(9, 2, 1, observation(ctx, "o3", 3, 3))]
    if extra:
        ops += [op(2, 3, write(b)), op(3, 4), op(18, 4, write(i2))]
    first = run_state(ctx, w, ops, label)
    then = [op(18, 0, write(i2)), op(10, 0, 0), op(11, 1), op(13, 1), op(12, 2), op(7, 3, [0.0] * 3, [0] * 3)]
    r = Reader(w.native("map").call("copy", [observations, ops, 0, then, 0], nout=4096))
    copy = State(ctx, r, label)
    for _ in range(r.n()):
        r.n()
    equal(ctx, copy, first, label, observations)
    equal(ctx, State(ctx, r, label), first, label + ": the original")

def update(ctx, w, rig, pano=0):
    """A shot updated with that of another map."""
    label = "update"
    a, b, i0, i1 = (any_pose(ctx, n) for n in ("a", "b", "i", "j"))
    if not rig:
        a = IDENTITY[0], [ctx.real("a0", 0.1, 1), 0.0, 0.0]
    ops = [op(1, 0, CAM), op(2, 0, write(a)), op(3, 0), op(6 if pano else 5, 0, 0, 0, 0, write(comp(a, i0)))]
    ops += [metadata(ctx, 0, pano, 0), op(7, 0, [1.0, 2.0, 3.0], [1, 2, 3]), op(9 if pano else 8, 0, 0, observation(ctx, "o", 3, 0))]
    other = [op(1, 0, CAM), op(1, 1, CAM), op(2, 0, write(a)), op(2, 1, write(b)), op(3, 0), op(6 if pano else 5, 0, 0, 0, 0, write(comp(a, i1)))]
    if rig:
        # The other map has one more shot in the instance.
        other += [op(6 if pano else 5, 1, 1, 1, 0, write(comp(b, i1))), metadata(ctx, 1, pano, 1)]
    if ctx.choice("measured", 2):
        other.append(metadata(ctx, 0, pano, 2))
    r = Reader(w.native("map").call("update", [pano, 0, ops, 0, other, 0], nout=4096))
    for _ in range(r.n()):
        ctx.check(not r.n(), label + ": operations")
    ctx.check(r.n() == 1, label + ": done")
    st, src = State(ctx, r, label), State(ctx, r, label)
    ctx.check((set(st.shots[pano]), set(st.shots[1 - pano])) == ({0, 1} if rig else {0}, set()), label + ": shots")
    ctx.eq(flat(st.instances[0]["pose"]), flat(i1), label + ": pose", TOL)
    for s, x in st.shots[pano].items():
        y = src.shots[pano][s]
        ctx.check(x["group"] == y["group"], label + ": group")
        same_measures(ctx, x, y, label)
        ctx.check((x["camera"], x["rig"], x["instance"]) == (y["camera"], y["rig"], y["instance"]), label + ": links")
    ctx.check(set(st.shots[pano][0]["seen"]) == {0}, label + ": observations")

def missing(ctx, w, pano):
    label = "update"
    ops = simple()
    if pano:
        ops += [op(3, 2), op(6, 2, 0, 0, 2, write(IDENTITY))]
    r = Reader(w.native("map").call("update", [pano, 2 if pano else 0, [op(1, 0, CAM)], 0, ops, 0], nout=4096))
    for _ in range(r.n()):
        ctx.check(not r.n(), label + ": operations")
    ctx.check(not r.n(), label + ": an unknown shot is refused")
    st = State(ctx, r, label)
    ctx.check(not st.all_shots() and not st.instances and not st.rigs, label + ": nothing added")

# ---- errors ----
def cos(x):
    return math.cos(x) if isinstance(x, float) else x.cos()

def errors(ctx, w, kind):
    """Reprojection errors are those of shots and points of the map, in the unit asked for."""
    label = "errors"
    v, R = spun(ctx, "p", [0.0, 1.0, 0.0])
    if kind == 2:
        R = [[0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [-1.0, 0.0, 0.0]]
    elif not ctx.concrete:
        ctx.register_rotation(v, R)
    p, t, f = (R, vec(ctx, "pt")), [ctx.real("t0", 0.1, 1), 0.0, ctx.real("t2", -1, 1)], ctx.real("f", 0.5, 2)
    I = IDENTITY[0]
    X = {0: vec(ctx, "X"), 1: vec(ctx, "Y")}
    if kind == 2:
        p, t, f, X[1] = (R, [0.0, 0.0, 0.0]), [t[0], 0.0, 0.0], 0.9, [-2.0, 0.4, 2.0]
    ops = [op(1, 0, [0, f, 0.0, 0.0]), op(2, 0, [I, t]), op(3, 0), op(3, 1), op(4, 0, 0, 0, 0, write(IDENTITY)), op(18, 0, write(p)), op(5, 1, 0, 0, 1, [I, t])]
    ops += [op(7, l, x, [0] * 3) for l, x in X.items()]
    seen = {(s, l): observation(ctx, "o%d%d" % (s, l), 2 * s + l, s + 2 * l) for s, l in ((0, 0), (0, 1), (0, 2), (1, 1), (2, 0), (1, 2)) if kind < 2 or (s, l) not in ((0, 1),)}
    poses = {0: comp((I, t), p), 1: (I, t)}
    local, bearing = {}, {}
    for s, q in poses.items():
        for l, x in X.items():
            local[s, l] = [a + b for a, b in zip(mv(q[0], x), q[1])]
            ctx.assume(local[s, l][2] >= 0.1)
    for o in seen.values():
        ctx.assume(o[2] >= 0.01)
    ops += [op(8, 0, 1, observation(ctx, "m", 5, 9)), op(8, 1, 0, observation(ctx, "n", 6, 10))]
    tracks = [[1, s, l, o] for (s, l), o in seen.items()]
    r = Reader(w.native("map").call("errors", [kind, ops, 0, tracks, 0], nout=4096))
    for _ in range(r.n()):
        ctx.check(not r.n(), label + ": operations")
    got = {}
    for _ in range(r.n()):
        s = r.n()
        for _ in range(r.n()):
            l = r.n()
            got[s, l] = r.take(2)
    want = {q for q in seen if q[0] in poses and q[1] in X}
    ctx.check(set(got) == want, label + ": observations")
    for q in sorted(want):
        o, x = seen[q], local[q]
        if kind < 2:
            e = [o[i] - f * x[i] / x[2] for i in range(2)]
            if kind == 1:
                e = [y / o[2] for y in e]
            ctx.eq(got[q], e, label + ": difference", TOL)
        else:
            b = [o[0] / f, o[1] / f, 1.0]
            c = sum(u * v for u, v in zip(b, x))
            ctx.eq(got[q][0], got[q][1], label + ": angle")
            C = cos(got[q][0])
            ctx.eq(C * C * sum(u * u for u in b) * sum(u * u for u in x), c * c, label + ": angle", TOL)
            ctx.check(got[q][0] >= 0, label + ": angle")
    valid = {}
    for _ in range(r.n()):
        s = r.n()
        for _ in range(r.n()):
            l = r.n()
            valid[s, l] = r.take(KEYS)
    ctx.check(set(valid) == want, label + ": valid observations")
    for q in want:
        ctx.eq(valid[q], seen[q], label + ": valid observations")
    n, m = r.n(), r.n()
    back = {}
    for _ in range(n):
        s = r.n()
        for _ in range(r.n()):
            l = r.n()
            back[s, l] = r.take(KEYS)
    ctx.check(set(back) == {(0, 1), (1, 0)} and m == 2, label + ": tracks of the map")

HARNESSES = [
    dict(name="links", fn=links, params=[dict(seen=s, steps=1, pano=p) for s in ([], [(0, 0)], [(1, 0)], [(0, 0), (1, 0)], [(0, 0), (0, 1), (1, 1)], list(FEATURE)) for p in (0, 1)]
         + [dict(seen=list(FEATURE), steps=2), dict(seen=[(0, 0), (1, 0)], steps=2), dict(seen=[(0, 0), (1, 1)], steps=2, pano=1)],
         thorough=[dict(seen=s, steps=3, pano=p) for s in ([], [(0, 0), (1, 0)], list(FEATURE)) for p in (0, 1)]),
    dict(name="rigs", fn=rigs, params=[dict(changes=c) for c in ([], ["instance"], ["rig"], ["from"], ["single"], ["multi"], ["remove"], ["same"], ["gone"],
                                                                  ["remove", "late"], ["rig", "from"], ["instance", "rig"])],
         thorough=[dict(changes=c) for c in (["rig", "remove", "late"], ["from", "rig", "single"], ["instance", "multi", "same"])], **OPT),
    dict(name="refused", fn=refused, params=[{}], **OPT),
    dict(name="copies", fn=copies, params=[dict(observations=o, extra=e) for o in (0, 1) for e in (0, 1)], **OPT),
    dict(name="update", fn=update, params=[dict(rig=r, pano=p) for r in (0, 1) for p in (0, 1)], **OPT),
    dict(name="missing", fn=missing, params=[dict(pano=p) for p in (0, 1)], **OPT),
    dict(name="errors", fn=errors, params=[dict(kind=k) for k in (0, 1, 2)], **OPT),
]
