"""The optimisation problem of the alignment of reconstructions (bundle/reconstruction_alignment.h)."""
from checks.C04 import FLAGS, LIBS, Problem, Q, Results, conj, log, rot, times
from checks.I02 import vec
from checks.Q01 import T, mm, mv

NATIVE = {"align": dict(sources=[], flags=FLAGS, libs=LIBS)}
BOUNDS = ("up to two reconstructions and two shots and up to three constraints at a time; all values of their parameters in general position "
          "(rotation angles 0.05 to 3.1)")
ASSUMPTIONS = ["doubles are real numbers", "the optimiser itself (ceres) is replaced by one that records the problem",
               "automatic differentiation differentiates correctly"]
TOL = 1e-6
MOVE = 0.25

def run(w, ops, moving=0):
    return Problem(w.native("align").call("align", [moving, ops, 0], nout=4000))

class Pose:
    """A shot or reconstruction: R and t map the outside to the inside of a shot, the inside to the outside of a reconstruction."""

    def __init__(self, ctx, name, axis, scaled=False):
        self.v, self.R, self.q = rot(ctx, name, axis)
        self.t = vec(ctx, name + "t")
        self.s = ctx.real(name + "s", 0.1, 10) if scaled else None
        self.values = self.v + self.t + ([self.s] if scaled else [])

    def center(self):
        return [-x for x in mv(T(self.R), self.t)]

    def outside(self, x):
        return [self.s * a + b for a, b in zip(mv(self.R, x), self.t)]

    def inside(self, x):
        return [a / self.s for a in mv(T(self.R), [p - q for p, q in zip(x, self.t)])]

def negate(ctx, *poses):
    """The code turns by opposite rotation vectors to invert."""
    if not ctx.concrete:
        for p in poses:
            v = [-x for x in p.v]
            ctx.register_rotation(v, T(p.R))
            ctx.register_quaternion(v, conj(p.q))

def shot(i, p, constant=0):
    return [1, i, p.values, constant]

def reconstruction(i, p, constant=0):
    return [2, i, p.values, constant]

def only(ctx, out, wanted, count, label):
    """The terms, each over the wanted parameters."""
    ctx.check(len(out.blocks) == count, label + ": number of terms")
    for b in out.blocks:
        ctx.check(b["ok"] == 1, label + ": evaluated")
        got = [out.parameters[i]["values"] for i in b["where"]]
        ctx.check(len(got) == len(wanted) and all(ctx.same(g, x) for g, x in zip(got, wanted)), label + ": parameters")
        if ctx.concrete:
            ctx.check(all(len(g) == len(x) and all(abs(p - q) < 1e-9 for p, q in zip(g, x)) for g, x in zip(got, wanted)), label + ": parameters")
    return out.blocks

def relative_motion(ctx, w, axes, setters, matrix, order):
    """A shot as seen inside a reconstruction."""
    i, a, m = Pose(ctx, "i", axes[0]), Pose(ctx, "a", axes[1], True), Pose(ctx, "m", axes[2])
    negate(ctx, i, a, m)
    other, b = Pose(ctx, "o", 0), Pose(ctx, "b", 1, True)
    M = [[ctx.real("m%d%d" % (r, c), -2, 2) for c in range(6)] for r in range(6)] if matrix else [[float(r == c) for c in range(6)] for r in range(6)]
    ops = [shot(0, other), shot(1, i), reconstruction(0, a), reconstruction(1, b)]
    ops = (ops if order == 0 else ops[::-1]) + [3, 0, 1, m.values, setters, int(matrix), M if matrix else []]
    r = log(ctx, w, times(times(m.q, a.q), conj(i.q)))
    r += [x - y for x, y in zip(a.outside(i.center()), m.center())]
    for t in only(ctx, run(w, ops), [a.values, i.values], 1, "relative motion"):
        ctx.check(t["loss"] == 4, "relative motion: robust loss")
        ctx.eq(t["a"], 1.0, "relative motion: loss threshold")
        ctx.eq(t["r"], [sum(x * y for x, y in zip(row, r)) for row in M], "relative motion: residual", TOL)

def absolute_position(ctx, w, axis):
    i, c, sd = Pose(ctx, "i", axis), vec(ctx, "c"), ctx.real("sd", 0.01, 10)
    negate(ctx, i)
    out = run(w, [shot(0, i), 4, 0, c, sd])
    for t in only(ctx, out, [i.values], 1, "position"):
        ctx.check(t["loss"] == 0, "position: no robust loss")
        ctx.eq(t["r"], [(p - x) / sd for p, x in zip(c, i.center())], "position: residual", TOL)

def relative_position(ctx, w, axes):
    """Measured position of a shot of a reconstruction."""
    i, a, c, sd = Pose(ctx, "i", axes[0]), Pose(ctx, "a", axes[1], True), vec(ctx, "c"), ctx.real("sd", 0.01, 10)
    negate(ctx, i, a)
    out = run(w, [shot(0, i, 1), reconstruction(0, a), 5, 0, 0, c, sd])
    for t in only(ctx, out, [a.values], 1, "position in a reconstruction"):
        ctx.check(t["loss"] == 3, "position in a reconstruction: robust loss")
        ctx.eq(t["a"], 1.0, "position in a reconstruction: loss threshold")
        ctx.eq(t["r"], [(p - x) / sd for p, x in zip(c, a.inside(i.center()))], "position in a reconstruction: residual", TOL)

def common_point(ctx, w, axes, swap):
    a, b = Pose(ctx, "a", axes[0], True), Pose(ctx, "b", axes[1], True)
    negate(ctx, a, b)
    p, q, sd = vec(ctx, "p"), vec(ctx, "q"), ctx.real("sd", 0.01, 10)
    x, y = (1, 0) if swap else (0, 1)
    out = run(w, [reconstruction(x, a), reconstruction(y, b), 6, x, y, p, q, sd])
    for t in only(ctx, out, [a.values, b.values], 1, "common point"):
        ctx.check(t["loss"] == 3, "common point: robust loss")
        ctx.eq(t["a"], 1.0, "common point: loss threshold")
        ctx.eq(t["r"], [(a.s + b.s) * (g - h) / sd for g, h in zip(a.inside(p), b.inside(q))], "common point: residual", TOL)

def common_camera(ctx, w, axes):
    a, b = Pose(ctx, "a", axes[0], True), Pose(ctx, "b", axes[1], True)
    i, j = Pose(ctx, "i", axes[2]), Pose(ctx, "j", axes[3])
    negate(ctx, a, b, i, j)
    sc, sr = ctx.real("sc", 0.01, 10), ctx.real("sr", 0.01, 10)
    out = run(w, [reconstruction(0, a), reconstruction(1, b), shot(0, i, 1), shot(1, j, 1), 7, 0, 0, 1, 1, sc, sr])
    r = [x / sr for x in log(ctx, w, times(times(i.q, a.q), times(conj(b.q), conj(j.q))))]
    r += [(x - y) / sc for x, y in zip(a.inside(i.center()), b.inside(j.center()))]
    for t in only(ctx, out, [a.values, b.values], 1, "common camera"):
        ctx.check(t["loss"] == 4, "common camera: robust loss")
        ctx.eq(t["a"], 1.0, "common camera: loss threshold")
        ctx.eq(t["r"], r, "common camera: residual", TOL)

def results(ctx, w, held, again):
    """Constant poses stay, the others are read back, scales are bounded."""
    i, a = [[Pose(ctx, n + str(k), k, n == "a") for k in range(2)] for n in "ia"]
    negate(ctx, *i)
    c, sd = [vec(ctx, "c%d" % k) for k in range(2)], ctx.real("sd", 0.01, 10)
    ops = []
    if again:  # replaced
        ops += [1, 0, [1.0] * 6, 1 - held[0], 2, 0, [1.0] * 7, 1 - held[1]]
    for k in range(2):
        h = held if k == 0 else [0, 0]
        ops += [shot(k, i[k], h[0]), reconstruction(k, a[k], h[1]), 4, k, c[k], sd]
    out = run(w, ops, moving=1)
    if again:
        out.results = out.results[6:18] + out.results[25:]
    ctx.check(len(out.blocks) == 2, "one term for each constraint")
    for k in range(2):
        h = held if k == 0 else [0, 0]
        for p, hold, size in ((i[k], h[0], 6), (a[k], h[1], 7)):
            q = [x for x in out.parameters if x["size"] == size and ctx.same(x["values"], p.values)]
            ctx.check(len(q) == 1 and q[0]["constant"] == hold, "held constant when asked")
            if size == 7 and not hold:
                ctx.check(all(x["at"] == 6 for x in q), "bounded scale")
                ctx.eq([x["lower"] for x in q], [0.1] * len(q), "lower bound of the scale")
                ctx.check(all(x["upper"] > 1e100 for x in q), "upper bound of the scale")
    res = Results(out)
    for n, ps in ((0, i), (1, a)):
        for k in range(2):
            m = 0.0 if k == 0 and held[n] else MOVE
            ctx.eq(res.take(3), ps[k].v, "estimated rotation", TOL)
            ctx.eq(res.take(4 if n else 3), [x + m for x in ps[k].values[3:]], "estimated position and scale", TOL)

def several(ctx, w):
    """Every constraint makes a term of its own."""
    a, b = [Pose(ctx, "ab"[k], k, True) for k in range(2)]
    i, j = [Pose(ctx, "ij"[k], 2 - k) for k in range(2)]
    negate(ctx, a, b, i, j)
    c, sd = [vec(ctx, "c%d" % k) for k in range(4)], [ctx.real("sd%d" % k, 0.01, 10) for k in range(4)]
    ops = [reconstruction(0, a), reconstruction(1, b), shot(0, i), shot(1, j),
           4, 1, c[0], sd[0], 4, 0, c[1], sd[1], 5, 1, 0, c[2], sd[2], 5, 0, 1, c[3], sd[3]]
    out = run(w, ops)
    ctx.check(len(out.blocks) == 4, "one term for each constraint")
    want = [[(p - x) / sd[0] for p, x in zip(c[0], j.center())], [(p - x) / sd[1] for p, x in zip(c[1], i.center())],
            [(p - x) / sd[2] for p, x in zip(c[2], b.inside(i.center()))], [(p - x) / sd[3] for p, x in zip(c[3], a.inside(j.center()))]]
    over = [j, i, b, a]
    for n, p in enumerate(over):
        t = [t for t in out.blocks if len(t["where"]) == 1 and ctx.same(out.parameters[t["where"][0]]["values"], p.values)]
        ctx.check(len(t) == 1, "one term for each constraint")
        for t in t:
            ctx.eq(t["r"], want[n], "residual of each constraint", TOL)

AX4 = ([0, 0, 0, 0], [0, 1, 2, 0], [2, 1, 0, 1])
HARNESSES = [
    dict(name="relative_motion", fn=relative_motion, params=[dict(axes=x, setters=s, matrix=m, order=o) for x, s, m, o in (([0, 1, 2], 0, 0, 0), ([1, 1, 1], 1, 0, 1), ([2, 0, 1], 0, 1, 1), ([0, 0, 0], 1, 1, 0))], **Q),
    dict(name="absolute_position", fn=absolute_position, params=[dict(axis=x) for x in (0, 1, 2, None)], **Q),
    dict(name="relative_position", fn=relative_position, params=[dict(axes=x) for x in ([0, 1], [2, 2], [1, 0])], **Q),
    dict(name="common_point", fn=common_point, params=[dict(axes=x, swap=s) for x, s in (([0, 1], 0), ([2, 2], 1), ([1, 0], 1))], **Q),
    dict(name="common_camera", fn=common_camera, params=[dict(axes=list(x)) for x in AX4], **Q),
    dict(name="results", fn=results, params=[dict(held=h, again=g) for h in ([0, 0], [1, 0], [0, 1], [1, 1]) for g in (0, 1)], **Q),
    dict(name="several", fn=several, **Q),
]
