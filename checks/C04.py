"""The optimisation problem of bundle adjustment (bundle/)."""
import math
import os

from checks.C01 import spun
from checks.C02 import MODELS, SCALED, camera, distort, image
from checks.C03 import D, LIBRARY, back, move, names, posed, project, root, same_values, setting, var
from checks.I02 import vec
from checks.Q01 import T, mm, mv, unit

FLAGS = ["-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "cxx", "ceres_stub")]
LIBS = ["-lglog"]
NATIVE = {"bundle": dict(sources=["bundle/src/bundle_adjuster.cc", "geometry/src/camera.cc", "foundation/src/newton_raphson.cc"], flags=FLAGS, libs=LIBS)}
BOUNDS = ("problems of up to three shots, two cameras, two rig cameras and two points; all values of their parameters in general position "
          "(rotation angles 0.05 to 3.1), every camera model, with and without rigs and analytic derivatives")
ASSUMPTIONS = ["doubles are real numbers", "the optimiser itself (ceres) is replaced by one that records the problem",
               "automatic differentiation differentiates correctly"]
TOL = 1e-6
BA = dict(opts=dict(rotations=True))
Q = dict(opts=dict(rotations=True, quaternions=True))

class Problem:
    """Output of the driver."""

    def __init__(self, out):
        self.out, self.k = out, 0
        self.iterations, self.threads = self.n(), self.n()
        self.blocks = []
        for _ in range(self.n()):
            n, sizes = self.n(), [self.n() for _ in range(self.n())]
            where = [self.n() for _ in sizes]
            b = dict(n=n, sizes=sizes, where=where, loss=self.n(), a=self.x(), ok=self.n(), r=self.xs(n))
            if self.n():
                b["again"] = self.xs(n)
                b["jac"] = [[self.xs(s) for _ in range(n)] for s in sizes]
                b["one"] = [[self.xs(s) for _ in range(n)] for s in sizes]
            self.blocks.append(b)
        self.parameters = []
        for _ in range(self.n()):
            s, c, at, lower, upper = self.n(), self.n(), self.n(), self.x(), self.x()
            self.parameters.append(dict(size=s, constant=c, at=at, lower=lower, upper=upper, values=self.xs(s)))
        self.results = self.out[self.k:]

    def x(self):
        self.k += 1
        return self.out[self.k - 1]

    def n(self):
        return int(self.x())

    def xs(self, n):
        return [self.x() for _ in range(n)]

    def find(self, ctx, sizes, residuals, count, label):
        """The residual blocks over parameter blocks of some sizes."""
        b = [b for b in self.blocks if sorted(b["sizes"]) == sorted(sizes) and b["n"] == residuals]
        ctx.check(len(b) == count, label + ": number of terms")
        for x in b:
            ctx.check(x["ok"] == 1, label + ": evaluated")
        return b

ZERO = ([0.0] * 3, [0.0] * 3)

def pose(ctx, name, axis=None):
    """Rotation vector (camera to world) and origin; the matrix from world to camera."""
    e = None if axis is None else [float(i == axis) for i in range(3)]
    v, R = spun(ctx, name, e)
    if not ctx.concrete:
        ctx.register_rotation(v, R)
    return (v, vec(ctx, name + "t")), T(R)

def turn(p, R, X):
    return mv(R, [x - t for x, t in zip(X, p[1])])

def rig_camera(i, p, prior, fixed):
    return [2, i, p, prior, fixed]

def single(args, prior, inst, rc, rc_fixed, point, camera_fixed=0, instance_fixed=0, point_fixed=0):
    """One camera, one instance with one shot, one point."""
    return [1, 0, args, prior, camera_fixed, rig_camera(0, rc, rc, rc_fixed), 3, 0, inst, 1, 0, 0, 0, instance_fixed, 4, 0, point, point_fixed]

class Results:
    """The estimates, in the order they are read."""

    def __init__(self, out):
        self.x, self.k = out.results, 0

    def take(self, n):
        self.k += n
        return self.x[self.k - n:self.k]

def run(w, ops, derivatives=0, moving=0):
    return Problem(w.native("bundle").call("adjust", [derivatives, moving, ops, 0], nout=20000))

def direction(ctx, obs):
    lon, lat = obs[0] * 2 * math.pi, -obs[1] * 2 * math.pi
    (so, co), (sa, ca) = ctx.sincos_any(lon), ctx.sincos_any(lat)
    return [ca * so, -sa, ca * co]

def projection(ctx, w, model, rig, analytic, axes):
    """Residual of an observation and, with analytic derivatives, its derivatives."""
    args, p, x, known = setting(ctx, model, distorted=not rig)
    q = {n: var(n, v) for n, v in p.items()}
    P = [posed(ctx, n, a) for n, a in zip(["A", "B"] if rig else ["A"], axes)]
    point, mids = x, []
    for _, R, t in reversed(P):
        mids.append(point)
        point = back(R, t, point)
    mids.reverse()
    X = [var("XYZ"[i], point[i]) for i in range(3)]
    for (_, R, t), m in zip(P, mids):
        X = same_values(move(R, t, X), m)
    for v, R, t in P:
        if not ctx.concrete:
            ctx.register_rotation(v[:3], T([[y.v for y in r] for r in R]))
    spherical = model == "spherical"
    if spherical:
        obs = [ctx.angle("ox", -0.49, 0.49, unit=2 * math.pi), ctx.angle("oy", -0.24, 0.24, unit=2 * math.pi)]
        n = root(ctx, X[0] * X[0] + X[1] * X[1] + X[2] * X[2], known["norm"])
        got, want = [a / n for a in X], direction(ctx, obs)
    else:
        obs = [ctx.real("ox", -1, 1), ctx.real("oy", -1, 1)]
        got, want = project(ctx, model, q, X, known), obs
    s = ctx.real("sd", 0.001, 10)
    rc = (P[1][0][:3], P[1][0][3:]) if rig else ZERO
    ops = single(args, args, (P[0][0][:3], P[0][0][3:]), rc, 0 if rig == "free" or rig == "zero" else 1, point)
    ops += [25, analytic, 7, 0, 0, obs, s, 0]
    out = run(w, ops, derivatives=1)
    C = 1 if spherical else len(names(model))
    r = len(got)
    for b in out.find(ctx, [C, 6, 6, 3], r, 1, "projection"):
        ctx.eq(b["r"], [(g.v - o) / s for g, o in zip(got, want)], "projection: residual", TOL)
        ctx.check(b["loss"] == 4, "projection: robust loss")
        ctx.eq(b["a"], 1.0, "projection: loss threshold")
        if not analytic:
            ctx.check("jac" not in b, "projection: automatic derivatives")
            continue
        ctx.check("jac" in b, "projection: analytic derivatives")
        if "jac" not in b:
            continue
        ctx.eq(b["again"], b["r"], "projection: residual along with derivatives", TOL)
        ks = [names(model) if not spherical else [None]] + [[n + k + str(i) for k in "rt" for i in range(3)] for n in "AB"] + [["X", "Y", "Z"]]
        for which in ("jac", "one"):
            for k, m in zip(ks, b[which]):
                for g, row in zip(got, m):
                    ctx.eq(row, [g.d.get(o, 0.0) / s for o in k], "projection: derivatives by " + ("the camera" if k is ks[0] else str(k[0])), TOL)

SD = ["focal", "aspect_ratio", "c", "k1", "k2", "p1", "p2", "k3", "k4"]
DEFAULT = dict(transition=1.0)

def about(ctx, out, values, residuals, label, count=1):
    """The terms of one parameter block (known by its values) only."""
    b = [x for x in out.blocks if len(x["where"]) == 1 and x["n"] == residuals and x["sizes"] == [len(values)]
         and ctx.same(out.parameters[x["where"][0]]["values"], values)]
    ctx.check(len(b) == count, label + ": number of terms")
    for x in b:
        ctx.check(x["ok"] == 1, label + ": evaluated")
    return b

def terms(ctx, got, want, label):
    """Residuals in any order."""
    got = list(got)
    ctx.check(len(got) == len(want), label + ": number of residuals")
    rest = []
    for n, x in want:
        for i, g in enumerate(got):
            if ctx.same([g], [x]):
                del got[i]
                break
        else:
            rest.append((n, x))
    for g, (n, x) in zip(got, rest):
        ctx.eq(g, x, label + ": " + n, TOL)

def camera_prior(ctx, w, model, before):
    args, p, = camera(ctx, model)
    prior, q = camera(ctx, model, "prior_")
    sds = [ctx.real("sd_" + n, 0.001, 10) for n in SD]
    ops = [1, 0, args, prior, 0]
    out = run(w, [21, sds] + ops if before else ops + [21, sds])
    order = names(model)
    for b in about(ctx, out, [p[n] for n in order], len(order), "camera prior"):
        ctx.check(b["loss"] == 0, "camera prior: no robust loss")
        want = []
        for n in order:
            k = "c" if n in ("cx", "cy") else n
            s = sds[SD.index(k)] if k in SD else DEFAULT.get(k, 2.0 ** -52)
            want.append((n, (w.np.log(p[n] / q[n]) if n in ("focal", "aspect_ratio") else p[n] - q[n]) / s))
        terms(ctx, b["r"], want, "camera prior")
    barrier = [b for b in out.blocks if b["n"] == 1 and b["sizes"] == [len(order)]]
    ctx.check(len(barrier) == (model == "dual"), "bounds of the transition of the dual camera")

def rig_prior(ctx, w, before):
    p, _ = pose(ctx, "v", 1)
    q, _ = pose(ctx, "p", 2)
    st, sr = ctx.real("st", 0.001, 10), ctx.real("sr", 0.001, 1)
    sd = [22, st, sr]
    ops = [2, 0, p, q, 0]
    if not ctx.concrete:
        a = ctx.sqrt(3.0 * sr * sr)
        ctx.register_rotation([sr] * 3, full(ctx, [sr] * 3, a))
    out = run(w, sd + ops if before else ops + sd)
    for b in about(ctx, out, p[0] + p[1], 6, "rig camera prior"):
        ctx.check(b["loss"] == 0, "rig camera prior: no robust loss")
        terms(ctx, b["r"], [("rotation", (x - y) / sr) for x, y in zip(p[0], q[0])] + [("translation", (x - y) / st) for x, y in zip(p[1], q[1])], "rig camera prior")

def full(ctx, v, a):
    """Matrix of the rotation vector v of length a."""
    n = [x / a for x in v]
    s, c = ctx.sincos_any(a)
    R = [[c * (i == j) + (1 - c) * n[i] * n[j] for j in range(3)] for i in range(3)]
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        R[j][k] = R[j][k] - s * n[i]
        R[k][j] = R[k][j] + s * n[i]
    return R

def point_prior(ctx, w, altitude):
    x, q = vec(ctx, "x"), vec(ctx, "q")
    s = [ctx.real("s%d" % i, 0.001, 10) for i in range(3)]
    out = run(w, [4, 0, x, 0, 4, 1, vec(ctx, "y"), 0, 5, 0, q, s, altitude])
    n = 3 if altitude else 2
    b = [b for b in out.blocks if b["sizes"] == [3]]
    ctx.check(len(b) == 1 and b[0]["n"] == n, "point prior: one term")
    for b in b:
        ctx.check(b["loss"] == 0, "point prior: no robust loss")
        ctx.check(ctx.same(out.parameters[b["where"][0]]["values"], x), "point prior: of the point")
        terms(ctx, b["r"], [("coordinate %d" % i, (x[i] - q[i]) / s[i]) for i in range(n)], "point prior")

def position_prior(ctx, w, adjusted, bias):
    """Measured position of a rig instance."""
    inst, _ = pose(ctx, "i", 1)
    q = vec(ctx, "q")
    s = [ctx.real("s%d" % i, 0.001, 10) for i in range(3)]
    ops = [26, adjusted, 1, 0, [0, 1.0, 0.0, 0.0], [0, 1.0, 0.0, 0.0], 0, 2, 0, ZERO, ZERO, 1, 3, 0, inst, 1, 0, 0, 0, 0, 6, 0, q, s, 0]
    want = q
    if bias:
        v, R = spun(ctx, "b", [0.0, 0.0, 1.0])
        if not ctx.concrete:
            ctx.register_rotation(v, R)
        t, k = vec(ctx, "bt"), ctx.real("bs", 0.1, 10)
        ops += [20, 0, v, t, k]
        want = [k * a + b for a, b in zip(mv(R, q), t)]
    out = run(w, ops)
    blocks = out.find(ctx, [6, 7, 1], 3, 1, "position prior")
    for b in blocks:
        ctx.check(b["loss"] == 0, "position prior: no robust loss")
        ps = [out.parameters[i] for i in b["where"]]
        ctx.check([p["size"] for p in ps] == [6, 7, 1], "position prior: parameters")
        ctx.check(ps[1]["constant"] == (not bias), "position prior: bias is estimated when there is one")
        ctx.check(ps[2]["constant"] == (not adjusted), "position prior: scale of the accuracy is estimated when asked")
        scale = ps[2]["values"][0]
        terms(ctx, b["r"], [("coordinate %d" % i, (inst[1][i] - want[i]) / s[i] / scale) for i in range(3)], "position prior")
    scales = [b for b in out.blocks if b["sizes"] == [1] and b["n"] == 1]
    ctx.check(len(scales) == (1 if adjusted else 0), "position prior: the scale is penalised when it is estimated")

def rot(ctx, name, axis=None):
    """Rotation vector, matrix and quaternion (from camera to world)."""
    a = ctx.angle(name + "a", 0.05, 3.1, div=2)
    n = unit(ctx, name + "n") if axis is None else [float(i == axis) for i in range(3)]
    (s, c), (S, C) = ctx.sincos_any(a), ctx.sincos_any(a / 2)
    R = [[c * (i == j) + (1 - c) * n[i] * n[j] for j in range(3)] for i in range(3)]
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        R[j][k] = R[j][k] - s * n[i]
        R[k][j] = R[k][j] + s * n[i]
    v = [a * x for x in n]
    q = [C] + [S * x for x in n]
    if not ctx.concrete:
        ctx.register_rotation(v, R)
        ctx.register_quaternion(v, q)
    return v, R, q

def times(a, b):
    return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]

def conj(q):
    return [q[0]] + [-x for x in q[1:]]

def log(ctx, w, q):
    """Rotation vector of a quaternion."""
    if not ctx.concrete:
        return ctx.quat_log(q)
    s = math.sqrt(q[1] * q[1] + q[2] * q[2] + q[3] * q[3])
    if s == 0:
        return [0.0] * 3
    t = 2 * (math.atan2(-s, -q[0]) if q[0] < 0 else math.atan2(s, q[0]))
    return [t * x / s for x in q[1:]]

def exp(ctx, v):
    if not ctx.concrete:
        return ctx.quat_exp(v)
    a = math.sqrt(sum(x * x for x in v))
    return [math.cos(a / 2)] + [x * math.sin(a / 2) / a if a else 0.0 for x in v]

CAM = [0, 1.0, 0.0, 0.0]

class Shot:
    """One shot of its own instance; rig: None for an identity rig camera."""

    def __init__(self, ctx, name, axis, rig=None):
        self.v, self.R, self.q = rot(ctx, name, axis)
        self.t = vec(ctx, name + "t")
        self.inst = (self.v, self.t)
        self.center = self.t
        if rig:
            self.q = times(self.q, rig.q)
            self.center = [a + b for a, b in zip(self.t, mv(self.R, rig.t))]
            self.R = mm(self.R, rig.R)

def scene(shots, rigs, which, fixed=()):
    """Operations for shots of instances A, B...; which: their rig cameras."""
    ops = [1, 0, CAM, CAM, 0]
    for i, r in enumerate(rigs):
        ops += [2, i, (r.inst if r else ZERO), (r.inst if r else ZERO), 0 if r else 1]
    for i, (s, r) in enumerate(zip(shots, which)):
        ops += [3, i, s.inst, 1, i, 0, r, int(i in fixed)]
    return ops

def of(ctx, out, b, wanted, label):
    """The parameter blocks of a term are those of the wanted poses."""
    got = [out.parameters[i]["values"] for i in b["where"]]
    ctx.check(len(got) == len(wanted), label + ": number of parameter blocks")
    for g, x in zip(got, wanted):
        ctx.check(ctx.same(g, x), label + ": parameter blocks")

def relative_motion(ctx, w, together, shared, observed, matrix):
    i, j = Shot(ctx, "i", 0), Shot(ctx, "j", 1)
    v, _, q = rot(ctx, "m", 2)
    t = vec(ctx, "mt")
    s = ctx.real("ms", 0.1, 10)
    k = ctx.real("k", 0.1, 10)
    si, sj = ctx.real("si", 0.1, 10), ctx.real("sj", 0.1, 10)
    M = [[float(a == b) for b in range(7)] for a in range(7)]
    if matrix:
        for a, b in [(n, n) for n in range(7)] + [(0, 6), (6, 0), (4, 1), (2, 5)]:
            M[a][b] = ctx.real("m%d%d" % (a, b), -10, 10)
    ops = scene([i, j], [None], [0, 0]) + [17, 0, 0, 17, 1, 0, 18, 0, si, 0, 18, 0 if together else 1, sj, 1, 19, 0, shared, 19, 1, shared]
    h = ctx.real("h", 0.1, 10)
    ops += [24, 3, h, 8, 0, 1, v, t, s, k, observed, int(matrix), M if matrix else []]
    out = run(w, ops)
    if together and shared:
        sj = si
    r = log(ctx, w, times(q, times(conj(i.q), j.q)))
    r += [a - sj * b for a, b in zip(t, mv(T(j.R), [a - b for a, b in zip(i.t, j.t)]))]
    r.append(s - sj / si if observed else 0.0)
    one = together and shared
    for b in out.find(ctx, [6, 6, 1] if one else [6, 6, 1, 1], 7, 1, "relative motion"):
        ctx.check(b["loss"] == 3, "relative motion: robust loss")
        ctx.eq(b["a"], h * k, "relative motion: loss threshold", TOL)
        of(ctx, out, b, [i.v + i.t, j.v + j.t, [si]] + ([] if one else [[sj]]), "relative motion")
        ctx.eq(b["r"], mv(M, r), "relative motion: residual", TOL)
    for p in out.parameters:
        if p["size"] == 1:
            ctx.check(not p["constant"] and p["lower"] == 0, "relative motion: scales are positive")

def relative_rotation(ctx, w, rigs, which, matrix):
    rc = [Shot(ctx, "r%d" % n, 2 - n) if r else None for n, r in enumerate(rigs)]
    i, j = Shot(ctx, "i", 0, rc[which[0]]), Shot(ctx, "j", 1, rc[which[1]])
    v, _, q = rot(ctx, "m", 2)
    M = [[ctx.real("m%d%d" % (a, b), -10, 10) if matrix else float(a == b) for b in range(3)] for a in range(3)]
    h = ctx.real("h", 0.1, 10)
    out = run(w, scene([i, j], rc, which) + [24, 2, h, 9, 0, 1, v, int(matrix), M if matrix else []])
    useful = [rc[n] for n in dict.fromkeys(which) if rc[n]]
    for b in out.find(ctx, [6, 6] + [6] * len(useful), 3, 1, "relative rotation"):
        ctx.check(b["loss"] == 2, "relative rotation: robust loss")
        ctx.eq(b["a"], h, "relative rotation: loss threshold")
        of(ctx, out, b, [i.v + i.t, j.v + j.t] + [r.v + r.t for r in useful], "relative rotation")
        ctx.eq(b["r"], mv(M, log(ctx, w, times(q, times(conj(i.q), j.q)))), "relative rotation: residual", TOL)

def common_position(ctx, w, rigs, which):
    rc = [Shot(ctx, "r%d" % n, 2 - n) if r else None for n, r in enumerate(rigs)]
    i, j = Shot(ctx, "i", 0, rc[which[0]]), Shot(ctx, "j", 1, rc[which[1]])
    m, s = ctx.real("margin", 0, 1), ctx.real("sd", 0.01, 10)
    out = run(w, scene([i, j], rc, which) + [10, 0, 1, m, s])
    useful = [rc[n] for n in dict.fromkeys(which) if rc[n]]
    for b in out.find(ctx, [6, 6] + [6] * len(useful), 3, 1, "common position"):
        ctx.check(b["loss"] == 6, "common position: robust loss")
        ctx.eq(b["a"], 1.0, "common position: loss threshold")
        of(ctx, out, b, [i.v + i.t, j.v + j.t] + [r.v + r.t for r in useful], "common position")
        d = [a - c for a, c in zip(i.center, j.center)]
        for k in range(3):
            e = d[k]
            if k < 2:
                e = abs(e) - m
                e = e if e > 0 else 0.0
            ctx.eq(b["r"][k], e / s, "common position: residual", TOL)

def linear_motion(ctx, w, rigs, which, axes):
    rc = [Shot(ctx, "r%d" % n, 2 - n) if r else None for n, r in enumerate(rigs)]
    s = [Shot(ctx, "abc"[k], axes[k], rc[which[k]]) for k in range(3)]
    alpha = ctx.real("alpha", 0.1, 2)
    sp, so = ctx.real("sp", 0.01, 10), ctx.real("so", 0.01, 10)
    out = run(w, scene(s, rc, which) + [15, 0, 1, 2, alpha, sp, so])
    useful = [rc[n] for n in dict.fromkeys(which) if rc[n]]
    for b in out.find(ctx, [6, 6, 6] + [6] * len(useful), 6, 1, "linear motion"):
        ctx.check(b["loss"] == 4, "linear motion: robust loss")
        ctx.eq(b["a"], 1.0, "linear motion: loss threshold")
        of(ctx, out, b, [x.v + x.t for x in s] + [r.v + r.t for r in useful], "linear motion")
        far, near = [ctx.sqrt(sum((p - q) * (p - q) for p, q in zip(s[k].center, s[0].center))) for k in (2, 1)]
        ctx.assume(far > 1e-3)
        ctx.eq(b["r"][:3], [(alpha - near / far) / sp] * 3, "linear motion: position", TOL)
        v = log(ctx, w, times(s[2].q, conj(s[0].q)))
        q = exp(ctx, [alpha * x for x in v])
        ctx.eq(b["r"][3:], [x / so for x in log(ctx, w, times(q, times(s[0].q, conj(s[1].q))))], "linear motion: rotation", TOL)

def attitude(ctx, w, kind, rig, axes):
    """Measured up vector, pan, tilt or roll of a shot."""
    rc = Shot(ctx, "r", axes[1]) if rig else None
    s = Shot(ctx, "s", axes[0], rc)
    sd = ctx.real("sd", 0.01, 10)
    op = dict(up=11, pan=12, tilt=13, roll=14)[kind]
    m = vec(ctx, "up") if kind == "up" else [ctx.angle("m", -3.1, 3.1)]
    if kind == "up":
        ctx.assume(sum(x * x for x in m) > 1e-4)
    other = vec(ctx, "o") if kind == "up" else [ctx.real("o", -3, 3)]
    out = run(w, scene([s], [rc], [0]) + [op, 0, m, sd, op, 0, other, 0.0])
    R = s.R
    ex, ez = [[R[i][k] for i in range(3)] for k in (0, 2)]
    for b in out.find(ctx, [6, 6], 3 if kind == "up" else 1, 1, kind):
        ctx.check(b["loss"] == 4, kind + ": robust loss")
        ctx.eq(b["a"], 1.0, kind + ": loss threshold")
        of(ctx, out, b, [s.v + s.t, rc.v + rc.t if rig else [0.0] * 6], kind)
        if kind == "up":
            n = ctx.sqrt(sum(x * x for x in m))
            u = mv(R, [x / n for x in m])
            ctx.eq(b["r"], [u[0] / sd, u[1] / sd, (u[2] - 1) / sd], "up: residual", TOL)
            continue
        if axes == [2]:
            # looking straight up
            if kind != "tilt":
                ctx.eq(b["r"], [0.0], kind + ": undefined", TOL)
                continue
            h = 0.0
        else:
            h2 = ez[0] * ez[0] + ez[1] * ez[1]
            ctx.assume(h2 > 1e-6)
            h = ctx.sqrt(h2)
        if kind == "pan":
            a = w.np.arctan2(ez[0], ez[1])
        elif kind == "tilt":
            a = -w.np.arctan2(ez[2], h)
        else:
            x = [ez[1] / h, -ez[0] / h, 0.0]
            c = [ex[1] * x[2] - ex[2] * x[1], ex[2] * x[0] - ex[0] * x[2], ex[0] * x[1] - ex[1] * x[0]]
            sin = sum(p * q for p, q in zip(ez, c))
            ctx.assume(sin < 0.9999)
            ctx.assume(sin > -0.9999)
            a = w.np.arcsin(sin)
        d = a - m[0]
        if d > math.pi:
            d = d - 2 * math.pi
        elif d < -math.pi:
            d = d + 2 * math.pi
        ctx.eq(b["r"], [d / sd], kind + ": residual", TOL)

def gauge(ctx, w):
    s = [Shot(ctx, "ab"[k], k) for k in range(2)]
    d = [p - q for p, q in zip(s[0].t, s[1].t)]
    ctx.assume(sum(x * x for x in d) > 1e-4)
    out = run(w, scene(s, [None], [0, 0]) + [16, 0, 1], moving=2)
    for b in out.find(ctx, [6, 6], 1, 1, "gauge"):
        ctx.check(b["loss"] == 0, "gauge: no robust loss")
        of(ctx, out, b, [x.v + x.t for x in s], "gauge")
        ps = [out.parameters[i] for i in b["where"]]
        ctx.check(ps[0]["constant"] == 1 and ps[1]["constant"] == 0, "gauge: the origin is held, the other is not")
        norm = ctx.sqrt(sum(x * x for x in d))
        length = lambda v: ctx.sqrt(sum(x * x for x in v) + 1e-20)
        ctx.eq(b["r"], [w.np.log(length(d) / norm)], "gauge: residual", TOL)
        k = sum(x["n"] for x in out.blocks[:out.blocks.index(b)])
        ctx.eq(out.results[k:k + 1], [w.np.log(length([x - MOVE for x in d]) / norm)], "gauge: residual elsewhere", TOL)

def depth(ctx, w, radial, rig):
    rc = Shot(ctx, "r", 1) if rig else None
    s = Shot(ctx, "s", 0, rc)
    # the point by its place in the camera
    y = vec(ctx, "y")
    x = [a + b for a, b in zip(mv(s.R, y), s.center)]
    d, sd = ctx.real("d", 0.1, 100), ctx.real("sd", 0.01, 10)
    out = run(w, scene([s], [rc], [0]) + [23, 5, 2.5, 4, 0, x, 0, 7, 0, 0, [0.1, 0.2], 1.0, 1, d, radial, sd])
    for b in out.find(ctx, [6, 6, 3], 1, 1, "depth"):
        ctx.check(b["loss"] == 5, "depth: robust loss")
        ctx.eq(b["a"], 2.5, "depth: loss threshold")
        want = ctx.sqrt(sum(a * a for a in y)) if radial else y[2]
        ctx.eq(b["r"], [(want - d) / sd], "depth: residual", TOL)

MOVE = 0.25

def results(ctx, w, held):
    """The estimates are read back, what is held constant stays."""
    cam, rc, inst, pt = [int(h in held) for h in ("camera", "rig", "instance", "point")]
    args, p = camera(ctx, "brown")
    r, s = Shot(ctx, "r", 1), Shot(ctx, "s", 0)
    x = vec(ctx, "x")
    ops = [1, 0, args, args, cam, 1, 1, CAM, CAM, 1, 2, 0, r.inst, r.inst, rc, 3, 0, s.inst, 1, 0, 0, 0, inst, 4, 0, x, pt]
    bias = spun(ctx, "b", [0.0, 0.0, 1.0]) if "bias" not in held else None
    bt, bs = vec(ctx, "bt"), ctx.real("bs", 0.1, 10)
    if bias:
        if not ctx.concrete:
            ctx.register_rotation(*bias)
        ops += [20, 0, bias[0], bt, bs]
    n, th = 37, 3
    out = run(w, ops + [27, n, th], moving=1)
    ctx.eq([out.iterations, out.threads], [n, th], "settings of the optimiser")
    res = Results(out)
    move = [0.0 if h else MOVE for h in (cam, rc, inst, pt)]
    ctx.eq(res.take(9), [p[k] + move[0] for k in names("brown")], "estimated camera", TOL)
    if bias:
        ctx.eq(res.take(3), bias[0], "estimated bias: rotation", TOL)
        ctx.eq(res.take(4), [a + MOVE for a in bt + [bs]], "estimated bias", TOL)
    else:
        ctx.eq(res.take(7), [0.0] * 6 + [1.0], "no bias", TOL)
    ctx.eq(res.take(3), [0.0, 0.0, 1.0], "constant camera", TOL)
    ctx.eq(res.take(7), [0.0] * 6 + [1.0], "no bias", TOL)
    for q, m, label in ((r, move[1], "rig camera"), (s, move[2], "rig instance")):
        ctx.eq(res.take(3), q.v, "estimated %s: rotation" % label, TOL)
        ctx.eq(res.take(3), [a + m for a in q.t], "estimated %s: position" % label, TOL)
    ctx.eq(res.take(3), [a + move[3] for a in x], "estimated point", TOL)
    ctx.eq(res.take(1), [0.0], "no reprojection errors")
    for v, h, label in ((list(p[k] for k in names("brown")), cam, "camera"), (r.v + r.t, rc, "rig camera"), (s.v + s.t, inst, "rig instance"), (x, pt, "point")):
        b = [q for q in out.parameters if q["size"] == len(v) and ctx.same(q["values"], v)]
        ctx.check(len(b) == 1 and b[0]["constant"] == h, "constant: " + label)

def scales(ctx, w, shared, constant):
    """Scales of the reconstructions of two instances."""
    s = [Shot(ctx, "ab"[k], k) for k in range(2)]
    v = [ctx.real("s%d" % k, 0.1, 10) for k in range(2)]
    ops = scene(s, [None], [0, 0]) + [17, 0, constant, 18, 0, v[0], 0, 18, 0, v[1], 1, 19, 0, shared]
    out = run(w, ops, moving=1)
    b = [q for q in out.parameters if q["size"] == 1]
    ctx.check(len(b) == 2 and all(q["constant"] == constant for q in b), "scales are estimated unless constant")
    m = 0.0 if constant else MOVE
    g = out.results[-5:]
    ctx.eq(g[0], 2.0, "number of scales")
    ctx.eq([g[1], g[3]], [0.0, 1.0], "instances of the scales")
    ctx.eq([g[2], g[4]], [v[0] + m, v[0 if shared else 1] + m], "estimated scales", TOL)

def reprojection(ctx, w, analytic, model, errors):
    """Errors of the estimates, in units of the image."""
    args, p = camera(ctx, model)
    q = {k: v + MOVE for k, v in p.items()}
    x = [ctx.real("x", -10, 10), ctx.real("y", -10, 10), ctx.real("z", 0.1, 10)]
    obs = [[ctx.real("o%d%d" % (k, i), -1, 1) for i in range(2)] for k in range(2)]
    ops = single(args, args, ZERO, ZERO, 1, x, instance_fixed=1, point_fixed=1) + [3, 1, ZERO, 1, 1, 0, 0, 1]
    for k in range(2):
        ops += [7, k, 0, obs[k], ctx.real("sd%d" % k, 0.01, 10), 0]
    out = run(w, ops + [25, analytic, 28, errors], moving=1)
    res = Results(out)
    res.take(len(names(model)) + 7 + 6 + 12)
    ctx.eq(res.take(3), x, "constant point")
    ctx.eq(res.take(1), [2.0 if errors else 0.0], "errors of every observation, when asked for")
    if not errors:
        return
    u, v = distort(model, q, x[0] / x[2], x[1] / x[2])
    f, ar = q["focal"], q.get("aspect_ratio", 1.0)
    px = [f * u + q.get("cx", 0.0), f * ar * v + q.get("cy", 0.0)]
    for k in range(2):
        ctx.eq(res.take(2), [float(k), 2.0], "errors by shot")
        ctx.eq(res.take(2), [a - b for a, b in zip(px, obs[k])], "reprojection error", TOL)

def cubic(p, u):
    a, b, c, d = p
    return 0.5 * (2 * b + u * (c - a) + u * u * (2 * a - 5 * b + 4 * c - d) + u * u * u * (3 * (b - c) + d - a))

def heatmap(ctx, w, row, col):
    """Position of a shot on a map of costs."""
    H, W = 3, 4
    h = [[ctx.real("h%d%d" % (i, j), 0, 100) for j in range(W)] for i in range(H)]
    u, v = ctx.real("u", 0.01, 0.99), ctx.real("v", 0.01, 0.99)
    res, xo, yo, sd = ctx.real("res", 0.1, 10), ctx.real("xo", -100, 100), ctx.real("yo", -100, 100), ctx.real("sd", 0.01, 10)
    s = Shot(ctx, "s", 0)
    s.t[0], s.t[1] = xo + (col + v - W / 2.0) * res, yo + (H / 2.0 - (row + u)) * res
    out = run(w, scene([s], [None], [0]) + [29, 0, H * W, W, h, res, 30, 0, 0, xo, yo, sd])
    at = lambda i, j: h[min(max(i, 0), H - 1)][min(max(j, 0), W - 1)]
    want = cubic([cubic([at(row + i, col + j) for j in range(-1, 3)], v) for i in range(-1, 3)], u)
    for b in out.find(ctx, [6, 6], 1, 1, "heatmap"):
        ctx.check(b["loss"] == 0, "heatmap: no robust loss")
        of(ctx, out, b, [s.v + s.t, [0.0] * 6], "heatmap")
        ctx.eq(b["r"], [want / sd], "heatmap: residual", TOL)


HARNESSES = [
    dict(name="camera_prior", fn=camera_prior, params=[dict(model=m, before=i % 2) for i, m in enumerate(MODELS) if m != "spherical"]),
    dict(name="rig_prior", fn=rig_prior, params=[dict(before=b) for b in (0, 1)], **BA),
    dict(name="point_prior", fn=point_prior, params=[dict(altitude=a) for a in (0, 1)]),
    dict(name="position_prior", fn=position_prior, params=[dict(adjusted=a, bias=b) for a in (0, 1) for b in (0, 1)], **BA),
    dict(name="projection", fn=projection, params=[dict(model=m, rig="", analytic=1, axes=[i % 3]) for i, m in enumerate(MODELS)]
         + [dict(model=m, rig="", analytic=0, axes=[1]) for m in ("perspective", "brown", "spherical")]
         + [dict(model=m, rig=g, analytic=a, axes=x) for m in ("perspective", "spherical") for g, a, x in (("free", 1, [0, 1]), ("fixed", 1, [1, 2]), ("free", 0, [2, 0]), ("fixed", 0, [1, 0]))]
         + [dict(model="perspective", rig="", analytic=1, axes=[None])], **BA),
    dict(name="relative_motion", fn=relative_motion, params=[dict(together=t, shared=h, observed=o, matrix=m) for t, h, o, m in ((1, 1, 1, 0), (1, 0, 0, 0), (0, 1, 1, 0), (0, 0, 0, 1), (0, 0, 1, 1))], **Q),
    dict(name="relative_rotation", fn=relative_rotation, params=[dict(rigs=r, which=c, matrix=m) for r, c, m in (([0], [0, 0], 1), ([1], [0, 0], 0), ([1, 1], [0, 1], 0), ([0, 1], [0, 1], 1), ([0, 1], [1, 0], 0))], **Q),
    dict(name="common_position", fn=common_position, params=[dict(rigs=r, which=c) for r, c in (([0], [0, 0]), ([1], [0, 0]), ([1, 1], [0, 1]), ([0, 1], [0, 1]), ([0, 1], [1, 0]))], **Q),
    dict(name="linear_motion", fn=linear_motion, params=[dict(rigs=r, which=c, axes=a) for r, c, a in (([0], [0] * 3, [1] * 3), ([0], [0] * 3, [0, 1, 2]), ([0, 1], [0, 1, 1], [0] * 3), ([1, 1], [0, 1, 1], [2, 2, 2]), ([0, 1], [1, 0, 1], [1] * 3))], **Q),
    dict(name="attitude", fn=attitude, params=[dict(kind=k, rig=r, axes=a) for k in ("up", "pan", "tilt", "roll") for r, a in ((0, [0]), (0, [1]), (0, [2]), (1, [0, 2] if k == "roll" else [0, 1]), (1, [2, 0])) if k != "roll" or a != [1]], **Q),
    dict(name="gauge", fn=gauge, **BA),
    dict(name="depth", fn=depth, params=[dict(radial=d, rig=r) for d in (0, 1) for r in (0, 1)], **Q),
    dict(name="results", fn=results, params=[dict(held=h) for h in ([], ["camera", "bias"], ["rig"], ["instance"], ["point", "bias"])], **Q),
    dict(name="scales", fn=scales, params=[dict(shared=a, constant=b) for a in (0, 1) for b in (0, 1)], **Q),
    dict(name="reprojection", fn=reprojection, params=[dict(analytic=a, model=m, errors=e) for a, m, e in ((0, "perspective", 1), (1, "perspective", 1), (0, "brown", 1), (1, "brown", 1), (1, "perspective", 0))], **Q),
    dict(name="heatmap", fn=heatmap, params=[dict(row=1, col=1), dict(row=0, col=2)], opts=dict(rotations=True, quaternions=True, whole=True)),
]
