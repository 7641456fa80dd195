"""Bringing submodels to a common frame."""
import itertools
from checks.I02 import pose, vec
from checks.R02 import compose, value, same

PRELOAD = ["large.tools", "large.metadataset", "actions.align_submodels", "types", "align", "multiview"]
BOUNDS = "up to 3 partial reconstructions in up to 2 submodels at any poses, each a similarity of one world with scale within 10 % of another, 1 or 2 images each, any shared image, any points"
ASSUMPTIONS = ["doubles are real numbers", "the native alignment returns a minimum of the residuals it documents (stand-in: the true one, at which every residual must be 0)",
               "the map and pose classes are reference models of the native ones"]

counter = itertools.count()


def T(a):
    return [[a[j][i] for j in range(3)] for i in range(3)]


def mv(A, x):
    return [sum(A[i][k] * x[k] for k in range(3)) for i in range(3)]


def mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def similarity(ctx, name):
    r, R = ctx.rotation(name + "_r")
    return ctx.real(name + "_s", 0.9, 1.1), list(r), [list(x) for x in R], vec(ctx, name + "_b")


def forward(sim, x):
    s, _, A, b = sim
    return [s * y + z for y, z in zip(mv(A, x), b)]


def moved(sim, p):
    """World to camera pose p of a camera, in the frame sim maps the world to."""
    s, _, A, b = sim
    R, t = p
    R2 = mm(R, T(A))
    return R2, [s * x - y for x, y in zip(t, mv(R2, b))]


class Aligner:
    """Stand-in of the native class: checks the residuals at the truth."""

    def __init__(self, ctx, w, truth, gps):
        self.ctx, self.truth, self.gps = ctx, truth, gps
        self.recs, self.shots, self.rel, self.abs, self.common, self.points = {}, {}, [], [], [], []
        self.rot = w.mod("pygeometry").Pose
        self.ran = False

    def pose(self, v):
        p = self.rot(self.ctx.array(v[:3]), self.ctx.array(v[3:6]))
        return value(p)

    def add_reconstruction(self, name, rx, ry, rz, tx, ty, tz, scale, constant):
        self.ctx.check(not constant and name not in self.recs and name in self.truth, "reconstructions to align")
        self.recs[name] = 1

    def add_shot(self, name, rx, ry, rz, tx, ty, tz, constant):
        self.shots[name] = (self.pose([rx, ry, rz, tx, ty, tz]), constant)

    def add_absolute_position_constraint(self, shot, x, y, z, sd):
        self.abs.append((None, shot, [x, y, z], sd))

    def add_relative_absolute_position_constraint(self, rec, shot, x, y, z, sd):
        self.abs.append((rec, shot, [x, y, z], sd))

    def add_relative_motion_constraint(self, c):
        self.rel.append(c)

    def add_common_camera_constraint(self, ra, sa, rb, sb, c, r):
        self.common.append((ra, sa, rb, sb, c, r))

    def add_common_point_constraint(self, ra, x, y, z, rb, u, v, w_, sd):
        self.points.append((ra, [x, y, z], rb, [u, v, w_], sd))

    def run(self):
        self.ran = True

    def brief_report(self):
        return ""

    def get_reconstruction(self, name):
        class R:
            pass

        s, r, _, b = self.truth[name]
        R.scale = s
        R.rx, R.ry, R.rz = r
        R.tx, R.ty, R.tz = b
        return R


class Motion:
    def __init__(self, rec, shot, rx, ry, rz, tx, ty, tz):
        self.rec, self.shot, self.v = rec, shot, [rx, ry, rz, tx, ty, tz]
        self.m = {}

    def set_scale_matrix(self, i, j, v):
        self.m[i, j] = v


def world(ctx, w, shared):
    """Submodels; shared: partial reconstruction -> image names."""
    shots = sorted({s for v in shared.values() for s in v})
    pw = {s: pose(ctx, w, s)[1] for s in shots}
    gps = {s: (vec(ctx, s + "_gps"), ctx.real(s + "_acc", 0.1, 50)) for s in shots}
    sims = {k: similarity(ctx, "sim%s%d" % k) for k in shared}
    pts = {"p%d" % i: vec(ctx, "p%d" % i) for i in range(20)}
    # many points only to reach the minimum number of inliers
    pts = {k: (v if i < 2 else [float(i), 2.0, 3.0]) for i, (k, v) in enumerate(pts.items())}
    return pw, gps, sims, pts


def submodel(ctx, w, k, images, pw, gps, sims, pts):
    Ty, G = w.mod("types"), w.mod("pygeometry")
    rec = Ty.Reconstruction()
    cam = G.Camera.create_spherical()
    cam.id = "model"
    rec.add_camera(cam)
    for im in images:
        R, t = moved(sims[k], pw[im])
        p = G.Pose()
        p.set_rotation_matrix(ctx.array(R))
        p.translation = ctx.array(t)
        s = rec.create_shot(im, "model", p)
        s.metadata.gps_position.value = ctx.array(gps[im][0])
        s.metadata.gps_accuracy.value = gps[im][1]
    for q, x in pts.items():
        rec.create_point(k[0] + str(k[1]) + q, forward(sims[k], x))
    return rec


def run(ctx, w, shared, use_points=True, kind=None, scale_ok=True):
    tools, act = w.mod("large.tools"), w.mod("actions.align_submodels")
    top = "/nowhere%d/" % next(counter)
    shared = {(k[:-1], int(k[-1])): list(v) for k, v in (x.split(":") for x in shared.split())}
    pw, gps, sims, pts = world(ctx, w, shared)
    names = sorted({k[0] for k in shared})
    paths = [top + n for n in names] + [top + "empty"]
    saved = {}

    class Data:
        def __init__(self, path, *a, **kw):
            self.path = path
            self.name = path.split("/")[-1]

        def reconstruction_exists(self, *a):
            return self.name in names

        def load_reconstruction(self, *a):
            ks = sorted(k for k in shared if k[0] == self.name)
            return [submodel(ctx, w, k, shared[k], pw, gps, sims, pts) for k in ks]

        def load_tracks_manager(self, *a):
            return self.name

        def save_reconstruction(self, rec, filename=None, *a, **kw):
            saved[self.name, filename] = rec

    class DS:
        DataSet = Data

    class Meta:
        def __init__(self, path):
            pass

        def get_submodel_paths(self):
            return list(paths)

    key = {(top + n, i): (n, i) for n, i in shared}
    truth = {tools.partial_reconstruction_name(tools.PartialReconstruction(*k)): sims[v] for k, v in key.items()}
    which = {tools.partial_reconstruction_name(tools.PartialReconstruction(*k)): v for k, v in key.items()}
    ctx.check(len(truth) == len(shared), "names of the partial reconstructions differ")
    ra = Aligner(ctx, w, truth, gps)

    class PB:
        ReconstructionAlignment = staticmethod(lambda: ra)
        RARelativeMotionConstraint = Motion

    def resect(r1, r2, t1, t2, threshold, minimum):
        """Every point is a common inlier."""
        a, b = [sorted(r.points)[0][:-len("p0")] for r in (r1, r2)]
        s1, s2 = [sims[x[:-1], int(x[-1])] for x in (a, b)]
        # x2 = s2 A2 A1^t (x1 - b1) / s1 + b2
        s = s2[0] / s1[0]
        A = mm(s2[2], T(s1[2]))
        M = [[s * x for x in row] + [y - s * z] for row, y, z in zip(A, s2[3], mv(A, s1[3]))] + [[0.0, 0.0, 0.0, 1.0]]
        return True, ctx.array(M), [(a + p, b + p) for p in pts]

    w.patch(tools, "dataset", DS)
    w.patch(tools, "pybundle", PB)
    w.patch(w.mod("reconstruction"), "resect_reconstruction", resect)
    if kind is None:
        w.patch(w.mod("large.metadataset"), "MetaDataSet", Meta)

        class D:
            data_path = top

        act.run_dataset(D())
    else:
        rs = tools.load_reconstruction_shots(Meta(top))
        tools.apply_transformations(tools.align_reconstructions(rs, tools.partial_reconstruction_name, use_points, kind))
    ctx.check(ra.ran and set(ra.recs) == set(truth), "all partial reconstructions are aligned")

    # every residual vanishes at the truth and every image constrains each of its reconstructions
    image = lambda s: next(im for im in pw if s.endswith(im))
    if kind == "hard_camera_constraint":
        want = {(n, im) for n, k in which.items() for im in shared[k]}
        for name, (p, const) in ra.shots.items():
            n = next(n for n in truth if name == n + image(name))
            ctx.check(const, "fixed cameras")
            same(ctx, p, moved(truth[n], pw[image(name)]), "camera in its reconstruction", 1e-6)
        ctx.check({(r, image(s)) for r, s, x, sd in ra.abs} == want, "measured positions")
        pairs = {frozenset([(a, sa), (b, sb)]) for a, sa, b, sb, c, r in ra.common}
        ctx.check(pairs == {frozenset([(a, a + im), (b, b + im)]) for a, b in itertools.combinations(truth, 2)
                            for im in set(shared[which[a]]) & set(shared[which[b]])}, "common cameras")
        for a, sa, b, sb, c, r in ra.common:
            ctx.check(sa in ra.shots and sb in ra.shots and bool(c > 0) and bool(r > 0), "common camera weights")
    else:
        ctx.check({(c.rec, image(c.shot)) for c in ra.rel} == {(n, im) for n, k in which.items() for im in shared[k]}
                  and len(ra.rel) == sum(map(len, shared.values())), "motion constraints")
        for c in ra.rel:
            same(ctx, ra.pose(c.v), moved(truth[c.rec], pw[image(c.shot)]), "motion constraint", 1e-6)
            ctx.check(c.shot in ra.shots and not ra.shots[c.shot][1], "cameras are free")
            for i, j in itertools.product(range(6), range(6)):
                ctx.check(bool(c.m[i, j] > 0) if i == j else bool(c.m[i, j] == 0), "weights of a motion constraint")
        ctx.check({image(s) for r, s, x, sd in ra.abs} == set(pw) and len(ra.abs) == len(pw), "measured positions")
    for r, s, x, sd in ra.abs:
        ctx.check(s in ra.shots, "constrained camera")
        ctx.eq(x, gps[image(s)][0], "measured position")
        ctx.eq(sd, gps[image(s)][1], "accuracy of the measured position")
    linked = {frozenset([a, b]) for a, b in itertools.combinations(truth, 2) if set(shared[which[a]]) & set(shared[which[b]])}
    ctx.check({frozenset([a, b]) for a, x, b, y, sd in ra.points} <= linked, "common points")
    seen = {}
    for a, x, b, y, sd in ra.points:
        k = seen[a, b] = seen.get((a, b), -1) + 1
        p = list(pts.values())[k]
        ctx.eq(list(x), forward(truth[a], p), "common point", 1e-6)
        ctx.eq(list(y), forward(truth[b], p), "common point", 1e-6)

    # the results coincide
    ctx.check(set(saved) == {(n, "reconstruction.aligned.json") for n in names}, "saved reconstructions")
    for n in names:
        recs = saved[n, "reconstruction.aligned.json"]
        ks = sorted(k for k in shared if k[0] == n)
        ctx.check(len(recs) == len(ks), "all partial reconstructions are saved")
        for k, rec in zip(ks, recs):
            ctx.check(set(rec.shots) == set(shared[k]), "images of the reconstruction")
            for im in shared[k]:
                same(ctx, value(rec.shots[im].pose), pw[im], "aligned camera", 1e-6)
            ctx.check(set(rec.points) == {k[0] + str(k[1]) + q for q in pts}, "points of the reconstruction")
            for q in list(pts)[:3]:
                ctx.eq(list(rec.points[k[0] + str(k[1]) + q].coordinates), pts[q], "aligned point", 1e-6)


def inverse(ctx, w):
    tools = w.mod("large.tools")
    s, r, A, b = similarity(ctx, "sim")
    i = tools.invert_similarity(s, ctx.array(A), ctx.array(b))
    x = vec(ctx, "x")
    fw = lambda s, A, b, x: [s * y + z for y, z in zip(mv([list(q) for q in A], x), list(b))]
    ctx.eq(fw(*i, fw(s, A, b, x)), x, "inverse after the similarity", 1e-6)
    ctx.eq(fw(s, A, b, fw(*i, x)), x, "the similarity after its inverse", 1e-6)
    j = tools.invert_similarity(*i)
    ctx.eq(fw(*j, x), fw(s, A, b, x), "inverse of the inverse", 1e-6)


ONE = "north0:ab south0:b"
HARNESSES = [
    dict(name="inverse", fn=inverse, params=[{}]),
    dict(name="action", fn=run, params=[dict(shared=ONE), dict(shared="north0:a north1:b south0:b")],
         thorough=[dict(shared="north0:ab south0:ba south1:c")]),
    dict(name="kinds", fn=run, params=[dict(shared=ONE, kind="hard_camera_constraint", use_points=False),
                                       dict(shared=ONE, kind="soft_camera_constraint", use_points=False)],
         thorough=[dict(shared=ONE, kind="hard_camera_constraint", use_points=True)]),
]
