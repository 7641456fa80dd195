"""Point-cloud (PLY) files."""
import io as pyio

from checks.I02 import pose, vec

PRELOAD = ["io", "types"]
BOUNDS = "reconstructions of 0..2 points and 0..2 shots, all export options; point clouds of 0..3 vertices, coordinates in +-1000"
ASSUMPTIONS = ["doubles are real numbers", "a printed number is within half a unit of its last printed decimal"]


def parse(ctx, text):
    """Header and rows of a PLY file."""
    L = text.split("\n")
    ctx.check(L[-1] == "" and L[0] == "ply" and L[1] == "format ascii 1.0", "PLY text")
    end = L.index("end_header")
    count, cols = None, []
    for s in L[2:end]:
        p = s.split()
        if p[0] == "element":
            ctx.check(p[1] == "vertex" and count is None, "one vertex element")
            count = int(p[2])
        else:
            ctx.check(p[0] == "property", "property line")
            cols.append(p[2])
    rows = [r.split(" ") for r in L[end + 1:-1]]
    ctx.check(len(rows) == count, "announced number of vertices")
    for r in rows:
        ctx.check(len(r) == len(cols), "announced number of columns")
    return cols, [dict(zip(cols, r)) for r in rows]


def num(ctx, s):
    if ctx.concrete:
        return float(s)
    from engine.npshim import sym_float
    return sym_float(s)


def scene(ctx, w, npts, nshots, nocams, nopts, views, tm):
    io, T, M = w.mod("io"), w.mod("types"), w.mod("pymap")
    rec = T.Reconstruction()
    cam = w.mod("pygeometry").Camera.create_perspective(1.0, 0.0, 0.0)
    cam.id = "cam"
    rec.add_camera(cam)
    shots, pts = [], []
    for k in range(nshots):
        p, pv = pose(ctx, w, "pose%d" % k)
        rec.create_shot("shot%d" % k, "cam", p)
        shots.append(pv)
    tracks = M.TracksManager()
    for k in range(npts):
        x, c = vec(ctx, "x%d_" % k), [ctx.int("c%d_%d" % (k, j), 0, 255) for j in range(3)]
        rec.create_point("p%d" % k, ctx.array(x)).color = ctx.array(c)
        n = 0
        for j in range(nshots):
            o = M.Observation(0.0, 0.0, 1.0, 0, 0, 0, k)
            if ctx.flag("track%d%d" % (k, j)):
                tracks.add_observation("shot%d" % j, "p%d" % k, o)
                n += 1
                if tm == 2:
                    rec.map.add_observation("shot%d" % j, "p%d" % k, o)
        if n == 0:
            tracks.add_observation("elsewhere", "p%d" % k, M.Observation(0.0, 0.0, 1.0, 0, 0, 0, k))
            n = 1
        pts.append((x, c, n))
    text = io.reconstruction_to_ply(rec, tracks if tm else None, nocams, nopts, views)
    if views and not tm:
        # without tracks there is nothing to count
        nopts_ok = nopts or not npts
        if not nopts_ok:
            return
    cols, rows = parse(ctx, text)
    want_cols = ["x", "y", "z", "red", "green", "blue"] + (["views"] if views else [])
    ctx.check(cols == want_cols, "announced columns")
    np_, ns = (0 if nopts else npts), (0 if nocams else nshots)
    ctx.check(len(rows) >= np_ and (len(rows) > np_) == (ns > 0) and (ns == 0 or (len(rows) - np_) % (3 * ns) == 0), "number of vertices")
    for (x, c, n), r in zip(pts, rows[:np_]):
        ctx.eq([num(ctx, r[k]) for k in "xyz"], x, "point coordinates")
        ctx.eq([num(ctx, r[k]) for k in ("red", "green", "blue")], c, "point colour")
        if views:
            ctx.eq(num(ctx, r["views"]), n, "number of views")
    if ns:
        per = (len(rows) - np_) // (3 * ns)
        for k, (R, t) in enumerate(shots):
            o = [-sum(R[i][j] * t[i] for i in range(3)) for j in range(3)]
            for a in range(3):
                for i in (0, 1, per - 1):
                    r = rows[np_ + (k * 3 + a) * per + i]
                    d = 2.0 * i / (per - 1)
                    ctx.eq([num(ctx, r[q]) for q in "xyz"], [o[j] + d * R[a][j] for j in range(3)], "camera axis", 1e-6)
                    ctx.eq([num(ctx, r[q]) for q in ("red", "green", "blue")], [255 * (a == j) for j in range(3)], "axis colour")
                    if views:
                        ctx.check(r["views"] == "0", "camera vertices have no views")


def cloud(ctx, w, n):
    io = w.mod("io")
    import numpy as np
    P = [vec(ctx, "p%d_" % k) for k in range(n)]
    N = [vec(ctx, "n%d_" % k, 3, 1) for k in range(n)]
    C = [[ctx.int("c%d_%d" % (k, j), 0, 255) for j in range(3)] for k in range(n)]
    L = [ctx.int("l%d" % k, 0, 255) for k in range(n)]
    arr = [ctx.array(x) if n else np.zeros((0, 3)) for x in (P, N, C)]
    f = pyio.StringIO()
    io.point_cloud_to_ply(arr[0], arr[1], arr[2], ctx.array(L), f)
    cols, rows = parse(ctx, f.getvalue())
    ctx.check(cols == ["x", "y", "z", "nx", "ny", "nz", "red", "green", "blue", "class"], "announced columns")
    ctx.check(len(rows) == n, "number of vertices")
    for k, r in enumerate(rows):
        ctx.eq([num(ctx, r[c]) for c in ("x", "y", "z")], P[k], "coordinates", 6e-5)
        ctx.eq([num(ctx, r[c]) for c in ("nx", "ny", "nz")], N[k], "normals", 6e-4)
        ctx.eq([num(ctx, r[c]) for c in ("red", "green", "blue")], C[k], "colours")
        ctx.eq(num(ctx, r["class"]), L[k], "label")
    p, q, c, l = io.point_cloud_from_ply(pyio.StringIO(f.getvalue()))
    ctx.check(len(p) == len(q) == len(c) == len(l) == n, "rows read back")
    for k in range(n):
        ctx.eq(list(p[k]), P[k], "coordinates read back", 2e-4)
        ctx.eq(list(q[k]), N[k], "normals read back", 6e-4)
        ctx.eq(list(c[k]), C[k], "colours read back")
        ctx.eq(l[k], L[k], "label read back")


HARNESSES = [
    dict(name="reconstruction", fn=scene, opts=dict(int_hash="value"),
         params=[dict(npts=p, nshots=s, nocams=a, nopts=b, views=v, tm=t) for p, s in ((2, 1), (1, 2), (0, 1), (1, 0))
                 for a in (False, True) for b in (False, True) for v, t in ((False, 0), (True, 1), (True, 2), (False, 1))]),
    dict(name="point cloud", fn=cloud, opts=dict(int_arrays=True), params=[dict(n=k) for k in range(4)]),
]
