"""Undistorted views of images and panoramas, and the tracks seen in them."""
import math

import numpy as np
from checks.I02 import vec
from checks.L02 import T, mm, mv

PRELOAD = ["undistort", "types", "pymap", "dataset", "features", "transformations"]
BOUNDS = "a panorama with any pose (and a second image of each camera type), any viewing direction, any face width up to 4096 (rendering: faces of 1 to 3 pixels)"
ASSUMPTIONS = ["doubles are real numbers", "the camera, map and pose classes are reference models of the native ones", "viewing directions are not within 1e-6 of the edge of a face",
               "resampling itself (cv2.remap, cv2.resize) is replaced by a stand-in that records what it is asked for"]
FACES = ["front", "left", "back", "right", "top", "bottom"]
# viewing axis of each view in the frame of the panorama (x right, y down, z front); the
# names are those in use, "left" looks at +x
AXES = {"front": (0, 0, 1), "left": (1, 0, 0), "back": (0, 0, -1), "right": (-1, 0, 0), "top": (0, -1, 0), "bottom": (0, 1, 0)}


class Store:
    def __init__(self):
        self.reconstruction = self.tracks = self.ids = None
        self.images = {}

    def save_undistorted_reconstruction(self, r):
        self.reconstruction = r

    def save_undistorted_tracks_manager(self, t):
        self.tracks = t

    def save_undistorted_shot_ids(self, i):
        self.ids = i


def panorama(ctx, w, rec, name="pano.jpg", rot=None):
    G = w.mod("pygeometry")
    cam = G.Camera.create_spherical()
    cam.id = "sphere"
    cam.width, cam.height = 4000, 2000
    rec.add_camera(cam)
    R = [list(r) for r in (ctx.rotation("r" + name[0])[1] if rot is None else rot)]
    o = vec(ctx, "o" + name[0])
    p = G.Pose()
    p.set_rotation_matrix(ctx.array(R))
    p.set_origin(ctx.array(o))
    s = rec.create_shot(name, "sphere", p)
    return s, R, o


def dataset(w, images, width, fmt="jpg"):
    data = w.dataset(images)
    data.config.update(undistorted_image_format=fmt, depthmap_resolution=width)
    return data


def face_of(shot_id):
    f = [f for f in FACES if f in shot_id.split("perspective_view_")[-1]]
    return f[0] if len(f) == 1 and "pano" in shot_id else None


def views(ctx, w, fmt, goal, rot=None):
    U, Ty, M = w.mod("undistort"), w.mod("types"), w.mod("pymap")
    rec = Ty.Reconstruction()
    pano, R, o = panorama(ctx, w, rec, rot=rot)
    rec.create_point("p", ctx.array(vec(ctx, "p")))
    width = ctx.int("width", 1, 4096)
    d = vec(ctx, "d", 3, 1)
    px = vec(ctx, "pixel", 2, 1)
    tm = M.TracksManager()
    tm.add_observation("pano.jpg", "t", M.Observation(px[0], px[1], 3.0, 7, 8, 9, 42, 5, 6))

    def bearing(self, p):
        ctx.check(self.id == "sphere", "camera of the panorama")
        ctx.eq(list(p), px, "observation of the panorama")
        return ctx.array(d)

    w.patch(w.mod("pygeometry").Camera, "pixel_bearing", bearing)
    tm.add_observation("away.jpg", "t", M.Observation(0.1, 0.1, 3.0, 7, 8, 9, 43))
    data, udata = dataset(w, ["pano.jpg"], width, fmt), Store()
    # the face the direction goes through
    a = AXES[goal]
    k = [abs(x) for x in a].index(1)
    for j in range(3):
        if j != k:
            for g in (1, -1):
                ctx.assume(d[k] * a[k] > g * d[j] + 1e-6)
    ret = U.undistort_reconstruction(tm, rec, data, udata)
    [urec] = udata.reconstruction
    subs = ret["pano.jpg"]
    ctx.check(set(ret) == {"pano.jpg"} and udata.ids == {"pano.jpg": [s.id for s in subs]}, "list of the views")
    ctx.check({s.id for s in subs} == set(urec.shots) and len(subs) == 6, "six views")
    by = {face_of(s): urec.shots[s] for s in urec.shots}
    ctx.check(set(by) == set(FACES) and all(s.endswith("." + fmt) for s in urec.shots), "names of the views")
    ctx.check(len({s.rig_instance_id for s in by.values()}) == 1, "the views are one rig instance")
    seen = 0
    utm = udata.tracks
    for f in FACES:
        s = by[f]
        ctx.eq(list(s.pose.get_origin()), o, "centre of a view")
        V = mm([list(r) for r in s.pose.get_rotation_matrix()], T(R))
        ctx.eq(V[2], list(AXES[f]), "axis of a view", 1e-9)
        ctx.eq(mm(V, T(V)), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "views are rotations", 1e-9)
        det = sum(V[0][i] * (V[1][(i + 1) % 3] * V[2][(i + 2) % 3] - V[1][(i + 2) % 3] * V[2][(i + 1) % 3]) for i in range(3))
        ctx.eq(det, 1, "views are not mirrored", 1e-9)
        if f in ("front", "left", "back", "right"):
            ctx.eq(V[1], [0, 1, 0], "views around the horizon are upright", 1e-9)
        c = s.camera
        ctx.eq([c.focal, c.width, c.height], [0.5, width, width], "90 degrees square views")
        ctx.check(c.projection_type == "perspective", "perspective views")
        ctx.eq([c.k1, c.k2], [0, 0], "no distortion")
        visible = f == goal
        has = s.id in utm.get_shot_ids() and "t" in utm.get_shot_observations(s.id)
        ctx.check(has == visible, "the track is in the views that see it")
        if has:
            seen += 1
            q = utm.get_observation(s.id, "t")
            e = mv(V, d)
            ctx.eq([q.point[0] * e[2], q.point[1] * e[2]], [e[0] * 0.5, e[1] * 0.5], "position in the view")
            ctx.check(q.id == 42 and [int(v) for v in q.color] == [7, 8, 9] and q.segmentation == 5 and q.instance == 6, "other values of the observation")
            ctx.eq(q.scale, 3.0, "scale of the observation")
    ctx.check(seen == 1, "every direction is in one view")
    old = tm.get_observation("pano.jpg", "t")
    ctx.eq(list(old.point), px, "the panorama's own observation stays")


CAMS = ["perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62"]


def single(ctx, w, kind):
    """Images that are not panoramas, next to one that is and one unknown to the dataset."""
    U, Ty, M, G = w.mod("undistort"), w.mod("types"), w.mod("pymap"), w.mod("pygeometry")
    rec = Ty.Reconstruction()
    f, ar, k = ctx.real("focal", 0.1, 3), ctx.real("aspect", 0.5, 2), ctx.real("k", -1, 1)
    c = {"perspective": lambda: G.Camera.create_perspective(f, k, k), "brown": lambda: G.Camera.create_brown(f, ar, [k, k], [k] * 5),
         "fisheye": lambda: G.Camera.create_fisheye(f, k, k), "fisheye_opencv": lambda: G.Camera.create_fisheye_opencv(f, ar, [k, k], [k] * 4),
         "fisheye62": lambda: G.Camera.create_fisheye62(f, ar, [k, k], [k] * 8)}[kind]()
    c.id = "cam"
    c.width, c.height = ctx.int("w", 1, 9000), ctx.int("h", 1, 9000)
    rec.add_camera(c)
    poses = {}
    for n in ("a.jpg", "b.png", "gone.jpg"):
        R = [list(r) for r in (ctx.rotation("r" + n[0])[1] if n[0] == "a" else np.eye(3))]
        poses[n] = (R, vec(ctx, "o" + n[0]))
        p = G.Pose()
        p.set_rotation_matrix(ctx.array(R))
        p.set_origin(ctx.array(poses[n][1]))
        rec.create_shot(n, "cam", p)
        m = M.ShotMeasurements()
        m.gps_accuracy.value = 2.5 if n[0] == "a" else 3.5
        rec.shots[n].metadata = m
    panorama(ctx, w, rec, rot=np.eye(3))
    tm = M.TracksManager()
    x, y = ctx.real("x", -0.5, 0.5), ctx.real("y", -0.5, 0.5)
    for n in poses:
        tm.add_observation(n, "t", M.Observation(x, y, 1.0, 1, 2, 3, 5))
    ref = w.mod("geo").TopocentricConverter(1.0, 2.0, 3.0)
    rec.reference = ref
    pt = vec(ctx, "p")
    rec.create_point("t", ctx.array(pt))
    data, udata = dataset(w, ["a.jpg", "b.png", "pano.jpg"], 100, "png"), Store()
    U.undistort_reconstruction(tm if ctx.flag("tracks") else None, rec, data, udata)
    [urec] = udata.reconstruction
    ctx.check({k: v for k, v in udata.ids.items() if k != "pano.jpg"} == {"a.jpg": ["a.jpg.png"], "b.png": ["b.png"]}, "views of the images")
    ctx.check(set(urec.shots) == {"a.jpg.png", "b.png"} | set(udata.ids["pano.jpg"]) and len(udata.ids["pano.jpg"]) == 6, "images")
    for n, u in (("a.jpg", "a.jpg.png"), ("b.png", "b.png")):
        s = urec.shots[u]
        ctx.eq(list(s.pose.get_origin()), poses[n][1], "centre")
        ctx.eq([list(r) for r in s.pose.get_rotation_matrix()], poses[n][0], "rotation", 1e-9)
        ctx.eq(s.metadata.gps_accuracy.value, 2.5 if n[0] == "a" else 3.5, "measurements")
        v = s.camera
        ctx.check(v.projection_type == "perspective", "perspective")
        ctx.eq([v.k1, v.k2], [0, 0], "no distortion")
        ctx.eq([v.width, v.height], [c.width, c.height], "size")
        ctx.eq(v.focal, f if kind in ("perspective", "fisheye") else f * (1 + ar) / 2, "focal")
        if udata.tracks is not None:
            ctx.check(set(udata.tracks.get_shot_observations(u)) == {"t"}, "tracks of a view")
    ctx.eq([urec.reference.lat, urec.reference.lon, urec.reference.alt], [1.0, 2.0, 3.0], "reference")
    ctx.check(set(urec.points) == {"t"}, "points")
    ctx.eq(list(urec.points["t"].coordinates), pt, "position of a point")


def render(ctx, w, face, width, x, y):
    """What each pixel of a view is sampled from."""
    U, Ty = w.mod("undistort"), w.mod("types")
    rec = Ty.Reconstruction()
    pano, R, o = panorama(ctx, w, rec)
    urec = Ty.Reconstruction()
    data, udata = dataset(w, ["pano.jpg"], width), Store()
    subs = U.undistort_reconstruction(None, rec, data, udata)["pano.jpg"]
    seen = []
    big = ctx.image if False else None

    class CV:
        INTER_AREA, INTER_LINEAR, INTER_NEAREST, BORDER_WRAP = 3, 1, 0, 3

        @staticmethod
        def resize(image, size, interpolation=None):
            return np.zeros((size[1], size[0], 3), dtype=np.uint8)

        @staticmethod
        def remap(image, x, y, interpolation, borderMode=None):
            seen.append((image.shape, x, y, interpolation, borderMode))
            return np.zeros(x.shape + (3,), dtype=np.uint8)

    w.patch(U, "cv2", CV)
    out = U.undistort_image(rec.shots["pano.jpg"], subs, np.zeros((2000, 4000, 3), dtype=np.uint8), 3, 10000)
    ctx.check({face_of(k) for k in out} == set(FACES) and len(seen) == 6, "six rendered views")
    ctx.check(all(v.shape[:2] == (width, width) for v in out.values()), "size of the views")
    # the views are rendered in the order they are given in
    k = [face_of(s.id) for s in subs].index(face)
    shape, mx, my, inter, border = seen[k]
    ctx.check(border == CV.BORDER_WRAP and inter == CV.INTER_LINEAR, "sampling wraps around")
    W, H = shape[1], shape[0]
    ctx.check(W == 2 * H, "panoramas are twice as wide as high")
    V = mm([list(r) for r in subs[k].pose.get_rotation_matrix()], T(R))
    ctx.eq(V[2], list(AXES[face]), "axis of the view", 1e-9)
    lon = (mx[y, x] + 0.5 - W / 2) / W * (2 * math.pi)
    lat = -(my[y, x] + 0.5 - H / 2) / W * (2 * math.pi)
    (sl, cl), (sp, cp) = ctx.sincos_any(lon), ctx.sincos_any(lat)
    # direction of the pixel: centre of the pixel over a focal of half the width
    e = [(x + 0.5 - width / 2) / width, (y + 0.5 - width / 2) / width, 0.5]
    n = math.sqrt(sum(v * v for v in e))
    ctx.eq([cp * sl, -sp, cp * cl], [v / n for v in mv(T(V), e)], "direction of a pixel", 1e-5)


def scale(ctx, w, hw):
    U = w.mod("undistort")
    h, wd = hw
    m = ctx.int("max", 1, 20)
    out = []

    class CV:
        INTER_NEAREST = 0

        @staticmethod
        def resize(image, size, interpolation=None):
            out.append(size)
            ctx.check(interpolation == 0, "nearest")
            return ("resized", size)

    w.patch(U, "cv2", CV)
    im = np.zeros((h, wd, 3), dtype=np.uint8)
    r = U.scale_image(im, m)
    if bool(m >= max(h, wd)):
        ctx.check(r is im and not out, "small images are left alone")
    else:
        ctx.check(len(out) == 1 and r == ("resized", out[0]), "resized once")
        sw, sh = out[0]
        ctx.eq(max(sw, sh), m, "largest side is the maximum")
        ctx.check(abs(sw * max(h, wd) - wd * m) * 2 <= max(h, wd) + 1e-6, "width keeps the aspect")
        ctx.check(abs(sh * max(h, wd) - h * m) * 2 <= max(h, wd) + 1e-6, "height keeps the aspect")


TURN = [[0, 0, 1], [1, 0, 0], [0, 1, 0]]
HARNESSES = [
    dict(name="views", fn=views, params=[dict(fmt="jpg", goal=f) for f in FACES[::2]] + [dict(fmt="png", goal=f, rot=TURN) for f in FACES[1::2]],
         thorough=[dict(fmt="jpg", goal=f) for f in FACES[1::2]] + [dict(fmt="png", goal=f, rot=TURN) for f in FACES[::2]]),
    dict(name="single", fn=single, params=[dict(kind=k) for k in CAMS]),
    dict(name="render", fn=render, params=[dict(face=f, width=w, x=x, y=y) for f, w, x, y in (("front", 2, 0, 1), ("left", 3, 2, 0), ("top", 3, 0, 1), ("bottom", 2, 1, 1), ("back", 1, 0, 0), ("right", 3, 1, 2))],
         thorough=[dict(face=f, width=3, x=x, y=y) for f in FACES for x in range(3) for y in range(3)]),
    dict(name="scale", fn=scale, params=[dict(hw=h) for h in ([3, 4], [16, 9], [7, 7])], thorough=[dict(hw=h) for h in ([20, 1], [13, 17], [5, 19])]),
]
