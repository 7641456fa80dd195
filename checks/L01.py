"""Splitting a dataset into overlapping submodels."""
import itertools
import os
import shutil
import tempfile

PRELOAD = ["large.tools", "large.metadataset", "actions.create_submodels", "dataset", "context"]
BOUNDS = "up to 4 images at any positions, up to 3 clusters or image groups with any assignment, any overlap distance, images without position"
ASSUMPTIONS = ["the search tree returns exactly the positions within the distance", "the local frame is a stand-in keeping distances (checked by G01)",
               "no image lies so close to the overlap distance of another that single precision (how the positions are passed) decides", "clustering labels are arbitrary, no cluster is empty"]


class Tree:
    def __init__(self, points, **kw):
        import numpy as np
        self.p = [list(np.ravel(np.asarray(r, dtype=object))) for r in points]

    def query_ball_point(self, x, r, p=2.0, eps=0, workers=1, return_sorted=None, return_length=False):
        import numpy as np
        if eps:
            raise NotImplementedError("approximate neighbours")
        x = np.asarray(x, dtype=object)
        if x.ndim > 1:
            rs = np.broadcast_to(np.asarray(r, dtype=object), (len(x),))
            return [self.query_ball_point(y, s, p, 0, 1, return_sorted, return_length) for y, s in zip(x, rs)]

        def near(q):
            d = [a - b for a, b in zip(x, q)]
            if p == 2:
                return bool(sum(a * a for a in d) <= r * r) and bool(r >= 0)
            d = [abs(a) for a in d]
            if p == 1:
                return bool(sum(d) <= r)
            if p == float("inf"):
                return all(bool(a <= r) for a in d)
            raise NotImplementedError("norm %s" % p)
        got = [j for j, q in enumerate(self.p) if near(q)]
        return len(got) if return_length else got


class Spatial:
    cKDTree = KDTree = Tree


class Frame:
    def __init__(self, lat, lon, alt):
        self.lat, self.lon, self.alt = lat, lon, alt

    def to_topocentric(self, lat, lon, alt):
        return (lon - self.lon) * 1000, (lat - self.lat) * 1000, alt - self.alt


class Geo:
    TopocentricConverter = Frame


def space(ctx, ims):
    pos = {im: (ctx.real("lat" + im[0], -1, 1), ctx.real("lon" + im[0], -1, 1)) for im in ims}
    dist = ctx.real("dist", 0, 1000)
    d = {}
    for a, b in itertools.combinations(ims, 2):
        v = ((pos[a][0] - pos[b][0]) ** 2 + (pos[a][1] - pos[b][1]) ** 2) * 1000000
        ctx.assume(v - dist * dist > 10 if ctx.flag("far%s%s" % (a[0], b[0])) else dist * dist - v > 10)
        d[a, b] = d[b, a] = v
    return pos, dist, d


def extended(core, ims, d, dist):
    out = set(core)
    for im in ims:
        if im not in out and any(bool(d[im, c] <= dist * dist) for c in core):
            out.add(im)
    return out


def patch(w):
    t = w.mod("large.tools")
    w.patch(t, "spatial", Spatial)
    w.patch(t, "geo", Geo)
    return t


def neighbors(ctx, w, n, labels):
    import numpy as np
    t = patch(w)
    ims = ["a", "b", "c", "d"][:n]
    pos, dist, d = space(ctx, ims)
    k = max(labels) + 1
    got = t.add_cluster_neighbors(ctx.array([list(pos[i]) for i in ims]), np.array(labels), np.zeros((k, 2)), dist)
    ctx.check(len(got) == k, "one extended cluster per cluster")
    for c in range(k):
        core = [ims[i] for i in range(n) if labels[i] == c]
        g = [ims[int(i)] for i in got[c]]
        ctx.check(len(g) == len(set(g)) and set(g) == extended(core, ims, d, dist), "extended cluster")


def groups(n, m):
    """All ways to spread n images over exactly m clusters."""
    return [l for l in itertools.product(range(m), repeat=n) if len(set(l)) == m]


def split(ctx, w, n, m, grouped, missing=False):
    """The whole action, with the submodel folder replaced by a record."""
    import numpy as np
    t, act = patch(w), w.mod("actions.create_submodels")
    ims = ["a.jpg", "b.jpg", "c.jpg", "d.jpg"][:n]
    pos, dist, d = space(ctx, ims)
    lab = groups(n, m)
    lab = lab[ctx.choice("labels", len(lab))]
    lost = ["z.jpg", "y.jpg"] if missing else []
    rec = {}
    names = ["east", "west", "north"]

    class Meta:
        data_path = "/nowhere"

        def __init__(self, path):
            pass

        def remove_submodels(self):
            pass

        def create_image_list(self, ills):
            rec["list"] = list(ills)

        def images_with_gps(self):
            return iter(rec["list"])

        def image_groups_exists(self):
            return grouped

        def load_image_groups(self):
            for im, l in zip(ims, lab):
                yield [im, names[l]]
            for im in lost:
                yield [im, "west"]

        def save_clusters(self, images, positions, labels, centers):
            rec["clusters"] = images, positions, labels, centers

        def load_clusters(self):
            i, p, l, c = rec["clusters"]
            return np.asarray(i).ravel(), p, np.asarray(l).ravel(), c

        def save_clusters_with_neighbors(self, clusters):
            rec["with"] = clusters

        def load_clusters_with_neighbors(self):
            return rec["with"]

        def save_cluster_with_neighbors_geojson(self, g):
            rec["geo_with"] = g

        def save_clusters_geojson(self, g):
            rec["geo"] = g

        def create_submodels(self, clusters):
            rec["sub"] = clusters

    def kmeans(samples, k, *a):
        ctx.check(int(k) == -(-n // 2), "number of clusters")
        return 0.0, np.array(lab).reshape(-1, 1), np.zeros((m, 2))

    class CV:
        TERM_CRITERIA_MAX_ITER = KMEANS_PP_CENTERS = 0

    CV.kmeans = staticmethod(kmeans)
    w.patch(t, "cv2", CV)
    w.patch(act, "MetaDataSet", Meta)
    exif = {im: dict(gps=dict(latitude=pos[im][0], longitude=pos[im][1])) for im in ims}
    for k, im in enumerate(lost):
        exif[im] = [{}, dict(gps=dict(latitude=1.0))][k]

    class Data:
        data_path = "/nowhere"
        config = dict(submodel_size=2, submodel_overlap=dist)

        def init_reference(self):
            pass

        def images(self):
            return lost[:1] + ims + lost[1:]

        def load_exif(self, im):
            return exif[im]

    act.run_dataset(Data())
    ctx.check(len(rec["sub"]) == m, "one submodel per cluster")
    cores = [{im for im, l in zip(ims, lab) if l == c} for c in range(m)]
    order = sorted(range(m), key=lambda c: names[c]) if grouped else list(range(m))
    for i, c in enumerate(order):
        g = [str(x) for x in rec["sub"][i]]
        ctx.check(len(g) == len(set(g)) and set(g) == extended(cores[c], ims, d, dist), "images of a submodel")
        pts = {f["properties"]["name"]: f for f in rec["geo_with"]["features"] if f["properties"]["submodel"] == i}
        ctx.check(set(pts) == set(g), "map of the submodels")
        pts = {f["properties"]["name"]: f for f in rec["geo"]["features"] if f["properties"]["submodel"] == i}
        ctx.check(set(pts) == cores[c], "map of the clusters")
        for im in pts:
            ctx.eq(list(pts[im]["geometry"]["coordinates"]), [pos[im][1], pos[im][0]], "coordinates on the map")


def folders(ctx, w, n):
    """The submodel folders hold exactly the images of their cluster."""
    M = w.mod("large.metadataset")
    ims = ["a.jpg", "b.jpg", "c.jpg"][:n]
    inside = [[im for im in ims if ctx.flag("in%d%s" % (k, im[0]))] for k in range(2)]
    ctx.assume(all(inside))
    rerun = bool(ctx.flag("rerun"))
    top = tempfile.mkdtemp(prefix="split")
    try:
        class Shutil:
            copyfile = staticmethod(shutil.copyfile)

            @staticmethod
            def rmtree(p, *a, **k):
                if os.path.realpath(p).startswith(os.path.realpath(top) + "/"):
                    shutil.rmtree(p)

        w.patch(M, "shutil", Shutil)
        os.makedirs(top + "/images")
        os.makedirs(top + "/exif")
        for im in ims:
            with open(top + "/images/" + im, "w") as f:
                f.write("image " + im)
            with open(top + "/exif/" + im + ".exif", "w") as f:
                f.write('{"camera": "cam of %s"}' % im)
        meta = M.MetaDataSet(top)
        if rerun:
            meta.create_submodels([list(ims)] * 3)
            meta.remove_submodels()
        meta.save_clusters_with_neighbors(inside)
        meta.create_submodels(meta.load_clusters_with_neighbors())
        paths = meta.get_submodel_paths()
        ctx.check(len(paths) == 2, "one folder per submodel")
        for k, p in enumerate(paths):
            data = w.mod("dataset").DataSet(p)
            ctx.check(sorted(data.images()) == sorted(inside[k]), "images of the submodel")
            for im in data.images():
                with data.open_image_file(im) as f:
                    ctx.check(f.read() == ("image " + im).encode(), "content of the image")
                ctx.check(data.load_exif(im)["camera"] == "cam of " + im, "shared metadata")
        meta.create_image_list([(im, 1.5 * k, -2.25 * k) for k, im in enumerate(ims)])
        ctx.check(list(meta.images_with_gps()) == [(im, 1.5 * k, -2.25 * k) for k, im in enumerate(ims)], "image list")
    finally:
        shutil.rmtree(top)


HARNESSES = [
    dict(name="neighbors", fn=neighbors, params=[dict(n=3, labels=[0, 0, 1]), dict(n=3, labels=[1, 0, 2]), dict(n=3, labels=[0, 0, 0])],
         thorough=[dict(n=4, labels=[0, 1, 0, 1]), dict(n=4, labels=[0, 0, 0, 1])], opts=dict(witnesses=20)),
    dict(name="split", fn=split, params=[dict(n=3, m=2, grouped=False), dict(n=3, m=2, grouped=True), dict(n=2, m=1, grouped=False, missing=True), dict(n=2, m=2, grouped=True, missing=True)],
         thorough=[dict(n=3, m=3, grouped=True, missing=True), dict(n=4, m=2, grouped=False)]),
    dict(name="folders", fn=folders, params=[dict(n=2)], thorough=[dict(n=3)], opts=dict(witnesses=200)),
]
