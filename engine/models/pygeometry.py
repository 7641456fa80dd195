"""Reference model of the geometry extension module (Camera, Pose, Similarity)."""

import enum
import math

import numpy as np
from engine import rot
from engine.sym import Unsupported, is_sym


class CameraParameters(enum.IntEnum):
    focal = 0
    aspect_ratio = 1
    k1 = 2
    k2 = 3
    k3 = 4
    k4 = 5
    k5 = 6
    k6 = 7
    p1 = 8
    p2 = 9
    s0 = 10
    s1 = 11
    s2 = 12
    s3 = 13
    cx = 14
    cy = 15
    transition = 16
    none = 17


focal = CameraParameters.focal
aspect_ratio = CameraParameters.aspect_ratio
k1 = CameraParameters.k1
k2 = CameraParameters.k2
k3 = CameraParameters.k3
k4 = CameraParameters.k4
k5 = CameraParameters.k5
k6 = CameraParameters.k6
p1 = CameraParameters.p1
p2 = CameraParameters.p2
s0 = CameraParameters.s0
s1 = CameraParameters.s1
s2 = CameraParameters.s2
s3 = CameraParameters.s3
cx = CameraParameters.cx
cy = CameraParameters.cy
transition = CameraParameters.transition
none = CameraParameters.none

_K = ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3"]


def _vals(v, n=None):
    r = list(np.asarray(v).ravel())
    if n is not None and len(r) != n:
        raise RuntimeError("Invalid distortion coefficients size")
    return r


class Camera:
    def __init__(self):
        self._type = "perspective"
        self._p = {}
        self.width = 1
        self.height = 1
        self.id = ""

    @staticmethod
    def _make(type_, names, values):
        if len(names) != len(values):
            raise TypeError("parameter count")
        c = Camera()
        c._type = type_
        c._p = dict(zip(names, values))
        return c

    @staticmethod
    def create_perspective(f, k1, k2):
        return Camera._make("perspective", ["k1", "k2", "focal"], [k1, k2, f])

    @staticmethod
    def _full(type_, disto, f, ar, pp, d):
        pp = _vals(pp)
        if len(pp) != 2:
            raise TypeError("principal point")
        return Camera._make(type_, disto + ["focal", "aspect_ratio", "cx", "cy"], _vals(d, len(disto)) + [f, ar] + pp)

    @staticmethod
    def create_brown(f, ar, pp, d):
        return Camera._full("brown", ["k1", "k2", "k3", "p1", "p2"], f, ar, pp, d)

    @staticmethod
    def create_fisheye(f, k1, k2):
        return Camera._make("fisheye", ["k1", "k2", "focal"], [k1, k2, f])

    @staticmethod
    def create_fisheye_opencv(f, ar, pp, d):
        return Camera._full("fisheye_opencv", ["k1", "k2", "k3", "k4"], f, ar, pp, d)

    @staticmethod
    def create_fisheye62(f, ar, pp, d):
        return Camera._full("fisheye62", _K[:8], f, ar, pp, d)

    @staticmethod
    def create_fisheye624(f, ar, pp, d):
        return Camera._full("fisheye624", _K, f, ar, pp, d)

    @staticmethod
    def create_dual(t, f, k1, k2):
        return Camera._make("dual", ["transition", "k1", "k2", "focal"], [t, k1, k2, f])

    @staticmethod
    def create_spherical():
        return Camera._make("spherical", ["none"], [0.0])

    @staticmethod
    def create_radial(f, ar, pp, d):
        return Camera._full("radial", ["k1", "k2"], f, ar, pp, d)

    @staticmethod
    def create_simple_radial(f, ar, pp, k1):
        return Camera._full("simple_radial", ["k1"], f, ar, pp, [k1])

    def _get(self, n):
        if n not in self._p:
            raise RuntimeError("Unknown parameter for this camera model")
        return self._p[n]

    def _set(self, n, v):
        if n not in self._p:
            raise RuntimeError("Unknown parameter for this camera model")
        self._p[n] = v

    def set_parameter_value(self, p, v):
        self._set(CameraParameters(p).name, v)

    def set_parameters_values(self, v):
        v = _vals(v)
        if len(v) != len(self._p):
            raise RuntimeError("parameter count")
        for n, x in zip(list(self._p), v):
            self._p[n] = x

    def get_parameters_values(self):
        return np.array(list(self._p.values()))

    def get_parameters_types(self):
        return [CameraParameters[n] for n in self._p]

    def get_parameters_map(self):
        return {CameraParameters[n]: v for n, v in self._p.items()}

    @property
    def distortion(self):
        return np.array([self._p[n] for n in _K if n in self._p])

    @distortion.setter
    def distortion(self, v):
        v = _vals(v)
        for n, x in zip([n for n in self._p if n in _K], v):
            self._p[n] = x

    @property
    def principal_point(self):
        if "cx" not in self._p:
            raise IndexError("map::at")
        return np.array([self._p["cx"], self._p["cy"]])

    @principal_point.setter
    def principal_point(self, v):
        self._set("cx", v[0])
        self._set("cy", v[1])

    @property
    def projection_type(self):
        return self._type

    @staticmethod
    def is_panorama(s):
        return s in ("spherical", "equirectangular")

    def get_K(self):
        f = self._p.get("focal", 1.0)
        ar = self._p.get("aspect_ratio", 1.0)
        return np.array([
            [f, 0.0, self._p.get("cx", 0.0)],
            [0.0, f * ar, self._p.get("cy", 0.0)],
            [0.0, 0.0, 1.0]])

    def get_K_in_pixel_coordinates(self, width, height):
        k = self.get_K()
        s = max(width, height)
        return np.array([
            [k[0, 0] * s, 0.0, k[0, 2] * s + 0.5 * width],
            [0.0, k[1, 1] * s, k[1, 2] * s + 0.5 * height],
            [0.0, 0.0, 1.0]])

    def _distort(self, x, y):
        t = self._type
        p = self._p
        r2 = x * x + y * y
        if t in ("perspective", "radial"):
            d = 1.0 + r2 * (p["k1"] + p["k2"] * r2)
            return x * d, y * d
        if t == "simple_radial":
            d = 1.0 + r2 * p["k1"]
            return x * d, y * d
        if t == "brown":
            d = 1.0 + r2 * (p["k1"] + r2 * (p["k2"] + r2 * p["k3"]))
            return (x * d + 2 * p["p1"] * x * y + p["p2"] * (r2 + 2 * x * x),
                    y * d + 2 * p["p2"] * x * y + p["p1"] * (r2 + 2 * y * y))
        raise Unsupported("distortion of " + t)

    def project(self, point):
        x, y, z = _vals(point)
        if self._type == "spherical":
            lon = np.arctan2(x, z)
            lat = np.arctan2(-y, np.sqrt(x * x + z * z))
            return np.array([lon / (2 * math.pi), -lat / (2 * math.pi)])
        x, y = self._distort(x / z, y / z)
        f = self._p["focal"]
        return np.array([f * x + self._p.get("cx", 0.0), f * self._p.get("aspect_ratio", 1.0) * y + self._p.get("cy", 0.0)])

    def project_many(self, points):
        return np.array([self.project(p) for p in points]).reshape(-1, 2)

    def _has_distortion(self):
        return any(is_sym(self._p[n]) or self._p[n] != 0 for n in _K if n in self._p)

    def pixel_bearing(self, point):
        x, y = _vals(point)
        if self._type == "spherical":
            lon = x * 2 * math.pi
            lat = -y * 2 * math.pi
            return np.array([np.cos(lat) * np.sin(lon), -np.sin(lat), np.cos(lat) * np.cos(lon)])
        if self._type not in ("perspective", "brown", "radial", "simple_radial"):
            raise Unsupported("bearing of " + self._type)
        f = self._p["focal"]
        x = (x - self._p.get("cx", 0.0)) / f
        y = (y - self._p.get("cy", 0.0)) / (f * self._p.get("aspect_ratio", 1.0))
        if self._has_distortion():
            if is_sym(x) or is_sym(y):
                raise Unsupported("undistortion")
            u, v = x, y
            for _ in range(50):
                a, b = self._distort(u, v)
                u, v = u + (x - a), v + (y - b)
            x, y = u, v
        l = np.sqrt(x * x + y * y + 1.0)
        return np.array([x / l, y / l, 1.0 / l])

    def pixel_bearing_many(self, points):
        return np.array([self.pixel_bearing(p) for p in points]).reshape(-1, 3)

    @staticmethod
    def pixel_to_normalized_coordinates_common(p, w, h):
        s = max(w, h)
        return np.array([(p[0] + 0.5 - w / 2.0) / s, (p[1] + 0.5 - h / 2.0) / s])

    @staticmethod
    def normalized_to_pixel_coordinates_common(p, w, h):
        s = max(w, h)
        return np.array([p[0] * s + (w - 1.0) * 0.5, p[1] * s + (h - 1.0) * 0.5])

    @staticmethod
    def pixel_to_normalized_coordinates_many_common(ps, w, h):
        return np.array([Camera.pixel_to_normalized_coordinates_common(p, w, h) for p in ps]).reshape(-1, 2)

    @staticmethod
    def normalized_to_pixel_coordinates_many_common(ps, w, h):
        return np.array([Camera.normalized_to_pixel_coordinates_common(p, w, h) for p in ps]).reshape(-1, 2)

    def pixel_to_normalized_coordinates(self, p):
        return Camera.pixel_to_normalized_coordinates_common(p, self.width, self.height)

    def normalized_to_pixel_coordinates(self, p):
        return Camera.normalized_to_pixel_coordinates_common(p, self.width, self.height)

    def pixel_to_normalized_coordinates_many(self, ps):
        return Camera.pixel_to_normalized_coordinates_many_common(ps, self.width, self.height)

    def normalized_to_pixel_coordinates_many(self, ps):
        return Camera.normalized_to_pixel_coordinates_many_common(ps, self.width, self.height)

    def copy(self):
        c = Camera()
        c._type, c._p = self._type, dict(self._p)
        c.width, c.height, c.id = self.width, self.height, self.id
        return c

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()


def _prop(n):
    return property(lambda c: c._get(n), lambda c, v: c._set(n, v))


for _n in ("focal", "aspect_ratio", "transition"):
    setattr(Camera, _n, _prop(_n))
for _n in _K:
    setattr(Camera, _n, property(lambda c, _n=_n: c._get(_n)))


def _mat(R):
    return np.array([[x for x in row] for row in R])


def _rot(r):
    r = np.asarray(r)
    if r.size == 3:
        return _mat(rot.exp(r))
    if r.shape != (3, 3):
        raise TypeError("rotation")
    return np.array(r)


def _vec(t):
    v = _vals(t)
    if len(v) != 3:
        raise TypeError("3-vector expected")
    return np.array([x + 0.0 if not is_sym(x) else x for x in v])


class Pose:
    """World-to-camera x -> R x + t."""

    def __init__(self, rotation=None, translation=None):
        self.R = _rot(rotation) if rotation is not None else np.eye(3)
        self.t = _vec(translation) if translation is not None else np.zeros(3)

    @staticmethod
    def _of(R, t):
        p = Pose()
        p.R, p.t = R, t
        return p

    def _set(self, a, kind):
        if len(a) == 1:
            m = np.asarray(a[0])
            R, t = np.array(m[:3, :3]), _vec(m[:3, 3])
        else:
            R, t = _rot(a[0]), _vec(a[1])
        if kind == "c2w":
            R, t = R.T, -(R.T.dot(t))
        self.R, self.t = np.array(R), _vec(t)

    def set_from_world_to_cam(self, *a):
        self._set(a, "w2c")

    def set_from_cam_to_world(self, *a):
        self._set(a, "c2w")

    def get_origin(self):
        return -(self.R.T.dot(self.t))

    def set_origin(self, o):
        self.t = -(self.R.dot(_vec(o)))

    def get_R_cam_to_world(self):
        return np.array(self.R.T)

    def get_rotation_matrix(self):
        return np.array(self.R)

    get_R_world_to_cam = get_rotation_matrix

    def get_R_cam_to_world_min(self):
        return np.array(rot.log(self.R.T))

    def get_R_world_to_cam_min(self):
        return np.array(rot.log(self.R))

    def get_t_cam_to_world(self):
        return self.get_origin()

    def get_t_world_to_cam(self):
        return np.array(self.t)

    def get_Rt(self):
        return np.array([list(self.R[i]) + [self.t[i]] for i in range(3)])

    def get_world_to_cam(self):
        return np.array([list(self.R[i]) + [self.t[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]])

    def get_cam_to_world(self):
        return self.inverse().get_world_to_cam()

    @property
    def rotation(self):
        return self.get_R_world_to_cam_min()

    @rotation.setter
    def rotation(self, v):
        self.R = _rot(_vec(v))

    @property
    def translation(self):
        return np.array(self.t)

    @translation.setter
    def translation(self, v):
        self.t = _vec(v)

    def set_rotation_matrix(self, R):
        self.R = _rot(R)

    def transform(self, p):
        return self.R.dot(_vec(p)) + self.t

    def transform_inverse(self, p):
        return self.R.T.dot(_vec(p) - self.t)

    def transform_many(self, ps):
        return np.array([self.transform(p) for p in ps]).reshape(-1, 3)

    def transform_inverse_many(self, ps):
        return np.array([self.transform_inverse(p) for p in ps]).reshape(-1, 3)

    def compose(self, o):
        return Pose._of(self.R.dot(o.R), self.R.dot(o.t) + self.t)

    def relative_to(self, base):
        return self.compose(base.inverse())

    def inverse(self):
        return Pose._of(np.array(self.R.T), -(self.R.T.dot(self.t)))

    def is_identity(self):
        return np.allclose(self.R, np.eye(3)) and np.allclose(self.t, np.zeros(3))

    def copy(self):
        return Pose._of(np.array(self.R), np.array(self.t))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()


class Similarity:
    def __init__(self, rotation, translation, scale):
        self.R = _rot(_vec(rotation))
        self.translation = _vec(translation)
        self.scale = scale

    @property
    def rotation(self):
        return np.array(rot.log(self.R))

    @rotation.setter
    def rotation(self, v):
        self.R = _rot(_vec(v))

    def get_rotation_matrix(self):
        return np.array(self.R)

    def transform(self, p):
        return self.scale * self.R.dot(_vec(p)) + self.translation

    def inverse(self):
        s = Similarity(np.zeros(3), np.zeros(3), 1.0 / self.scale)
        s.R = np.array(self.R.T)
        s.translation = -(self.R.T.dot(self.translation)) / self.scale
        return s


def triangulate_bearings_midpoint(*a):
    raise Unsupported("triangulation kernel not stubbed")


triangulate_bearings_dlt = triangulate_bearings_midpoint
triangulate_two_bearings_midpoint = triangulate_bearings_midpoint
triangulate_two_bearings_midpoint_many = triangulate_bearings_midpoint
epipolar_angle_two_bearings_many = triangulate_bearings_midpoint
point_refinement = triangulate_bearings_midpoint
essential_five_points = triangulate_bearings_midpoint
absolute_pose_three_points = triangulate_bearings_midpoint
absolute_pose_n_points = triangulate_bearings_midpoint
absolute_pose_n_points_known_rotation = triangulate_bearings_midpoint
essential_n_points = triangulate_bearings_midpoint
relative_pose_from_essential = triangulate_bearings_midpoint
relative_rotation_n_points = triangulate_bearings_midpoint
relative_pose_refinement = triangulate_bearings_midpoint
compute_camera_mapping = triangulate_bearings_midpoint


def __getattr__(name):
    from engine.models import empty

    return empty.__getattr__(name)
