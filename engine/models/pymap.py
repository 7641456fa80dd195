"""Reference model of the map extension module."""

import enum

import numpy as np
from opensfm import pygeo, pygeometry
from engine.sym import is_sym


class Depth:
    def __init__(self, value, is_radial, std_deviation):
        self.value = value
        self.is_radial = is_radial
        self.std_deviation = std_deviation


class Observation:
    NO_SEMANTIC_VALUE = -1

    def __init__(self, x, y, s, r, g, b, feature, segmentation=-1, instance=-1):
        self.point = np.array([x, y])
        self.scale = s
        self.id = feature
        self.color = np.array([r, g, b])
        self.segmentation = segmentation
        self.instance = instance
        self.depth_prior = None

    def copy(self):
        o = Observation(self.point[0], self.point[1], self.scale, *list(self.color), self.id,
                        self.segmentation, self.instance)
        d = self.depth_prior
        if d is not None:
            o.depth_prior = Depth(d.value, d.is_radial, d.std_deviation)
        return o

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()


class ErrorType(enum.Enum):
    Pixel = 0
    Normalized = 1
    Angular = 2


Pixel, Normalized, Angular = ErrorType.Pixel, ErrorType.Normalized, ErrorType.Angular


class TracksManager:
    def __init__(self):
        self._shot = {}
        self._track = {}

    def add_observation(self, shot_id, track_id, obs):
        _str(shot_id), _str(track_id)
        o = obs.copy()
        self._shot.setdefault(shot_id, {})[track_id] = o
        self._track.setdefault(track_id, {})[shot_id] = o

    def remove_observation(self, shot_id, track_id):
        if shot_id not in self._shot or track_id not in self._track:
            raise RuntimeError("Accessing invalid ID")
        self._shot[shot_id].pop(track_id, None)
        self._track[track_id].pop(shot_id, None)

    def num_shots(self):
        return len(self._shot)

    def num_tracks(self):
        return len(self._track)

    def get_shot_ids(self):
        return sorted(self._shot)

    def get_track_ids(self):
        return sorted(self._track)

    def get_observation(self, shot_id, track_id):
        if shot_id not in self._shot or track_id not in self._shot[shot_id]:
            raise RuntimeError("Accessing invalid ID")
        return self._shot[shot_id][track_id].copy()

    def get_shot_observations(self, shot_id):
        if shot_id not in self._shot:
            raise RuntimeError("Accessing invalid shot ID")
        return {k: v.copy() for k, v in self._shot[shot_id].items()}

    def get_track_observations(self, track_id):
        if track_id not in self._track:
            raise RuntimeError("Accessing invalid track ID")
        return {k: v.copy() for k, v in self._track[track_id].items()}

    def construct_sub_tracks_manager(self, tracks, shots):
        shots = set(shots)
        r = TracksManager()
        for t in tracks:
            for s, o in self._track.get(t, {}).items():
                if s in shots:
                    r.add_observation(s, t, o)
        return r

    def get_all_common_observations(self, a, b):
        if a not in self._shot or b not in self._shot:
            raise RuntimeError("Accessing invalid shot ID")
        return [(t, self._shot[a][t].copy(), self._shot[b][t].copy())
                for t in sorted(self._shot[a]) if t in self._shot[b]]

    def get_all_pairs_connectivity(self, shots=(), tracks=()):
        out = {}
        shots = set(shots)
        for t in (list(tracks) or list(self._track)):
            if t not in self._track:
                continue
            ss = sorted(s for s in self._track[t] if not shots or s in shots)
            for i in range(len(ss)):
                for j in range(i + 1, len(ss)):
                    out[(ss[i], ss[j])] = out.get((ss[i], ss[j]), 0) + 1
        return out

    @staticmethod
    def merge_tracks_manager(managers):
        raise NotImplementedError

    def as_string(self):
        raise NotImplementedError


def _str(s):
    if not isinstance(s, str):
        raise TypeError("string id expected, got %r" % (type(s),))


class ShotMeasurement:
    def __init__(self):
        self.has_value = False
        self._v = None

    @property
    def value(self):
        return self._v

    @value.setter
    def value(self, v):
        if v is None:
            raise TypeError("None is not a value")
        self._v = np.array(v) if isinstance(v, (list, tuple, np.ndarray)) else v
        self.has_value = True

    def reset(self):
        self.has_value = False


class ShotMeasurementInt(ShotMeasurement):
    pass


class ShotMeasurementDouble(ShotMeasurement):
    pass


class ShotMeasurementVec3d(ShotMeasurement):
    pass


class ShotMeasurementString(ShotMeasurement):
    pass


_FIELDS = ("gps_accuracy", "gps_position", "orientation", "capture_time", "gravity_down", "compass_angle",
           "compass_accuracy", "opk_angles", "opk_accuracy", "sequence_key")


class ShotMeasurements:
    def __init__(self):
        for f in _FIELDS:
            setattr(self, f, ShotMeasurement())
        self._attributes = {}

    @property
    def attributes(self):
        return dict(self._attributes)

    @attributes.setter
    def attributes(self, v):
        for k, x in v.items():
            _str(k), _str(x)
        self._attributes = dict(v)

    def set(self, o):
        for f in _FIELDS:
            a, b = getattr(self, f), getattr(o, f)
            if b.has_value:
                a.value = b.value
            else:
                a.reset()
        self._attributes = dict(o._attributes)

    def __copy__(self):
        m = ShotMeasurements()
        m.set(self)
        return m

    def __deepcopy__(self, memo):
        return self.__copy__()


class ShotMesh:
    def __init__(self):
        self.faces = np.zeros((0, 0))
        self.vertices = np.zeros((0, 0))


class RigCamera:
    def __init__(self, pose=None, id=""):
        self.pose = pose.copy() if pose is not None else pygeometry.Pose()
        self.id = id


class RigInstance:
    def __init__(self, id):
        _str(id)
        self.id = id
        self._pose = pygeometry.Pose()
        self.shots = {}
        self.rig_cameras = {}

    @property
    def pose(self):
        return self._pose

    @pose.setter
    def pose(self, p):
        self._pose = p.copy()

    @property
    def rig_camera_ids(self):
        return {s: rc.id for s, rc in self.rig_cameras.items()}

    @property
    def camera_ids(self):
        return {s: x.camera.id for s, x in self.shots.items()}

    def keys(self):
        return set(self.shots)

    def add_shot(self, rig_camera, shot):
        for s, rc in self.rig_cameras.items():
            if rc.id == rig_camera.id:
                raise RuntimeError("%s already exist in RigInstance" % rc.id)
        shot.set_rig(self, rig_camera)
        self.shots[shot.id] = shot
        self.rig_cameras[shot.id] = rig_camera

    def remove_shot(self, shot_id):
        if shot_id not in self.shots:
            raise RuntimeError("Cannot find shot in RigInstance")
        del self.shots[shot_id]
        del self.rig_cameras[shot_id]

    def update_instance_pose_with_shot(self, shot_id, pose):
        if shot_id not in self.rig_cameras:
            raise RuntimeError("Cannot find shot in RigInstance")
        self._pose = self.rig_cameras[shot_id].pose.inverse().compose(pose)

    def update_rig_camera_pose(self, rig_camera_id, pose):
        for rc in self.rig_cameras.values():
            if rc.id == rig_camera_id:
                rc.pose = pose.copy()
                return
        raise RuntimeError("rig camera doesn't exist in RigInstance")


def _identity(pose):
    def near(x, v):
        return not is_sym(x) and abs(float(x) - v) < 1e-5

    return all(near(pose.R[i][j], float(i == j)) for i in range(3) for j in range(3)) and all(
        near(x, 0.0) for x in pose.t)


class _Frozen(pygeometry.Pose):
    """Pose of a camera of a rig."""

    def __init__(self, p):
        self.__dict__.update(R=np.array(p.R), t=np.array(p.t))

    def __setattr__(self, n, v):
        raise RuntimeError("Cannot set an immutable pose")


class Shot:
    def __init__(self, id, camera, pose):
        _str(id)
        self.id = id
        self._camera = camera.copy()
        self._init()
        ri = RigInstance(id)
        ri.add_shot(RigCamera(pygeometry.Pose(), id), self)
        ri.pose = pose

    def _init(self):
        self.mesh = ShotMesh()
        self._cov = None
        self.merge_cc = 0
        self.scale = 1.0
        self._meas = ShotMeasurements()
        self._obs = {}
        self._feat = {}
        self.rig_instance = None
        self.rig_camera = None

    @staticmethod
    def _in_map(id, camera, ri, rc, pose):
        s = Shot.__new__(Shot)
        s.id = id
        s._camera = camera
        s._init()
        ri.add_shot(rc, s)
        if pose is not None:
            ri.update_instance_pose_with_shot(id, pose)
        return s

    @property
    def camera(self):
        return self._camera

    @property
    def covariance(self):
        return self._cov if self._cov is not None else np.zeros((0, 0))

    @covariance.setter
    def covariance(self, v):
        self._cov = np.array(v)

    @property
    def rig_instance_id(self):
        return self.rig_instance.id

    @property
    def rig_camera_id(self):
        return self.rig_camera.id

    def set_rig(self, ri, rc):
        self.rig_instance = ri
        self.rig_camera = rc

    def _single(self):
        return len(self.rig_instance.shots) == 1 and _identity(self.rig_camera.pose)

    @property
    def pose(self):
        if self._single():
            return self.rig_instance.pose
        return _Frozen(self.rig_camera.pose.compose(self.rig_instance.pose))

    @pose.setter
    def pose(self, p):
        if not self._single():
            raise RuntimeError("Can't set the pose of Shot belonging to a RigInstance")
        self.rig_instance.pose = p

    @property
    def metadata(self):
        return self._meas

    @metadata.setter
    def metadata(self, m):
        self._meas.set(m)

    def get_observation(self, feature):
        return self._obs[self._feat[feature]]

    def get_valid_landmarks(self):
        return sorted(self._obs, key=lambda l: l.id)

    def remove_observation(self, feature):
        if feature not in self._feat:
            raise RuntimeError("Can't find Feature ID in Shot")
        lm = self._feat.pop(feature)
        self._obs.pop(lm, None)

    def get_landmark_observation(self, lm):
        return self._obs[lm]

    def get_observation_landmark(self, feature):
        return self._feat.get(feature)

    def project(self, p):
        return self._camera.project(self.pose.transform(p))

    def project_many(self, ps):
        return np.array([self.project(p) for p in ps]).reshape(-1, 2)

    def bearing(self, p):
        return self.pose.get_R_cam_to_world().dot(self._camera.pixel_bearing(p))

    def bearing_many(self, ps):
        return np.array([self.bearing(p) for p in ps]).reshape(-1, 3)


class Landmark:
    def __init__(self, id, coordinates):
        _str(id)
        self.id = id
        self._x = np.array(coordinates)
        self._color = np.array([255, 0, 0])
        self.reprojection_errors = {}
        self._obs = {}

    @property
    def coordinates(self):
        return np.array(self._x)

    @coordinates.setter
    def coordinates(self, v):
        v = np.array(v)
        if v.size != 3:
            raise TypeError("3-vector expected")
        self._x = v.reshape(3)

    @property
    def color(self):
        return np.array(self._color)

    @color.setter
    def color(self, v):
        v = np.array(v)
        if v.size != 3:
            raise TypeError("3-vector expected")
        self._color = v.reshape(3)

    def get_observations(self):
        return dict(self._obs)

    def number_of_observations(self):
        return len(self._obs)


class GroundControlPointObservation:
    def __init__(self, shot_id="", projection=(0.0, 0.0)):
        self.shot_id = shot_id
        self.projection = np.array(projection)
        self.uid = 0


class GroundControlPointRole(enum.Enum):
    OPTIMIZATION = 0
    METRICS_ONLY = 1


OPTIMIZATION = GroundControlPointRole.OPTIMIZATION
METRICS_ONLY = GroundControlPointRole.METRICS_ONLY


class GroundControlPoint:
    def __init__(self):
        self.id = ""
        self.survey_point_id = 0
        self.has_altitude = False
        self._lla = {}
        self.role = GroundControlPointRole.OPTIMIZATION
        self._obs = []

    @property
    def lla(self):
        return dict(self._lla)

    @lla.setter
    def lla(self, v):
        for x in v.values():
            if x is None:
                raise TypeError("number expected")
        self._lla = dict(v)

    @property
    def lla_vec(self):
        return np.array([self._lla["latitude"], self._lla["longitude"],
                         self._lla["altitude"] if self.has_altitude else 0.0])

    @property
    def observations(self):
        return list(self._obs)

    @observations.setter
    def observations(self, v):
        self._obs = list(v)

    def add_observation(self, o):
        self._obs.append(o)


class Map:
    def __init__(self):
        self._cams = {}
        self._bias = {}
        self._rcs = {}
        self._ris = {}
        self._shots = {}
        self._panos = {}
        self._lms = {}
        self._ref = pygeo.TopocentricConverter()

    @staticmethod
    def deep_copy(m, copy_observations):
        r = Map()
        r._ref = m._ref
        for c in m._cams.values():
            r.create_camera(c)
        for k, rc in m._rcs.items():
            r.create_rig_camera(rc)
        for k, ri in m._ris.items():
            r.create_rig_instance(k).pose = ri.pose
        for src, pano in ((m._shots, False), (m._panos, True)):
            for k, s in src.items():
                f = r.create_pano_shot if pano else r.create_shot
                n = f(k, s.camera.id, s.rig_camera_id, s.rig_instance_id, s.pose)
                _assign(n, s)
                r._ris[s.rig_instance_id].pose = s.rig_instance.pose
        for k, l in m._lms.items():
            r.create_landmark(k, l.coordinates).color = l.color
        if copy_observations:
            for k, s in m._shots.items():
                for l, o in s._obs.items():
                    r.add_observation(k, l.id, o)
        for k, b in m._bias.items():
            r.set_bias(k, b)
        return r

    def create_camera(self, camera):
        if camera.id not in self._cams:
            self._cams[camera.id] = camera.copy()
            self._bias[camera.id] = pygeometry.Similarity(np.zeros(3), np.zeros(3), 1.0)
        return self._cams[camera.id]

    def get_camera(self, id):
        return _get(self._cams, id, "CameraId")

    def set_bias(self, id, b):
        _get(self._bias, id, "CameraId")
        n = pygeometry.Similarity(np.zeros(3), np.zeros(3), 1.0)
        n.R, n.translation, n.scale = np.array(b.R), np.array(b.translation), b.scale
        self._bias[id] = n

    def get_bias(self, id):
        return _get(self._bias, id, "CameraId")

    def create_rig_camera(self, rc):
        if rc.id in self._rcs:
            raise RuntimeError("RigCamera already exists")
        self._rcs[rc.id] = RigCamera(rc.pose, rc.id)
        return self._rcs[rc.id]

    def create_rig_instance(self, id):
        if id in self._ris:
            raise RuntimeError("RigInstance already exists")
        self._ris[id] = RigInstance(id)
        return self._ris[id]

    def update_rig_instance(self, ri):
        mine = _get(self._ris, ri.id, "RigInstance")
        mine._pose = ri.pose.copy()
        mine.shots = dict(ri.shots)
        mine.rig_cameras = dict(ri.rig_cameras)
        return mine

    def remove_rig_instance(self, id):
        _get(self._ris, id, "RigInstance")
        del self._ris[id]

    def create_landmark(self, lm_id, global_position):
        if lm_id in self._lms:
            raise RuntimeError("Landmark already exists")
        self._lms[lm_id] = Landmark(lm_id, np.array(global_position).reshape(3))
        return self._lms[lm_id]

    def remove_landmark(self, lm):
        id = lm.id if isinstance(lm, Landmark) else lm
        l = _get(self._lms, id, "LandmarkId")
        for s, f in l._obs.items():
            s.remove_observation(f)
        del self._lms[id]

    def has_landmark(self, id):
        return id in self._lms

    def get_landmark(self, id):
        return _get(self._lms, id, "LandmarkId")

    def clear_observations_and_landmarks(self):
        for l in self._lms.values():
            for s, f in l._obs.items():
                s.remove_observation(f)
            l._obs = {}
        self._lms.clear()

    def clean_landmarks_below_min_observations(self, n):
        for k in list(self._lms):
            if len(self._lms[k]._obs) < n:
                self.remove_landmark(k)

    def create_shot(self, shot_id, camera_id, rig_camera_id, rig_instance_id, pose=None):
        return self._create(self._shots, shot_id, camera_id, rig_camera_id, rig_instance_id, pose)

    def create_pano_shot(self, shot_id, camera_id, rig_camera_id, rig_instance_id, pose):
        return self._create(self._panos, shot_id, camera_id, rig_camera_id, rig_instance_id, pose)

    def _create(self, where, shot_id, camera_id, rig_camera_id, rig_instance_id, pose):
        _str(shot_id)
        if shot_id in where:
            raise RuntimeError("Shot already exists")
        s = Shot._in_map(shot_id, self.get_camera(camera_id), _get(self._ris, rig_instance_id, "RigInstance"),
                         _get(self._rcs, rig_camera_id, "RigCameraID"), pose)
        where[shot_id] = s
        return s

    def remove_shot(self, id):
        self._remove(self._shots, id)

    def remove_pano_shot(self, id):
        self._remove(self._panos, id)

    def _remove(self, where, id):
        s = _get(where, id, "ShotID")
        s.rig_instance.remove_shot(id)
        for l in s._obs:
            l._obs.pop(s, None)
            l.reprojection_errors = {k: v for k, v in l.reprojection_errors.items() if k != id}
        del where[id]

    def get_shot(self, id):
        return _get(self._shots, id, "ShotID")

    def get_pano_shot(self, id):
        return _get(self._panos, id, "PanoShotID")

    def update_shot(self, o):
        return self._update(self._shots, o, self.create_shot)

    def update_pano_shot(self, o):
        return self._update(self._panos, o, self.create_pano_shot)

    def _update(self, where, o, create):
        s = _get(where, o.id, "ShotID")
        ri = o.rig_instance
        if ri.id not in self._ris:
            self.create_rig_instance(ri.id)
        for k, x in ri.shots.items():
            if x.camera.id not in self._cams:
                self.create_camera(x.camera)
            if x.rig_camera_id not in self._rcs:
                self.create_rig_camera(x.rig_camera)
            if k not in where:
                _assign(create(k, x.camera.id, x.rig_camera_id, ri.id, x.pose), x)
        self._ris[ri.id].update_instance_pose_with_shot(o.id, o.pose)
        _assign(s, o)
        return s

    def add_observation(self, shot, landmark, observation):
        if not isinstance(shot, Shot):
            shot = self.get_shot(shot)
        if not isinstance(landmark, Landmark):
            landmark = self.get_landmark(landmark)
        landmark._obs.setdefault(shot, observation.id)
        shot._obs.setdefault(landmark, observation.copy())
        shot._feat.setdefault(observation.id, landmark)

    def remove_observation(self, shot, landmark):
        s, l = self.get_shot(shot), self.get_landmark(landmark)
        if s not in l._obs:
            raise RuntimeError("Accessing with invalid shot ptr!")
        s.remove_observation(l._obs[s])
        l._obs.pop(s)
        l.reprojection_errors = {k: v for k, v in l.reprojection_errors.items() if k != shot}

    def get_shots(self):
        return ShotView(self)

    def get_pano_shots(self):
        return PanoShotView(self)

    def get_cameras(self):
        return CameraView(self)

    get_camera_view = get_cameras

    def get_biases(self):
        return BiasView(self)

    def get_landmarks(self):
        return LandmarkView(self)

    get_landmark_view = get_landmarks

    def set_reference(self, lat, lon, alt):
        self._ref = pygeo.TopocentricConverter(lat, lon, alt)

    def get_reference(self):
        return self._ref

    def to_tracks_manager(self):
        tm = TracksManager()
        for src in (self._shots, self._panos):
            for k, s in src.items():
                for l, o in s._obs.items():
                    tm.add_observation(k, l.id, o)
        return tm

    def get_valid_observations(self, tm):
        out = {}
        for s in tm.get_shot_ids():
            if s in self._shots:
                out[s] = {t: o for t, o in tm.get_shot_observations(s).items() if t in self._lms}
        return out

    def compute_reprojection_errors(self, tm, kind):
        out = {}
        for s, obs in self.get_valid_observations(tm).items():
            out[s] = {}
            for t, o in obs.items():
                x = self._lms[t].coordinates
                if kind == ErrorType.Angular:
                    d = x - self._shots[s].pose.get_origin()
                    d = d / np.linalg.norm(d)
                    a = np.arccos(d.dot(self._shots[s].bearing(o.point)))
                    out[s][t] = np.array([a, a])
                else:
                    e = o.point - self._shots[s].project(x)
                    out[s][t] = e / o.scale if kind == ErrorType.Normalized else e
        return out


def _assign(to, o):
    to.merge_cc = o.merge_cc
    to.scale = o.scale
    to.metadata = o.metadata
    if o._cov is not None:
        to.covariance = o._cov


def _get(d, k, what):
    if k not in d:
        raise RuntimeError("Accessing invalid %s %s" % (what, k))
    return d[k]


class _View:
    def __init__(self, m):
        self._m = m

    def _d(self):
        return getattr(self._m, self._where)

    def __len__(self):
        return len(self._d())

    def items(self):
        return iter(list(self._d().items()))

    def values(self):
        return iter(list(self._d().values()))

    def keys(self):
        return iter(list(self._d()))

    def __iter__(self):
        return iter(list(self._d()))

    def get(self, k):
        return _get(self._d(), k, "id")

    __getitem__ = get

    def __contains__(self, k):
        return k in self._d()


def _view(name, where):
    return type(name, (_View,), {"_where": where})


ShotView = _view("ShotView", "_shots")
PanoShotView = _view("PanoShotView", "_panos")
LandmarkView = _view("LandmarkView", "_lms")
CameraView = _view("CameraView", "_cams")
BiasView = _view("BiasView", "_bias")
RigCameraView = _view("RigCameraView", "_rcs")
RigInstanceView = _view("RigInstanceView", "_ris")
# the native view iterates over pairs
RigInstanceView.__iter__ = lambda self: self.items()


def __getattr__(name):
    from engine.models import empty

    return empty.__getattr__(name)
