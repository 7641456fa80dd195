// Maps, built by a list of operations.
#include <map/map.h>

#include <algorithm>

#include "cameras.h"

using map::Map;
using map::Observation;

static std::string id(char kind, int i) { return std::string(1, kind) + static_cast<char>('0' + i); }
static std::string id(char kind, In& in) { return id(kind, in.integer()); }
static int number(const std::string& s) { return s[1] - '0'; }

static Vec3d vec(In& in) {
  const double x = in.next(), y = in.next(), z = in.next();
  return Vec3d(x, y, z);
}
static geometry::Pose pose(In& in) {
  Mat3d R;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) R(i, j) = in.next();
  return geometry::Pose(R, vec(in));
}
static Observation observation(In& in) {
  Observation o;
  o.point << in.next(), in.next();
  o.scale = in.next();
  for (int i = 0; i < 3; ++i) o.color[i] = in.integer();
  o.feature_id = in.integer();
  o.segmentation_id = in.integer();
  o.instance_id = in.integer();
  return o;
}

static void apply(Map& m, In& in, int op) {
  const int a = in.integer();
  const auto shot = id('s', a), landmark = id('l', a), instance = id('i', a), rig = id('r', a), cam = id('c', a);
  if (op == 1) {
    auto c = make(in);
    c.id = cam;
    m.CreateCamera(c);
  } else if (op == 2) {
    m.CreateRigCamera(map::RigCamera(pose(in), rig));
  } else if (op == 3) {
    m.CreateRigInstance(instance);
  } else if (op == 4 || op == 5 || op == 6) {
    const auto c = id('c', in), r = id('r', in), i = id('i', in);
    const auto p = pose(in);
    if (op == 4) m.CreateShot(shot, c, r, i);
    if (op == 5) m.CreateShot(shot, c, r, i, p);
    if (op == 6) m.CreatePanoShot(shot, c, r, i, p);
  } else if (op == 7) {
    const Vec3d x = vec(in), c = vec(in);
    m.CreateLandmark(landmark, x).SetColor(c.cast<int>());
  } else if (op == 8 || op == 9) {
    const auto l = id('l', in);
    const auto o = observation(in);
    if (op == 8) {
      m.AddObservation(shot, l, o);
    } else {
      m.AddObservation(&m.GetPanoShot(shot), &m.GetLandmark(l), o);
    }
  } else if (op == 10) {
    m.RemoveObservation(shot, id('l', in));
  } else if (op == 11) {
    m.RemoveShot(shot);
  } else if (op == 12) {
    m.RemovePanoShot(shot);
  } else if (op == 13) {
    m.RemoveLandmark(landmark);
  } else if (op == 14) {
    m.RemoveLandmark(&m.GetLandmark(landmark));
  } else if (op == 15) {
    m.CleanLandmarksBelowMinObservations(a);
  } else if (op == 16) {
    m.ClearObservationsAndLandmarks();
  } else if (op == 17) {
    const auto p = pose(in);
    m.GetShot(shot).SetPose(p);
  } else if (op == 18) {
    const auto p = pose(in);
    m.GetRigInstance(instance).SetPose(p);
  } else if (op == 19) {
    const auto r = id('r', in);
    const auto p = pose(in);
    m.GetRigInstance(instance).UpdateRigCameraPose(r, p);
  } else if (op == 20) {
    const auto s = id('s', in);
    const auto p = pose(in);
    m.GetRigInstance(instance).UpdateInstancePoseWithShot(s, p);
  } else if (op == 21) {
    const auto r = vec(in), t = vec(in);
    m.SetBias(cam, geometry::Similarity(r, t, in.next()));
  } else if (op == 22) {
    const bool pano = in.integer();
    auto& s = pano ? m.GetPanoShot(shot) : m.GetShot(shot);
    s.merge_cc = in.integer();
    s.scale = in.next();
    auto& x = s.GetShotMeasurements();
    x.capture_time_.SetValue(in.next());
    x.gps_position_.SetValue(vec(in));
    x.gps_accuracy_.SetValue(in.next());
    x.compass_angle_.SetValue(in.next());
    x.compass_accuracy_.SetValue(in.next());
    x.orientation_.SetValue(in.integer());
    x.gravity_down_.SetValue(vec(in));
    x.opk_angles_.SetValue(vec(in));
    x.opk_accuracy_.SetValue(in.next());
    x.sequence_key_.SetValue(id('q', in));
    s.SetCovariance(vec(in));
  } else if (op == 23) {
    m.RemoveRigInstance(instance);
  } else if (op == 24) {
    const auto x = vec(in);
    m.SetTopocentricConverter(x[0], x[1], x[2]);
  } else if (op == 25) {
    std::map<map::ShotId, Eigen::VectorXd> e;
    for (int i = 0; i < 3; ++i) e[id('s', i)] = Eigen::VectorXd::Ones(2);
    m.GetLandmark(landmark).SetReprojectionErrors(e);
  }
}
// Operations: number of arguments first, so that a failed one can be skipped.
static void build(Map& m, In& in, std::vector<int>& failed) {
  while (const int op = in.integer()) {
    const int n = in.integer();
    In args{in.p};
    in.p += n;
    try {
      apply(m, args, op);
      failed.push_back(0);
    } catch (const std::exception&) {
      failed.push_back(1);
    }
  }
}

static void put(Out& out, const Observation& o) {
  out.matrix(o.point);
  out.put(o.scale);
  out.matrix(o.color);
  out.put(o.feature_id);
  out.put(o.segmentation_id);
  out.put(o.instance_id);
}
static void put(Out& out, const geometry::Pose& p) {
  out.matrix(p.RotationWorldToCamera());
  out.matrix(p.TranslationWorldToCamera());
}
// (Out of line: values that were never set are not even loaded.)
template <class T>
__attribute__((noinline)) static double known(const T& v, int i) {
  if constexpr (std::is_same_v<T, Vec3d>) {
    return v[i];
  } else {
    return v;
  }
}
template <class T>
static void put_optional(Out& out, const foundation::OptionalValue<T>& v, int n) {
  out.put(v.HasValue());
  for (int i = 0; i < n; ++i) out.put(v.HasValue() ? known(v.Value(), i) : 0);
}
static void dump(Out& out, Map& m, map::Shot& s, const std::string& key) {
  out.put(number(key));
  out.put(s.GetId() == key);
  const auto c = s.GetCamera();
  out.put(number(c->id));
  out.put(m.HasCamera(c->id) && &m.GetCamera(c->id) == c);
  const auto i = s.GetRigInstance();
  out.put(number(s.GetRigInstanceId()));
  const bool has = m.HasRigInstance(s.GetRigInstanceId());
  out.put(has && &m.GetRigInstance(i->id) == i && i->GetShots().count(key) && i->GetShots().at(key) == &s &&
          i->GetRigCameras().count(key) && i->GetRigCameras().at(key) == s.GetRigCamera() && i->GetShotIDs().count(key));
  out.put(number(s.GetRigCameraId()));
  out.put(m.HasRigCamera(s.GetRigCameraId()) && &m.GetRigCamera(s.GetRigCameraId()) == s.GetRigCamera());
  put(out, *s.GetPose());
  put(out, *static_cast<const map::Shot&>(s).GetPose());
  out.put(s.merge_cc);
  out.put(s.scale);
  const auto& x = s.GetShotMeasurements();
  put_optional(out, x.capture_time_, 1);
  put_optional(out, x.gps_position_, 3);
  put_optional(out, x.gps_accuracy_, 1);
  put_optional(out, x.compass_angle_, 1);
  put_optional(out, x.compass_accuracy_, 1);
  put_optional(out, x.orientation_, 1);
  put_optional(out, x.gravity_down_, 3);
  put_optional(out, x.opk_angles_, 3);
  put_optional(out, x.opk_accuracy_, 1);
  out.put(x.sequence_key_.HasValue() ? number(x.sequence_key_.Value()) : -1);
  const MatXd cov = s.GetCovariance();
  for (int k = 0; k < 3; ++k) out.put(k < cov.size() ? cov(k, 0) : 0);
  const auto& o = s.GetLandmarkObservations();
  out.put(o.size());
  out.put(s.ComputeValidLandmarks().size());
  for (const auto& x : o) {
    out.put(number(x.first->id_));
    out.put(m.HasLandmark(x.first->id_) && &m.GetLandmark(x.first->id_) == x.first &&
            s.GetObservationLandmark(x.second.feature_id) == x.first && s.GetLandmarkObservation(x.first) == &x.second);
    put(out, x.second);
    put(out, s.GetObservation(x.second.feature_id));
  }
  // Which features are known.
  for (int f = 0; f < 8; ++f) out.put(s.GetObservationLandmark(f) != nullptr);
}
static void dump(Out& out, Map& m) {
  out.put(m.NumberOfCameras());
  out.put(m.GetCameras().size());
  for (auto& c : m.GetCameras()) {
    out.put(number(c.first));
    out.put(c.second.id == c.first);
    out.put(c.second.GetParametersMap().size());
    for (const auto& v : c.second.GetParametersMap()) out.put(v.second);
    out.put(m.HasBias(c.first));
    const auto& b = m.GetBias(c.first);
    out.matrix(b.Rotation());
    out.matrix(b.Translation());
    out.put(b.Scale());
  }
  out.put(m.NumberOfBiases());
  out.put(m.NumberOfRigCameras());
  out.put(m.GetRigCameras().size());
  for (auto& r : m.GetRigCameras()) {
    out.put(number(r.first));
    out.put(r.second.id == r.first);
    put(out, r.second.pose);
  }
  out.put(m.NumberOfRigInstances());
  out.put(m.GetRigInstances().size());
  for (auto& i : m.GetRigInstances()) {
    out.put(number(i.first));
    out.put(i.second.id == i.first);
    put(out, i.second.GetPose());
    out.put(i.second.NumberOfShots() == i.second.GetShots().size() && i.second.GetRigCameras().size() == i.second.GetShots().size());
    out.put(i.second.GetShots().size());
    for (auto& s : i.second.GetShots()) {
      out.put(number(s.first));
      out.put((m.HasShot(s.first) && &m.GetShot(s.first) == s.second) || (m.HasPanoShot(s.first) && &m.GetPanoShot(s.first) == s.second));
    }
  }
  out.put(m.NumberOfShots());
  out.put(m.GetShots().size());
  for (auto& s : m.GetShots()) dump(out, m, s.second, s.first);
  out.put(m.NumberOfPanoShots());
  out.put(m.GetPanoShots().size());
  for (auto& s : m.GetPanoShots()) dump(out, m, s.second, s.first);
  out.put(m.NumberOfLandmarks());
  out.put(m.GetLandmarks().size());
  for (auto& l : m.GetLandmarks()) {
    out.put(number(l.first));
    out.put(l.second.id_ == l.first);
    out.matrix(l.second.GetGlobalPos());
    out.matrix(l.second.GetColor());
    const auto e = l.second.GetReprojectionErrors();
    for (int i = 0; i < 3; ++i) out.put(e.count(id('s', i)));
    const auto& o = l.second.GetObservations();
    out.put(l.second.NumberOfObservations());
    out.put(o.size());
    for (const auto& x : o) {
      const auto& s = x.first->id_;
      out.put(number(s));
      out.put((m.HasShot(s) && &m.GetShot(s) == x.first) || (m.HasPanoShot(s) && &m.GetPanoShot(s) == x.first));
      out.put(x.second);
      out.put(l.second.GetObservationIdInShot(x.first) == x.second);
    }
  }
  const auto& t = m.GetTopocentricConverter();
  out.put(t.lat_);
  out.put(t.long_);
  out.put(t.alt_);
}
static void put(Out& out, const std::vector<int>& failed) {
  out.put(failed.size());
  for (const int f : failed) out.put(f);
}

DRIVER(state) {
  Map m;
  std::vector<int> failed;
  build(m, in, failed);
  put(out, failed);
  dump(out, m);
}

// A copy; what is done to it leaves the original.
DRIVER(copy) {
  const bool observations = in.integer();
  Map m;
  std::vector<int> failed;
  build(m, in, failed);
  auto c = Map::DeepCopy(m, observations);
  dump(out, *c);
  build(*c, in, failed);
  put(out, failed);
  dump(out, m);
}

// Updates of a shot with that of another map.
DRIVER(update) {
  const bool pano = in.integer();
  const auto s = id('s', in);
  Map m, other;
  std::vector<int> failed;
  build(m, in, failed);
  build(other, in, failed);
  put(out, failed);
  try {
    if (pano) {
      m.UpdatePanoShot(other.GetPanoShot(s));
    } else {
      m.UpdateShot(other.GetShot(s));
    }
    out.put(1);
  } catch (const std::exception&) {
    out.put(0);
  }
  dump(out, m);
  dump(out, other);
}

static map::TracksManager tracks(In& in) {
  map::TracksManager t;
  while (in.integer()) {
    const auto s = id('s', in), l = id('l', in);
    t.AddObservation(s, l, observation(in));
  }
  return t;
}

DRIVER(errors) {
  const auto type = static_cast<Map::ErrorType>(in.integer());
  Map m;
  std::vector<int> failed;
  build(m, in, failed);
  put(out, failed);
  const auto t = tracks(in);
  const auto errors = m.ComputeReprojectionErrors(t, type);
  out.put(errors.size());
  for (const auto& s : errors) {
    out.put(number(s.first));
    out.put(s.second.size());
    for (const auto& x : s.second) {
      out.put(number(x.first));
      out.matrix(x.second);
    }
  }
  const auto valid = m.GetValidObservations(t);
  out.put(valid.size());
  for (const auto& s : valid) {
    out.put(number(s.first));
    out.put(s.second.size());
    for (const auto& x : s.second) {
      out.put(number(x.first));
      put(out, x.second);
    }
  }
  const auto all = m.ToTracksManager();
  out.put(all.NumShots());
  out.put(all.NumTracks());
  for (const auto& s : all.GetShotIds()) {
    out.put(number(s));
    const auto& o = all.GetShotObservations(s);
    out.put(o.size());
    for (const auto& x : o) {
      out.put(number(x.first));
      put(out, x.second);
    }
  }
}
