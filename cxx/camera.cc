// Camera models.
#include "cameras.h"

#include <cstring>

using geometry::Camera;
using geometry::ProjectionType;

DRIVER(project) {
  const Camera c = make(in);
  const int n = in.integer();
  MatX3d p(n, 3);
  for (int i = 0; i < n; ++i) p.row(i) = values(in, 3).transpose();
  for (int i = 0; i < n; ++i) out.matrix(c.Project(p.row(i).transpose()));
  out.matrix(c.ProjectMany(p));
}
DRIVER(bearing) {
  const Camera c = make(in);
  const int n = in.integer();
  MatX2d p(n, 2);
  for (int i = 0; i < n; ++i) p.row(i) = values(in, 2).transpose();
  for (int i = 0; i < n; ++i) out.matrix(c.Bearing(p.row(i).transpose()));
  out.matrix(c.BearingsMany(p));
}
DRIVER(project_bearing) {
  const Camera c = make(in);
  const Vec2d p = c.Project(values(in, 3));
  out.matrix(p);
  out.matrix(c.Bearing(p));
}
DRIVER(wrong_distortion) {
  const VecXd d = values(in, in.integer());
  const Vec2d z = Vec2d::Zero();
  int thrown = 0;
  try { Camera::CreateBrownCamera(1, 1, z, d); } catch (const std::runtime_error&) { thrown += 1; }
  try { Camera::CreateFisheyeOpencvCamera(1, 1, z, d); } catch (const std::runtime_error&) { thrown += 2; }
  try { Camera::CreateFisheye62Camera(1, 1, z, d); } catch (const std::runtime_error&) { thrown += 4; }
  try { Camera::CreateFisheye624Camera(1, 1, z, d); } catch (const std::runtime_error&) { thrown += 8; }
  out.put(thrown);
}
DRIVER(parameters) {
  Camera c = make(in);
  const auto types = c.GetParametersTypes();
  const VecXd v = c.GetParametersValues();
  const auto all = c.GetParametersMap();
  out.put(static_cast<int>(c.GetProjectionType()));
  const std::string s = c.GetProjectionString();
  out.put(s == Camera::GetProjectionString(c.GetProjectionType()));
  out.put(s.size());
  for (const char l : s) out.put(l);
  // every parameter there may be: present, value, value of the map
  for (int i = 0; i < static_cast<int>(Camera::Parameters::None); ++i) {
    const auto p = static_cast<Camera::Parameters>(i);
    double got = -1e9, had = 0;
    try {
      got = c.GetParameterValue(p);
      had = 1;
    } catch (const std::runtime_error&) {
    }
    out.put(had);
    out.put(got);
    const auto f = all.find(p);
    out.put(f == all.end() ? -1e9 : f->second);
  }
  out.put(types.size());
  for (size_t i = 0; i < types.size(); ++i) {
    out.put(static_cast<int>(types[i]));
    out.put(v[i]);
  }
}
DRIVER(change_parameter) {
  Camera c = make(in);
  const int which = in.integer();
  const double value = in.next();
  int thrown = 0;
  try {
    c.SetParameterValue(static_cast<Camera::Parameters>(which), value);
  } catch (const std::runtime_error&) {
    thrown = 1;
  }
  out.put(thrown);
  out.matrix(c.GetParametersValues());
}
DRIVER(set_parameters) {
  Camera a = make(in);
  const Camera b = make(in);
  a.SetParametersValues(b.GetParametersValues());
  out.matrix(a.Project(values(in, 3)));
}
DRIVER(same_camera) {
  const Camera a = make(in);
  const Camera b(a.GetProjectionType(), a.GetParametersTypes(), a.GetParametersValues());
  const Vec3d p = values(in, 3);
  out.matrix(a.Project(p));
  out.matrix(b.Project(p));
}
DRIVER(matrices) {
  const Camera c = make(in);
  const int w = in.integer(), h = in.integer();
  out.matrix(c.GetProjectionMatrix());
  out.matrix(c.GetProjectionMatrixScaled(w, h));
}
DRIVER(pixels) {
  Camera c = Camera::CreateSphericalCamera();
  c.width = in.integer();
  c.height = in.integer();
  const int n = in.integer();
  MatX2d p(n, 2);
  for (int i = 0; i < n; ++i) p.row(i) = values(in, 2).transpose();
  for (int i = 0; i < n; ++i) {
    const Vec2d x = p.row(i).transpose();
    out.matrix(c.PixelToNormalizedCoordinates(x));
    out.matrix(Camera::PixelToNormalizedCoordinates(x, c.width, c.height));
    out.matrix(c.NormalizedToPixelCoordinates(x));
    out.matrix(Camera::NormalizedToPixelCoordinates(x, c.width, c.height));
  }
  out.matrix(c.PixelToNormalizedCoordinatesMany(p));
  out.matrix(Camera::PixelToNormalizedCoordinatesMany(p, c.width, c.height));
  out.matrix(c.NormalizedToPixelCoordinatesMany(p));
  out.matrix(Camera::NormalizedToPixelCoordinatesMany(p, c.width, c.height));
}
DRIVER(mapping) {
  const Camera from = make(in);
  const Camera to = make(in);
  const int w = in.integer(), h = in.integer();
  const auto m = geometry::ComputeCameraMapping(from, to, w, h);
  out.put(m.first.rows());
  out.put(m.first.cols());
  out.put(m.second.rows());
  out.put(m.second.cols());
  out.matrix(m.first);
  out.matrix(m.second);
  // where the pixels come from
  const double size = std::max(w, h);
  for (int v = 0; v < h; ++v)
    for (int u = 0; u < w; ++u)
      out.matrix(from.Project(to.Bearing(Vec2d((u - w * 0.5) / size, (v - h * 0.5) / size))));
}

// Values and derivatives as used by bundle adjustment; the parameters are
// those of the camera, then of the poses (angle axis and translation).
template <class F, int OUT>
static void derivatives(In& in, Out& out, const Camera& c, int poses, bool with_camera, bool parameters) {
  const VecXd v = c.GetParametersValues();
  const bool none = !with_camera || c.GetProjectionType() == ProjectionType::SPHERICAL;
  const int np = none ? 0 : v.size();
  std::vector<double> par;
  const VecXd point = values(in, 3);
  const VecXd pose = values(in, 6 * poses);
  for (int i = 0; i < 6 * poses; ++i) par.push_back(pose[i]);
  for (int i = 0; i < np; ++i) par.push_back(v[i]);
  par.push_back(0.0);
  const int stride = 3 + (parameters ? 6 * poses + np : 0);
  std::vector<double> jacobian(OUT * stride + 1, 0.0);
  double projected[3];
  geometry::Dispatch<F>(c.GetProjectionType(), point.data(), par.data(), projected, jacobian.data());
  for (int i = 0; i < OUT; ++i) out.put(projected[i]);
  for (int i = 0; i < OUT * stride; ++i) out.put(jacobian[i]);
}
DRIVER(jac_camera) {
  const Camera c = make(in);
  derivatives<geometry::ProjectDerivativesFunction, 2>(in, out, c, 0, true, true);
}
DRIVER(jac_pose) {
  const Camera c = make(in);
  derivatives<geometry::ProjectPoseDerivatives, 2>(in, out, c, 1, true, true);
}
DRIVER(jac_pose_point) {
  const Camera c = make(in);
  derivatives<geometry::ProjectPosePointDerivatives, 2>(in, out, c, 1, true, false);
}
DRIVER(jac_rig) {
  const Camera c = make(in);
  derivatives<geometry::ProjectRigPoseDerivatives, 2>(in, out, c, 2, true, true);
}
DRIVER(jac_normalized) {
  const Camera c = make(in);
  derivatives<geometry::PoseNormalizedDerivatives, 3>(in, out, c, 1, false, true);
}
DRIVER(jac_rig_normalized) {
  const Camera c = make(in);
  derivatives<geometry::RigPoseNormalizedDerivatives, 3>(in, out, c, 2, false, true);
}
