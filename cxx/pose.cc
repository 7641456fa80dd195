// Poses and similarities.
#include "driver.h"

#include <geometry/pose.h>
#include <geometry/similarity.h>

using geometry::Pose;
using geometry::Similarity;

static Vec3d vec(In& in) {
  const double x = in.next(), y = in.next(), z = in.next();
  return Vec3d(x, y, z);
}
static Mat3d mat(In& in) {
  Mat3d m;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) m(i, j) = in.next();
  return m;
}
static Mat4d mat4(In& in) {
  const Mat3d R = mat(in);
  const Vec3d t = vec(in);
  Mat4d m = Mat4d::Identity();
  m.block<3, 3>(0, 0) = R;
  m.block<3, 1>(0, 3) = t;
  return m;
}
static Pose pose(In& in) {
  const Mat3d R = mat(in);
  const Vec3d t = vec(in);
  return Pose(R, t);
}
static void put(Out& out, const Pose& p) {
  out.matrix(p.WorldToCamera());
  out.matrix(p.CameraToWorld());
  out.matrix(p.WorldToCameraRt());
  out.matrix(p.CameraToWorldRt());
  out.matrix(p.RotationWorldToCamera());
  out.matrix(p.RotationCameraToWorld());
  out.matrix(p.TranslationWorldToCamera());
  out.matrix(p.TranslationCameraToWorld());
  out.matrix(p.GetOrigin());
  out.matrix(p.RotationWorldToCameraMin());
  out.matrix(p.RotationCameraToWorldMin());
}
static void change(Pose& p, In& in) {
  const int op = in.integer();
  if (op == 1) {
    const Vec3d r = vec(in);
    p = Pose(r, vec(in));
  } else if (op == 2) {
    p.SetFromWorldToCamera(mat4(in));
  } else if (op == 3) {
    const Mat3d R = mat(in);
    p.SetFromWorldToCamera(R, vec(in));
  } else if (op == 4) {
    const Vec3d r = vec(in);
    p.SetFromWorldToCamera(r, vec(in));
  } else if (op == 5) {
    p.SetFromCameraToWorld(mat4(in));
  } else if (op == 6) {
    const Mat3d R = mat(in);
    p.SetFromCameraToWorld(R, vec(in));
  } else if (op == 7) {
    const Vec3d r = vec(in);
    p.SetFromCameraToWorld(r, vec(in));
  } else if (op == 8) {
    p.SetWorldToCamRotation(vec(in));
  } else if (op == 9) {
    p.SetWorldToCamRotationMatrix(mat(in));
  } else if (op == 10) {
    p.SetWorldToCamTranslation(vec(in));
  } else if (op == 11) {
    p.SetOrigin(vec(in));
  } else if (op == 12) {
    p = p.Compose(pose(in));
  } else if (op == 13) {
    p = p.RelativeTo(pose(in));
  } else if (op == 14) {
    p = p.Inverse();
  } else if (op == 15) {
    p = Pose(mat(in));
  } else if (op == 16) {
    p = Pose(vec(in));
  } else if (op == 17) {
    p = Pose();
  } else if (op == 18) {
    p = geometry::PoseImmutable(p);
  }
}
DRIVER(pose_ops) {
  Pose p = pose(in);
  const int n = in.integer();
  for (int i = 0; i < n; ++i) change(p, in);
  put(out, p);
}
DRIVER(pose_points) {
  const Pose p = pose(in);
  const int n = in.integer();
  MatX3d pts(n, 3);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < 3; ++j) pts(i, j) = in.next();
  for (int i = 0; i < n; ++i) out.matrix(p.TransformWorldToCamera(pts.row(i).transpose()));
  for (int i = 0; i < n; ++i) out.matrix(p.TransformCameraToWorld(pts.row(i).transpose()));
  out.matrix(p.TransformWorldToCameraMany(pts));
  out.matrix(p.TransformCameraToWorldMany(pts));
}
DRIVER(pose_flags) {
  const Pose p = pose(in);
  const double eps = in.next();
  out.put(p.IsIdentity(eps));
  out.put(p.IsValid());
}
DRIVER(pose_locked) {
  Pose q = pose(in);
  geometry::PoseImmutable p(q);
  In copy = in;
  int thrown = 0;
  Pose& base = p;
  for (int op = 2; op <= 11; ++op) {
    In again = in;
    const Mat4d m = mat4(again);
    again = in;
    const Mat3d R = mat(again);
    const Vec3d t = vec(again);
    try {
      if (op == 2) base.SetFromWorldToCamera(m);
      if (op == 3) base.SetFromWorldToCamera(R, t);
      if (op == 4) base.SetFromWorldToCamera(t, t);
      if (op == 5) base.SetFromCameraToWorld(m);
      if (op == 6) base.SetFromCameraToWorld(R, t);
      if (op == 7) base.SetFromCameraToWorld(t, t);
      if (op == 8) base.SetWorldToCamRotation(t);
      if (op == 9) base.SetWorldToCamRotationMatrix(R);
      if (op == 10) base.SetWorldToCamTranslation(t);
      if (op == 11) base.SetOrigin(t);
    } catch (const std::runtime_error&) {
      ++thrown;
    }
  }
  out.put(thrown);
  put(out, p);
}
DRIVER(vector_matrix) { out.matrix(geometry::VectorToRotationMatrix(vec(in))); }
DRIVER(matrix_vector) { out.matrix(geometry::RotationMatrixToVector(mat(in))); }

static void put(Out& out, const Similarity& s) {
  out.matrix(s.RotationMatrix());
  out.matrix(s.Translation());
  out.put(s.Scale());
  out.matrix(s.Rotation());
}
DRIVER(similarity_ops) {
  const Mat3d R = mat(in);
  const Vec3d t = vec(in);
  Similarity s(R, t, in.next());
  const int n = in.integer();
  for (int i = 0; i < n; ++i) {
    const int op = in.integer();
    if (op == 1) s.SetTranslation(vec(in));
    if (op == 2) s.SetRotation(vec(in));
    if (op == 3) s.SetScale(in.next());
    if (op == 4) s = s.Inverse();
    if (op == 5) {
      const Vec3d r = vec(in);
      const Vec3d q = vec(in);
      s = Similarity(r, q, in.next());
    }
  }
  put(out, s);
  out.put(s.IsValid());
  out.matrix(s.Transform(vec(in)));
}
