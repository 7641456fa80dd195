// Triangulation.  The singular value decomposition is a stand-in: it reports
// the matrix it is given and answers with the vector it is told to.
#include "driver.h"

#include <ceres/cost_function.h>
#include <ceres/rotation.h>
#include <ceres/tiny_solver.h>
#include <ceres/tiny_solver_cost_function_adapter.h>
#include <foundation/types.h>
#include <geometry/transformations_functions.h>
#include <geometry/triangulation.h>

#include <Eigen/SVD>
#include <cmath>

static Out* decomposed = nullptr;
static double answer[4];

namespace Eigen {
template <class M>
struct Decomposition {
  Decomposition(const M& m, unsigned) { compute(m); }
  Decomposition() {}
  Decomposition& compute(const M& m, unsigned = 0) {
    decomposed->put(m.rows());
    decomposed->put(m.cols());
    decomposed->matrix(m);
    v.setZero(4, 4);
    for (int i = 0; i < 4; ++i) v(i, 3) = answer[i];
    return *this;
  }
  const MatrixXd& matrixV() const { return v; }
  MatrixXd v;
};
}  // namespace Eigen

#define JacobiSVD Decomposition
#define BDCSVD Decomposition
#include <geometry/src/triangulation.cc>
#undef JacobiSVD
#undef BDCSVD

static Vec3d vec3(In& in) {
  Vec3d v;
  for (int i = 0; i < 3; ++i) v(i) = in.next();
  return v;
}
static MatX3d rows(In& in, int n) {
  MatX3d m(n, 3);
  for (int i = 0; i < n; ++i) m.row(i) = vec3(in).transpose();
  return m;
}
static Mat3d mat3(In& in) {
  Mat3d m;
  for (int i = 0; i < 3; ++i) m.row(i) = vec3(in).transpose();
  return m;
}
static void put(Out& out, const std::pair<bool, Vec3d>& r) {
  out.put(r.first);
  if (r.first) out.matrix(r.second);
}

DRIVER(angle) {
  const Vec3d u = vec3(in), v = vec3(in);
  out.put(geometry::AngleBetweenVectors(u, v));
}
DRIVER(solve) {
  const int n = in.integer();
  const MatX3d c = rows(in, n), b = rows(in, n);
  const Vec3d x = geometry::TriangulateBearingsMidpointSolve<double>(c, b);
  out.matrix(x);
}
DRIVER(midpoint) {
  const int n = in.integer();
  const MatX3d c = rows(in, n), b = rows(in, n);
  std::vector<double> t(in.integer());
  for (auto& x : t) x = in.next();
  const double angle = in.next(), depth = in.next();
  put(out, geometry::TriangulateBearingsMidpoint(c, b, t, angle, depth));
}
DRIVER(dlt) {
  const int n = in.integer();
  std::vector<Mat34d> Rts(n);
  for (auto& m : Rts)
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 4; ++j) m(i, j) = in.next();
  const MatX3d b = rows(in, n);
  for (double& x : answer) x = in.next();
  const double threshold = in.next(), angle = in.next(), depth = in.next();
  double* const start = out.p;
  out.put(0);
  decomposed = &out;
  const auto r = geometry::TriangulateBearingsDLT(Rts, b, threshold, angle, depth);
  *start = out.p - start - 1;
  put(out, r);
}
DRIVER(two) {
  Eigen::Matrix<double, 2, 3> c, b;
  for (int i = 0; i < 2; ++i) c.row(i) = vec3(in).transpose();
  for (int i = 0; i < 2; ++i) b.row(i) = vec3(in).transpose();
  put(out, geometry::TriangulateTwoBearingsMidpointSolve<double>(c, b));
}
DRIVER(two_many) {
  const int n = in.integer();
  const MatX3d a = rows(in, n), b = rows(in, n);
  const Mat3d R = mat3(in);
  const Vec3d t = vec3(in);
  const auto r = geometry::TriangulateTwoBearingsMidpointMany(a, b, R, t);
  out.put(r.size());
  for (const auto& x : r) put(out, x);
}
DRIVER(epipolar) {
  const int n = in.integer(), m = in.integer();
  const MatX3d a = rows(in, n), b = rows(in, m);
  const Mat3d R = mat3(in);
  const Vec3d t = vec3(in);
  const MatXd r = geometry::EpipolarAngleTwoBearingsMany(a, b, R, t);
  out.put(r.rows());
  out.put(r.cols());
  out.matrix(r);
}
DRIVER(refine) {
  const int n = in.integer();
  const MatX3d c = rows(in, n), b = rows(in, n);
  const Vec3d x = vec3(in);
  out.matrix(geometry::PointRefinement(c, b, x, in.integer()));
}
