// Cameras from plain numbers.
#pragma once
#include "driver.h"

#include <geometry/camera.h>

static inline VecXd values(In& in, int n) {
  VecXd v(n);
  for (int i = 0; i < n; ++i) v[i] = in.next();
  return v;
}
// Order of the models as in ProjectionType; parameters in the order of the
// documentation: focal, aspect ratio, principal point, distortion.
static inline geometry::Camera make(In& in) {
  using geometry::Camera;
  const int model = in.integer();
  if (model == 6) return Camera::CreateSphericalCamera();
  if (model == 7) {
    const double transition = in.next(), focal = in.next(), k1 = in.next();
    return Camera::CreateDualCamera(transition, focal, k1, in.next());
  }
  const double focal = in.next();
  if (model == 0 || model == 2) {
    const double k1 = in.next();
    const double k2 = in.next();
    return model == 0 ? Camera::CreatePerspectiveCamera(focal, k1, k2) : Camera::CreateFisheyeCamera(focal, k1, k2);
  }
  const double aspect = in.next();
  const Vec2d center = values(in, 2);
  if (model == 1) return Camera::CreateBrownCamera(focal, aspect, center, values(in, 5));
  if (model == 3) return Camera::CreateFisheyeOpencvCamera(focal, aspect, center, values(in, 4));
  if (model == 4) return Camera::CreateFisheye62Camera(focal, aspect, center, values(in, 8));
  if (model == 5) return Camera::CreateFisheye624Camera(focal, aspect, center, values(in, 12));
  if (model == 8) return Camera::CreateRadialCamera(focal, aspect, center, values(in, 2));
  return Camera::CreateSimpleRadialCamera(focal, aspect, center, in.next());
}
