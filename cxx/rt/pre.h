// Keeps the conversions of rotations apart from their callers (symbolic runs).
#pragma once
#include <foundation/types.h>
namespace geometry {
__attribute__((noinline)) inline Mat3d VectorToRotationMatrix(const Vec3d& r);
__attribute__((noinline)) inline Vec3d RotationMatrixToVector(const Mat3d& R);
}  // namespace geometry
