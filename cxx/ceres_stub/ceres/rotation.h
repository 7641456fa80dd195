#pragma once
// Keeps the conversions of rotations apart from their callers (symbolic runs).
namespace ceres {
template <typename T>
__attribute__((noinline)) void AngleAxisToQuaternion(const T* angle_axis, T* quaternion);
template <typename T>
__attribute__((noinline)) void QuaternionToAngleAxis(const T* quaternion, T* angle_axis);
template <typename T>
__attribute__((noinline)) void AngleAxisRotatePoint(const T angle_axis[3], const T pt[3], T result[3]);
}  // namespace ceres
#include_next <ceres/rotation.h>
