#pragma once
#include <ceres/autodiff_cost_function.h>
#include <ceres/covariance.h>
#include <ceres/dynamic_autodiff_cost_function.h>
#include <ceres/loss_function.h>
#include <ceres/problem.h>
#include <ceres/rotation.h>
#include <ceres/solver.h>
#include <cmath>
namespace ceres {
using std::abs;
using std::acos;
using std::asin;
using std::atan2;
using std::cos;
using std::exp;
using std::hypot;
using std::isfinite;
using std::log;
using std::max;
using std::min;
using std::pow;
using std::sin;
using std::sqrt;
using std::tan;
}  // namespace ceres
