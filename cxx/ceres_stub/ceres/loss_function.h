#pragma once
#include <ceres/types.h>
namespace ceres {
class LossFunction {
 public:
  LossFunction(int k, double v) : kind(k), a(v) {}
  virtual ~LossFunction() {}
  int kind;
  double a;
};
#define LOSS(name, k)                        \
  struct name : LossFunction {               \
    explicit name(double v) : LossFunction(k, v) {} \
  };
struct TrivialLoss : LossFunction {
  TrivialLoss() : LossFunction(1, 0.0) {}
};
LOSS(HuberLoss, 2)
LOSS(SoftLOneLoss, 3)
LOSS(CauchyLoss, 4)
LOSS(ArctanLoss, 5)
LOSS(TukeyLoss, 6)
#undef LOSS
}  // namespace ceres
