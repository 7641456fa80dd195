#pragma once
#include <ceres/cost_function.h>
#include <ceres/types.h>
namespace ceres {
template <typename F, int Stride = 4>
class DynamicAutoDiffCostFunction : public CostFunction {
 public:
  explicit DynamicAutoDiffCostFunction(F* f, Ownership = TAKE_OWNERSHIP) : f_(f) { automatic = true; }
  explicit DynamicAutoDiffCostFunction(std::unique_ptr<F> f) : f_(std::move(f)) { automatic = true; }
  void AddParameterBlock(int n) { mutable_parameter_block_sizes()->push_back(n); }
  void SetNumResiduals(int n) { set_num_residuals(n); }
  bool Evaluate(double const* const* p, double* r, double**) const override { return (*f_)(p, r); }

 private:
  std::unique_ptr<F> f_;
};
}  // namespace ceres
