// Stand-in for the optimiser: cost functions are called without derivatives
// by automatic differentiation, and a problem records what it is given.
#pragma once
#include <cstdint>
#include <memory>
#include <utility>
#include <vector>
namespace ceres {
class CostFunction {
 public:
  CostFunction() : num_residuals_(0) {}
  virtual ~CostFunction() {}
  virtual bool Evaluate(double const* const* parameters, double* residuals, double** jacobians) const = 0;
  const std::vector<int32_t>& parameter_block_sizes() const { return sizes_; }
  int num_residuals() const { return num_residuals_; }
  bool automatic = false;

 protected:
  std::vector<int32_t>* mutable_parameter_block_sizes() { return &sizes_; }
  void set_num_residuals(int n) { num_residuals_ = n; }

 private:
  std::vector<int32_t> sizes_;
  int num_residuals_;
};
}  // namespace ceres
