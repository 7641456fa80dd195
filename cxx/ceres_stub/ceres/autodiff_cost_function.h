#pragma once
#include <ceres/sized_cost_function.h>
#include <ceres/types.h>
namespace ceres {
template <typename F, int R, int... Ns>
class AutoDiffCostFunction : public CostFunction {
 public:
  explicit AutoDiffCostFunction(F* f, Ownership = TAKE_OWNERSHIP) : f_(f) { init(R); }
  explicit AutoDiffCostFunction(std::unique_ptr<F> f) : f_(std::move(f)) { init(R); }
  AutoDiffCostFunction(F* f, int n, Ownership = TAKE_OWNERSHIP) : f_(f) { init(n); }
  bool Evaluate(double const* const* p, double* r, double**) const override {
    return call(p, r, std::make_index_sequence<sizeof...(Ns)>());
  }

 private:
  void init(int n) {
    automatic = true;
    set_num_residuals(n);
    *mutable_parameter_block_sizes() = std::vector<int32_t>{Ns...};
  }
  template <std::size_t... I>
  bool call(double const* const* p, double* r, std::index_sequence<I...>) const {
    return (*f_)(p[I]..., r);
  }
  std::unique_ptr<F> f_;
};
}  // namespace ceres
