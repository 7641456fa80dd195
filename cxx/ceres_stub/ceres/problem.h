#pragma once
#include <ceres/cost_function.h>
#include <ceres/loss_function.h>
#include <stdexcept>
namespace ceres {
using ResidualBlockId = int;
class Problem {
 public:
  struct Block {
    double* values;
    int size;
    bool constant;
    std::vector<std::pair<int, double>> lower, upper;
  };
  struct Residual {
    CostFunction* cost;
    LossFunction* loss;
    std::vector<double*> blocks;
  };
  struct Options {};
  std::vector<Block> blocks;
  std::vector<Residual> residuals;

  Problem() {}
  explicit Problem(const Options&) {}
  Block& at(const double* p) {
    for (auto& b : blocks)
      if (b.values == p) return b;
    throw std::runtime_error("unknown parameter block");
  }
  int index(const double* p) { return static_cast<int>(&at(p) - &blocks[0]); }
  void AddParameterBlock(double* p, int n) {
    for (auto& b : blocks)
      if (b.values == p) {
        if (b.size != n) throw std::runtime_error("parameter block of another size");
        return;
      }
    blocks.push_back({p, n, false, {}, {}});
  }
  void SetParameterBlockConstant(const double* p) { at(p).constant = true; }
  void SetParameterBlockVariable(double* p) { at(p).constant = false; }
  void SetParameterLowerBound(double* p, int i, double v) { at(p).lower.push_back({i, v}); }
  void SetParameterUpperBound(double* p, int i, double v) { at(p).upper.push_back({i, v}); }
  bool HasParameterBlock(const double* p) const {
    for (auto& b : blocks)
      if (b.values == p) return true;
    return false;
  }
  ResidualBlockId AddResidualBlock(CostFunction* c, LossFunction* l, const std::vector<double*>& p) {
    const auto& sizes = c->parameter_block_sizes();
    if (sizes.size() != p.size()) throw std::runtime_error("wrong number of parameter blocks");
    for (size_t i = 0; i < p.size(); ++i) {
      AddParameterBlock(p[i], sizes[i]);
      for (size_t j = 0; j < i; ++j)
        if (p[j] == p[i]) throw std::runtime_error("repeated parameter block");
    }
    residuals.push_back({c, l, p});
    return static_cast<int>(residuals.size()) - 1;
  }
  ResidualBlockId AddResidualBlock(CostFunction* c, LossFunction* l, double* const* p, int n) {
    return AddResidualBlock(c, l, std::vector<double*>(p, p + n));
  }
  template <typename... T>
  ResidualBlockId AddResidualBlock(CostFunction* c, LossFunction* l, double* p, T*... q) {
    return AddResidualBlock(c, l, std::vector<double*>{p, q...});
  }
};
}  // namespace ceres
