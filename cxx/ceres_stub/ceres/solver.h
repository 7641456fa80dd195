#pragma once
#include <ceres/problem.h>
#include <ceres/types.h>
#include <string>
namespace ceres {
struct Solver {
  struct Options {
    LinearSolverType linear_solver_type = SPARSE_SCHUR;
    MinimizerType minimizer_type = TRUST_REGION;
    TrustRegionStrategyType trust_region_strategy_type = LEVENBERG_MARQUARDT;
    PreconditionerType preconditioner_type = JACOBI;
    int num_threads = 1;
    int max_num_iterations = 50;
    double function_tolerance = 1e-6, gradient_tolerance = 1e-10, parameter_tolerance = 1e-8, max_solver_time_in_seconds = 1e9;
    bool minimizer_progress_to_stdout = false, use_nonmonotonic_steps = false;
  };
  struct Summary {
    TerminationType termination_type = CONVERGENCE;
    double initial_cost = 0, final_cost = 0, total_time_in_seconds = 0;
    int num_successful_steps = 0, num_unsuccessful_steps = 0;
    std::string message;
    std::string BriefReport() const { return "brief"; }
    std::string FullReport() const { return "full"; }
    bool IsSolutionUsable() const { return true; }
  };
};
using SolveHook = void (*)(const Solver::Options&, Problem*, Solver::Summary*);
inline SolveHook on_solve = nullptr;
inline void Solve(const Solver::Options& o, Problem* p, Solver::Summary* s) { on_solve(o, p, s); }
inline bool StringToLinearSolverType(std::string v, LinearSolverType* t) {
  *t = SPARSE_SCHUR;
  return v == "DENSE_NORMAL_CHOLESKY" || v == "DENSE_QR" || v == "SPARSE_NORMAL_CHOLESKY" || v == "DENSE_SCHUR" || v == "SPARSE_SCHUR" ||
         v == "ITERATIVE_SCHUR" || v == "CGNR";
}
inline bool StringToCovarianceAlgorithmType(std::string v, CovarianceAlgorithmType* t) {
  *t = SPARSE_QR;
  return v == "DENSE_SVD" || v == "SPARSE_QR";
}
class Covariance {
 public:
  struct Options {
    CovarianceAlgorithmType algorithm_type = SPARSE_QR;
    int num_threads = 1;
  };
  explicit Covariance(const Options&) {}
  bool Compute(const std::vector<std::pair<const double*, const double*>>&, Problem*) { return false; }
  bool GetCovarianceBlock(const double*, const double*, double*) const { return false; }
};
}  // namespace ceres
