// Stands in for the optimiser: records the problem it is asked to solve.
#pragma once
#include "driver.h"
#include <ceres/ceres.h>

static Out* record = nullptr;
static bool derivatives = false;
static int moving = 0;

// What the optimiser is asked for: residuals, then the parameters.
static void optimise(const ceres::Solver::Options& o, ceres::Problem* p, ceres::Solver::Summary*) {
  Out& out = *record;
  out.put(o.max_num_iterations);
  out.put(o.num_threads);
  out.put(p->residuals.size());
  for (const auto& r : p->residuals) {
    const auto& sizes = r.cost->parameter_block_sizes();
    const int n = r.cost->num_residuals();
    out.put(n);
    out.put(sizes.size());
    int total = 0;
    for (const int s : sizes) {
      out.put(s);
      total += s;
    }
    for (const double* b : r.blocks) out.put(p->index(b));
    out.put(r.loss ? r.loss->kind : 0);
    out.put(r.loss ? r.loss->a : 0.0);
    std::vector<double> v(n, -1e30);
    const bool ok = r.cost->Evaluate(r.blocks.data(), v.data(), nullptr);
    out.put(ok);
    for (const double x : v) out.put(x);
    const bool d = derivatives && !r.cost->automatic;
    out.put(d ? n * total : 0);
    if (!d) continue;
    std::vector<std::vector<double>> j;
    std::vector<double*> q;
    for (const int s : sizes) j.emplace_back(n * s, -1e30);
    for (auto& x : j) q.push_back(x.data());
    std::vector<double> w(n, -1e30);
    r.cost->Evaluate(r.blocks.data(), w.data(), q.data());
    for (const double x : w) out.put(x);
    for (const auto& x : j)
      for (const double y : x) out.put(y);
    // one block of derivatives at a time
    for (size_t k = 0; k < q.size(); ++k) {
      std::vector<double> one(j[k].size(), -1e30), u(n, -1e30);
      std::vector<double*> some(q.size(), nullptr);
      some[k] = one.data();
      r.cost->Evaluate(r.blocks.data(), u.data(), some.data());
      for (size_t l = 0; l < one.size(); ++l) out.put(one[l]);
    }
  }
  out.put(p->blocks.size());
  for (auto& b : p->blocks) {
    out.put(b.size);
    out.put(b.constant);
    out.put(b.lower.empty() ? -1 : b.lower[0].first);
    out.put(b.lower.empty() ? -1e30 : b.lower[0].second);
    out.put(b.upper.empty() ? 1e300 : b.upper[0].second);
    for (int i = 0; i < b.size; ++i) out.put(b.values[i]);
    if (moving && !b.constant)
      for (int i = b.size == 6 || b.size == 7 ? 3 : 0; i < b.size; ++i) b.values[i] += 0.25;
  }
  if (moving != 2) return;
  // the residuals at the new values
  for (const auto& r : p->residuals) {
    std::vector<double> v(r.cost->num_residuals(), -1e30);
    r.cost->Evaluate(r.blocks.data(), v.data(), nullptr);
    for (const double x : v) out.put(x);
  }
}
