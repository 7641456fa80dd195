// Alignment of reconstructions, built by a list of operations.
#include "driver.h"

#include <bundle/reconstruction_alignment.h>

#include "recorder.h"

static std::string id(In& in) { return std::string(1, static_cast<char>('A' + in.integer())); }

DRIVER(align) {
  ReconstructionAlignment ra;
  std::vector<std::string> shots, reconstructions;
  record = &out;
  ceres::on_solve = optimise;
  moving = in.integer();
  double v[8];
  const auto read = [&](int n) {
    for (int i = 0; i < n; ++i) v[i] = in.next();
  };
  while (const int op = in.integer()) {
    const auto a = id(in);
    if (op == 1) {
      read(6);
      ra.AddShot(a, v[0], v[1], v[2], v[3], v[4], v[5], in.integer());
      shots.push_back(a);
    } else if (op == 2) {
      read(7);
      ra.AddReconstruction(a, v[0], v[1], v[2], v[3], v[4], v[5], v[6], in.integer());
      reconstructions.push_back(a);
    } else if (op == 3) {
      const auto b = id(in);
      read(6);
      const bool set = in.integer();
      RARelativeMotionConstraint c(a, b, set ? 0 : v[0], set ? 0 : v[1], set ? 0 : v[2], set ? 0 : v[3], set ? 0 : v[4], set ? 0 : v[5]);
      if (set) {
        c.SetRX(v[0]);
        c.SetRY(v[1]);
        c.SetRZ(v[2]);
        c.SetTX(v[3]);
        c.SetTY(v[4]);
        c.SetTZ(v[5]);
      }
      if (in.integer())
        for (int i = 0; i < 6; ++i)
          for (int j = 0; j < 6; ++j) c.SetScaleMatrix(i, j, in.next());
      ra.AddRelativeMotionConstraint(c);
    } else if (op == 4) {
      read(4);
      ra.AddAbsolutePositionConstraint(a, v[0], v[1], v[2], v[3]);
    } else if (op == 5) {
      const auto b = id(in);
      read(4);
      ra.AddRelativeAbsolutePositionConstraint(a, b, v[0], v[1], v[2], v[3]);
    } else if (op == 6) {
      const auto b = id(in);
      read(7);
      ra.AddCommonPointConstraint(a, v[0], v[1], v[2], b, v[3], v[4], v[5], v[6]);
    } else if (op == 7) {
      const auto sa = id(in), b = id(in), sb = id(in);
      read(2);
      ra.AddCommonCameraConstraint(a, sa, b, sb, v[0], v[1]);
    }
  }
  ra.Run();
  for (const auto& i : shots) {
    auto s = ra.GetShot(i);
    out.put(s.GetRX());
    out.put(s.GetRY());
    out.put(s.GetRZ());
    out.put(s.GetTX());
    out.put(s.GetTY());
    out.put(s.GetTZ());
  }
  for (const auto& i : reconstructions) {
    auto r = ra.GetReconstruction(i);
    out.put(r.GetRX());
    out.put(r.GetRY());
    out.put(r.GetRZ());
    out.put(r.GetTX());
    out.put(r.GetTY());
    out.put(r.GetTZ());
    out.put(r.GetScale());
  }
}
