// Bundle adjustment problems, built by a list of operations.
#include "cameras.h"

#include <bundle/bundle_adjuster.h>
#include "recorder.h"

static std::string id(In& in) { return std::string(1, static_cast<char>('A' + in.integer())); }
static Vec3d vec(In& in) { return values(in, 3); }
static MatXd mat(In& in, int n) {
  MatXd m(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) m(i, j) = in.next();
  return m;
}
// rotation vector and origin, from camera to world
static geometry::Pose pose(In& in) {
  geometry::Pose p;
  const Vec3d r = vec(in);
  p.SetFromCameraToWorld(r, vec(in));
  return p;
}
static const char* LOSSES[] = {"None", "TrivialLoss", "HuberLoss", "SoftLOneLoss", "CauchyLoss", "ArctanLoss", "NoSuchLoss"};

static void put(Out& out, const geometry::Pose& p) {
  out.matrix(p.RotationCameraToWorldMin());
  out.matrix(p.GetOrigin());
}

DRIVER(adjust) {
  bundle::BundleAdjuster ba;
  std::vector<std::string> cameras, rig_cameras, instances, points, reconstructions;
  record = &out;
  ceres::on_solve = optimise;
  derivatives = in.integer();
  moving = in.integer();
  while (const int op = in.integer()) {
    if (op == 1) {
      const auto i = id(in);
      const auto value = make(in);
      const auto prior = make(in);
      ba.AddCamera(i, value, prior, in.integer());
      cameras.push_back(i);
    } else if (op == 2) {
      const auto i = id(in);
      const auto value = pose(in);
      const auto prior = pose(in);
      ba.AddRigCamera(i, value, prior, in.integer());
      rig_cameras.push_back(i);
    } else if (op == 3) {
      const auto i = id(in);
      const auto value = pose(in);
      std::unordered_map<std::string, std::string> cam, rig;
      const int n = in.integer();
      for (int k = 0; k < n; ++k) {
        const auto shot = id(in);
        cam[shot] = id(in);
        rig[shot] = id(in);
      }
      ba.AddRigInstance(i, value, cam, rig, in.integer());
      instances.push_back(i);
    } else if (op == 4) {
      const auto i = id(in);
      const Vec3d x = vec(in);
      ba.AddPoint(i, x, in.integer());
      points.push_back(i);
    } else if (op == 5) {
      const auto i = id(in);
      const Vec3d x = vec(in);
      const Vec3d s = vec(in);
      ba.AddPointPrior(i, x, s, in.integer());
    } else if (op == 6) {
      const auto i = id(in);
      const Vec3d x = vec(in);
      const Vec3d s = vec(in);
      ba.AddRigInstancePositionPrior(i, x, s, id(in));
    } else if (op == 7) {
      const auto s = id(in), p = id(in);
      const Vec2d x = values(in, 2);
      const double sd = in.next();
      if (in.integer()) {
        const double d = in.next();
        const bool radial = in.integer();
        ba.AddPointProjectionObservation(s, p, x, sd, map::Depth(d, radial, in.next()));
      } else {
        ba.AddPointProjectionObservation(s, p, x, sd);
      }
    } else if (op == 8) {
      const auto i = id(in), j = id(in);
      const Vec3d r = vec(in), t = vec(in);
      const double s = in.next(), m = in.next();
      bundle::RelativeMotion rm(i, j, r, t, s, m, in.integer());
      if (in.integer()) rm.SetScaleMatrix(mat(in, 7));
      ba.AddRelativeMotion(rm);
    } else if (op == 9) {
      const auto i = id(in), j = id(in);
      bundle::RelativeRotation rr(i, j, vec(in));
      if (in.integer()) rr.SetScaleMatrix(mat(in, 3));
      ba.AddRelativeRotation(rr);
    } else if (op == 10) {
      const auto i = id(in), j = id(in);
      const double m = in.next();
      ba.AddCommonPosition(i, j, m, in.next());
    } else if (op == 11) {
      const auto i = id(in);
      const Vec3d v = vec(in);
      ba.AddAbsoluteUpVector(i, v, in.next());
    } else if (op >= 12 && op <= 14) {
      const auto i = id(in);
      const double a = in.next(), s = in.next();
      if (op == 12) ba.AddAbsolutePan(i, a, s);
      if (op == 13) ba.AddAbsoluteTilt(i, a, s);
      if (op == 14) ba.AddAbsoluteRoll(i, a, s);
    } else if (op == 15) {
      const auto i = id(in), j = id(in), k = id(in);
      const double a = in.next(), p = in.next();
      ba.AddLinearMotion(i, j, k, a, p, in.next());
    } else if (op == 16) {
      const auto i = id(in);
      ba.SetGaugeFixShots(i, id(in));
    } else if (op == 17) {
      const auto i = id(in);
      ba.AddReconstruction(i, in.integer());
      reconstructions.push_back(i);
    } else if (op == 18) {
      const auto r = id(in);
      const double s = in.next();
      ba.AddReconstructionInstance(r, s, id(in));
    } else if (op == 19) {
      const auto r = id(in);
      ba.SetScaleSharing(r, in.integer());
    } else if (op == 20) {
      const auto i = id(in);
      const Vec3d r = vec(in), t = vec(in);
      ba.SetCameraBias(i, geometry::Similarity(r, t, in.next()));
    } else if (op == 21) {
      const VecXd s = values(in, 9);
      ba.SetInternalParametersPriorSD(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8]);
    } else if (op == 22) {
      const double t = in.next();
      ba.SetRigParametersPriorSD(t, in.next());
    } else if (op == 23) {
      const int k = in.integer();
      ba.SetPointProjectionLossFunction(LOSSES[k], in.next());
    } else if (op == 24) {
      const int k = in.integer();
      ba.SetRelativeMotionLossFunction(LOSSES[k], in.next());
    } else if (op == 25) {
      ba.SetUseAnalyticDerivatives(in.integer());
    } else if (op == 26) {
      ba.SetAdjustAbsolutePositionStd(in.integer());
    } else if (op == 27) {
      ba.SetMaxNumIterations(in.integer());
      ba.SetNumThreads(in.integer());
    } else if (op == 29) {
      const auto i = id(in);
      const int n = in.integer(), width = in.integer();
      const VecXd h = values(in, n);
      ba.AddHeatmap(i, std::vector<double>(h.data(), h.data() + n), width, in.next());
    } else if (op == 30) {
      const auto s = id(in), h = id(in);
      const double x = in.next(), y = in.next();
      ba.AddAbsolutePositionHeatmap(s, h, x, y, in.next());
    } else if (op == 28) {
      ba.SetComputeReprojectionErrors(in.integer());
    }
  }
  ba.Run();
  // the results
  for (const auto& i : cameras) {
    out.matrix(ba.GetCamera(i).GetParametersValues());
    const auto b = ba.GetBias(i);
    out.matrix(b.Rotation());
    out.matrix(b.Translation());
    out.put(b.Scale());
  }
  for (const auto& i : rig_cameras) put(out, ba.GetRigCamera(i).GetValue());
  for (const auto& i : instances) put(out, ba.GetRigInstance(i).GetValue());
  for (const auto& i : points) {
    const auto p = ba.GetPoint(i);
    out.matrix(p.GetValue());
    out.put(p.reprojection_errors.size());
    for (const auto& e : p.reprojection_errors) {
      out.put(e.first[0] - 'A');
      out.put(e.second.size());
      out.matrix(e.second);
    }
  }
  for (const auto& i : reconstructions) {
    const auto r = ba.GetReconstruction(i);
    out.put(r.scales.size());
    for (const auto& s : r.scales) {
      out.put(s.first[0] - 'A');
      out.put(r.GetScale(s.first));
    }
  }
}
