#include "wire.h"
#include "waymo_open_dataset/data_conversion/scenario_conversion.h"
#include "waymo_open_dataset/dataset.pb.h"
#include "waymo_open_dataset/metrics/motion_metrics.h"
#include "waymo_open_dataset/metrics/motion_metrics_utils.h"
#include "waymo_open_dataset/protos/motion_metrics.pb.h"
#include "waymo_open_dataset/protos/motion_submission.pb.h"
#include "waymo_open_dataset/protos/scenario.pb.h"
#include "waymo_open_dataset/wdl_limited/camera/camera_model.h"
using namespace waymo::open_dataset;
OP("metrics") {  // config, n, predictions.., scenarios..
  int n = A.n(2);
  absl::flat_hash_map<std::string, ScenarioPredictions> p;
  absl::flat_hash_map<std::string, Scenario> s;
  for (int i = 0; i < n; ++i) {
    auto a = A.msg<ScenarioPredictions>(3 + i);
    auto b = A.msg<Scenario>(3 + n + i);
    p[a.scenario_id()] = a;
    s[b.scenario_id()] = b;
  }
  MotionMetrics m;
  auto st = ComputeMotionMetrics(A.msg<MotionMetricsConfig>(1), p, s, &m);
  R.n(st.ok());
  R.msg(m);
} END
static void Dump(wire::Reply& R, BucketedMetricsStats& b) {
  for (auto& [t, m] : b.stats)
    for (auto& [k, x] : m) {
      R.i({(int)t, k});
      R.d({x.min_average_displacement.total, (double)x.min_average_displacement.num_measurements, x.min_final_displacement.total,
           (double)x.min_final_displacement.num_measurements, x.miss_rate.total, (double)x.miss_rate.num_measurements, x.overlap_rate.total,
           (double)x.overlap_rate.num_measurements});
      for (auto* q : {&x.mean_average_precision, &x.soft_mean_average_precision}) {
        std::vector<double> v;
        v.push_back(q->pr_buckets.size());
        for (auto& z : q->pr_buckets) {
          v.push_back(z.num_trajectories);
          v.push_back(z.samples.size());
          for (auto& s : z.samples) { v.push_back(s.confidence); v.push_back(s.true_positive); }
        }
        R.d(v);
      }
    }
}
OP("stats") {  // config, predictions, scenario
  BucketedMetricsStats b;
  auto st = ComputeMetricsStats(A.msg<MotionMetricsConfig>(1), A.msg<ScenarioPredictions>(2), A.msg<Scenario>(3), &b);
  R.n(st.ok());
  if (st.ok()) Dump(R, b);
} END
OP("accum") {  // config, order, n, predictions, scenarios: accumulates in the given order
  auto ord = A.i(2);
  int n = A.n(3);
  BucketedMetricsStats t;
  bool ok = true;
  for (int i : ord) {
    BucketedMetricsStats b;
    ok &= ComputeMetricsStats(A.msg<MotionMetricsConfig>(1), A.msg<ScenarioPredictions>(4 + i), A.msg<Scenario>(4 + n + i), &b).ok();
    t.Accumulate(b);
  }
  R.n(ok);
  if (ok) {
    std::vector<double> v;
    for (auto& [k, x] : t.AccumulateAcrossTypes()) {
      auto y = x;
      for (double z : {(double)k, y.min_average_displacement.Mean(), y.min_final_displacement.Mean(), y.miss_rate.Mean(), y.overlap_rate.Mean(),
                       ComputeMapMetric(&y.mean_average_precision), ComputeMapMetric(&y.soft_mean_average_precision)}) v.push_back(z);
    }
    R.d(v);
    R.msg(ComputeMotionMetrics(&t));
  }
} END
OP("map") {  // conf/tp pairs, num
  PredictionStats p;
  auto v = A.d(1);
  for (size_t i = 0; i + 1 < v.size(); i += 2) p.samples.emplace_back(v[i], v[i + 1] != 0);
  p.num_trajectories = A.n(2);
  R.x(ComputeMeanAveragePrecision(&p));
} END
OP("classify") {
  auto t = ClassifyTrack(A.n(1), A.msg<Track>(2));
  R.n(t ? (int)*t : -1);
} END
OP("validate") { R.n(ValidateChallengePredictions(A.msg<ScenarioPredictions>(1), (MotionChallengeSubmission::SubmissionType)A.n(2)).ok()); } END
OP("convert") {
  ScenarioPredictions r;
  auto st = ConvertChallengePredictions(A.msg<ChallengeScenarioPredictions>(1), &r);
  R.n(st.ok());
  R.msg(r);
} END
OP("confidences") { R.f(GetNormalizedConfidences(A.msg<MultimodalPrediction>(1))); } END
OP("predpoly") {
  auto p = PredictionToPolygon(A.msg<MotionMetricsConfig>(1), A.msg<SingleTrajectory>(2), A.n(3), A.msg<Track>(4), A.n(5));
  std::vector<double> v;
  for (auto& q : p.points()) { v.push_back(q.x()); v.push_back(q.y()); }
  R.d(v);
} END
OP("challenge") { R.msg(GetChallengeConfig()); } END
OP("trackstep") { R.n(PredictionToTrackStep(A.msg<MotionMetricsConfig>(1), A.n(2))); } END
OP("avgangle") { auto d = A.d(1); R.x(AverageAngle(d[0], d[1])); } END
OP("convert_scenario") {
  std::map<std::string, int> c;
  auto e = ScenarioToExample(A.msg<Scenario>(1), A.msg<MotionExampleConversionConfig>(2), &c);
  R.n(e.ok());
  if (e.ok()) R.msg(*e);
  else R.s(std::string(e.status().message()));
} END
OP("cam") {  // calibration, image, points(3n), check, velocity(3)
  CameraModel m(A.msg<CameraCalibration>(1));
  m.PrepareProjection(A.msg<CameraImage>(2));
  auto p = A.d(3);
  auto v = A.d(5);
  std::vector<double> r;
  for (size_t i = 0; i * 3 < p.size(); ++i) {
    double u = 0, w = 0, d = 0, u2 = 0, w2 = 0, u3 = 0, w3 = 0, d3 = 0;
    bool a = m.WorldToImageWithDepth(p[3 * i], p[3 * i + 1], p[3 * i + 2], A.n(4), &u, &w, &d);
    bool b = m.WorldToImage(p[3 * i], p[3 * i + 1], p[3 * i + 2], A.n(4), &u2, &w2);
    bool c = m.WorldToImageMovingPointWithDepth(p[3 * i], p[3 * i + 1], p[3 * i + 2], v[0], v[1], v[2], A.n(4), &u3, &w3, &d3);
    for (double z : {(double)a, u, w, d, (double)b, u2, w2, (double)c, u3, w3, d3, (double)m.InImage(u, w)}) r.push_back(z);
  }
  r.push_back(m.t_pose_offset());
  R.d(r);
} END
OP("cam_back") {
  CameraModel m(A.msg<CameraCalibration>(1));
  m.PrepareProjection(A.msg<CameraImage>(2));
  auto p = A.d(3);
  std::vector<double> r;
  for (size_t i = 0; i * 3 < p.size(); ++i) {
    double x = 0, y = 0, z = 0, a = 0, b = 0, c = 0;
    m.ImageToWorld(p[3 * i], p[3 * i + 1], p[3 * i + 2], &x, &y, &z);
    m.ImageToVehicleGlobalShutter(p[3 * i], p[3 * i + 1], p[3 * i + 2], &a, &b, &c);
    for (double q : {x, y, z, a, b, c, (double)m.InImage(p[3 * i], p[3 * i + 1])}) r.push_back(q);
  }
  R.d(r);
} END
