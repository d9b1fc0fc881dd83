#include "wire.h"
#include "waymo_open_dataset/label.pb.h"
#include "waymo_open_dataset/metrics/breakdown_generator.h"
#include "waymo_open_dataset/metrics/config_util.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/iou.h"
#include "waymo_open_dataset/metrics/matcher.h"
#include "waymo_open_dataset/metrics/metrics_utils.h"
#include "waymo_open_dataset/metrics/motion_metrics.h"
#include "waymo_open_dataset/metrics/mot.h"
#include "waymo_open_dataset/metrics/segmentation_metrics.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"
#include "waymo_open_dataset/protos/metrics.pb.h"
#include "waymo_open_dataset/protos/motion_metrics.pb.h"
#include "waymo_open_dataset/protos/motion_submission.pb.h"
#include "waymo_open_dataset/protos/scenario.pb.h"
#include "waymo_open_dataset/protos/segmentation_metrics.pb.h"
using namespace waymo::open_dataset;
static std::vector<Object> OL(const Objects& o) { return {o.objects().begin(), o.objects().end()}; }
static std::vector<Object> OL(const wire::Args& A, int i) { return OL(A.msg<Objects>(i)); }
// frames: args [k, k+n)
static std::vector<std::vector<Object>> FR(const wire::Args& A, int k, int n) {
  std::vector<std::vector<Object>> r;
  for (int i = 0; i < n; ++i) r.push_back(OL(A, k + i));
  return r;
}
OP("shard") {  // generator, object...
  auto g = BreakdownGenerator::Create((Breakdown::GeneratorId)A.n(1));
  std::vector<int> s;
  for (const auto& o : OL(A, 2)) {
    s.push_back(g->Shard(o));
    auto m = g->ShardsForMatching(o);
    s.push_back(m.size());
    s.insert(s.end(), m.begin(), m.end());
  }
  R.i(s);
} END
OP("geninfo") {
  auto g = BreakdownGenerator::Create((Breakdown::GeneratorId)A.n(1));
  R.i({g->Id(), g->NumShards(), g->IsGroundTruthOnlyBreakdown()});
  for (int i = 0; i < g->NumShards(); ++i) R.s(g->ShardName(i));
} END
OP("names") { for (auto& s : GetBreakdownNamesFromConfig(A.msg<Config>(1))) R.s(s); } END
OP("motion_names") { for (auto& s : GetBreakdownNamesFromMotionConfig(A.msg<MotionMetricsConfig>(1))) R.s(s); } END
OP("motion_order") {  // config, predictions, scenario -> object type, step of every reported metric
  absl::flat_hash_map<std::string, ScenarioPredictions> p;
  absl::flat_hash_map<std::string, Scenario> s;
  auto a = A.msg<ScenarioPredictions>(2);
  auto b = A.msg<Scenario>(3);
  p[a.scenario_id()] = a;
  s[b.scenario_id()] = b;
  MotionMetrics m;
  R.n(ComputeMotionMetrics(A.msg<MotionMetricsConfig>(1), p, s, &m).ok());
  std::vector<int> v;
  for (auto& x : m.metrics_bundles()) { v.push_back(x.object_filter()); v.push_back(x.measurement_step()); }
  R.i(v);
} END
OP("match") {  // config, pds, gts, pd subset, gt subset, nullmask, prefill
  auto c = A.msg<Config>(1);
  auto p = OL(A, 2), g = OL(A, 3);
  auto ps = A.i(4), gs = A.i(5);
  auto fl = A.i(6);
  auto m = Matcher::Create(c);
  std::vector<Object> op, og;
  if (A.size() > 8) {  // the matcher was used before, on other objects
    op = OL(A, 7), og = OL(A, 8);
    m->SetPredictions(op);
    m->SetGroundTruths(og);
    std::vector<int> a(op.size()), b(og.size()), x, y;
    for (size_t i = 0; i < a.size(); ++i) a[i] = i;
    for (size_t i = 0; i < b.size(); ++i) b[i] = i;
    m->SetPredictionSubset(a);
    m->SetGroundTruthSubset(b);
    m->Match(&x, &y);
  }
  // replace only what is new
  if (A.size() <= 8 || A.s(2) != A.s(7)) m->SetPredictions(p);
  if (A.size() <= 8 || A.s(3) != A.s(8)) m->SetGroundTruths(g);
  m->SetPredictionSubset(ps);
  m->SetGroundTruthSubset(gs);
  std::vector<int> pm(fl[1], 0), gm(fl[2], 0);
  m->Match(fl[0] & 1 ? nullptr : &pm, fl[0] & 2 ? nullptr : &gm);
  R.i(pm); R.i(gm);
  std::vector<double> iou, aff;
  std::vector<int> can, w;
  for (int i : ps)
    for (int j : gs) {
      iou.push_back(m->IoU(i, j));
      aff.push_back(m->LongitudinalAffinity(i, j));
      can.push_back(m->CanMatch(i, j));
      w.push_back(m->MatchingWeight(i, j));
    }
  R.d(iou); R.d(aff); R.i(can); R.i(w);
} END
OP("match_iou") {  // config(thresholds), pds, gts, pd subset, gt subset, iou matrix, type 
  auto c = A.msg<Config>(1);
  auto p = OL(A, 2), g = OL(A, 3);
  std::vector<float> th(c.iou_thresholds().begin(), c.iou_thresholds().end());
  TEST_HungarianMatcher m(th, Label::Box::TYPE_2D);
  auto v = A.d(6);
  std::vector<std::vector<float>> iou(p.size(), std::vector<float>(g.size()));
  for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < g.size(); ++j) iou[i][j] = v[i * g.size() + j];
  m.SetPredictions(p); m.SetGroundTruths(g); m.SetPredictionSubset(A.i(4)); m.SetGroundTruthSubset(A.i(5)); m.SetIoU(iou);
  std::vector<int> pm, gm;
  m.Match(&pm, &gm);
  R.i(pm); R.i(gm);
} END
OP("det_meas") { for (auto& m : ComputeDetectionMeasurements(A.msg<Config>(1), OL(A, 2), OL(A, 3))) R.msg(m); } END
OP("det_metrics") {  // config, n, pds.., gts..
  int n = A.n(2);
  for (auto& m : ComputeDetectionMetrics(A.msg<Config>(1), FR(A, 3, n), FR(A, 3 + n, n))) R.msg(m);
} END
static std::vector<std::vector<DetectionMeasurements>> DM(const wire::Args& A, int k) {
  std::vector<std::vector<DetectionMeasurements>> r;
  auto sh = A.i(k++);
  for (int n : sh) {
    r.emplace_back();
    for (int i = 0; i < n; ++i) r.back().push_back(A.msg<DetectionMeasurements>(k++));
  }
  return r;
}
OP("det_from_meas") { for (auto& m : ComputeDetectionMetrics(A.msg<Config>(1), DM(A, 2))) R.msg(m); } END
OP("det_merge") { for (auto& m : MergeDetectionMeasurements(A.msg<Config>(1), DM(A, 2))) R.msg(m); } END
OP("det_cutoffs") {
  int n = A.n(2);
  R.msg(EstimateScoreCutoffs(A.msg<Config>(1), FR(A, 3, n), FR(A, 3 + n, n)));
} END
// scenes: lengths vector then frames (pds for all, then gts for all)
static void SC(const wire::Args& A, int k, std::vector<std::vector<std::vector<Object>>>* p, std::vector<std::vector<std::vector<Object>>>* g) {
  auto sh = A.i(k++);
  for (int n : sh) { p->push_back(FR(A, k, n)); k += n; }
  for (int n : sh) { g->push_back(FR(A, k, n)); k += n; }
}
OP("trk_meas") { int n = A.n(2); for (auto& m : ComputeTrackingMeasurements(A.msg<Config>(1), FR(A, 3, n), FR(A, 3 + n, n))) R.msg(m); } END
OP("trk_metrics") {
  std::vector<std::vector<std::vector<Object>>> p, g;
  SC(A, 2, &p, &g);
  for (auto& m : ComputeTrackingMetrics(A.msg<Config>(1), p, g)) R.msg(m);
} END
OP("trk_cutoffs") {
  std::vector<std::vector<std::vector<Object>>> p, g;
  SC(A, 2, &p, &g);
  R.msg(EstimateScoreCutoffs(A.msg<Config>(1), p, g));
} END
OP("trk_from_meas") {
  std::vector<std::vector<TrackingMeasurements>> r;
  int k = 2;
  for (int n : A.i(k++)) { r.emplace_back(); for (int i = 0; i < n; ++i) r.back().push_back(A.msg<TrackingMeasurements>(k++)); }
  for (auto& m : ComputeTrackingMetrics(A.msg<Config>(1), r)) R.msg(m);
} END
OP("mot") {  // config, level, n frames, pds.., gts.. -> cumulative measurement after each frame
  auto c = A.msg<Config>(1);
  int n = A.n(3);
  auto p = FR(A, 4, n), g = FR(A, 4 + n, n);
  MOT mot;
  for (int f = 0; f < n; ++f) {
    auto m = Matcher::Create(c);
    m->SetPredictions(p[f]); m->SetGroundTruths(g[f]);
    std::vector<int> a(p[f].size()), b(g[f].size());
    for (size_t i = 0; i < a.size(); ++i) a[i] = i;
    for (size_t i = 0; i < b.size(); ++i) b[i] = i;
    m->SetPredictionSubset(a); m->SetGroundTruthSubset(b);
    mot.Eval(m.get(), (Label::DifficultyLevel)A.n(2), true);
    R.msg(mot.measurement());
  }
} END
OP("cutoffs") { auto d = A.d(1); R.f(internal::DecideScoreCutoffs(std::vector<float>(d.begin(), d.end()), A.n(2))); } END
OP("map") {
  auto p = A.d(1), r = A.d(2);
  R.x(internal::ComputeMeanAveragePrecision(std::vector<float>(p.begin(), p.end()), std::vector<float>(r.begin(), r.end()), A.x(3)));
} END
OP("heading") {
  auto p = OL(A, 1), g = OL(A, 2);
  auto m = Matcher::Create(A.msg<Config>(3));
  m->SetPredictions(p); m->SetGroundTruths(g);
  R.x(internal::ComputeHeadingAccuracy(*m, 0, 0));
} END
OP("subsets") {
  auto s = internal::BuildSubsets(A.msg<Config>(1), OL(A, 2), A.n(3), A.n(4));
  for (auto& x : s) {
    R.i({x.breakdown_generator_id_index, x.breakdown_shard, (int)x.indices.size()});
    for (auto& v : x.indices) R.i(v);
  }
} END
OP("speed") {
  for (auto& o : internal::EstimateObjectSpeed(OL(A, 1), OL(A, 2))) R.msg(o);
} END
OP("inbreakdown") { R.n(internal::IsInBreakdown(A.msg<Object>(1), A.msg<Breakdown>(2))); } END
OP("levels") {
  std::vector<int> r;
  for (auto l : internal::GetDifficultyLevels(A.msg<Config>(1), A.n(2))) r.push_back(l);
  R.i(r);
} END
static std::vector<Segmentation::Type> ST(const std::vector<int>& v) {
  std::vector<Segmentation::Type> r;
  for (int x : v) r.push_back((Segmentation::Type)x);
  return r;
}
OP("seg") {  // config, updates: pred,gt,pred,gt...; negative first element = reset
  SegmentationMetricsIOU m(A.msg<SegmentationMetricsConfig>(1));
  std::vector<int> st;
  for (size_t i = 2; i + 1 < A.size(); i += 2) {
    auto p = A.i(i), g = A.i(i + 1);
    if (p.size() == 1 && p[0] < 0) { m.Reset(); continue; }
    st.push_back(m.Update(ST(p), ST(g)).ok());
  }
  R.i(st);
  R.msg(m.ComputeIOU());
} END
OP("seg_merge") {
  SegmentationMetricsIOU m(A.msg<SegmentationMetricsConfig>(1));
  std::vector<SegmentationMeasurements> v;
  for (size_t i = 2; i < A.size(); ++i) v.push_back(A.msg<SegmentationMeasurements>(i));
  R.msg(m.MergeResults(v));
} END
