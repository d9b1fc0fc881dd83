#include "wire.h"
#include "waymo_open_dataset/label.pb.h"
#include "waymo_open_dataset/math/aabox2d.h"
#include "waymo_open_dataset/math/box2d.h"
#include "waymo_open_dataset/math/math_util.h"
#include "waymo_open_dataset/math/polygon2d.h"
#include "waymo_open_dataset/math/segment2d.h"
#include "waymo_open_dataset/math/vec2d.h"
#include "waymo_open_dataset/metrics/hungarian.h"
#include "waymo_open_dataset/metrics/iou.h"
#include "waymo_open_dataset/protos/metrics.pb.h"
using namespace waymo::open_dataset;
static Vec2d V(const std::vector<double>& d, int i) { return Vec2d(d.at(2 * i), d.at(2 * i + 1)); }
static std::vector<double> P(const std::vector<Vec2d>& v) {
  std::vector<double> r;
  for (auto& p : v) { r.push_back(p.x()); r.push_back(p.y()); }
  return r;
}
static Polygon2d Poly(const std::vector<double>& d) {
  std::vector<Vec2d> p;
  for (size_t i = 0; i * 2 < d.size(); ++i) p.push_back(V(d, i));
  return Polygon2d(p);
}
static Label::Box LB(const std::vector<double>& d) {
  Label::Box b;
  b.set_center_x(d.at(0)); b.set_center_y(d.at(1)); b.set_center_z(d.at(2));
  b.set_length(d.at(3)); b.set_width(d.at(4)); b.set_height(d.at(5)); b.set_heading(d.at(6));
  return b;
}
static std::vector<double> BL(const Label::Box& b) {
  return {b.center_x(), b.center_y(), b.center_z(), b.length(), b.width(), b.height(), b.heading()};
}
OP("hungarian") {
  auto e = A.i(2);
  int n = A.n(1);
  std::vector<int> p(n, -7), p2(n, -7), lx(n), ly(n);
  Hungarian(n, e.data(), p.data());
  Hungarian(n, e.data(), p2.data(), lx.data(), ly.data());
  R.i(p); R.i(p2); R.i(lx); R.i(ly);
} END
OP("iou") {  // type, b1, b2
  R.x(ComputeIoU(LB(A.d(2)), LB(A.d(3)), (Label::Box::Type)A.n(1)));
} END
OP("batchiou") {
  std::vector<Label::Box> b;
  for (size_t i = 3; i < A.size(); ++i) b.push_back(LB(A.d(i)));
  R.d(BatchComputeIoU(LB(A.d(2)), b, (Label::Box::Type)A.n(1)));
} END
OP("affinity") {
  auto c = A.msg<Config::LongitudinalErrorTolerantConfig>(1);
  R.x(ComputeLongitudinalAffinity(LB(A.d(2)), LB(A.d(3)), c));
  R.x(GetComputeLongitudinalAffinityFunc(c)(LB(A.d(2)), LB(A.d(3))));
} END
OP("align") {
  R.d(BL(AlignedPredictionBox(LB(A.d(2)), LB(A.d(3)), (Config::LongitudinalErrorTolerantConfig::AlignType)A.n(1))));
} END
OP("letiou") {
  auto c = A.msg<Config::LongitudinalErrorTolerantConfig>(1);
  R.x(ComputeLetIoU(LB(A.d(3)), LB(A.d(4)), c.sensor_location(), c.align_type(), (Label::Box::Type)A.n(2)));
  R.x(GetComputeLetIoUFunc(c.sensor_location(), c.align_type(), (Label::Box::Type)A.n(2))(LB(A.d(3)), LB(A.d(4))));
} END
OP("topoly") { R.d(P(ToPolygon2d(LB(A.d(1))).points())); } END
OP("translate") { auto d = A.d(2); R.d(BL(TranslateBox(LB(A.d(1)), d[0], d[1], d[2]))); } END
OP("vec") {  // a, b, scalar
  Vec2d a = V(A.d(1), 0), b = V(A.d(2), 0);
  double t = A.x(3);
  std::vector<double> r;
  auto pv = [&](Vec2d v) { r.push_back(v.x()); r.push_back(v.y()); };
  pv(a + b); pv(a - b); pv(-a); pv(a * t); pv(t * a); pv(a / t);                // 0..11
  r.push_back(a.Dot(b)); r.push_back(a.CrossProd(b)); pv(a.Perp());              // 12..15
  r.push_back(a.Length()); r.push_back(a.Sqr()); r.push_back(a.L1Norm());        // 16..18
  pv(a.Rotated(t)); Vec2d c = a; c.Rotate(t); pv(c); pv(a.RelativeToOrigin(b, t));  // 19..24
  r.push_back(a.Project(t)); r.push_back(a.Project(b)); r.push_back(a.DistanceToPoint(b));
  r.push_back(a.DistanceSqrToPoint(b)); r.push_back(a.Angle()); pv(a.Normalized());  // 25..31
  pv(a.Abs()); r.push_back(a.NearlyEquals(b, 0.5)); r.push_back(Vec2d(0, 0).IsLeftOfLine(a, b));  // 32..35
  pv(a.ElemWiseMax(b)); pv(a.ElemWiseMin(b)); pv(a.Floor()); pv(a.Ceil());        // 36..43
  r.push_back(a.ProjectOntoUnit(b)); pv(Vec2d::CreateUnitFromAngle(t)); pv(Vec2d::CreateFromAngleAndLength(t, 2.5));  // 44..48
  r.push_back(a == b); r.push_back(a != b); r.push_back(a < b); r.push_back(a.IsZero());  // 49..52
  c = a; c.Shift(b.x(), b.y()); pv(c); c = a; c.Flip(); pv(c); c = a; c.Normalize(); pv(c);  // 53..58
  R.d(r);
} END
OP("angle") {
  double t = A.x(1);
  auto q = A.d(2);
  R.d({NormalizeAngle(t), WrapToRange(q[0], q[1], t), PositiveModulo(t, q[1] - q[0]), BoundToRange(q[0], q[1], t),
       Min(t, q[0]), Max(t, q[0]), Sqr(t)});
  auto k = A.i(3);
  R.i({PositiveModulo(k[0], k[1])});
} END
OP("segment") {  // 4 numbers seg, 2 numbers point, other seg, angle
  auto s4 = A.d(1), q = A.d(2), o4 = A.d(3);
  double t = A.x(4);
  Segment2d s(V(s4, 0), V(s4, 1)), o(V(o4, 0), V(o4, 1));
  Vec2d p(q[0], q[1]), cp, ip(0, 0), cp2;
  std::vector<double> r;
  auto pv = [&](Vec2d v) { r.push_back(v.x()); r.push_back(v.y()); };
  r.push_back(s.length()); r.push_back(s.inv_length()); r.push_back(s.Sqr()); pv(s.center());  // 0..4
  r.push_back(s.heading()); r.push_back(s.cos_heading()); r.push_back(s.sin_heading());         // 5..7
  r.push_back(0); pv(cp);                                                // 8..10
  r.push_back(s.start() == s.end() ? 0 : s.DistanceSqrToPoint(p));                               // 11
  double pn = 0, pd = 0;
  r.push_back(pn); r.push_back(pd); pv(cp2);                                                     // 12..15
  r.push_back(s.Intersect(o, &ip)); pv(ip); r.push_back(s.IntersectOrCoincide(o)); r.push_back(s.MightIntersect(o));  // 16..20
  double sd = 0;  // signed distance
  r.push_back((int)s.SideOfPoint(p, &sd)); r.push_back(sd);                                      // 21..22
  Segment2d a = s.RotateAroundPoint(p, t), b = s.RotateAroundOrigin(t), c = s.RotateAroundCenter(t), f = s.Flip(),
            m = s.MoveCenter(p), h = s.ShiftCenter(p);
  for (const Segment2d* z : {&a, &b, &c, &f, &m, &h}) {                                          // 23..  7 each
    pv(z->start()); pv(z->end()); r.push_back(z->length()); r.push_back(z->heading()); r.push_back(z->cos_heading());
  }
  pv(s.PerpUnit()); pv(s.Tangent());                                                             // 65..68
  double ch, sh;
  s.trig_heading(&ch, &sh); r.push_back(ch); r.push_back(sh);                                    // 69,70
  Segment2d fromc(p, t, s.length());
  pv(fromc.start()); pv(fromc.end()); r.push_back(fromc.length()); r.push_back(fromc.heading()); // 71..76
  Vec2d sp(0, 0);
  r.push_back(s.Sample(std::abs(q[0]), &sp)); pv(sp);                                                      // 77..79
  R.d(r);
  R.d(P(Segment2d::SamplePoints(s.start(), s.end(), std::abs(t) + 0.25)));
} END
OP("box2d") {  // cx cy heading length width, move, theta
  auto d = A.d(1), q = A.d(2);
  double t = A.x(3);
  Box2d b(Vec2d(d[0], d[1]), d[2], d[3], d[4]);
  auto dump = [&](const Box2d& x) {
    std::vector<Vec2d> c;
    x.GetCornersInVectorCounterClockwise(&c);
    auto r = P(c);
    double xx[4], yy[4];
    x.GetCorners(xx, yy);
    for (int i = 0; i < 4; ++i) { r.push_back(xx[i]); r.push_back(yy[i]); }
    for (double v : {x.center().x(), x.center().y(), x.axis_heading(), x.length(), x.width(), x.GetArea(), x.cos_heading(), x.sin_heading(),
                     x.axis_start().x(), x.axis_start().y(), x.axis_end().x(), x.axis_end().y()}) r.push_back(v);
    R.d(r);
  };
  dump(b);
  Box2d c = b; c.MoveCenter(Vec2d(q[0], q[1])); dump(c);
  c = b; c.ShiftCenter(Vec2d(q[0], q[1])); dump(c);
  c = b; c.RotateAroundCenter(t); dump(c);
  c = b; c.RotateAroundOrigin(t); dump(c);
  c = b; c.RotateAroundPoint(Vec2d(q[0], q[1]), t); dump(c);
  c = b; c.SetSize(q[2], q[3]); dump(c);
  dump(Box2d(Vec2d(q[0], q[1]), Vec2d(q[0] + q[2], q[1] + q[3])));
  for (int k = 0; k < 4; ++k) dump(Box2d(k, Vec2d(q[0], q[1]), d[2], d[3], d[4]));
} END
OP("aabox") {
  auto a = A.d(1), b = A.d(2), q = A.d(3);
  AABox2d<double> x(a[0], a[1], a[2], a[3]), y(b[0], b[1], b[2], b[3]);
  std::vector<double> r;
  double u, v, w, h;
  x.GetMin(&u, &v); r.push_back(u); r.push_back(v);
  x.GetMax(&u, &v); r.push_back(u); r.push_back(v);
  x.GetXYWH(&u, &v, &w, &h); r.insert(r.end(), {u, v, w, h});
  r.push_back(x.Overlap(y)); r.push_back(x.ComputeIntersectionArea(y));
  r.push_back(x.Inside(q[0], q[1])); r.push_back(x.DistanceSqrToPoint(q[0], q[1]));
  auto z = x; z.Union(y); r.insert(r.end(), {z.cx(), z.cy(), z.hx(), z.hy()});
  z = x; z.Translate(q[0], q[1]); r.insert(r.end(), {z.cx(), z.cy(), z.hx(), z.hy()});
  z.Init(a[0], a[1], a[0] + a[2], a[1] + a[3]); r.insert(r.end(), {z.cx(), z.cy(), z.hx(), z.hy()});
  R.d(r);
} END
OP("aatree") {
  auto a = A.d(1);
  std::vector<AABox2d<double>> b;
  for (size_t i = 0; i * 4 < a.size(); ++i) b.emplace_back(a[4 * i], a[4 * i + 1], a[4 * i + 2], a[4 * i + 3]);
  AABox2dTree<double> t;
  t.BuildTree(b);
  for (size_t i = 0; i < b.size(); ++i) {
    std::vector<int> h;
    t.CollectOverlaps(i, &h);
    R.i(h);
  }
} END
OP("poly") {  // pts a, pts b, point
  Polygon2d a = Poly(A.d(1)), b = Poly(A.d(2));
  auto q = A.d(3);
  R.d({a.ComputeIntersectionArea(b), b.ComputeIntersectionArea(a), (double)a.MaybeHasIntersectionWith(b), (double)b.MaybeHasIntersectionWith(a),
       a.Area(), b.Area(), (double)a.PointInside(q[0], q[1]), a.bbox_bottom_left().x(), a.bbox_bottom_left().y(), a.bbox_top_right().x(),
       a.bbox_top_right().y(), (double)a.NumPoints()});
  Vec2d l, t;
  a.AxisAlignedBoundingBox(&l, &t);
  R.d({l.x(), l.y(), t.x(), t.y()});
  Polygon2d c = a; c.ShiftCenter(Vec2d(q[0], q[1])); R.d(P(c.points())); R.d({c.bbox_bottom_left().x(), c.bbox_bottom_left().y(), c.bbox_top_right().x(), c.bbox_top_right().y()});
  c = a; c.Transform(q[2], Vec2d(q[0], q[1]), Vec2d(q[3], q[4])); R.d(P(c.points())); R.d({c.bbox_bottom_left().x(), c.bbox_bottom_left().y(), c.bbox_top_right().x(), c.bbox_top_right().y()});
} END
OP("convex") {
  auto d = A.d(1);
  std::vector<Vec2d> p;
  for (size_t i = 0; i * 2 < d.size(); ++i) p.push_back(V(d, i));
  bool ccw = false;
  bool c = Polygon2d::IsConvexHull(p, &ccw);
  R.i({c, ccw});
} END
OP("boxpoly") {  // two boxes as polygons: areas and exact corner coordinates
  auto d = A.d(1), e = A.d(2);
  Polygon2d a(Box2d(Vec2d(d[0], d[1]), d[2], d[3], d[4])), b(Box2d(Vec2d(e[0], e[1]), e[2], e[3], e[4]));
  R.d(P(a.points())); R.d(P(b.points()));
  R.d({a.ComputeIntersectionArea(b), b.ComputeIntersectionArea(a), (double)a.MaybeHasIntersectionWith(b), a.Area(), b.Area()});
} END
