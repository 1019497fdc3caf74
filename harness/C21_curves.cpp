// C21: parametric curves: Bezier, B-spline, Catmull-Rom; points, tangents, splitting, bounds, lengths, areas, nearest
// SCALE: 8 150
#include "common.hpp"
#include <iostream>
#include <functional>
#include <memory>
#include <array>
#include <cassert>
#include <cmath>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_curve_quadratic.h"
#include "delfem2/geo_curve_cubic.h"
#include "delfem2/geo_curve_ndegree.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string;
namespace {
template<class V> struct dim; template<> struct dim<d::CVec2d> { static const int n = 2; }; template<> struct dim<d::CVec3d> { static const int n = 3; };
template<class V> V rndv(vp::Case &c, double s) { V v; for (int i = 0; i < dim<V>::n; ++i) v[i] = c.chance(1, 8) ? s * (double) (int) c.range(-2, 2) : s * c.sym(1); return v; }
template<class V> double len(const V &v) { double s = 0; for (int i = 0; i < dim<V>::n; ++i) s += v[i] * v[i]; return std::sqrt(s); }
template<class V> double dif(const V &a, const V &b) { double s = 0; for (int i = 0; i < dim<V>::n; ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }
template<class V> string show(const vector<V> &p) { string s; char b[64]; for (auto &v: p) { s += "("; for (int i = 0; i < dim<V>::n; ++i) { snprintf(b, 64, "%.17g ", v[i]); s += b; } s += ")"; } return s; }
template<class V> V casteljau(vector<V> p, double t) { for (size_t n = p.size(); n > 1; --n) for (size_t i = 0; i + 1 < n; ++i) for (int k = 0; k < dim<V>::n; ++k) p[i][k] = p[i][k] * (1 - t) + p[i + 1][k] * t; return p[0]; }
template<class V> V hodograph(const vector<V> &p, double t) { vector<V> q; for (size_t i = 0; i + 1 < p.size(); ++i) { V v; for (int k = 0; k < dim<V>::n; ++k) v[k] = (p[i + 1][k] - p[i][k]) * (double) (p.size() - 1); q.push_back(v); } return casteljau(q, t); }
// control points: generic, degenerate (collinear, coincident, lower degree), tiny and far away
template<class V> vector<V> control(vp::Case &c, int n, double &scale) {
  scale = c.chance(1, 3) ? c.logreal(1e-4, 1e4) : 1; vector<V> p; for (int i = 0; i < n; ++i) p.push_back(rndv<V>(c, scale));
  int kind = (int) c.below(8);
  if (kind == 0) { c.nontrivial(); c.label("collinear"); V u = p[1]; for (int i = 1; i < n; ++i) { double s = c.sym(2); for (int k = 0; k < dim<V>::n; ++k) p[i][k] = p[0][k] + s * u[k]; } }
  else if (kind == 1) { c.nontrivial(); c.label("coincident"); p[c.below(n)] = p[c.below(n)]; }
  else if (kind == 2) { c.nontrivial(); c.label("lower degree"); double e = c.chance(1, 2) ? 0 : c.logreal(1e-12, 1e-6) * scale; for (int k = 0; k < dim<V>::n; ++k) { if (n == 3) p[1][k] = (p[0][k] + p[2][k]) / 2 + e * c.sym(1); else if (n == 4) p[3][k] = p[0][k] - 3 * p[1][k] + 3 * p[2][k] + e * c.sym(1); } }
  else if (kind == 3) { c.nontrivial(); c.label("one coordinate constant"); int k = (int) c.below(dim<V>::n); for (auto &v: p) v[k] = p[0][k]; }
  if (scale != 1) c.nontrivial();
  return p;
}
template<class V> double length_ref(const vector<V> &p, int n = 4000) {  // composite Simpson on the speed
  double s = 0, h = 1. / n; for (int i = 0; i < n; ++i) s += h / 6 * (len(hodograph(p, i * h)) + 4 * len(hodograph(p, (i + .5) * h)) + len(hodograph(p, (i + 1) * h))); return s;
}
// graded subdivision keeps the reference accurate where the speed vanishes: uniform n is enough for a relative error of about 1/n^2
template<class V> void bezier_case(vp::Case &c, bool cubic) {
  const int D = dim<V>::n; double sc; vector<V> p = control<V>(c, cubic ? 4 : 3, sc); double big = 0; for (auto &v: p) big = std::max(big, len(v)); if (big == 0) return;
  c.note("control points %s", show(p).c_str()); double t = c.chance(1, 6) ? (double) c.flip() : c.real(0, 1), e = 1e-13 * big;
  V x = casteljau(p, t);
  V y = cubic ? d::PointOnCubicBezierCurve<V>(t, p[0], p[1], p[2], p[3]) : d::PointOnQuadraticBezierCurve<V>(t, p[0], p[1], p[2]);
  VP_NEAR(dif(x, y), 0, e);
  if (cubic) VP_NEAR(dif(d::Tangent_CubicBezierCurve<V>(t, p[0], p[1], p[2], p[3]), hodograph(p, t)), 0, 30 * e);
  int n = (int) c.range(2, 12); vector<V> pl; if (cubic) d::Polyline_BezierCubic(pl, n, p[0], p[1], p[2], p[3]); else d::Polyline_BezierQuadratic(pl, n, p[0], p[1], p[2]);
  VP_CHECK((int) pl.size() == n, "%zu points of the polyline instead of %d", pl.size(), n);
  for (int i = 0; i < n; ++i) VP_NEAR(dif(pl[i], casteljau(p, (double) i / (n - 1))), 0, 2 * e);
  if (cubic) {
    int ns = (int) c.range(1, 3); vector<V> cp = p; for (int i = 1; i < ns; ++i) for (int k = 0; k < 3; ++k) cp.push_back(rndv<V>(c, sc));
    vector<V> po; d::getCubicBezierCurve(n, po, cp); VP_CHECK((int) po.size() == ns * n + 1, "%zu points", po.size());
    for (int i = 0; i <= ns * n; ++i) { int s = std::min(i / n, ns - 1); vector<V> q(cp.begin() + 3 * s, cp.begin() + 3 * s + 4); VP_NEAR(dif(po[i], casteljau(q, (double) (i - s * n) / n)), 0, 1e-12 * (big + sc * 4)); }
  }
  // splitting
  vector<V> l, r; if (cubic) { auto s = d::Split_CubicBezierCurve<V>(p[0], p[1], p[2], p[3], t); l.assign(s.begin(), s.begin() + 4); r.assign(s.begin() + 4, s.end()); } else { auto s = d::Split_QuadraticBezierCurve<V>(p[0], p[1], p[2], t); l.assign(s.begin(), s.begin() + 3); r.assign(s.begin() + 3, s.end()); }
  for (int i = 0; i < 4; ++i) { double u = i / 3.; VP_NEAR(dif(casteljau(l, u), casteljau(p, u * t)), 0, 4 * e); VP_NEAR(dif(casteljau(r, u), casteljau(p, t + u * (1 - t))), 0, 4 * e); }
  // bounds: contain the curve, and touched by it
  vector<double> bb; if constexpr (D == 2) {  /* the box needs VEC::SizeAtCompileTime, CVec3 has none */ if (cubic) { auto b = d::AABB_CubicBezierCurve<V>(p[0], p[1], p[2], p[3]); bb.assign(b.begin(), b.end()); } else { auto b = d::AABB_QuadraticBezierCurve<V>(p[0], p[1], p[2]); bb.assign(b.begin(), b.end()); }
  const int N = 200; for (int k = 0; k < D; ++k) {
    double lo = 1e300, hi = -1e300, acc = 0; for (int i = 0; i <= N; ++i) { double v = casteljau(p, (double) i / N)[k]; lo = std::min(lo, v); hi = std::max(hi, v); }
    for (size_t i = 0; i + 2 < p.size(); ++i) acc = std::max(acc, std::fabs(p[i][k] - 2 * p[i + 1][k] + p[i + 2][k]) * 6);  // bound of the second derivative
    double gap = acc / 8 / N / N + 1e-12 * big;
    VP_CHECK(bb[k] <= lo + 1e-12 * big && bb[k + D] >= hi - 1e-12 * big, "axis %d: box [%.17g,%.17g] does not hold [%.17g,%.17g]", k, bb[k], bb[k + D], lo, hi);
    VP_CHECK(bb[k] >= lo - gap && bb[k + D] <= hi + gap, "axis %d: box [%.17g,%.17g] is larger than [%.17g,%.17g]", k, bb[k], bb[k + D], lo, hi);
  } }
  // plane
  if (cubic) {
    V o = rndv<V>(c, sc), nr = rndv<V>(c, 1); double h[4], hs = 0; for (int i = 0; i < 4; ++i) { h[i] = 0; for (int k = 0; k < D; ++k) h[i] += (p[i][k] - o[k]) * nr[k]; hs += std::fabs(h[i]); }
    double tt = -1; if (std::fabs(h[0]) > 1e-4 * hs && std::fabs(h[3]) > 1e-4 * hs) {
      bool ok = d::getParameterCubicBezier_IntersectionWithPlane<V>(tt, o, nr, p[0], p[1], p[2], p[3]);
      if (h[0] * h[3] < 0) { VP_CHECK(ok && tt >= 0 && tt <= 1, "plane between the ends: %d at %g", (int) ok, tt); V q = casteljau(p, tt); double hh = 0; for (int k = 0; k < D; ++k) hh += (q[k] - o[k]) * nr[k]; VP_NEAR(hh, 0, 3e-6 * hs); }
      else VP_CHECK(!ok, "both ends on one side but an intersection is reported");
    }
  }
}
template<class V> void length_case(vp::Case &c, bool cubic) {
  double sc; vector<V> p = control<V>(c, cubic ? 4 : 3, sc); double big = 0; for (auto &v: p) big = std::max(big, dif(v, p[0])); if (big == 0) return;
  double at = 0; for (auto &v: p) at = std::max(at, len(v)); if (big < 1e-3 * at) return;
  c.note("control points %s", show(p).c_str()); double L = length_ref(p);
  double vmin = 1e300, vmax = 0; for (int i = 0; i <= 1000; ++i) { double v = len(hodograph(p, i / 1000.)); vmin = std::min(vmin, v); vmax = std::max(vmax, v); }
  bool cusp = vmin < 0.05 * vmax; double e = (cusp ? 5e-3 : 1e-5) * big;  // a dip of the speed can hide between the nodes
  if (cusp) c.label("cusp");
  if (!cubic) {
    VP_NEAR(d::Length_QuadraticBezierCurve_Analytic<V>(p[0], p[1], p[2]), L, 1e-5 * big); VP_NEAR(d::Length_QuadraticBezierCurve_QuadratureSubdiv<V>(p[0], p[1], p[2], 1e-8, 12), L, 2 * e);
  } else VP_NEAR(d::Length_CubicBezierCurve_QuadratureSubdivision<V>(p[0], p[1], p[2], p[3], 1e-8, 12), L, 2 * e);
  // fixed order quadrature on a gently curved piece
  V a = p[0], u = rndv<V>(c, sc); if (len(u) < 0.2 * sc) return; vector<V> g{a}; for (size_t i = 1; i < p.size(); ++i) { V w = rndv<V>(c, 0.1 * sc); V v; for (int k = 0; k < dim<V>::n; ++k) v[k] = a[k] + (double) i * u[k] + (len(u) / sc) * w[k] * 0.5; g.push_back(v); }
  double G = length_ref(g, 400); int og = (int) c.range(3, 5); c.note("gentle %s order %d", show(g).c_str(), og);
  VP_NEAR(cubic ? d::Length_CubicBezierCurve_Quadrature<V>(g[0], g[1], g[2], g[3], og) : d::Length_QuadraticBezierCurve_Quadrature<V>(g[0], g[1], g[2], og), G, 1e-5 * G);
}
template<class V> void nearest_case(vp::Case &c, bool cubic) {
  double sc; vector<V> p = control<V>(c, cubic ? 4 : 3, sc); V q = rndv<V>(c, 1.5 * sc); double big = len(q); for (auto &v: p) big = std::max(big, len(v)); if (big == 0) return;
  if (c.chance(1, 6)) { q = casteljau(p, c.real(0, 1)); c.nontrivial(); c.label("point on the curve"); }
  c.note("control points %s point %s", show(p).c_str(), show(vector<V>{q}).c_str());
  const int N = 400; double best = 1e300; for (int i = 0; i <= N; ++i) best = std::min(best, dif(casteljau(p, (double) i / N), q));
  double speed = 0; for (int i = 0; i <= 20; ++i) speed = std::max(speed, len(hodograph(p, i / 20.)));
  int ns = (int) c.range(1, 30); double bs = dif(p[0], q); for (int i = 1; i <= ns; ++i) bs = std::min(bs, dif(casteljau(p, (double) i / ns), q));
  double t = cubic ? d::Nearest_CubicBezierCurve<V>(q, p[0], p[1], p[2], p[3], ns, (int) c.range(0, 10)) : d::Nearest_QuadraticBezierCurve<V>(q, p[0], p[1], p[2], ns, (int) c.range(0, 10));
  VP_CHECK(t >= 0 && t <= 1, "parameter %g", t); double dt = dif(casteljau(p, t), q); VP_CHECK(dt <= bs + 1e-11 * big, "distance %.17g at the result %g, %.17g at one of the samples", dt, t, bs);
  double t2 = cubic ? d::Nearest_CubicBezierCurve<V>(q, p[0], p[1], p[2], p[3], 60, 40) : d::Nearest_QuadraticBezierCurve<V>(q, p[0], p[1], p[2], 60, 40);
  VP_CHECK(dif(casteljau(p, t2), q) <= best + 0.5 * speed / 60 + 1e-11 * big, "many samples: %.17g, dense search %.17g", dif(casteljau(p, t2), q), best);
  double ts = cubic ? d::Nearest_CubicBezierCurve_Strum<V>(q, p[0], p[1], p[2], p[3], 30) : d::Nearest_QuadraticBezierCurve_Sturm<V>(q, p[0], p[1], p[2], 30);
  VP_CHECK(ts >= -1e-12 && ts <= 1 + 1e-12, "parameter %g", ts); double ds = dif(casteljau(p, ts), q); VP_CHECK(ds <= best + 2e-5 * big, "distance %.17g at parameter %.17g found by isolating roots, %.17g by dense search", ds, ts, best);
}
double basis(int i, int k, double u, const vector<double> &kn) {  // Cox - de Boor, degree k
  if (k == 0) { if (u >= kn[i] && u < kn[i + 1]) return 1; if (u >= kn.back() && kn[i] < kn[i + 1] && kn[i + 1] == kn.back()) return 1; return 0; }
  double a = kn[i + k] > kn[i] ? (u - kn[i]) / (kn[i + k] - kn[i]) * basis(i, k - 1, u, kn) : 0, b = kn[i + k + 1] > kn[i + 1] ? (kn[i + k + 1] - u) / (kn[i + k + 1] - kn[i + 1]) * basis(i + 1, k - 1, u, kn) : 0; return a + b;
}
double dbasis(int i, int k, double u, const vector<double> &kn) {
  double a = kn[i + k] > kn[i] ? k / (kn[i + k] - kn[i]) * basis(i, k - 1, u, kn) : 0, b = kn[i + k + 1] > kn[i + 1] ? k / (kn[i + k + 1] - kn[i + 1]) * basis(i + 1, k - 1, u, kn) : 0; return a - b;
}
template<class V> V spline(const vector<V> &p, int k, double u, const vector<double> &kn, bool deriv = false) {
  V v; for (int m = 0; m < dim<V>::n; ++m) v[m] = 0; for (size_t i = 0; i < p.size(); ++i) { double w = deriv ? dbasis((int) i, k, u, kn) : basis((int) i, k, u, kn); for (int m = 0; m < dim<V>::n; ++m) v[m] += w * p[i][m]; } return v;
}
vector<double> open_knots(int ncp, int deg) { vector<double> k; int ns = ncp - deg; for (int i = 0; i < ncp + deg + 1; ++i) k.push_back(std::min(std::max(i - deg, 0), ns)); return k; }
}
VP_PROP(bezier, 2500, 25000, "quadratic and cubic Bezier curves in 2D and 3D: points, tangents, polylines, splitting, bounding box, plane intersection against de Casteljau; non-trivial: degenerate control points or other scales") {
  bool cubic = c.flip(); if (c.flip()) bezier_case<d::CVec2d>(c, cubic); else bezier_case<d::CVec3d>(c, cubic);
}
VP_PROP(lengths_areas_winding, 400, 4000, "arc length, enclosed area and winding angle against fine numerical integration; non-trivial: degenerate control points, other scales or the curve turns around the origin") {
  bool cubic = c.flip(); if (c.flip()) length_case<d::CVec2d>(c, cubic); else length_case<d::CVec3d>(c, cubic);
  double sc; vector<d::CVec2d> p = control<d::CVec2d>(c, cubic ? 4 : 3, sc); c.note("area of %s", show(p).c_str()); double A = 0; const int N = 200; double big = 0; for (auto &v: p) big = std::max(big, len(v));
  for (int i = 0; i < N; ++i) for (int g = 0; g < 3; ++g) { static const double X[3] = {-0.7745966692414834, 0, 0.7745966692414834}, W[3] = {5. / 9, 8. / 9, 5. / 9}; double t = (i + .5 + .5 * X[g]) / N; auto x = casteljau(p, t), v = hodograph(p, t); A += W[g] / 2 / N * (x[0] * v[1] - x[1] * v[0]) / 2; }
  VP_NEAR(cubic ? d::Area_CubicBezierCurve2<d::CVec2d>(p[0], p[1], p[2], p[3]) : d::Area_QuadraticBezierCurve2<d::CVec2d>(p[0], p[1], p[2]), A, 1e-11 * big * big);
  // winding of c + b t + a t^2 around the origin
  d::CVec2d q0 = rndv<d::CVec2d>(c, 1), q1 = rndv<d::CVec2d>(c, 2), q2 = rndv<d::CVec2d>(c, 2); double th = 0, rmin = 1e9; auto at = [&](double t) { return q0 + q1 * t + q2 * (t * t); };
  for (int i = 0; i < 4000; ++i) { auto a = at(i / 4000.), b = at((i + 1) / 4000.); rmin = std::min(rmin, len(a)); th += std::atan2(a[0] * b[1] - a[1] * b[0], a[0] * b[0] + a[1] * b[1]); }
  if (rmin < 0.02) return; c.note("winding %s", show(vector<d::CVec2d>{q0, q1, q2}).c_str()); if (std::fabs(th) > 1) c.nontrivial();
  double w = d::WindingNumber_QuadraticCurve2<d::CVec2d>(q0, q1, q2, 30, (int) c.range(10, 20)); VP_NEAR(w, th, 1e-6);
}
VP_PROP(nearest_point, 1500, 15000, "nearest parameter on Bezier curves and quadratic B-splines against dense sampling; non-trivial: degenerate control points, other scales, points on the curve") {
  bool cubic = c.flip(); if (c.flip()) nearest_case<d::CVec2d>(c, cubic); else nearest_case<d::CVec3d>(c, cubic);
  int n = (int) c.range(3, 9); vector<d::CVec2d> p; for (int i = 0; i < n; ++i) p.push_back(rndv<d::CVec2d>(c, 1)); d::CVec2d q = rndv<d::CVec2d>(c, 2);
  c.note("b-spline %s point %s", show(p).c_str(), show(vector<d::CVec2d>{q}).c_str());
  double t = d::Nearest_QuadraticBSplineCurve(p, q); VP_CHECK(t >= -1e-12 && t <= n - 2 + 1e-12, "parameter %g of %d segments", t, n - 2);
  auto kn = open_knots(n, 2); double best = 1e300; int N = 60 * (n - 2); for (int i = 0; i <= N; ++i) best = std::min(best, dif(spline(p, 2, (double) (n - 2) * i / N, kn), q));
  double got = dif(spline(p, 2, std::min(std::max(t, 0.), n - 2.), kn), q); VP_CHECK(got <= best + 3e-4, "distance %.17g at %.17g, %.17g by dense search", got, t, best);
}
VP_PROP(splines, 2500, 25000, "B-splines of degree 1 to 5 with open uniform and arbitrary knots against Cox-de Boor, Catmull-Rom interpolation; non-trivial: repeated inner knots or parameters on a knot") {
  int n = (int) c.range(3, 9); vector<d::CVec2d> p; vector<d::CVec3d> p3; for (int i = 0; i < n; ++i) { p.push_back(rndv<d::CVec2d>(c, 1)); p3.push_back(rndv<d::CVec3d>(c, 1)); }
  auto par = [&](int ns) { double t = c.real(0, 1) * ns; int k = (int) c.below(4); if (k == 0) { t = (double) (int) c.range(0, ns); c.nontrivial(); } else if (k == 1) { c.nontrivial(); t = std::min((double) ns, std::max(0., (double) (int) c.range(0, ns) + c.sym(1) * c.logreal(1e-16, 1e-6))); } return t; };
  c.note("control points %s", show(p).c_str());
  { double t = par(n - 2); auto k = open_knots(n, 2); c.note("quadratic at %.17g", t); VP_NEAR(dif(d::Sample_QuadraticBsplineCurve(t, p), spline(p, 2, t, k)), 0, 1e-12); VP_NEAR(dif(d::Sample_QuadraticBsplineCurve(t, p3), spline(p3, 2, t, k)), 0, 1e-12); VP_NEAR(dif(d::Tangent_QuadraticBsplineCurve(t, p), spline(p, 2, t, k, true)), 0, 1e-11); }
  if (n >= 4) {
    double t = par(n - 3); auto k = open_knots(n, 3); c.note("cubic at %.17g", t); VP_NEAR(dif(d::Sample_CubicBsplineCurve(t, p), spline(p, 3, t, k)), 0, 1e-12); VP_NEAR(dif(d::Sample_CubicBsplineCurve(t, p3), spline(p3, 3, t, k)), 0, 1e-12);
    int m = (int) c.range(2, 9); vector<d::CVec2d> s; d::Polyline_CubicBSplineCurve(s, m, p); VP_CHECK((int) s.size() == m, "%zu samples", s.size()); for (int i = 0; i < m; ++i) VP_NEAR(dif(s[i], spline(p, 3, (double) (n - 3) * i / (m - 1), k)), 0, 1e-11);
  }
  { double t = par(n - 1); c.note("degree 1 at %.17g", t); VP_NEAR(dif(d::Sample_BsplineCurve<d::CVec2d, 2>(t, p), spline(p, 1, t, open_knots(n, 1))), 0, 1e-12); }
  { double t = par(n - 2); c.note("degree 2 at %.17g", t); auto k = open_knots(n, 2); VP_NEAR(dif(d::Sample_BsplineCurve<d::CVec2d, 3>(t, p), spline(p, 2, t, k)), 0, 1e-12); VP_NEAR(dif(d::Sample_BsplineDerivative<d::CVec2d, 3>(t, p), spline(p, 2, t, k, true)), 0, 1e-11); }
  if (n >= 4) { double t = par(n - 3); c.note("degree 3 at %.17g", t); auto k = open_knots(n, 3); VP_NEAR(dif(d::Sample_BsplineCurve<d::CVec2d, 4>(t, p), spline(p, 3, t, k)), 0, 1e-12); VP_NEAR(dif(d::Sample_BsplineDerivative<d::CVec2d, 4>(t, p), spline(p, 3, t, k, true)), 0, 1e-11); }
  if (n >= 5) { double t = par(n - 4); c.note("degree 4 at %.17g", t); auto k = open_knots(n, 4); VP_NEAR(dif(d::Sample_BsplineCurve<d::CVec2d, 5>(t, p), spline(p, 4, t, k)), 0, 1e-11); VP_NEAR(dif(d::Sample_BsplineDerivative<d::CVec2d, 5>(t, p), spline(p, 4, t, k, true)), 0, 1e-10); }
  if (n >= 6) { double t = par(n - 5); c.note("degree 5 at %.17g", t); auto k = open_knots(n, 5); VP_NEAR(dif(d::Sample_BsplineCurve<d::CVec2d, 6>(t, p), spline(p, 5, t, k)), 0, 1e-11); }
  {  // arbitrary clamped knots
    int deg = (int) c.range(1, std::min(4, n - 1)); int inner = n - deg - 1; vector<int> mult{deg + 1}; vector<double> kn{c.sym(2)};
    while (inner > 0) { int m = std::min(inner, (int) c.range(1, deg)); if (m > 1) c.nontrivial(); kn.push_back(kn.back() + c.real(0.1, 2)); mult.push_back(m); inner -= m; }
    kn.push_back(kn.back() + c.real(0.1, 2)); mult.push_back(deg + 1);
    vector<double> flat; d::FlatKnot(flat, mult, kn); vector<double> want; for (size_t i = 0; i < kn.size(); ++i) for (int j = 0; j < mult[i]; ++j) want.push_back(kn[i]); VP_CHECK(flat == want, "flat knots");
    double u = c.chance(1, 4) ? kn[c.below(kn.size())] : c.real(kn[0], kn.back()); c.note("degree %d knots %s at %.17g", deg, vp::str(flat).c_str(), u);
    VP_NEAR(dif(d::DeBoorBSpline(u, deg, p3, flat), spline(p3, deg, u, flat)), 0, 1e-7); VP_NEAR(dif(d::DeBoorBSpline(u, deg, p, flat), spline(p, deg, u, flat)), 0, 1e-7);
    int m = (int) c.range(1, 8); vector<d::CVec2d> s; d::SampleBSpline(s, m, deg, flat, p); VP_CHECK((int) s.size() == m + 1, "%zu samples", s.size()); for (int i = 0; i <= m; ++i) VP_NEAR(dif(s[i], spline(p, deg, std::min(kn.back(), kn[0] + i * (kn.back() - kn[0]) / m), flat)), 0, 1e-7);
  }
  {  // Catmull-Rom: passes through the control points, derivative (p[i+1]-p[i-1])/2 inside, p1-p0 at the ends, cubic in between
    int i = (int) c.range(0, n - 2); auto deriv = [&](int j) { return j == 0 ? p[1] - p[0] : j == n - 1 ? p[n - 1] - p[n - 2] : (p[j + 1] - p[j - 1]) * 0.5; };
    vector<d::CVec2d> bz{p[i], p[i] + deriv(i) * (1. / 3), p[i + 1] - deriv(i + 1) * (1. / 3), p[i + 1]};
    double s = c.chance(1, 4) ? (double) c.flip() : c.real(0, 1); c.note("Catmull-Rom at %d + %g", i, s);
    VP_NEAR(dif(d::Sample_CatmullRomSplineCurve(i + s, p), casteljau(bz, s)), 0, 1e-12);
    int m = (int) c.range(2, 9); vector<d::CVec2d> o; d::Polyline_CatmullRomSplineCurve(o, m, p); VP_CHECK((int) o.size() == m, "%zu samples", o.size()); VP_NEAR(dif(o[0], p[0]), 0, 1e-12); VP_NEAR(dif(o[m - 1], p[n - 1]), 0, 1e-12);
    for (int k = 0; k < m; ++k) VP_NEAR(dif(o[k], d::Sample_CatmullRomSplineCurve((double) k / (m - 1) * (n - 1), p)), 0, 1e-12);
  }
}
