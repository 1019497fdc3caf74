// C24: measures, resampling, containment and queries of 2D polygons and polylines
// SCALE: 12 250
#include "common.hpp"
#include <iostream>
#include <functional>
#include <algorithm>
#include <limits>
#include <array>
#include <climits>
#include <cassert>
#include <cmath>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_polygon2.h"
#include "delfem2/geo_polyline.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string;
namespace {
using V2 = d::CVec2d; using V3 = d::CVec3d; using L2 = std::array<long, 2>;
D2 w(const V2 &a) { return {a[0], a[1]}; }
double len(const V2 &a) { return std::hypot(a[0], a[1]); }
string show(const vector<V2> &p) { string s; char b[96]; for (auto &v: p) { snprintf(b, 96, "(%.17g %.17g)", v[0], v[1]); s += b; } return s; }
// star-shaped simple polygon on a lattice around o (counter clockwise)
vector<L2> star(vp::Case &c, int n, L2 o, double r) {
  vector<double> a(n); for (auto &x: a) x = c.uni(0, 2 * M_PI); std::sort(a.begin(), a.end()); vector<L2> p;
  for (double t: a) { double q = r * c.uni(0.3, 1); L2 x{o[0] + std::lround(q * std::cos(t)), o[1] + std::lround(q * std::sin(t))}; p.push_back(x); } return p; }
long orient(L2 a, L2 b, L2 e) { long x = (b[0] - a[0]) * (e[1] - a[1]) - (b[1] - a[1]) * (e[0] - a[0]); return (x > 0) - (x < 0); }
bool on(L2 a, L2 b, L2 e) { return orient(a, b, e) == 0 && std::min(a[0], b[0]) <= e[0] && e[0] <= std::max(a[0], b[0]) && std::min(a[1], b[1]) <= e[1] && e[1] <= std::max(a[1], b[1]); }
// 1 proper crossing, -1 touching, 0 apart
int meets(L2 a, L2 b, L2 e, L2 f) { if (orient(a, b, e) * orient(a, b, f) < 0 && orient(e, f, a) * orient(e, f, b) < 0) return 1; return (on(a, b, e) || on(a, b, f) || on(e, f, a) || on(e, f, b)) ? -1 : 0; }
// 1 inside (odd), 0 outside, -1 on the boundary
int inside(const vector<L2> &p, L2 q) { int n = 0; for (size_t i = 0; i < p.size(); ++i) { L2 a = p[i], b = p[(i + 1) % p.size()]; if (on(a, b, q)) return -1; if ((a[1] > q[1]) == (b[1] > q[1])) continue; long o = orient(a, b, q); if (b[1] < a[1]) o = -o; if (o > 0) n++; } return n % 2; }
}
VP_PROP(measures, 12000, 60000, "length, area, centroid, polar and principal second moments of random polygons vs fan quadrature, invariance under translation, rotation and inversion; non-trivial: area not tiny") {
  const double S = c.logreal(1e-3, 1e3); int n = c.range(3, 12); vector<V2> p; int kind = c.below(4);
  if (kind == 0) { double r = S * c.uni(0.1, 1), ph = c.chance(1, 2) ? 0 : c.uni(0, 7); V2 o(S * c.sym(2), S * c.sym(2)); for (int i = 0; i < n; ++i) p.push_back(o + V2(r * std::cos(ph + i * 2 * M_PI / n), r * std::sin(ph + i * 2 * M_PI / n))); }
  else if (kind == 1) { double x = S * c.range(-2, 2), y = S * c.range(-2, 2), h = S * c.range(1, 2), v = S * c.range(1, 2); p = {V2(x, y), V2(x + h, y), V2(x + h, y + v), V2(x, y + v)}; n = 4; }
  else for (int i = 0; i < n; ++i) p.push_back(V2(S * c.sym(1), S * c.sym(1)));
  c.note("polygon %s", show(p).c_str());
  double L = 0, A = 0; D2 cg{0, 0}; auto fan = [&](const std::function<void(double, D2)> &f, D2 o) { for (int i = 0; i < n; ++i) { D2 a = w(p[i]), b = w(p[(i + 1) % n]); double ar = 0.5 * cross(a - o, b - o); f(ar / 3, 0.5 * (a + b)); f(ar / 3, 0.5 * (a + o)); f(ar / 3, 0.5 * (b + o)); } };
  for (int i = 0; i < n; ++i) L += len(p[(i + 1) % n] - p[i]);
  D2 org = w(p[0]); fan([&](double q, D2 x) { A += q; cg = cg + q * (x - org); }, org);
  VP_NEAR(d::Length_Polygon(p), L, 1e-9 * S); VP_NEAR(d::Area_Polygon(p), A, 1e-9 * S * S);
  { double l = 0; for (int i = 0; i + 1 < n; ++i) l += len(p[i + 1] - p[i]); VP_NEAR(d::Length_Polyline(p), l, 1e-9 * S); double ap = d::Area_Polyline2(p), a = A - 0.5 * cross(w(p[n - 1]), w(p[0])); VP_NEAR(ap, a, 1e-8 * S * S); }
  D2 piv{S * c.sym(2), S * c.sym(2)}; double Ip = 0; fan([&](double q, D2 x) { Ip += q * dot(x - piv, x - piv); }, org); VP_NEAR(d::RotationalMomentPolar_Polygon2(p, V2(piv[0], piv[1])), Ip, 1e-8 * std::pow(S, 4));
  auto inv = d::Polygon_Invert(p); VP_CHECK((int) inv.size() == n, "Polygon_Invert size"); for (int i = 0; i < n; ++i) VP_CHECK(len(inv[i] - p[n - 1 - i]) == 0, "Polygon_Invert vertex %d", i); VP_NEAR(d::Area_Polygon(inv), -A, 1e-9 * S * S);
  auto xy = d::XY_Polygon(p); VP_CHECK((int) xy.size() == 2 * n, "XY_Polygon size"); for (int i = 0; i < 2 * n; ++i) VP_CHECK(xy[i] == p[i / 2][i % 2], "XY_Polygon");
  auto q = p; double dx = S * c.sym(3), dy = S * c.sym(3), th = c.sym(7); d::Translate(q, dx, dy); d::Rotate(q, th); for (int i = 0; i < n; ++i) { double x = p[i][0] + dx, y = p[i][1] + dy; VP_CHECK(std::hypot(q[i][0] - (std::cos(th) * x - std::sin(th) * y), q[i][1] - (std::sin(th) * x + std::cos(th) * y)) < 1e-9 * S, "Translate then Rotate, vertex %d", i); }
  if (std::abs(A) < 1e-2 * S * S) return; c.nontrivial(); cg = org + (1 / A) * cg;
  V2 g; double ar; d::CgArea_Polygon(g, ar, p); VP_CHECK(dist(w(g), cg) < 1e-6 * S && std::abs(ar - A) < 1e-9 * S * S, "CgArea_Polygon (%g %g) area %g, should be (%g %g) %g", g[0], g[1], ar, cg[0], cg[1], A);
  double xx = 0, yy = 0, xy_ = 0; fan([&](double q, D2 x) { x = x - cg; xx += q * x[0] * x[0]; yy += q * x[1] * x[1]; xy_ += q * x[0] * x[1]; }, org);
  V2 a1, a2; double I1 = 1e300, I2 = 1e300; d::SecondMomentOfArea_Polygon(g, ar, a1, I1, a2, I2, p); double tol = 1e-7 * std::pow(S, 4);
  VP_CHECK(dist(w(g), cg) < 1e-6 * S && std::abs(ar - A) < 1e-9 * S * S, "SecondMomentOfArea_Polygon: centroid or area");
  VP_CHECK(std::abs(len(a1) - 1) < 1e-9 && std::abs(len(a2) - 1) < 1e-9 && std::abs(a1[0] * a2[0] + a1[1] * a2[1]) < 1e-9, "principal axes not orthonormal");
  auto about = [&](const V2 &a) { return a[1] * a[1] * xx + a[0] * a[0] * yy - 2 * a[0] * a[1] * xy_; };   // integral of the squared distance from the axis
  VP_CHECK(std::abs(about(a1) - I1) < tol && std::abs(about(a2) - I2) < tol, "principal moments %g %g, about the axes %g %g", I1, I2, about(a1), about(a2));
  VP_CHECK(std::abs(I1 + I2 - xx - yy) < tol && std::abs(I1 * I2 - (xx * yy - xy_ * xy_)) < 1e-6 * std::pow(S, 8), "principal moments are not the eigenvalues");
}
VP_PROP(polyline, 12000, 60000, "polyline parametrisation: nearest parameter, arc length of the nearest point, sample, tangent, resampling (open and closed), bounding box, winding angle, smoothing; non-trivial: at least 3 vertices") {
  const double S = c.logreal(1e-3, 1e3); int n = c.range(2, 12); vector<V2> p; for (int i = 0; i < n; ++i) { if (i && c.chance(1, 8)) p.push_back(p.back()); else p.push_back(V2(S * c.sym(1), S * c.sym(1))); }
  V2 q(S * c.sym(1.5), S * c.sym(1.5)); if (c.chance(1, 6)) q = p[c.below(n)]; if (n > 2) c.nontrivial(); c.note("polyline %s query (%.17g %.17g)", show(p).c_str(), q[0], q[1]);
  double best = 1e300; for (int i = 0; i + 1 < n; ++i) best = std::min(best, dist(w(q), near_seg(w(q), w(p[i]), w(p[i + 1]))));
  double t = d::Nearest_Polyline(p, q); VP_CHECK(t >= 0 && t <= n - 1, "Nearest_Polyline parameter %g", t);
  V2 x = d::Sample_Polyline(p, t); VP_CHECK(std::abs(len(x - q) - best) < 1e-9 * S, "Nearest_Polyline: distance %.12g at %g, minimum %.12g", len(x - q), t, best);
  double al = d::ArcLengthPointInPolyline(p, q); { double rem = al, bd = 1e300, acc = 0; for (int i = 0; i + 1 < n; ++i) { double l = len(p[i + 1] - p[i]); if (al >= acc - 1e-9 * S && al <= acc + l + 1e-9 * S && l > 0) bd = std::min(bd, len(p[i] + std::clamp((al - acc) / l, 0., 1.) * (p[i + 1] - p[i]) - q)); acc += l; } (void) rem; if (acc > 0) VP_CHECK(std::abs(bd - best) < 1e-7 * S, "ArcLengthPointInPolyline %g: point at distance %g, minimum %g", al, bd, best); }
  unsigned int k = d::FindNearestPointInPoints(p, q); double bp = 1e300; for (auto &a: p) bp = std::min(bp, len(a - q)); VP_CHECK(k < p.size() && len(p[k] - q) <= bp * (1 + 1e-12), "FindNearestPointInPoints %u at %.17g, minimum %.17g", k, len(p[k] - q), bp);
  double s = c.chance(1, 4) ? (double) c.range(-1, n + 1) : c.uni(-1, n + 1); V2 y = d::Sample_Polyline(p, s), ty = d::Tangent_Polyline(p, s);
  double sc = std::clamp(s, 0., n - 1.); int ie = std::min((int) sc, n - 2); V2 yr = p[ie] + (sc - ie) * (p[ie + 1] - p[ie]); VP_CHECK(len(y - yr) < 1e-9 * S, "Sample_Polyline(%g)", s);
  bool tok = len(ty - (p[ie + 1] - p[ie])) < 1e-9 * S || (sc == ie && ie && len(ty - (p[ie] - p[ie - 1])) < 1e-9 * S); VP_CHECK(tok, "Tangent_Polyline(%g) = (%g %g)", s, ty[0], ty[1]);
  // resampling: consecutive samples are l apart along the curve, starting at the first point
  double L = d::Length_Polyline(p), l = S * c.logreal(0.02, 3); 
  auto walk = [&](const vector<V2> &curve, const vector<V2> &r, double l, double total, const char *name) {
    int want = (int) std::floor(total / l); double frac = total / l - want; VP_CHECK((int) r.size() == want + 1 || (frac < 1e-6 && (int) r.size() == want) || (frac > 1 - 1e-6 && (int) r.size() == want + 2), "%s: %d points for length %g and step %g", name, (int) r.size(), total, l);
    size_t i = 0; double acc = 0; for (size_t j = 0; j < r.size(); ++j) { double tgt = j * l; while (i + 2 < curve.size() && acc + len(curve[i + 1] - curve[i]) < tgt) { acc += len(curve[i + 1] - curve[i]); ++i; } double el = len(curve[i + 1] - curve[i]); V2 z = el > 0 ? curve[i] + std::min(1., (tgt - acc) / el) * (curve[i + 1] - curve[i]) : curve[i]; VP_CHECK(len(z - r[j]) < 1e-7 * S * (1 + j), "%s: sample %d is %g off", name, (int) j, len(z - r[j])); } };
  if (L > 1e-3 * S) { walk(p, d::Polyline_Resample_Polyline(p, l), l, L, "Polyline_Resample_Polyline"); auto cl = p; cl.push_back(p[0]); walk(cl, d::Polygon_Resample_Polygon(p, l), l, d::Length_Polyline(cl), "Polygon_Resample_Polygon"); }
  // winding angle
  bool apart = best > 1e-3 * S; if (apart && n > 2) { auto cl = p; cl.push_back(p[0]); double bc = dist(w(q), near_seg(w(q), w(p[n - 1]), w(p[0]))); if (bc > 1e-3 * S) { double a = d::WindingNumber_Polyline2(cl, q); int wn = 0; for (int i = 0; i < n; ++i) { D2 u = w(p[i]), v = w(p[(i + 1) % n]); bool up = u[1] <= q[1] && v[1] > q[1], dn = u[1] > q[1] && v[1] <= q[1]; double cr = cross(v - u, w(q) - u); if (up && cr > 0) wn++; if (dn && cr < 0) wn--; } VP_NEAR(a, 2 * M_PI * wn, 1e-6); } }
  // smoothing keeps the end points and only moves neighbours, by the stated average
  auto sm = p; int iv = c.below(n + 2); double damp = c.uni(0, 1); d::Smooth_Polyline(sm, iv, damp); VP_CHECK(len(sm[0] - p[0]) == 0 && len(sm[n - 1] - p[n - 1]) == 0, "Smooth_Polyline moved an end point"); for (int i = 0; i < n; ++i) { if (iv >= n || std::abs(i - iv) > 2) VP_CHECK(len(sm[i] - p[i]) == 0, "Smooth_Polyline(%d) moved vertex %d", iv, i); } if (iv < n && iv >= 1 && iv <= n - 2) { V2 e = damp * p[iv] + (1 - damp) * (0.5 * sm[iv - 1] + 0.5 * p[iv + 1]); VP_CHECK(len(sm[iv] - e) < 1e-9 * S, "Smooth_Polyline(%d): the vertex itself is not the damped average", iv); }
  // closed quadratic spline: partition of unity, 5 points per segment, endpoint of a segment is the middle of two control points
  if (n >= 3) { auto cv = d::XY_Polygon(p); vector<double> sp; d::makeSplineLoop(cv, sp); VP_CHECK((int) sp.size() == n * 10, "makeSplineLoop: %d values", (int) sp.size()); for (int i = 0; i < n; ++i) { V2 m = 0.5 * (p[i] + p[(i + 1) % n]), m1 = 0.5 * (p[(i + 1) % n] + p[(i + 2) % n]); VP_CHECK(std::hypot(sp[i * 10] - m[0], sp[i * 10 + 1] - m[1]) < 1e-9 * S, "spline segment %d does not start at the middle of its control points", i);
      for (int j = 1; j < 5; ++j) { double u = j / 5.; V2 b = (1 - u) * (1 - u) * m + 2 * u * (1 - u) * p[(i + 1) % n] + u * u * m1; VP_CHECK(std::hypot(sp[(i * 5 + j) * 2] - b[0], sp[(i * 5 + j) * 2 + 1] - b[1]) < 1e-9 * S, "spline segment %d, point %d", i, j); } } }
}
VP_PROP(loops, 8000, 60000, "boundary check for triangulation, point in loop, orientation fix and loop resampling on lattice polygons with holes vs exact arithmetic; non-trivial: valid input or rejected for exactly one reason") {
  const double S = std::ldexp(1., c.range(-8, 8)); const long R = c.pick({20, 200, 5000}); int nl = c.range(1, 3); vector<vector<L2>> lp;
  bool many = c.chance(1, 60);
  for (int i = 0; i < nl; ++i) { int n = i == 0 ? (many ? c.range(150, 300) : c.range(3, 14)) : c.range(2, 7); L2 o{0, 0}; double r = R; if (i) { r = R * c.uni(0.05, 0.5); o = {std::lround(R * c.sym(0.6)), std::lround(R * c.sym(0.6))}; } auto p = star(c, n, o, r); if (c.chance(1, 12) && n > 3) std::swap(p[c.below(n)], p[c.below(n)]); if (c.flip()) std::reverse(p.begin(), p.end()); lp.push_back(p); }
  vector<V2> X; vector<int> ind{0}; string s; for (auto &p: lp) { for (auto &x: p) { X.push_back(V2(S * x[0], S * x[1])); } ind.push_back((int) X.size()); } for (size_t i = 0; i < X.size() && i < 60; ++i) s += "(" + std::to_string((long) (X[i][0] / S)) + " " + std::to_string((long) (X[i][1] / S)) + ")"; c.note("loops %s at %s", s.c_str(), vp::str(ind).c_str());
  // point in loop
  for (int k = 0; k < 3; ++k) { L2 q{c.range(-R, R), c.range(-R, R)}; int want = inside(lp[0], q); double m = 1e300; for (size_t i = 0; i < lp[0].size(); ++i) { auto a = lp[0][i], b = lp[0][(i + 1) % lp[0].size()]; m = std::min(m, dist(D2{(double) q[0], (double) q[1]}, near_seg(D2{(double) q[0], (double) q[1]}, D2{(double) a[0], (double) a[1]}, D2{(double) b[0], (double) b[1]}))); } if (want < 0 || m < 1e-6 * R) continue; double co[2] = {S * q[0], S * q[1]}; VP_CHECK(d::IsInclude_Loop(co, ind[0], ind[1], X) == (want == 1), "IsInclude_Loop(%ld %ld) of a loop with %d vertices, exact answer %d", q[0], q[1], (int) lp[0].size(), want); if (want) c.label("point inside"); if (many) c.nontrivial(); }
  // exact verdict
  bool amb = false, few = false, out = false, nest = false, cut = false;
  for (auto &p: lp) { if (p.size() < 3) few = true; for (size_t i = 0; i < p.size(); ++i) { size_t i1 = (i + 1) % p.size(); if (p[i] == p[i1]) amb = true; if (p.size() > 2 && orient(p[i], p[i1], p[(i + 2) % p.size()]) == 0) amb = true; for (size_t j = i + 1; j < p.size(); ++j) { size_t j1 = (j + 1) % p.size(); if (i1 == j || j1 == i) continue; int m = meets(p[i], p[i1], p[j], p[j1]); if (m == 1) cut = true; if (m == -1) amb = true; } } }
  if (!few) for (size_t a = 0; a < lp.size(); ++a) for (size_t b = 0; b < lp.size(); ++b) if (a != b) { for (auto &x: lp[b]) { int in = inside(lp[a], x); if (in < 0) amb = true; if (a == 0 && in == 0) out = true; if (a > 0 && in == 1) nest = true; } for (size_t i = 0; i < lp[a].size(); ++i) for (size_t j = 0; j < lp[b].size(); ++j) { int m = meets(lp[a][i], lp[a][(i + 1) % lp[a].size()], lp[b][j], lp[b][(j + 1) % lp[b].size()]); if (m == 1) cut = true; if (m == -1) amb = true; } }
  bool want = !few && !out && !nest && !cut; bool sure = !amb || few;
  if (sure) { bool got = d::CheckInputBoundaryForTriangulation(ind, X); VP_CHECK(got == want, "CheckInputBoundaryForTriangulation = %d (few %d, hole outside %d, nested %d, crossing %d)", got, few, out, nest, cut); if (few + out + nest + cut <= 1) c.nontrivial(); c.label(want ? "valid" : "rejected"); }
  if (few) return;
  // packing into one array
  vector<vector<double>> ary; for (auto &p: lp) { vector<double> v; for (auto &x: p) { v.push_back(S * x[0]); v.push_back(S * x[1]); } ary.push_back(v); } vector<int> ind2, ip; vector<V2> X2; d::JArray_FromVecVec_XY(ind2, ip, X2, ary); VP_CHECK(ind2 == ind && X2.size() == X.size() && ip.size() == X.size(), "JArray_FromVecVec_XY sizes"); for (size_t i = 0; i < X.size(); ++i) VP_CHECK(ip[i] == (int) i && len(X2[i] - X[i]) == 0, "JArray_FromVecVec_XY point %d", (int) i);
  // orientation: the first counter clockwise, the others clockwise; each loop is the same cycle
  auto fx = ip; d::FixLoopOrientation(fx, ind, X); for (int l = 0; l < nl; ++l) { int n = ind[l + 1] - ind[l]; double A = 0, A0 = 0; for (int i = 0; i < n; ++i) { A += cross(w(X[fx[ind[l] + i]]), w(X[fx[ind[l] + (i + 1) % n]])); A0 += cross(w(X[ind[l] + i]), w(X[ind[l] + (i + 1) % n])); } if (std::abs(A0) < 1e-9 * S * S) continue; VP_CHECK((A > 0) == (l == 0) && std::abs(std::abs(A) - std::abs(A0)) < 1e-9 * std::abs(A0), "FixLoopOrientation: loop %d has area %g (was %g)", l, A / 2, A0 / 2); bool fwd = true, bwd = true; for (int i = 0; i < n; ++i) { fwd &= fx[ind[l] + i] == ind[l] + i; bwd &= fx[ind[l] + i] == ind[l] + n - 1 - i; } VP_CHECK(fwd || bwd, "FixLoopOrientation: loop %d is neither the loop nor its reverse", l); }
  // resampling: old vertices in order, new ones evenly on the edges, no edge longer than the limit
  double h = S * R * c.logreal(0.05, 2); auto i1 = ind; auto l1 = fx; auto X1 = X; d::ResamplingLoop(i1, l1, X1, h);
  VP_CHECK((int) i1.size() == nl + 1 && i1[0] == 0 && i1[nl] == (int) l1.size() && l1.size() == X1.size(), "ResamplingLoop: sizes"); vector<int> seen(X1.size()); for (int v: l1) { VP_CHECK(v >= 0 && v < (int) X1.size() && !seen[v], "ResamplingLoop: vertex %d missing or twice", v); seen[v] = 1; } for (size_t i = 0; i < X.size(); ++i) VP_CHECK(len(X1[i] - X[i]) == 0, "ResamplingLoop moved a vertex");
  for (int l = 0; l < nl; ++l) { vector<int> old; int n = i1[l + 1] - i1[l]; for (int i = 0; i < n; ++i) if (l1[i1[l] + i] < (int) X.size()) old.push_back(i); VP_CHECK((int) old.size() == ind[l + 1] - ind[l], "ResamplingLoop: loop %d has %d old vertices", l, (int) old.size()); for (size_t k = 0; k < old.size(); ++k) { VP_CHECK(l1[i1[l] + old[k]] == fx[ind[l] + k], "ResamplingLoop: order of loop %d", l); int a = old[k], b = k + 1 < old.size() ? old[k + 1] : n; V2 p0 = X1[l1[i1[l] + a]], p1 = X1[l1[i1[l] + b % n]]; int m = b - a; VP_CHECK(len(p1 - p0) / m <= h * (1 + 1e-9), "ResamplingLoop: edge of length %g, limit %g", len(p1 - p0) / m, h); VP_CHECK(m == 1 || len(p1 - p0) >= h * (m - 1) * (1 - 1e-9), "ResamplingLoop: %d pieces of an edge %g, limit %g", m, len(p1 - p0), h); for (int j = 1; j < m; ++j) VP_CHECK(len(X1[l1[i1[l] + a + j]] - (p0 + (double) j / m * (p1 - p0))) < 1e-9 * S * R, "ResamplingLoop: inserted vertex off its place"); } }
}
