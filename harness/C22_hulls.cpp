// C22: convex hulls in 2D and 3D, GJK / SAT intersection of convex shapes, EPA penetration
// SCALE: 12 200
#include "common.hpp"
#include <iostream>
#include <functional>
#include <memory>
#include <stack>
#include <set>
#include <map>
#include <climits>
#include <algorithm>
#include <limits>
#include <cassert>
#include <cmath>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_convhull2.h"
#include "delfem2/geo_convhull3.h"
#include "delfem2/geo_gjksat2.h"
#define FindFurthest FindFurthest3  // both headers define these
#define Range_ProjectionPointsOnAxis Range_ProjectionPointsOnAxis3
#include "delfem2/geo_gjksat3.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string;
namespace {
using V2 = d::CVec2d; using V3 = d::CVec3d;
string show(const vector<V2> &p) { string s; char b[96]; for (auto &v: p) { snprintf(b, 96, "(%.17g %.17g)", v[0], v[1]); s += b; } return s; }
string show(const vector<V3> &p) { string s; char b[128]; for (auto &v: p) { snprintf(b, 128, "(%.17g %.17g %.17g)", v[0], v[1], v[2]); s += b; } return s; }
double cr(const V2 &a, const V2 &b, const V2 &p) { return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]); }
double vol(const V3 &a, const V3 &b, const V3 &e, const V3 &p) { V3 n = (b - a).cross(e - a); return n.dot(p - a); }
// shape with non-empty interior
vector<V2> shape2(vp::Case &c, bool &grid) {
  for (;;) {
    vector<V2> p; int kind = (int) c.below(4); grid = kind < 2; int n = (int) c.range(3, 8);
    if (kind == 0) { double w = (double) (int) c.range(1, 4), h = (double) (int) c.range(1, 4); p = {V2(0, 0), V2(w, 0), V2(w, h), V2(0, h)}; c.shuffle(p.begin(), p.end()); }
    else if (kind == 1) for (int i = 0; i < n; ++i) p.push_back(V2((double) (int) c.range(-3, 3), (double) (int) c.range(-3, 3)));
    else if (kind == 2) for (int i = 0; i < n; ++i) p.push_back(V2(c.sym(2), c.sym(2)));
    else { double t0 = c.real(0, 6), r = c.real(0.3, 2); for (int i = 0; i < n; ++i) p.push_back(V2(r * std::cos(t0 + 2 * M_PI * i / n), r * std::sin(t0 + 2 * M_PI * i / n))); }
    double A = 0; for (auto &a: p) for (auto &b: p) for (auto &e: p) A = std::max(A, cr(a, b, e)); if (A > 0.05) return p;
  }
}
vector<V3> shape3(vp::Case &c, bool &grid) {
  for (;;) {
    vector<V3> p; int kind = (int) c.below(4); grid = kind < 2; int n = (int) c.range(4, 8);
    if (kind == 0) { double w[3]; for (double &v: w) v = (double) (int) c.range(1, 4); for (int i = 0; i < 8; ++i) p.push_back(V3(w[0] * (i & 1), w[1] * (i >> 1 & 1), w[2] * (i >> 2))); c.shuffle(p.begin(), p.end()); }
    else if (kind == 1) for (int i = 0; i < n; ++i) p.push_back(V3((double) (int) c.range(-3, 3), (double) (int) c.range(-3, 3), (double) (int) c.range(-3, 3)));
    else if (kind == 2) for (int i = 0; i < n; ++i) p.push_back(V3(c.sym(2), c.sym(2), c.sym(2)));
    else { auto R = rotation(c); double w[3]; for (double &v: w) v = c.real(0.3, 2); for (int i = 0; i < 8; ++i) { double x[3] = {w[0] * (i & 1), w[1] * (i >> 1 & 1), w[2] * (i >> 2)}; V3 q; for (int k = 0; k < 3; ++k) { q[k] = 0; for (int l = 0; l < 3; ++l) q[k] += R[3 * k + l] * x[l]; } p.push_back(q); } }
    double A = 0; for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < i; ++j) for (size_t k = 0; k < j; ++k) for (size_t l = 0; l < k; ++l) A = std::max(A, std::fabs(vol(p[i], p[j], p[k], p[l]))); if (A > 0.05) return p;
  }
}
template<class V> double sup(const vector<V> &p, const V &n) { double m = -1e300; for (auto &v: p) m = std::max(m, n.dot(v)); return m; }
// smallest width of A - B beyond the origin over the candidate directions: negative when separated, the penetration depth otherwise
template<class V> double depth(const vector<V> &A, const vector<V> &B, const vector<V> &axes) { double m = 1e300; for (auto n: axes) { double l = std::sqrt(n.dot(n)); if (l < 1e-9) continue; n = n / l; V mn = -n; m = std::min({m, sup(A, n) + sup(B, mn), sup(A, mn) + sup(B, n)}); } return m; }
vector<V2> axes2(const vector<V2> &A, const vector<V2> &B) { vector<V2> r; for (auto *p: {&A, &B}) for (size_t i = 0; i < p->size(); ++i) for (size_t j = 0; j < i; ++j) { V2 e = (*p)[i] - (*p)[j]; r.push_back(V2(e[1], -e[0])); } return r; }
struct Hull { vector<unsigned> tri; vector<V3> nrm, edge; };
Hull hull3(const vector<V3> &p, double sc) {  // supporting triples, normals and edge directions
  Hull h; std::set<std::pair<unsigned, unsigned>> es; for (unsigned i = 0; i < p.size(); ++i) for (unsigned j = i + 1; j < p.size(); ++j) for (unsigned k = j + 1; k < p.size(); ++k) {
    V3 n = (p[j] - p[i]).cross(p[k] - p[i]); double l = std::sqrt(n.dot(n)); if (l < 1e-9 * sc * sc) continue; double lo = 0, hi = 0; for (auto &v: p) { double t = n.dot(v - p[i]) / l; lo = std::min(lo, t); hi = std::max(hi, t); }
    if (lo < -1e-9 * sc && hi > 1e-9 * sc) continue; h.tri.insert(h.tri.end(), {i, j, k}); h.nrm.push_back(n / l); es.insert({i, j}); es.insert({j, k}); es.insert({i, k}); }
  for (auto &e: es) { V3 v = p[e.second] - p[e.first]; double l = std::sqrt(v.dot(v)); if (l > 1e-9 * sc) h.edge.push_back(v / l); }
  return h;
}
vector<V3> axes3(const Hull &a, const Hull &b) { vector<V3> r = a.nrm; r.insert(r.end(), b.nrm.begin(), b.nrm.end()); for (auto &x: a.edge) for (auto &y: b.edge) { V3 n = x.cross(y); if (n.dot(n) > 1e-12) r.push_back(n); } return r; }
}
VP_PROP(hull2, 4000, 40000, "convex hull in 2D: counter clockwise, strictly convex, closed at the lowest point, contains every point; non-trivial: collinear, repeated or almost collinear points") {
  vector<V2> p; int n = (int) c.range(3, 20); int kind = (int) c.below(5); double s = c.chance(1, 3) ? c.logreal(1e-5, 1e5) : 1;
  for (int i = 0; i < n; ++i) {
    if (kind == 0) p.push_back(V2(s * (double) (int) c.range(-2, 2), s * (double) (int) c.range(-2, 2)));
    else if (kind == 1) p.push_back(V2(s * c.sym(1), s * c.sym(1)));
    else if (kind == 2) { double t = c.real(0, 7); p.push_back(V2(s * std::cos(t), s * std::sin(t))); }
    else if (kind == 3) p.push_back(V2(s * c.sym(1), s * c.sym(1) * (c.flip() ? 1e-6 : 1e-3)));
    else p.push_back(i && c.chance(1, 3) ? p[c.below(p.size())] : V2(s * c.sym(1), c.flip() ? 0. : s * c.real(0, 1)));
  }
  double A = 0; for (auto &a: p) for (auto &b: p) for (auto &e: p) A = std::max(A, cr(a, b, e)); if (A < 1e-8 * s * s) return; if (kind != 1 && kind != 2) c.nontrivial();
  c.note("points %s", show(p).c_str()); vector<unsigned> h; d::ConvexHull2(h, p);
  VP_CHECK(h.size() >= 4 && h.front() == h.back(), "hull of %zu indices", h.size()); for (unsigned i: h) VP_CHECK(i < p.size(), "index %u", i);
  std::set<unsigned> u(h.begin(), h.end()); VP_CHECK(u.size() == h.size() - 1, "a vertex is repeated"); size_t m = h.size() - 1;
  for (auto &v: p) VP_CHECK(v[1] >= p[h[0]][1], "does not start at the lowest point");
  double turn = 0; for (size_t i = 0; i < m; ++i) {
    const V2 &a = p[h[i]], &b = p[h[i + 1]], &e = p[h[(i + 2) % m]]; double l = std::sqrt((b - a).dot(b - a)); VP_CHECK(l > 0, "repeated point on the hull");
    VP_CHECK(cr(a, b, e) > 0, "not strictly convex at %u %u %u", h[i], h[i + 1], h[(i + 2) % m]); V2 x = b - a, y = e - b; turn += std::atan2(x[0] * y[1] - x[1] * y[0], x.dot(y));
    for (auto &v: p) VP_CHECK(cr(a, b, v) >= -1e-12 * s * l, "point (%.17g %.17g) is outside edge %u %u by %g", v[0], v[1], h[i], h[i + 1], -cr(a, b, v) / l);
  }
  VP_NEAR(turn, 2 * M_PI, 1e-6);
}
VP_PROP(hull3, 1000, 10000, "convex hull in 3D: closed, outward, contains every point, has the volume of the hull; non-trivial: coplanar, collinear or repeated points") {
  vector<V3> p; int n = (int) c.range(4, 20); int kind = (int) c.below(4); double s = kind == 0 ? std::pow(2., (int) c.range(-20, 20)) : c.chance(1, 3) ? c.logreal(1e-5, 1e5) : 1;
  for (int i = 0; i < n; ++i) {
    if (kind == 0) p.push_back(V3(s * (int) c.range(-2, 2), s * (int) c.range(-2, 2), s * (int) c.range(-2, 2)));
    else if (kind == 1) p.push_back(V3(s * c.sym(1), s * c.sym(1), s * c.sym(1)));
    else if (kind == 2) { auto u = unit(rnd3(c, 1)); p.push_back(V3(s * u[0], s * u[1], s * u[2])); }
    else { double x = c.sym(1); p.push_back(V3(s * x, s * c.sym(1), s * (x * x + c.sym(0.1)))); }
  }
  double A = 0; for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < i; ++j) for (size_t k = 0; k < j; ++k) for (size_t l = 0; l < k; ++l) { double v = std::fabs(vol(p[i], p[j], p[k], p[l])) / (s * s * s); A = std::max(A, v); if (kind != 0 && v < 1e-9) return; }
  if (A < 1e-6) return; if (kind == 0) c.nontrivial();
  if (vol(p[0], p[1], p[2], p[3]) == 0) c.label("first four points coplanar");
  c.note("points %s", show(p).c_str()); vector<unsigned> t; d::ConvexHull3(t, p);
  VP_CHECK(t.size() >= 12 && t.size() % 3 == 0, "%zu indices", t.size()); std::map<std::pair<unsigned, unsigned>, int> ed;
  for (size_t i = 0; i < t.size(); i += 3) {
    for (int k = 0; k < 3; ++k) { VP_CHECK(t[i + k] < p.size(), "index %u", t[i + k]); int cnt = ++ed[{t[i + k], t[i + (k + 1) % 3]}]; VP_CHECK(cnt == 1, "edge used twice in one direction"); }
    V3 nn = (p[t[i + 1]] - p[t[i]]).cross(p[t[i + 2]] - p[t[i]]); double l = std::sqrt(nn.dot(nn)); VP_CHECK(l > 0, "triangle without area");
    for (auto &v: p) VP_CHECK(nn.dot(v - p[t[i]]) <= 1e-12 * s * l, "point %s outside by %g", show(vector<V3>{v}).c_str(), nn.dot(v - p[t[i]]) / l);
  }
  for (auto &e: ed) { std::pair<unsigned, unsigned> r(e.first.second, e.first.first); VP_CHECK(ed.count(r), "open edge"); }
}
VP_PROP(gjk2, 4000, 40000, "intersection and penetration of convex shapes in 2D against the exhaustive separating axis search; non-trivial: aligned boxes, integer coordinates, other scales") {
  bool g0, g1; auto A = shape2(c, g0), B = shape2(c, g1); double s = c.chance(1, 3) ? c.logreal(1e-4, 1e4) : 1; V2 t = c.flip() ? V2((double) (int) c.range(-4, 4), (double) (int) c.range(-4, 4)) : V2(c.sym(4), c.sym(4));
  for (auto &v: B) v = v + t; if (c.chance(1, 6)) { B = A; for (auto &v: B) v = v + t * 0.1; } for (auto *p: {&A, &B}) for (auto &v: *p) v = v * s;
  if (g0 || g1 || s != 1) c.nontrivial(); c.note("A %s B %s", show(A).c_str(), show(B).c_str());
  double D = depth(A, B, axes2(A, B)); c.label(D > 1e-6 * s ? "overlapping" : D < -1e-6 * s ? "apart" : "touching");
  bool gj = d::IsIntersect_Points2_Points2_Gjk(A, B), sa = d::IsIntersect_Points2_Points2_Sat(A, B);
  V2 n(0, 0); bool pe = d::Penetration_Points2_Points2_Epa(n, A, B, 1e-9 * s);
  if (std::fabs(D) < 1e-6 * s) return;
  VP_CHECK(sa == (D > 0), "separating axes say %d, depth %g", (int) sa, D); VP_CHECK(gj == (D > 0), "GJK says %d, depth %g", (int) gj, D); VP_CHECK(pe == (D > 0), "penetration says %d, depth %g", (int) pe, D);
  if (pe) { VP_NEAR(std::sqrt(n.dot(n)), D, 1e-7 * s); vector<V2> C = B; for (auto &v: C) v = v + n; VP_NEAR(depth(A, C, axes2(A, C)), 0, 1e-6 * s); }
}
VP_PROP(gjk3, 1500, 15000, "intersection and penetration of convex shapes in 3D against the exhaustive separating axis search; non-trivial: aligned boxes, integer coordinates, other scales") {
  bool g0, g1; auto A = shape3(c, g0), B = shape3(c, g1); double s = c.chance(1, 3) ? c.logreal(1e-3, 1e3) : 1; V3 t = c.flip() ? V3((double) (int) c.range(-4, 4), (double) (int) c.range(-4, 4), (double) (int) c.range(-4, 4)) : V3(c.sym(4), c.sym(4), c.sym(4)); if (c.flip()) t = t * 0.5;
  for (auto &v: B) v = v + t; if (c.chance(1, 6)) { B = A; for (auto &v: B) v = v + t * 0.1; } for (auto *p: {&A, &B}) for (auto &v: *p) v = v * s;
  if (g0 || g1 || s != 1) c.nontrivial(); c.note("A %s B %s", show(A).c_str(), show(B).c_str());
  Hull ha = hull3(A, s), hb = hull3(B, s); auto ax = axes3(ha, hb); double D = depth(A, B, ax); c.label(D > 1e-6 * s ? "overlapping" : D < -1e-6 * s ? "apart" : "touching");
  bool gj = d::IsIntersect_Points3_Points3_Gjk(A, B), sa = d::IsIntersect_Points3_Points3_Sat(A, ha.tri, B, hb.tri);
  V3 n(0, 0, 0); bool pe = d::Penetration_Points3_Points3_Epa(n, A, B, 1e-7 * s);
  if (std::fabs(D) < 1e-6 * s) return;
  VP_CHECK(sa == (D > 0), "separating axes say %d, depth %g", (int) sa, D); VP_CHECK(gj == (D > 0), "GJK says %d, depth %g", (int) gj, D); VP_CHECK(pe == (D > 0), "penetration says %d, depth %g", (int) pe, D);
  if (pe) { VP_NEAR(std::sqrt(n.dot(n)), D, 1e-5 * s); vector<V3> C = B; for (auto &v: C) v = v + n; VP_NEAR(depth(A, C, ax), 0, 2e-5 * s); }
}
