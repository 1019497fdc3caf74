// C25: bounding boxes, affine maps, centres of gravity, masses and extrusion of meshes
// SCALE: 12 250
#include "common.hpp"
#include <iostream>
#include <functional>
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <random>
#include "delfem2/msh_boundingbox.h"
#include "delfem2/msh_affine_transformation.h"
#include "delfem2/msh_center_of_gravity.h"
#include "delfem2/mshmisc.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string;
namespace {
typedef unsigned int U;
D3 at(const vector<double> &x, size_t i) { return {x[3 * i], x[3 * i + 1], x[3 * i + 2]}; }
template <class T> vector<T> cast(const vector<double> &x) { return vector<T>(x.begin(), x.end()); }
// centre and width of the points listed
std::array<double, 6> box(const vector<double> &x, const vector<U> &ids) {
  std::array<double, 6> r; for (int k = 0; k < 3; ++k) { double a = 1e300, b = -1e300; for (U i: ids) { a = std::min(a, x[3 * i + k]); b = std::max(b, x[3 * i + k]); } r[k] = 0.5 * (a + b); r[k + 3] = b - a; } return r; }
vector<double> points(vp::Case &c, int n, double S) {
  vector<double> x; D3 o{S * c.pick({0., 0., 5., -40.}), S * c.pick({0., 3., -40.}), S * c.pick({0., 9.})}; bool lat = c.chance(1, 3);
  for (int i = 0; i < n; ++i) { if (i && c.chance(1, 8)) { auto p = at(x, c.below(i)); push(x, p); continue; } D3 p = o; for (int k = 0; k < 3; ++k) p[k] += S * (lat ? (double) c.range(-2, 2) : c.sym(1)); push(x, p); }
  return x; }
double triarea(D3 a, D3 b, D3 e) { return 0.5 * norm(cross(b - a, e - a)); }
bool near(const std::array<double, 6> &a, const double *b, double tol) { for (int i = 0; i < 6; ++i) if (!(std::abs(a[i] - b[i]) <= tol)) return false; return true; }
string show(const vector<double> &x) { string s; char b[40]; for (size_t i = 0; i < x.size() && i < 60; ++i) { snprintf(b, 40, "%.17g ", x[i]); s += b; } return s; }
template <class T> void boxes(vp::Case &c, const vector<double> &xd, double S) {
  auto x = cast<T>(xd); vector<double> y(x.begin(), x.end()); size_t n = x.size() / 3; vector<U> all(n); for (U i = 0; i < n; ++i) all[i] = i;
  auto e = box(y, all); double tol = sizeof(T) == 4 ? 1e-5 * S * 50 : 1e-12 * S * 50;
  T lo[3], hi[3]; d::BoundingBox3_Points3(lo, hi, x.data(), n);
  for (int k = 0; k < 3; ++k) { T a = x[k], b = x[k]; for (size_t i = 0; i < n; ++i) { a = std::min(a, x[3 * i + k]); b = std::max(b, x[3 * i + k]); } VP_CHECK(lo[k] == a && hi[k] == b, "BoundingBox3_Points3 axis %d: %.17g %.17g, should be %.17g %.17g", k, (double) lo[k], (double) hi[k], (double) a, (double) b); }
  auto same = [&](T *v) { double w[6]; for (int i = 0; i < 6; ++i) w[i] = v[i]; return near(e, w, tol); };
  T v[6]; d::CenterWidth_Point3(v[0], v[1], v[2], v[3], v[4], v[5], x.data(), n); VP_CHECK(same(v), "CenterWidth_Point3");
  d::CenterWidth_Points3(v[0], v[1], v[2], v[3], v[4], v[5], x); VP_CHECK(same(v), "CenterWidth_Points3 (scalars)");
  T cc[3], ww[3]; d::CenterWidth_Points3(cc, ww, x); for (int i = 0; i < 3; ++i) { v[i] = cc[i]; v[i + 3] = ww[i]; } VP_CHECK(same(v), "CenterWidth_Points3 (arrays)");
  T m[6]; T z[3] = {x[0], x[1], x[2]}; m[0] = 1; m[1] = -1; m[2] = m[4] = 7; m[3] = m[5] = 9; d::updateMinMaxXYZ(m[0], m[1], m[2], m[3], m[4], m[5], z[0], z[1], z[2]); VP_CHECK(m[0] == z[0] && m[1] == z[0] && m[2] == z[1] && m[3] == z[1] && m[4] == z[2] && m[5] == z[2], "updateMinMaxXYZ on an empty box");
  T g[3]; d::CG_Point3(g, x); for (int k = 0; k < 3; ++k) { double s = 0; for (size_t i = 0; i < n; ++i) s += y[3 * i + k] / n; VP_CHECK(std::abs(g[k] - s) <= tol, "CG_Point3"); }
}
template <class T> void affine(vp::Case &c, const vector<double> &xd, double S) {
  auto x = cast<T>(xd); size_t n = x.size() / 3; double tol = (sizeof(T) == 4 ? 2e-5 : 1e-11) * S * 60; T a = (T) c.sym(8), b = (T) c.sym(8), g = (T) c.sym(8);
  auto r = x; d::Rotate_Points3(r, a, b, g);
  for (size_t i = 0; i < n; ++i) { D3 p{x[3 * i], x[3 * i + 1], x[3 * i + 2]}; double ca = std::cos((double) a), sa = std::sin((double) a), cb = std::cos((double) b), sb = std::sin((double) b), cg = std::cos((double) g), sg = std::sin((double) g);
    p = {p[0], ca * p[1] - sa * p[2], sa * p[1] + ca * p[2]}; p = {cb * p[0] + sb * p[2], p[1], -sb * p[0] + cb * p[2]}; p = {cg * p[0] - sg * p[1], sg * p[0] + cg * p[1], p[2]};
    for (int k = 0; k < 3; ++k) VP_CHECK(std::abs(r[3 * i + k] - p[k]) <= tol, "Rotate_Points3 point %zu: %.17g should be %.17g", i, (double) r[3 * i + k], p[k]); }
  T t[4] = {(T) (S * c.sym(3)), (T) (S * c.sym(3)), (T) (S * c.sym(3)), (T) (S * c.sym(3))}, s = (T) c.sym(4);
  auto q = x; d::Translate_Points3(q, t[0], t[1], t[2]); for (size_t i = 0; i < q.size(); ++i) VP_CHECK(q[i] == (T) (x[i] + t[i % 3]), "Translate_Points3");
  q = x; q.resize(x.size() / 2 * 2); auto q2 = q; d::Translate_Points2(q, t[0], t[1]); for (size_t i = 0; i < q.size(); ++i) VP_CHECK(q[i] == (T) (q2[i] + t[i % 2]), "Translate_Points2");
  int nd = c.range(1, 4), np = (int) x.size() / nd, used = c.range(0, np); q = x; d::Translate_Points(q.data(), used, nd, t); for (size_t i = 0; i < q.size(); ++i) VP_CHECK(q[i] == ((int) i < used * nd ? (T) (x[i] + t[i % nd]) : x[i]), "Translate_Points");
  q = x; d::Scale_Points(q.data(), used, nd, s); for (size_t i = 0; i < q.size(); ++i) VP_CHECK(q[i] == ((int) i < used * nd ? (T) (x[i] * s) : x[i]), "Scale_Points");
  q = x; d::Scale_PointsX(q, s); for (size_t i = 0; i < q.size(); ++i) VP_CHECK(q[i] == (T) (x[i] * s), "Scale_PointsX");
  vector<U> all(n); for (U i = 0; i < n; ++i) all[i] = i; auto e = box(vector<double>(x.begin(), x.end()), all); double w = std::max({e[3], e[4], e[5]});
  if (w > 1e-2 * S) { c.nontrivial(); T l = (T) c.logreal(1e-3, 1e3); q = x; d::Normalize_Points3(q, l); auto f = box(vector<double>(q.begin(), q.end()), all); double to = (sizeof(T) == 4 ? 1e-3 : 1e-10) * l * 60; VP_CHECK(std::abs(std::max({f[3], f[4], f[5]}) - l) < to && std::abs(f[0]) < to && std::abs(f[1]) < to && std::abs(f[2]) < to, "Normalize_Points3: longest edge %.17g should be %.17g, centre %g %g %g", std::max({f[3], f[4], f[5]}), (double) l, f[0], f[1], f[2]);
    for (size_t i = 0; i < x.size(); ++i) VP_CHECK(std::abs(q[i] - (x[i] - e[i % 3]) * (l / w)) < to, "Normalize_Points3 is not a similarity"); }
  for (U dim = 2; dim <= 3; ++dim) { U m = (U) c.range(1, 6); vector<T> v(m * dim); for (auto &z: v) z = (T) c.gauss(); double sc = sizeof(T) == 4 ? c.logreal(1e-10, 1e10) : c.logreal(1e-100, 1e100); for (auto &z: v) z = (T) (z * sc); auto u = v; d::NormalizeVector_Points(u.data(), m, dim);
    for (U i = 0; i < m; ++i) { double l = 0; for (U k = 0; k < dim; ++k) l += (double) v[i * dim + k] * v[i * dim + k]; l = std::sqrt(l); for (U k = 0; k < dim; ++k) VP_CHECK(std::abs(u[i * dim + k] - v[i * dim + k] / l) < (sizeof(T) == 4 ? 1e-5 : 1e-12), "NormalizeVector_Points"); } }
  { U m = (U) c.range(1, 20); T lo[3], hi[3]; for (int k = 0; k < 3; ++k) { lo[k] = (T) c.sym(5); hi[k] = lo[k] + (T) c.uni(0.1, 5); } U dim = (U) c.range(1, 3); vector<T> v(m * dim + 1, T(-77)); d::Points_RandomUniform(v.data(), m, dim, lo, hi); for (U i = 0; i < m * dim; ++i) VP_CHECK(v[i] >= lo[i % dim] - 1e-6 && v[i] <= hi[i % dim] + 1e-6, "Points_RandomUniform outside the range"); VP_CHECK(v.back() == T(-77), "Points_RandomUniform wrote too much"); }
}
template <class T> void centres(vp::Case &c, const vector<double> &xd, const vector<U> &tri, bool closed, double S) {
  auto x = cast<T>(xd); vector<double> y(x.begin(), x.end()); double rel = sizeof(T) == 4 ? 2e-4 : 1e-10, tol = rel * S * 60; size_t nt = tri.size() / 3;
  D3 sh{0, 0, 0}, so{0, 0, 0}; double A = 0, V = 0; vector<int> flg(nt); for (auto &f: flg) f = c.range(-1, 1); int want = c.range(-1, 1); D3 fs{0, 0, 0}; double fa = 0; double rad = 0; vector<double> cen; D3 org = at(y, 0);
  for (size_t t = 0; t < nt; ++t) { D3 a = at(y, tri[3 * t]), b = at(y, tri[3 * t + 1]), e = at(y, tri[3 * t + 2]); D3 m = (1.0 / 3) * (a + b + e); push(cen, m); rad = std::max({rad, dist(m, a), dist(m, b), dist(m, e)}); double ar = triarea(a, b, e); A += ar; sh = sh + ar * m; if (flg[t] == want) { fa += ar; fs = fs + ar * m; } double v = tetvol(org, a, b, e); V += v; so = so + 0.25 * v * (org + a + b + e); }
  vector<T> ct; T r = d::CentsMaxRad_MeshTri3(ct, x, tri); VP_CHECK(ct.size() == cen.size(), "CentsMaxRad size"); for (size_t i = 0; i < ct.size(); ++i) VP_CHECK(std::abs(ct[i] - cen[i]) <= tol, "CentsMaxRad centre"); VP_CHECK(std::abs(r - rad) <= tol, "CentsMaxRad radius %g should be %g", (double) r, rad);
  if (A > 1e-3 * S * S) { T g[3]; d::CG_MeshTri3_Shell(g, x, tri); for (int k = 0; k < 3; ++k) VP_CHECK(std::abs(g[k] - sh[k] / A) < tol, "CG_MeshTri3_Shell %g should be %g", (double) g[k], sh[k] / A); }
  if (fa > 1e-3 * S * S) { T g[3]; T a = d::CG_TriMsh3Flg_Shell(g, x, tri, want, flg); VP_CHECK(std::abs(a - fa) < rel * 100 * fa, "CG_TriMsh3Flg_Shell area %g should be %g", (double) a, fa); for (int k = 0; k < 3; ++k) VP_CHECK(std::abs(g[k] - fs[k] / fa) < tol, "CG_TriMsh3Flg_Shell"); }
  if (closed && std::abs(V) > 0.05 * S * S * S && (sizeof(T) == 8)) { T g[3]; d::CG_MeshTri3_Solid(g, x, tri); for (int k = 0; k < 3; ++k) VP_CHECK(std::abs(g[k] - so[k] / V) < 1e-6 * S, "CG_MeshTri3_Solid %g should be %g", (double) g[k], so[k] / V); }
}
}
VP_PROP(boxes, 12000, 60000, "bounding boxes of points (float and double), local boxes, boxes of groups of elements with uniform and mixed element sizes (also absent groups), longest edge, affine maps, normalisation; non-trivial: extent not zero") {
  double S = c.logreal(1e-3, 1e3); int n = c.range(1, 12); auto x = points(c, n, S); c.note("points %s", show(x).c_str());
  boxes<double>(c, x, S); boxes<float>(c, x, S); if (c.flip()) affine<double>(c, x, S); else affine<float>(c, x, S);
  vector<U> all(n); for (U i = 0; i < (U) n; ++i) all[i] = i; auto e = box(x, all); VP_NEAR(d::Size_Points3D_LongestAABBEdge(x), std::max({e[3], e[4], e[5]}), 1e-11 * S * 50);
  auto R = rotation(c); double ex[3] = {R[0], R[1], R[2]}, ey[3] = {R[3], R[4], R[5]}, ez[3] = {R[6], R[7], R[8]}, v[6]; d::GetCenterWidthLocal(v[0], v[1], v[2], v[3], v[4], v[5], x, ex, ey, ez);
  vector<double> xr; for (int i = 0; i < n; ++i) push(xr, mul(R, at(x, i))); VP_CHECK(near(box(xr, all), v, 1e-11 * S * 60), "GetCenterWidthLocal");
  // groups
  int ne = c.range(0, 8); U nn = (U) c.range(1, 5); vector<U> el, mel, ind{0}; vector<int> grp; for (int i = 0; i < ne; ++i) { grp.push_back(c.range(-1, 2)); for (U k = 0; k < nn; ++k) el.push_back((U) c.below(n)); int m = c.range(1, 5); for (int k = 0; k < m; ++k) mel.push_back((U) c.below(n)); ind.push_back((U) mel.size()); }
  int want = c.range(-1, 2); vector<U> u, mu; for (int i = 0; i < ne; ++i) if (grp[i] == want) { u.insert(u.end(), el.begin() + i * nn, el.begin() + (i + 1) * nn); mu.insert(mu.end(), mel.begin() + ind[i], mel.begin() + ind[i + 1]); }
  std::array<double, 6> none{0, 0, 0, 1, 1, 1};
  d::GetCenterWidthGroup(v[0], v[1], v[2], v[3], v[4], v[5], x, el, nn, want, grp); VP_CHECK(near(u.empty() ? none : box(x, u), v, 1e-11 * S * 50), "GetCenterWidthGroup (uniform, %u nodes)", nn);
  d::GetCenterWidthGroup(v[0], v[1], v[2], v[3], v[4], v[5], x, ind, mel, want, grp); VP_CHECK(near(mu.empty() ? none : box(x, mu), v, 1e-11 * S * 50), "GetCenterWidthGroup (mixed)");
  d::GetCenterWidth3DGroup(v, x, ind, mel, want, grp); VP_CHECK(near(mu.empty() ? none : box(x, mu), v, 1e-11 * S * 50), "GetCenterWidth3DGroup");
  // tangent vectors
  vector<double> nrm, dir; for (int i = 0; i < n; ++i) { D3 z = unit(rnd3(c, 1)), o; for (int t = 0;; ++t) { o = rnd3(c, 1); if (norm(cross(z, o)) > 1e-2 || t > 50) break; } push(nrm, z); push(dir, S * o); }
  auto t = dir; d::TangentVector_Points3(t, nrm); for (int i = 0; i < n; ++i) { D3 z = at(nrm, i), o = at(dir, i), q = unit(o - dot(o, z) * z); VP_CHECK(dist(at(t, i), q) < 1e-9, "TangentVector_Points3 (%g %g %g)", t[3 * i], t[3 * i + 1], t[3 * i + 2]); }
}
VP_PROP(centres, 8000, 40000, "centres of gravity of triangle shells, solids, flagged parts, tetrahedra and polylines, circumscribed radius, area, lumped masses, merging, unreferenced points; non-trivial: area not tiny") {
  double S = c.logreal(1e-3, 1e3); bool closed = c.flip(); Mesh m = closed ? star(c, 3, 0.3) : anymesh(c, false); D3 o = S * rnd3(c, c.pick({0., 1., 20.})); for (size_t i = 0; i < m.xyz.size(); ++i) m.xyz[i] = S * m.xyz[i] + o[i % 3];
  auto &x = m.xyz; auto &tri = m.tri; size_t nt = m.nt(), nv = m.nv(); if (!nt) return; double A = 0; for (size_t t = 0; t < nt; ++t) A += triarea(at(x, tri[3 * t]), at(x, tri[3 * t + 1]), at(x, tri[3 * t + 2]));
  centres<double>(c, x, tri, closed, S); if (c.flip()) centres<float>(c, x, tri, closed, S); if (A > 1e-3 * S * S) c.nontrivial();
  int it = c.below((int) nt); vector<int> ti(tri.begin(), tri.end()); double g[3]; d::CG_Tri(g[0], g[1], g[2], it, x, ti); D3 e = (1.0 / 3) * (at(x, tri[3 * it]) + at(x, tri[3 * it + 1]) + at(x, tri[3 * it + 2])); VP_CHECK(dist(D3{g[0], g[1], g[2]}, e) < 1e-12 * S * 60, "CG_Tri");
  // area with a predicate, lumped mass
  vector<int> keep(nt); for (auto &k: keep) k = c.flip(); double ka = 0; for (size_t t = 0; t < nt; ++t) if (keep[t]) ka += triarea(at(x, tri[3 * t]), at(x, tri[3 * t + 1]), at(x, tri[3 * t + 2])); VP_NEAR(d::Area_MeshTri3(x, tri, [&](U t) { return keep[t] != 0; }), ka, 1e-9 * S * S * 60);
  double rho = c.uni(0.1, 10); vector<double> ms(nv, 77.), me(nv, 0); d::MassPoint_Tri3D(ms.data(), rho, x.data(), nv, tri.data(), nt); for (size_t t = 0; t < nt; ++t) for (int k = 0; k < 3; ++k) me[tri[3 * t + k]] += rho / 3 * triarea(at(x, tri[3 * t]), at(x, tri[3 * t + 1]), at(x, tri[3 * t + 2])); for (size_t i = 0; i < nv; ++i) VP_CHECK(std::abs(ms[i] - me[i]) < 1e-9 * S * S * 60, "MassPoint_Tri3D vertex %zu: %g should be %g", i, ms[i], me[i]);
  vector<double> xy; for (size_t i = 0; i < nv; ++i) { xy.push_back(x[3 * i]); xy.push_back(x[3 * i + 1]); } std::fill(ms.begin(), ms.end(), 77.); std::fill(me.begin(), me.end(), 0.); d::MassPoint_Tri2D(ms.data(), rho, xy.data(), nv, tri.data(), nt);
  double mxa = 0, mna = 0; bool ok = true; for (size_t t = 0; t < nt; ++t) { const double *a = &xy[2 * tri[3 * t]], *b = &xy[2 * tri[3 * t + 1]], *f = &xy[2 * tri[3 * t + 2]]; double ar = 0.5 * ((b[0] - a[0]) * (f[1] - a[1]) - (b[1] - a[1]) * (f[0] - a[0])); for (int k = 0; k < 3; ++k) me[tri[3 * t + k]] += rho / 3 * ar; double l = (std::hypot(a[0] - b[0], a[1] - b[1]) + std::hypot(f[0] - b[0], f[1] - b[1]) + std::hypot(a[0] - f[0], a[1] - f[1])) / 3; if (std::abs(ar) < 1e-4 * S * S) ok = false; double as = l * l / ar; if (!t || as > mxa) mxa = as; if (!t || ar < mna) mna = ar; }
  for (size_t i = 0; i < nv; ++i) VP_CHECK(std::abs(ms[i] - me[i]) < 1e-9 * S * S * 60, "MassPoint_Tri2D");
  if (ok) { double qa, qm; d::Quality_MeshTri2D(qa, qm, xy.data(), tri.data(), (U) nt); VP_CHECK(std::abs(qa - mxa) < 1e-6 * std::abs(mxa) && std::abs(qm - mna) < 1e-9 * S * S * 60, "Quality_MeshTri2D: %g %g should be %g %g", qa, qm, mxa, mna); }
  // polyline, tetrahedra
  { int nl = c.range(1, 8); vector<U> l; D3 s{0, 0, 0}; double L = 0; for (int i = 0; i < nl; ++i) { U a = (U) c.below((int) nv), b = (U) c.below((int) nv); l.push_back(a); l.push_back(b); double w = dist(at(x, a), at(x, b)); L += w; s = s + 0.5 * w * (at(x, a) + at(x, b)); } if (L > 1e-2 * S) { double vt; d::CG_MeshLine3(vt, g, x, l); VP_NEAR(vt, L, 1e-9 * S * 60); VP_CHECK(dist(D3{g[0], g[1], g[2]}, (1 / L) * s) < 1e-8 * S * 60, "CG_MeshLine3"); } }
  if (nv >= 4) { int n4 = c.range(1, 8); vector<U> te; D3 s{0, 0, 0}; double V = 0; vector<double> mm(nv, 0.), mt(nv, 77.); for (int i = 0; i < n4; ++i) { U q[4]; for (auto &z: q) z = (U) c.below((int) nv); double v = tetvol(at(x, q[0]), at(x, q[1]), at(x, q[2]), at(x, q[3])); if (v < 0) { std::swap(q[0], q[1]); v = -v; } for (auto z: q) { te.push_back(z); mm[z] += 0.25 * rho * v; } V += v; s = s + 0.25 * v * (at(x, q[0]) + at(x, q[1]) + at(x, q[2]) + at(x, q[3])); }
    d::MassPoint_Tet3D(mt.data(), rho, x.data(), nv, te.data(), n4); for (size_t i = 0; i < nv; ++i) VP_CHECK(std::abs(mt[i] - mm[i]) < 1e-9 * S * S * S * 60, "MassPoint_Tet3D");
    if (V > 1e-2 * S * S * S) { double vt; d::CG_MeshTet3(vt, g, x, te); VP_NEAR(vt, V, 1e-9 * S * S * S * 60); VP_CHECK(dist(D3{g[0], g[1], g[2]}, (1 / V) * s) < 1e-7 * S * 60, "CG_MeshTet3"); } }
  // merging and removing unreferenced points
  { auto x2 = x; auto t2 = tri; Mesh b = soup(c, 3, 8, 6); d::AddMesh(x2, t2, b.xyz, b.tri); VP_CHECK(x2.size() == x.size() + b.xyz.size() && t2.size() == tri.size() + b.tri.size(), "AddMesh sizes"); for (size_t i = 0; i < x2.size(); ++i) VP_CHECK(x2[i] == (i < x.size() ? x[i] : b.xyz[i - x.size()]), "AddMesh points"); for (size_t i = 0; i < t2.size(); ++i) VP_CHECK(t2[i] == (i < tri.size() ? tri[i] : b.tri[i - tri.size()] + nv), "AddMesh triangles"); }
  { U dim = (U) c.range(1, 3); vector<double> p(nv * dim); for (size_t i = 0; i < p.size(); ++i) p[i] = (double) i; int k = c.range(0, (int) nt); vector<U> e0(tri.begin(), tri.begin() + 3 * k); vector<double> p1; vector<U> e1; vector<int> map; d::RemoveUnreferencedPoints_MeshElem(p1, e1, map, dim, p, e0);
    std::set<U> used(e0.begin(), e0.end()); VP_CHECK(p1.size() == used.size() * dim && map.size() == nv && e1.size() == e0.size(), "RemoveUnreferencedPoints: sizes"); size_t j = 0; for (U i = 0; i < nv; ++i) { if (!used.count(i)) { VP_CHECK(map[i] < 0, "RemoveUnreferencedPoints: kept an unused point"); continue; } VP_CHECK(map[i] == (int) j, "RemoveUnreferencedPoints: order changed"); for (U k2 = 0; k2 < dim; ++k2) VP_CHECK(p1[j * dim + k2] == p[i * dim + k2], "RemoveUnreferencedPoints: coordinates"); ++j; } for (size_t i = 0; i < e0.size(); ++i) VP_CHECK((int) e1[i] == map[e0[i]], "RemoveUnreferencedPoints: elements"); }
}
VP_PROP(extrude, 6000, 30000, "extrusion of planar meshes into conforming positive tetrahedra, smoothing, solid angles of convex bodies, distortion test; non-trivial: more than one layer or triangle") {
  double S = c.logreal(1e-2, 1e2); Mesh m = gridmesh(c.range(1, 4), c.range(1, 4)); vector<U> perm(m.nv()); for (U i = 0; i < perm.size(); ++i) perm[i] = i; c.shuffle(perm.begin(), perm.end()); vector<double> xy(2 * m.nv()); for (U i = 0; i < perm.size(); ++i) { xy[2 * perm[i]] = S * (m.xyz[3 * i] + c.sym(0.1)); xy[2 * perm[i] + 1] = S * (m.xyz[3 * i + 1] + c.sym(0.1)); } auto tri = m.tri; for (auto &v: tri) v = perm[v];
  double A = 0; for (size_t t = 0; t < tri.size(); t += 3) { int r = c.below(3); std::rotate(tri.begin() + t, tri.begin() + t + r, tri.begin() + t + 3); const double *a = &xy[2 * tri[t]], *b = &xy[2 * tri[t + 1]], *f = &xy[2 * tri[t + 2]]; double q = 0.5 * ((b[0] - a[0]) * (f[1] - a[1]) - (b[1] - a[1]) * (f[0] - a[0])); if (q < 0) std::swap(tri[t], tri[t + 1]); A += std::abs(q); }
  int nl = c.range(0, 4); double h = S * c.uni(0.05, 2); vector<double> x; vector<U> tet; d::ExtrudeTri2Tet(nl, h, x, tet, xy, tri); size_t n = perm.size(), nt = tri.size() / 3; if (nl > 1 || nt > 1) c.nontrivial();
  VP_CHECK(x.size() == 3 * n * (nl + 1) && tet.size() == 12 * nt * nl, "ExtrudeTri2Tet sizes"); for (int l = 0; l <= nl; ++l) for (size_t i = 0; i < n; ++i) VP_CHECK(x[3 * (l * n + i)] == xy[2 * i] && x[3 * (l * n + i) + 1] == xy[2 * i + 1] && std::abs(x[3 * (l * n + i) + 2] - l * h) < 1e-12 * S * 10, "ExtrudeTri2Tet point");
  double V = 0; std::map<std::array<U, 3>, int> face; for (size_t t = 0; t < tet.size(); t += 4) { for (int k = 0; k < 4; ++k) VP_CHECK(tet[t + k] < n * (nl + 1), "ExtrudeTri2Tet index"); double v = tetvol(at(x, tet[t]), at(x, tet[t + 1]), at(x, tet[t + 2]), at(x, tet[t + 3])); VP_CHECK(v > 0, "ExtrudeTri2Tet: tetrahedron %zu has volume %g", t / 4, v); V += v; for (int k = 0; k < 4; ++k) { std::array<U, 3> f; for (int j = 0, q = 0; j < 4; ++j) if (j != k) f[q++] = tet[t + j]; std::sort(f.begin(), f.end()); face[f]++; } }
  VP_NEAR(V, A * h * nl, 1e-9 * A * h * (nl + 1)); size_t nb = 0; for (auto &f: face) { VP_CHECK(f.second <= 2, "ExtrudeTri2Tet: a face with %d tetrahedra", f.second); nb += f.second == 1; } std::map<std::pair<U, U>, int> ed; for (size_t t = 0; t < nt; ++t) for (int k = 0; k < 3; ++k) { U a = tri[3 * t + k], b = tri[3 * t + (k + 1) % 3]; ed[{std::min(a, b), std::max(a, b)}]++; } size_t be = 0; for (auto &e: ed) be += e.second == 1;
  VP_CHECK(nb == (nl ? 2 * nt + 2 * be * nl : 0), "ExtrudeTri2Tet: %zu faces without neighbour, %zu on the boundary (not conforming)", nb, 2 * nt + 2 * be * nl);
  // smoothing
  { Mesh s = c.flip() ? star(c, 2, 0.2) : gridmesh(c.range(1, 3), c.range(1, 3)); push(s.xyz, rnd3(c, 2)); size_t nv = s.nv(); for (auto &z: s.xyz) z *= S; vector<int> ti(s.tri.begin(), s.tri.end()), ind(nv + 1, 0), el; for (U i = 0; i < nv; ++i) { for (U t = 0; t < s.nt(); ++t) for (int k = 0; k < 3; ++k) if (s.tri[3 * t + k] == i) el.push_back((int) t); ind[i + 1] = (int) el.size(); }
    auto y = s.xyz; d::LaplacianSmoothing(y, ti, ind, el); auto z = s.xyz; for (U i = 0; i < nv; ++i) { D3 q{0, 0, 0}; double a = 0; for (int k = ind[i]; k < ind[i + 1]; ++k) { const U *v = &s.tri[3 * el[k]]; double w = triarea(at(z, v[0]), at(z, v[1]), at(z, v[2])); a += w; q = q + (w / 3) * (at(z, v[0]) + at(z, v[1]) + at(z, v[2])); } if (a > 0) { q = (1 / a) * q; for (int k = 0; k < 3; ++k) z[3 * i + k] = q[k]; } } for (size_t i = 0; i < y.size(); ++i) VP_CHECK(std::abs(y[i] - z[i]) < 1e-9 * S, "LaplacianSmoothing: coordinate %zu is %g, should be %g", i, y[i], z[i]); }
  // solid angle of a triangle, and of the outside of a convex body at its vertices
  { D3 a = unit(rnd3(c, 1)), b = unit(rnd3(c, 1)), f = unit(rnd3(c, 1)); double det = dot(cross(a, b), f); if (std::abs(det) > 1e-2) { double s = c.logreal(1e-3, 1e3), t = c.logreal(1e-3, 1e3); D3 a2 = s * a, b2 = t * b; auto ang = [](D3 p, D3 q, D3 r) { D3 n1 = unit(cross(p, q)), n2 = unit(cross(p, r)); return std::atan2(norm(cross(n1, n2)), dot(n1, n2)); }; double E = ang(a, b, f) + ang(b, f, a) + ang(f, a, b) - M_PI; double w = d::SolidAngleTri3D(a2.data(), b2.data(), f.data()); VP_NEAR(w, det > 0 ? E : 4 * M_PI - E, 1e-6); } }
  { Mesh s = octasphere(c.range(1, 2)); auto R = rotation(c); D3 sc{c.uni(0.5, 2), c.uni(0.5, 2), c.uni(0.5, 2)}; vector<double> nr; for (U i = 0; i < s.nv(); ++i) { D3 p = at(s.xyz, i); D3 q{p[0] * sc[0], p[1] * sc[1], p[2] * sc[2]}, g{p[0] / sc[0], p[1] / sc[1], p[2] / sc[2]}; q = mul(R, q); g = unit(mul(R, g)); for (int k = 0; k < 3; ++k) s.xyz[3 * i + k] = S * q[k]; push(nr, g); } push(s.xyz, S * rnd3(c, 1)); push(nr, unit(rnd3(c, 1)));
    vector<int> ind(s.nv() + 1, 0), el; for (U i = 0; i < s.nv(); ++i) { for (U t = 0; t < s.nt(); ++t) for (int k = 0; k < 3; ++k) if (s.tri[3 * t + k] == i) el.push_back((int) t); ind[i + 1] = (int) el.size(); }
    vector<double> sa; d::makeSolidAngle(sa, s.xyz, s.tri, nr, ind, el); VP_CHECK(sa.size() == s.nv() && sa.back() == -1, "makeSolidAngle: isolated vertex");
    for (U i = 0; i + 1 < s.nv(); ++i) { double sum = 0; int k0 = ind[i], k1 = ind[i + 1]; // interior angle = sum of the dihedral angles - (n-2) pi
      for (int k = k0; k < k1; ++k) { const U *v = &s.tri[3 * el[k]]; int j = v[0] == i ? 0 : v[1] == i ? 1 : 2; U p1 = v[(j + 1) % 3], p2 = v[(j + 2) % 3]; for (int q = k0; q < k1; ++q) { const U *w = &s.tri[3 * el[q]]; int r = w[0] == i ? 0 : w[1] == i ? 1 : 2; if (w[(r + 1) % 3] != p2) continue; D3 n1 = unit(cross(at(s.xyz, p1) - at(s.xyz, i), at(s.xyz, p2) - at(s.xyz, i))), n2 = unit(cross(at(s.xyz, p2) - at(s.xyz, i), at(s.xyz, w[(r + 2) % 3]) - at(s.xyz, i))); sum += M_PI - std::atan2(norm(cross(n1, n2)), dot(n1, n2)); } }
      VP_NEAR(sa[i], 4 * M_PI - (sum - (k1 - k0 - 2) * M_PI), 1e-6); } }
  { vector<double> X, Y; for (int i = 0; i < 3; ++i) { push(X, S * rnd3(c, 1)); Y.push_back(S * c.sym(1)); Y.push_back(S * c.sym(1)); } int kind = c.below(3); if (kind) { double k = kind == 1 ? 1 : c.uni(0.5, 2); auto R = rotation(c); for (int i = 0; i < 3; ++i) { D3 q = mul(R, D3{Y[2 * i], Y[2 * i + 1], 0}); for (int j = 0; j < 3; ++j) X[3 * i + j] = k * q[j]; } }
    auto l3 = [&](int i, int j) { return dist(at(X, i), at(X, j)); }; auto l2 = [&](int i, int j) { return std::hypot(Y[2 * i] - Y[2 * j], Y[2 * i + 1] - Y[2 * j + 1]); }; double a3 = triarea(at(X, 0), at(X, 1), at(X, 2)), a2 = 0.5 * ((Y[2] - Y[0]) * (Y[5] - Y[1]) - (Y[3] - Y[1]) * (Y[4] - Y[0]));
    if (std::abs(a2) > 1e-3 * S * S && a3 > 1e-3 * S * S) { double tA = c.uni(1, 4), tE = c.uni(1, 3), sA = 0.5 * (a2 / a3 + a3 / a2), mg = std::abs(sA - tA); bool bad = sA < 0 || sA > tA; for (int i = 0; i < 3; ++i) { double r = l2(i, (i + 1) % 3) / l3(i, (i + 1) % 3), e = 0.5 * (r + 1 / r); mg = std::min(mg, std::abs(e - tE)); bad |= e > tE; } if (mg > 1e-9) VP_CHECK(d::Distortion_MappingTriangleFrom2To3Dim(tA, tE, 0, {0, 1, 2}, X, Y) == bad, "Distortion_MappingTriangleFrom2To3Dim should be %d", bad); } }
}
