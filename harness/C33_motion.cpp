// C33: grid fluids, direction fields, parametric patches, plane rigid bodies, two-view geometry
// SCALE: 15 240
#include "common.hpp"
#include <iostream>
#include <sstream>
#include <algorithm>
#include <climits>
#include <array>
#include <cassert>
#include <cmath>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/quat.h"
#include "delfem2/fdm_stablefluids.h"
#include "delfem2/4rotsym.h"
#include "delfem2/geo_curve_cubic.h"
#include "delfem2/geo_surface_parametric.h"
#include "delfem2/rgd_v2m3.h"
#include "delfem2/cvbundleadjust.h"
#include "delfem2/kinetic_damping.h"
#include "delfem2/geo_aabb.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::array;
typedef vector<double> V; typedef unsigned int U;
namespace {
struct Quiet { std::streambuf *o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
d::CVec3d cv(D3 a) { return {a[0], a[1], a[2]}; }
D3 dv(const d::CVec3d &a) { return {a.x, a.y, a.z}; }
D3 rodr(D3 w, D3 v) { double a = norm(w); if (a < 1e-300) return v; D3 u = (1 / a) * w; return std::cos(a) * v + std::sin(a) * cross(u, v) + ((1 - std::cos(a)) * dot(u, v)) * u; }
D2 turn(double t, D2 v) { return {std::cos(t) * v[0] - std::sin(t) * v[1], std::sin(t) * v[0] + std::cos(t) * v[1]}; }
D2 d2(const d::CVec2d &a) { return {a.p[0], a.p[1]}; }
// bilinear value, constant outside the grid
template<class F> double bil(F f, int ni, int nj, double x, double y) { x = std::min(std::max(x, 0.), ni - 1.); y = std::min(std::max(y, 0.), nj - 1.); int i = std::min((int) x, ni - 2), j = std::min((int) y, nj - 2); double a = x - i, b = y - j; return (1 - b) * ((1 - a) * f(i, j) + a * f(i + 1, j)) + b * ((1 - a) * f(i, j + 1) + a * f(i + 1, j + 1)); }
struct Cand { D3 o; U diff; double dt; };
// all best pairs of a direction of the first cross and one of the second
bool nearest(vector<Cand> &out, D3 o0, D3 n0, D3 o1, D3 n1, double w) {
  D3 a[2] = {o0, cross(n0, o0)}, p1 = cross(n1, o1), b[4] = {o1, p1, -1. * o1, -1. * p1}; double mx = -9; for (auto &x: a) for (auto &y: b) mx = std::max(mx, dot(x, y)); out.clear();
  for (U i = 0; i < 2; ++i) for (U j = 0; j < 4; ++j) { double g = dot(a[i], b[j]); if (g < mx - 1e-8) continue; D3 s = w * a[i] + b[j]; s = s - dot(s, n0) * n0; if (norm(s) < 1e-4) return false; s = unit(s); if (i == 1) s = cross(s, n0); out.push_back({s, (i + 4 - j) % 4, g}); }
  return true; }
struct Pt3 { typedef double Scalar; static constexpr int SizeAtCompileTime = 3; D3 v; double operator[](int i) const { return v[i]; } };
D3 bez(const D3 *p, double t) { D3 q[4] = {p[0], p[1], p[2], p[3]}; for (int k = 3; k > 0; --k) for (int i = 0; i < k; ++i) q[i] = (1 - t) * q[i] + t * q[i + 1]; return q[0]; }
}
VP_PROP(fluid, 3000, 15000, "bilinear interpolation, divergence, pressure solve, projection and semi-Lagrangian advection on random grids and velocities vs their definitions; the projected velocity is free of divergence; advection stays between the extreme values; non-trivial: a grid of 4x4 cells") {
  int ni = c.range(2, 9), nj = c.range(2, 9); double h = c.logreal(0.05, 2), dt = c.logreal(1e-3, 3); if (ni >= 4 && nj >= 4) c.nontrivial(); Quiet quiet; typedef FdmArray2<double> A1; typedef FdmArray2<array<double, 2>> A2;
  A1 u(ni + 1, nj, 0.), v(ni, nj + 1, 0.); for (double &x: u.v) x = c.sym(1); for (double &x: v.v) x = c.sym(1);
  { A2 g(ni, nj); for (auto &x: g.v) x = {c.sym(1), c.sym(1)}; for (int k = 0; k < 6; ++k) { double x = c.flip() ? c.real(0, ni - 1) : c.sym(2. * ni), y = c.flip() ? c.real(0, nj - 1) : c.sym(2. * nj); if (c.chance(1, 4)) x = std::floor(x); int q = c.below(2); double r = LinearInterpolationOnGrid2<2>(g, q, x, y), e = bil([&](int i, int j) { return g.v[i + ni * j][q]; }, ni, nj, x, y); VP_NEAR(r, e, 1e-8); if (x < 0 || y < 0 || x > ni - 1 || y > nj - 1) c.label("outside"); } int i = c.range(-3, ni + 3), j = c.range(-3, nj + 3); VP_CHECK(g.ClampedFetch(i, j) == g.v[std::min(std::max(i, 0), ni - 1) + ni * std::min(std::max(j, 0), nj - 1)], "clamped fetch"); }
  if (c.flip()) { // projection with walls around the grid
    for (int j = 0; j < nj; ++j) u(0, j) = u(ni, j) = 0; for (int i = 0; i < ni; ++i) v(i, 0) = v(i, nj) = 0; A1 dd(ni, nj), p(ni, nj, 0.), u0 = u, v0 = v; Divergence_StaggerdGrid2(dd, ni, nj, u, v, h); for (int i = 0; i < ni; ++i) for (int j = 0; j < nj; ++j) VP_NEAR(dd(i, j), (u(i + 1, j) - u(i, j) + v(i, j + 1) - v(i, j)) / h, 1e-12 / h); double s = c.logreal(0.1, 10); if (c.flip()) for (double &x: p.v) x = c.sym(1);
    SolvePoissionEquationOnGrid2ByGaussSeidelMethod(p, dd, s, ni, nj, 1200); for (int i = 0; i < ni; ++i) for (int j = 0; j < nj; ++j) { auto f = [&](int a, int b) { return p(std::min(std::max(a, 0), ni - 1), std::min(std::max(b, 0), nj - 1)); }; VP_NEAR(f(i + 1, j) + f(i - 1, j) + f(i, j + 1) + f(i, j - 1) - 4 * p(i, j), s * dd(i, j), 1e-7 * (1 + s / h)); }
    SubstructPressureGradient_StaggeredGrid2(u, v, ni, nj, h / s, p); for (int j = 0; j < nj; ++j) VP_CHECK(u(0, j) == 0 && u(ni, j) == 0, "flow through the wall"); for (int i = 0; i < ni; ++i) VP_CHECK(v(i, 0) == 0 && v(i, nj) == 0, "flow through the wall"); for (int i = 1; i < ni; ++i) for (int j = 0; j < nj; ++j) VP_NEAR(u(i, j), u0(i, j) - h / s * (p(i, j) - p(i - 1, j)), 1e-9 * (1 + std::abs(h / s))); Divergence_StaggerdGrid2(dd, ni, nj, u, v, h); for (double x: dd.v) VP_NEAR(x * h, 0, 1e-6 * (1 + h / s)); c.label("projection"); }
  else if (c.flip()) { A2 ut(ni + 1, nj), vt(ni, nj + 1); A1 u0 = u, v0 = v; auto U0 = [&](int i, int j) { return u0(std::min(std::max(i, 0), ni), std::min(std::max(j, 0), nj - 1)); }; auto V0 = [&](int i, int j) { return v0(std::min(std::max(i, 0), ni - 1), std::min(std::max(j, 0), nj)); }; AdvectionSemiLagrangian_StaggeredGrid2(u, v, ut, vt, ni, nj, dt, h);
    for (int i = 0; i <= ni; ++i) for (int j = 0; j < nj; ++j) { double b = (V0(i - 1, j) + V0(i, j) + V0(i - 1, j + 1) + V0(i, j + 1)) / 4; VP_NEAR(u(i, j), bil(U0, ni + 1, nj, i - U0(i, j) * dt / h, j - b * dt / h), 1e-8); VP_CHECK(std::abs(u(i, j)) < 1 + 1e-9, "advection amplifies"); }
    for (int i = 0; i < ni; ++i) for (int j = 0; j <= nj; ++j) { double b = (U0(i, j - 1) + U0(i + 1, j - 1) + U0(i, j) + U0(i + 1, j)) / 4; VP_NEAR(v(i, j), bil(V0, ni, nj + 1, i - b * dt / h, j - V0(i, j) * dt / h), 1e-8); } c.label("staggered advection"); }
  else { A2 w(ni, nj), t(ni, nj), w0(ni, nj); for (auto &x: w.v) x = {c.sym(1), c.sym(1)}; w0 = w; AdvectionSemiLagrangian_CellCenteredGrid2(w, t, ni, nj, dt, h); for (int i = 0; i < ni; ++i) for (int j = 0; j < nj; ++j) for (int q = 0; q < 2; ++q) VP_NEAR(w(i, j)[q], bil([&](int a, int b) { return w0.v[a + ni * b][q]; }, ni, nj, i - w0(i, j)[0] * dt / h, j - w0(i, j)[1] * dt / h), 1e-8);
    A1 dd(ni, nj, 7.), p(ni, nj); for (double &x: p.v) x = c.sym(1); Divergence_CellCenteredGrid2(dd, ni, nj, w0, h); w = w0; double s = c.sym(3); SubstructPressureGradient_CellCenteredGrid2(w, ni, nj, s, p); for (int i = 0; i < ni; ++i) for (int j = 0; j < nj; ++j) { bool in = i > 0 && j > 0 && i < ni - 1 && j < nj - 1; VP_NEAR(dd(i, j), in ? -(w0(i + 1, j)[0] - w0(i - 1, j)[0] + w0(i, j + 1)[1] - w0(i, j - 1)[1]) / h : 7., 1e-11 * (1 + 1 / h)); VP_NEAR(w(i, j)[0], w0(i, j)[0] + (in ? s * (p(i + 1, j) - p(i - 1, j)) / 2 : 0), 1e-12); VP_NEAR(w(i, j)[1], w0(i, j)[1] + (in ? s * (p(i, j + 1) - p(i, j - 1)) / 2 : 0), 1e-12); } c.label("cell-centred"); }
}
VP_PROP(rotsym, 6000, 30000, "nearest representative of a four-fold symmetric direction, and smoothing of direction fields in order, in random order and in the plane, vs the definition, vertex by vertex; results are tangent unit vectors; non-trivial: six points with different normals") {
  int n = c.range(2, 12); bool flat = c.chance(1, 4), aligned = c.chance(1, 6); V o(3 * n), nm(3 * n); vector<D3> O, N; D3 z0 = unit(rnd3(c, 1) + D3{0, 0, 1.01}); for (int i = 0; i < n; ++i) { D3 m = flat || aligned ? z0 : unit(rnd3(c, c.flip() ? 0.4 : 1) + D3{1e-3, 0, 1.001}), t = cross(m, std::abs(m[0]) < 0.7 ? D3{1, 0, 0} : D3{0, 1, 0}); t = rodr((aligned ? c.range(0, 3) * M_PI / 2 : c.sym(M_PI)) * m, unit(t)); O.push_back(t); N.push_back(m); for (int k = 0; k < 3; ++k) { o[3 * i + k] = t[k]; nm[3 * i + k] = m[k]; } } if (n >= 6 && !flat && !aligned) c.nontrivial();
  { int i = c.below(n), j = c.below(n); double w = c.chance(1, 3) ? 0. : c.real(0, 8); U df = 99; vector<Cand> q; if (nearest(q, O[i], N[i], O[j], N[j], w)) { D3 r = dv(d::FindNearestOrientation(df, cv(O[i]), cv(N[i]), cv(O[j]), cv(N[j]), w)); bool ok = false; for (auto &x: q) if (norm(x.o - r) < 1e-8 && x.diff == df) ok = true; VP_CHECK(ok, "representative (%g %g %g), turns %u is not the nearest", r[0], r[1], r[2], df); VP_NEAR(norm(r), 1, 1e-12); VP_NEAR(dot(r, N[i]), 0, 1e-12); } }
  vector<std::set<U>> s(n); int ne = c.range(1, n + n / 2); for (int k = 0; k < ne; ++k) { int a = c.below(n), b = c.below(n); if (a != b && s[a].size() < 3 && s[b].size() < 3) { s[a].insert(b); s[b].insert(a); } } vector<U> ind{0}, lst; for (int i = 0; i < n; ++i) { vector<U> x(s[i].begin(), s[i].end()); if (c.flip()) std::reverse(x.begin(), x.end()); lst.insert(lst.end(), x.begin(), x.end()); ind.push_back((U) lst.size()); }
  int kind = c.below(3); V r = o; vector<U> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; V o2(2 * n); if (kind == 2) for (int i = 0; i < n; ++i) { double a = aligned ? 0.3 + c.range(0, 3) * M_PI / 2 : c.sym(M_PI); O[i] = {std::cos(a), std::sin(a), 0}; N[i] = {0, 0, 1}; o2[2 * i] = O[i][0]; o2[2 * i + 1] = O[i][1]; }
  if (kind == 0) d::Smooth4RotSym(r, nm, ind, lst); else if (kind == 1) { for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[c.below(i + 1)]); d::Smooth4RotSym_RandomPermutation(r, perm, nm, ind, lst); vector<U> q = perm; std::sort(q.begin(), q.end()); for (int i = 0; i < n; ++i) VP_CHECK((int) q[i] == i, "order is not a permutation"); } else { d::Smooth4RotSym2(o2.data(), n, ind.data(), lst.data()); for (int i = 0; i < n; ++i) { r[3 * i] = o2[2 * i]; r[3 * i + 1] = o2[2 * i + 1]; r[3 * i + 2] = 0; } } c.label(kind == 0 ? "in order" : kind == 1 ? "random order" : "plane");
  for (int a = 0; a < n; ++a) { U i = perm[a]; D3 got = P3(r, i); vector<U> x(lst.begin() + ind[i], lst.begin() + ind[i + 1]); vector<U> ord = x; if (kind == 1) std::sort(ord.begin(), ord.end()); bool ok = false, skip = false; do { D3 cur = O[i]; double w = kind == 2 ? 1 : 0; for (U j: ord) { vector<Cand> q; if (!nearest(q, cur, N[i], O[j], N[j], w)) { skip = true; break; } for (auto &y: q) if (norm(y.o - q[0].o) > 1e-7) skip = true; if (skip) break; cur = q[0].o; w += 1; } if (!skip && norm(cur - got) < 1e-6) ok = true; } while (!ok && !skip && kind == 1 && std::next_permutation(ord.begin(), ord.end())); VP_CHECK(ok || skip, "smoothed direction of point %u is wrong (%zu neighbours)", i, x.size()); VP_NEAR(norm(got), 1, 1e-9); VP_NEAR(dot(got, N[i]), 0, 1e-9); if (aligned) { double k = std::abs(dot(got, O[i])); VP_CHECK(k < 1e-6 || k > 1 - 1e-6, "aligned field turns"); } O[i] = got; }
}
VP_PROP(patch, 6000, 30000, "Coons, Hermite and Bezier patches on random control points: border curves, bilinear precision and definition; sampled Bezier patch; non-trivial: interior parameter") {
  D3 P[16]; for (auto &x: P) x = rnd3(c, 2); d::CVec3d q[16]; vector<d::CVec3d> qs; for (int i = 0; i < 16; ++i) { q[i] = cv(P[i]); qs.push_back(q[i]); } double u = c.real(0, 1), v = c.real(0, 1), side = c.flip() ? 1 : 0; c.nontrivial(u > 0 && v > 0); auto pick = [&](std::initializer_list<int> l, double t) { D3 b[4]; int k = 0; for (int i: l) b[k++] = P[i]; return bez(b, t); };
  for (int kind = 0; kind < 3; ++kind) { auto f = [&](double a, double b) { return dv(kind == 0 ? d::getPointCoonsQuad_CubicBezier(a, b, q) : kind == 1 ? d::getPointCoonsQuad_CubicBezierEdge(a, b, q) : d::getPointHermetianQuad(a, b, q)); }; VP_CHECK(((norm(f(u, side) - (side ? pick({9, 8, 7, 6}, u) : pick({0, 1, 2, 3}, u))) < 1e-11 && norm(f(side, v) - (side ? pick({3, 4, 5, 6}, v) : pick({0, 11, 10, 9}, v))) < 1e-11)), "patch %d does not meet its border curve", kind); D3 r = f(u, v);
    if (kind < 2) { D3 e = (1 - v) * pick({0, 1, 2, 3}, u) + v * pick({9, 8, 7, 6}, u) + (1 - u) * pick({0, 11, 10, 9}, v) + u * pick({3, 4, 5, 6}, v) - ((1 - u) * (1 - v) * P[0] + u * (1 - v) * P[3] + u * v * P[6] + (1 - u) * v * P[9]); VP_CHECK(norm(r - e) < 1e-11, "Coons patch %d off by %g", kind, norm(r - e)); }
    else { auto hh = [](double t, double *w) { w[0] = (1 + 2 * t) * (1 - t) * (1 - t); w[1] = t * t * (3 - 2 * t); w[2] = 3 * t * (1 - t) * (1 - t); w[3] = 3 * t * t * (1 - t); }; double a[4], b[4]; hh(u, a); hh(v, b); D3 e = a[0] * b[0] * P[0] + a[1] * b[0] * P[3] + a[1] * b[1] * P[6] + a[0] * b[1] * P[9] + a[2] * b[0] * (P[1] - P[0]) + a[3] * b[0] * (P[2] - P[3]) + a[3] * b[1] * (P[7] - P[6]) + a[2] * b[1] * (P[8] - P[9]) + a[0] * b[2] * (P[11] - P[0]) + a[1] * b[2] * (P[4] - P[3]) + a[1] * b[3] * (P[5] - P[6]) + a[0] * b[3] * (P[10] - P[9]); VP_CHECK(norm(r - e) < 1e-11, "Hermite patch off by %g", norm(r - e)); } }
  { double a = c.real(0.02, 1), b = c.real(0.02, 1), g = c.real(0.02, 1); if (c.chance(1, 3)) g = 0; double s = a + b + g; a /= s; b /= s; g /= s; int k = c.below(3); double w[3]; w[k] = a; w[(k + 1) % 3] = b; w[(k + 2) % 3] = g; D3 r = dv(d::getPointCoonsTri_CubicBezierEdge(w[0], w[1], w[2], q)), e = (1 - w[0]) * pick({3, 4, 5, 6}, w[2] / (1 - w[0])) + (1 - w[1]) * pick({6, 7, 8, 0}, w[0] / (1 - w[1])) + (1 - w[2]) * pick({0, 1, 2, 3}, w[1] / (1 - w[2])) - (w[0] * P[0] + w[1] * P[3] + w[2] * P[6]); VP_CHECK(norm(r - e) < 1e-9, "triangular patch off by %g", norm(r - e)); if (g == 0) { D3 z = k == 0 ? pick({0, 1, 2, 3}, w[1]) : k == 1 ? pick({3, 4, 5, 6}, w[2]) : pick({6, 7, 8, 0}, w[0]); VP_CHECK(norm(r - z) < 1e-9, "triangular patch does not meet its border"); } }
  int n = c.range(1, 6); vector<d::CVec3d> S; if (c.flip()) S.resize(c.below(60)); d::getCubicBezierSurface(n, S, qs); VP_CHECK((int) S.size() == (n + 1) * (n + 1), "samples"); auto bs = [&](double a, double b) { D3 t[4]; for (int i = 0; i < 4; ++i) t[i] = bez(P + 4 * i, b); return bez(t, a); }; for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) VP_CHECK(norm(dv(S[i * (n + 1) + j]) - bs((double) i / n, (double) j / n)) < 1e-11, "sampled Bezier patch");
  D3 r = dv(d::getPointSurfaceBezierCubic(u, v, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8], q[9], q[10], q[11], q[12], q[13], q[14], q[15])); VP_CHECK(norm(r - bs(u, v)) < 1e-11, "Bezier patch off by %g", norm(r - bs(u, v)));
}
VP_PROP(rigid2, 4000, 20000, "steps of plane rigid bodies: free flight, immovable bodies, linear momentum of crowds, and a vertex pushed into an edge: penetration removed, equal and opposite friction inside the cone which slows the sliding without reversing it; non-trivial: a contact") {
  auto body = [&](int k, double r) { d::CRigidState2 s; s.is_fix = false; D2 l = {c.sym(1), c.sym(1)}; s.posl = d::CVec2d(l[0], l[1]); double a0 = c.sym(M_PI); for (int i = 0; i < k; ++i) { s.shape.emplace_back(l[0] + r * std::cos(a0 + 2 * M_PI * i / k), l[1] + r * std::sin(a0 + 2 * M_PI * i / k)); s.shape_velo.emplace_back(c.sym(0.1), c.sym(0.1)); } s.mass = c.logreal(0.3, 3); s.I = s.mass * c.logreal(0.1, 1) ; s.posg = d::CVec2d(c.sym(2), c.sym(2)); s.theta = c.sym(M_PI); s.velo = d::CVec2d(c.sym(1), c.sym(1)); s.omega = c.sym(1); s.posg_tmp = s.posg; s.theta_tmp = 0; return s; };
  double dt = c.logreal(1e-3, 0.05); D2 gr = {0, c.flip() ? 0 : -9.8}; d::CVec2d G(gr[0], gr[1]);
  if (c.flip()) { int n = c.range(1, 5); bool crowd = c.flip(), fixed = c.chance(1, 3); vector<d::CRigidState2> R; for (int i = 0; i < n; ++i) { R.push_back(body(c.range(3, 6), c.real(0.3, 1))); if (!crowd) R.back().posg = d::CVec2d(5. * i, c.sym(1)); if (fixed && c.flip()) R.back().is_fix = true; } int steps = c.range(1, 8); for (int it = 0; it < steps; ++it) { auto o = R; d::Steptime_Rgd2(R, dt, G); D2 m0{0, 0}, m1{0, 0}; double M = 0, sz = 0; bool anyfix = false; for (int i = 0; i < n; ++i) { if (o[i].is_fix) { anyfix = true; VP_CHECK(d2(R[i].posg) == d2(o[i].posg) && R[i].theta == o[i].theta, "fixed body moves"); VP_CHECK(norm(d2(R[i].velo)) == 0 && R[i].omega == 0, "fixed body has a velocity"); continue; } m0 = m0 + o[i].mass * d2(o[i].velo); m1 = m1 + o[i].mass * d2(R[i].velo); M += o[i].mass; sz += o[i].mass * (norm(d2(o[i].velo)) + norm(d2(R[i].velo)) + 10); if (!crowd) { D2 v = d2(o[i].velo) + dt * gr; VP_CHECK(norm(d2(R[i].velo) - v) < 1e-9 && norm(d2(R[i].posg) - d2(o[i].posg) - dt * v) < 1e-11 && std::abs(R[i].omega - o[i].omega) < 1e-9 && std::abs(R[i].theta - o[i].theta - dt * o[i].omega) < 1e-11, "free flight"); } } if (!anyfix) VP_CHECK(norm(m1 - m0 - (M * dt) * gr) < 1e-10 * (sz + M / dt), "momentum changes by %g %g", m1[0] - m0[0], m1[1] - m0[1]); if (crowd && n > 1) c.nontrivial(); } c.label(crowd ? "crowd" : "free"); return; }
  d::CRigidState2 B = body(c.range(3, 5), 3), A = body(3, 1); int kb = (int) B.shape.size(), ke = c.below(kb), ka = c.below(3); double t = c.real(0.3, 0.7), dep = c.logreal(1e-4, 0.02); int fx = c.below(3); if (fx == 0) B.is_fix = true; if (fx == 1 && c.chance(1, 3)) A.is_fix = true; auto wpos = [](const d::CRigidState2 &s, D2 g, double th, D2 x) { return turn(th, x - d2(s.posl)) + g; };
  D2 vA0 = A.is_fix ? D2{0, 0} : d2(A.velo) + dt * gr, vB0 = B.is_fix ? D2{0, 0} : d2(B.velo) + dt * gr; double tA = A.is_fix ? A.theta : A.theta + dt * A.omega, tB = B.is_fix ? B.theta : B.theta + dt * B.omega; D2 gB = d2(B.posg) + dt * vB0; D2 e0 = wpos(B, gB, tB, d2(B.shape[ke])), e1 = wpos(B, gB, tB, d2(B.shape[(ke + 1) % kb])), n0 = (1 / norm(e1 - e0)) * D2{(e1 - e0)[1], -(e1 - e0)[0]}; D2 target = (1 - t) * e0 + t * e1 - dep * n0;
  // turn A so that its vertex points into B
  D2 arm = d2(A.shape[ka]) - d2(A.posl); double want = std::atan2(-n0[1], -n0[0]) + c.sym(0.4); tA = want - std::atan2(arm[1], arm[0]); A.theta = A.is_fix ? tA : tA - dt * A.omega; D2 gA = target - turn(tA, arm); D2 pg = gA - dt * vA0; A.posg = d::CVec2d(pg[0], pg[1]); bool first = c.flip(); vector<d::CRigidState2> R; R.push_back(first ? A : B); R.push_back(first ? B : A); d::Steptime_Rgd2(R, dt, G); auto &a = R[first ? 0 : 1], &b = R[first ? 1 : 0]; c.nontrivial(); c.label("contact");
  double lamA = A.is_fix ? 0 : A.mass * norm(d2(a.posg) - gA), lamB = B.is_fix ? 0 : B.mass * norm(d2(b.posg) - gB), lam = std::max(lamA, lamB); VP_CHECK(A.is_fix || B.is_fix || std::abs(lamA - lamB) < 1e-9, "push of the two bodies %g %g", lamA, lamB); VP_CHECK(lam > 0, "contact is ignored at depth %g", dep); if (!A.is_fix) VP_CHECK(norm((A.mass) * (d2(a.posg) - gA) - lam * n0) < 1e-9, "A is not pushed along the normal"); if (!B.is_fix) VP_CHECK(norm((B.mass) * (d2(b.posg) - gB) + lam * n0) < 1e-9, "B is not pushed along the normal");
  // penetration left
  D2 pa = wpos(a, d2(a.posg), a.theta, d2(A.shape[ka])); D2 f0 = wpos(b, d2(b.posg), b.theta, d2(B.shape[ke])), f1 = wpos(b, d2(b.posg), b.theta, d2(B.shape[(ke + 1) % kb])), nn = (1 / norm(f1 - f0)) * D2{(f1 - f0)[1], -(f1 - f0)[0]}; double left = -dot(pa - f0, nn); VP_CHECK(std::abs(left) < 0.35 * dep + 30 * dep * dep, "penetration %g of %g is left", left, dep);
  // friction
  D2 uA = A.is_fix ? D2{0, 0} : (1 / dt) * (d2(a.posg) - d2(A.posg)), uB = B.is_fix ? D2{0, 0} : (1 / dt) * (d2(b.posg) - d2(B.posg)); double oA = A.is_fix ? 0 : (a.theta - A.theta) / dt, oB = B.is_fix ? 0 : (b.theta - B.theta) / dt; D2 jA = A.mass * (d2(a.velo) - uA), jB = B.mass * (d2(b.velo) - uB); double big = 1e-9 * (1 + (lam + A.mass + B.mass) / dt); D2 pBs = (1 - t) * d2(B.shape[ke]) + t * d2(B.shape[(ke + 1) % kb]), vBs = (1 - t) * d2(B.shape_velo[ke]) + t * d2(B.shape_velo[(ke + 1) % kb]); D2 pb = wpos(b, d2(b.posg), b.theta, pBs); D2 ra = pa - d2(a.posg), rb = pb - d2(b.posg); D2 tg = {-nn[1], nn[0]};
  D2 j = A.is_fix ? -1. * jB : jA; if (!A.is_fix && !B.is_fix) VP_CHECK(norm(jA + jB) < big, "friction is not equal and opposite"); VP_CHECK(std::abs(dot(j, nn)) < big, "friction along the normal"); if (!A.is_fix) VP_CHECK(std::abs(A.I * (a.omega - oA) - cross(ra, jA)) < big, "friction torque on A"); if (!B.is_fix) VP_CHECK(std::abs(B.I * (b.omega - oB) - cross(rb, jB)) < big, "friction torque on B"); VP_CHECK(norm(j) < lam / dt + big, "friction %g exceeds the cone %g", norm(j), lam / dt);
  auto slip = [&](D2 va, double wa, D2 vb, double wb) { D2 x = va + wa * D2{-ra[1], ra[0]} + turn(a.theta, d2(A.shape_velo[ka])) - vb - wb * D2{-rb[1], rb[0]} - turn(b.theta, vBs); return dot(x, tg); }; double s0 = slip(uA, oA, uB, oB), s1 = slip(A.is_fix ? D2{0, 0} : d2(a.velo), A.is_fix ? 0 : a.omega, B.is_fix ? D2{0, 0} : d2(b.velo), B.is_fix ? 0 : b.omega); double st = 1e-7 * (1 + std::abs(s0)) + big * 10; VP_CHECK(std::abs(s1) < std::abs(s0) + st && s0 * s1 > -st * (std::abs(s0) + 1), "sliding %g becomes %g", s0, s1); VP_CHECK(std::abs(s1) < st || norm(j) > lam / dt - big, "sliding %g goes on though friction %g is inside the cone %g", s1, norm(j), lam / dt);
}
VP_PROP(twoview, 6000, 30000, "reprojection error of two views and its derivative by depth, translation and rotation vs the pin-hole model and finite differences; kinetic damping and box tests vs their definition; non-trivial: three points or more") {
  int n = c.range(1, 6); if (n >= 3) c.nontrivial(); double f = c.real(0.6, 3), cx = c.sym(0.5), cy = c.sym(0.5), sk = c.sym(0.1); double Ki[9] = {1 / f, 0, -cx / f, 0, 1 / f, -cy / f, 0, 0, 1}, K[9] = {f, sk, cx, 0, f * c.real(0.8, 1.2), cy, 0, 0, 1}, R[9], t[3]; D3 w = rnd3(c, 0.3), tt = rnd3(c, 0.3); for (int k = 0; k < 3; ++k) { D3 e{0, 0, 0}; e[k] = 1; D3 x = rodr(w, e); for (int i = 0; i < 3; ++i) R[3 * i + k] = x[i]; t[k] = tt[k]; } double sg = c.flip() ? 1 : -1; V p0(2 * n), p1(2 * n); vector<float> z(n); for (double &x: p0) x = c.sym(0.5); for (double &x: p1) x = c.sym(0.8); for (auto &x: z) x = (float) (sg * c.real(1.5, 4));
  auto proj = [&](int i, double zz, D3 tr, D3 dw, D2 &q) { D3 r{Ki[0] * p0[2 * i] + Ki[1] * p0[2 * i + 1] + Ki[2], Ki[3] * p0[2 * i] + Ki[4] * p0[2 * i + 1] + Ki[5], 1}; D3 X = zz * r - tr; X = rodr(-1. * dw, X); D3 y; for (int k = 0; k < 3; ++k) y[k] = R[k] * X[0] + R[3 + k] * X[1] + R[6 + k] * X[2]; D3 s; for (int k = 0; k < 3; ++k) s[k] = K[3 * k] * y[0] + K[3 * k + 1] * y[1] + K[3 * k + 2] * y[2]; q = {s[0] / s[2], s[1] / s[2]}; return std::abs(s[2]) > 0.3; };
  V F, dF; if (c.flip()) { F.assign(c.below(9), 1.); dF.assign(c.below(99), 2.); } double E = d::ReprojectionEnergy(F, dF, p0, Ki, z, R, t, K, p1), e = 0; VP_CHECK((int) F.size() == 2 * n && (int) dF.size() == 14 * n, "sizes"); bool fine = true; for (int i = 0; i < n; ++i) { D2 q; if (!proj(i, z[i], tt, {0, 0, 0}, q)) { fine = false; continue; } for (int k = 0; k < 2; ++k) { double g = q[k] - p1[2 * i + k]; e += g * g; VP_NEAR(F[2 * i + k], g, 1e-9 * (1 + std::abs(g))); } for (int h = 0; h < 7; ++h) { double ep = 1e-5; D2 a, b; D3 x{0, 0, 0}; if (h) x[(h - 1) % 3] = ep; D3 o{0, 0, 0}; proj(i, z[i] + (h == 0 ? ep : 0), h > 0 && h < 4 ? tt + x : tt, h >= 4 ? x : o, a); proj(i, z[i] - (h == 0 ? ep : 0), h > 0 && h < 4 ? tt - x : tt, h >= 4 ? -1. * x : o, b); for (int k = 0; k < 2; ++k) VP_NEAR(dF[14 * i + 7 * k + h], (a[k] - b[k]) / (2 * ep), 1e-5 * (1 + std::abs(a[k]) + std::abs((a[k] - b[k]) / (2 * ep)))); } } if (fine) VP_NEAR(E, e, 1e-9 * (1 + e));
  if (sg < 0 && fine) { vector<float> z2 = z; double R2[9], t2[3]; std::copy(R, R + 9, R2); std::copy(t, t + 3, t2); std::mt19937 rd(c.below(1000000)); Quiet quiet; V F2, D2v; double prev = E; int it = c.range(1, 6); for (int k = 0; k < it; ++k) { d::BundleAdjust_ImgPair_Stochastic(z2, R2, t2, p0, Ki, K, p1, rd); double now = d::ReprojectionEnergy(F2, D2v, p0, Ki, z2, R2, t2, K, p1); VP_CHECK(now < prev * (1 + 1e-5) + 1e-7, "bundle adjustment step raises the error %g to %g", prev, now); prev = now; double dv0 = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double g = 0; for (int h = 0; h < 3; ++h) g += R2[3 * i + h] * R2[3 * j + h]; dv0 += std::abs(g - (i == j)); } VP_CHECK(dv0 < 1e-6, "bundle adjustment: rotation is not orthogonal"); for (int i = 0; i < n; ++i) VP_CHECK(z2[i] <= 0 && std::abs(z2[i] - z[i]) < 0.004 * (k + 1), "depth moves too far"); } if (prev < E * 0.999) c.label("error lowered"); }
  { d::CKineticDamper kd; int np = c.range(1, 5), steps = c.range(3, 12); V hist; for (int s = 0; s < steps; ++s) { V u(3 * np); double a = c.range(0, 4); for (double &x: u) x = c.flip() ? a : c.sym(a); V u0 = u; double en = 0; for (double x: u) en += x * x; VP_NEAR(d::EnergyKinetic(u.data(), np), en, 1e-12 * (1 + en)); hist.push_back(en); kd.Damp(u); size_t h = hist.size(); if (h > 3) { double g0 = hist[h - 2] - hist[h - 3], g1 = hist[h - 1] - hist[h - 2]; if (std::abs(g0) < 1e-9 || std::abs(g1) < 1e-9) { if (g0 != 0 && g1 != 0) continue; } bool peak = g0 > 0 && g1 < 0; if (g0 == 0 || g1 == 0) { double m = 0; for (double x: u) m += std::abs(x); if (m == 0) continue; } for (int i = 0; i < 3 * np; ++i) VP_CHECK(u[i] == (peak ? 0 : u0[i]), "kinetic damping: energies %g %g %g", hist[h - 3], hist[h - 2], hist[h - 1]); if (peak) c.label("energy peak"); } else VP_CHECK(u == u0, "kinetic damping acts too early"); } }
  { Pt3 p[6]; D3 off = rnd3(c, 1.5); for (auto &x: p) { x.v = rnd3(c, 1) + off; if (c.chance(1, 8)) x.v[c.below(3)] = 0.25; } double dd = c.chance(1, 3) ? 0.25 : c.chance(1, 3) ? 0 : c.real(0, 1); for (int k = 3; k <= 6; ++k) { bool hit = true; for (int i = 0; i < 3; ++i) { double lo = 1e9, hi = -1e9; for (int j = 0; j < k; ++j) { lo = std::min(lo, p[j].v[i]); hi = std::max(hi, p[j].v[i]); } if (lo > dd || hi < -dd) hit = false; } bool r = k == 3 ? d::IsContact_Orgin_AabbOfPoint3(p[0], p[1], p[2], dd) : k == 4 ? d::IsContact_Orgin_AabbOfPoint4(p[0], p[1], p[2], p[3], dd) : k == 5 ? d::IsContact_Orgin_AabbOfPoint5(p[0], p[1], p[2], p[3], p[4], dd) : d::IsContact_Orgin_AabbOfPoint6(p[0], p[1], p[2], p[3], p[4], p[5], dd); VP_CHECK(r == hit, "box of %d points: %d", k, (int) r); } }
}
