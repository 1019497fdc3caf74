// SCALE: 5 8
#include "elements.hpp"
#include <functional>
#include "delfem2/dtri_topology.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/fem_discreteshell.h"
#include "delfem2/fem_distance3.h"
#include "delfem2/fem_quadratic_bending.h"
#include "delfem2/fem_stvk.h"
#include "delfem2/fem_rod3_straight.h"
#include "delfem2/fem_rod3_darboux.h"
#include "delfem2/pbd_geo3.h"
#include "delfem2/pbd_stvk.h"
#include "delfem2/pbd_bending_for_dtri.h"
#include "delfem2/defarapenergy_geo3.h"
#include "delfem2/cvcamera.h"
using namespace elm;
// a vector-valued constraint: eval returns values, then (when asked) their derivatives row by row
struct Con { string name; V x; double L = 1, h = 1; int nc = 0; std::function<V(const V &, V *)> eval; std::function<V(const V &)> oracle; int rigid = 0; /* 1: values unchanged by rigid motion, 2: values turn with it */ };
static V P23(const V &C) { return {C[0], C[1], 0, C[2], C[3], 0, C[4], C[5], 0}; }
static V flat_tri(vp::Case &c, double L) { for (;;) { V C = rpts(c, 6, L); if (fat_tri({C[0], C[1], 0}, {C[2], C[3], 0}, {C[4], C[5], 0})) return C; } }
static V fat3(vp::Case &c, double L) { for (;;) { V C = rpts(c, 9, L); if (fat_tri(tri_pt(C, 0), tri_pt(C, 1), tri_pt(C, 2))) return C; } }
static V len(const V &x, int n) { V r; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) r.push_back(dist(tri_pt(x, i), tri_pt(x, j))); return r; }
// Green strain of a triangle in the frame of its flat rest shape: E00, E11, 2 E01
static V green(const V &C, const V &x) { double a = C[2] - C[0], b = C[4] - C[0], e = C[3] - C[1], f = C[5] - C[1], det = a * f - b * e; double I[2][2] = {{f / det, -b / det}, {-e / det, a / det}}; D3 g[2] = {tri_pt(x, 1) - tri_pt(x, 0), tri_pt(x, 2) - tri_pt(x, 0)}; D3 F[2]; for (int k = 0; k < 2; ++k) F[k] = I[0][k] * g[0] + I[1][k] * g[1]; return {0.5 * (dot(F[0], F[0]) - 1), 0.5 * (dot(F[1], F[1]) - 1), dot(F[0], F[1])}; }
static double area_tri(const V &C) { return 0.5 * std::fabs((C[2] - C[0]) * (C[5] - C[1]) - (C[4] - C[0]) * (C[3] - C[1])); }
static Con make_con(vp::Case &c, int kind) { Con k; double L = k.L = c.logreal(1e-1, 1e1); k.h = 3e-4 * L;
  switch (kind) {
    case 0: { k.name = "discrete shell"; k.nc = 1; k.rigid = 1; k.x = hinge(c, L); k.eval = [](const V &x, V *g) { double C; d::CVec3d dC[4]; auto q = [&](int i) { return d::CVec3d(x[i * 3], x[i * 3 + 1], x[i * 3 + 2]); }; d::CdC_DiscreteShell(C, dC, q(0), q(1), q(2), q(3)); if (g) { g->clear(); for (auto &v: dC) for (int l = 0; l < 3; ++l) g->push_back(v[l]); } return V{C}; };
      k.oracle = [](const V &x) { D3 p[4]; for (int i = 0; i < 4; ++i) p[i] = tri_pt(x, i); D3 e = unit(p[3] - p[2]), a = p[0] - p[2], b = p[1] - p[2]; a = a - dot(a, e) * e; b = b - dot(b, e) * e; return V{-dot(a, b) / norm(a) / norm(b) - 1}; }; break; }
    case 1: { k.name = "triangle edge lengths"; k.nc = 3; k.rigid = 1; V C = flat_tri(c, L); k.x = fat3(c, L); k.eval = [=](const V &x, V *g) { double P[3][2], p[3][3], q[3], G[3][9]; fill(P, C); fill(p, x); d::CdC_LengthTriEdges23(q, G, P, p); if (g) g->assign(&G[0][0], &G[0][0] + 27); return V(q, q + 3); };
      k.oracle = [=](const V &x) { V a = len(x, 3), b = len(P23(C), 3); V r(3); for (int i = 0; i < 3; ++i) r[i] = a[i] - b[i]; return V{r[2], r[1], r[0]}; }; break; }
    case 2: { k.name = "tetrahedron edge lengths"; k.nc = 6; k.rigid = 1; V C = rpts(c, 12, L); for (;;) { k.x = rpts(c, 12, L); V a = len(k.x, 4); if (*std::min_element(a.begin(), a.end()) > 0.1 * L) break; } k.eval = [=](const V &x, V *g) { double P[4][3], p[4][3], q[6], G[6][12]; fill(P, C); fill(p, x); d::CdC_LengthTetEdges(q, G, P, p); if (g) g->assign(&G[0][0], &G[0][0] + 72); return V(q, q + 6); };
      k.oracle = [=](const V &x) { V a = len(x, 4), b = len(C, 4); V r(6); for (int i = 0; i < 6; ++i) r[i] = a[i] - b[i]; return r; }; break; }
    case 3: { k.name = "segment length"; k.nc = 1; k.rigid = 1; D3 a = rv(c, L), b = a + L * c.uni(0.2, 2) * unit(rv(c, 1) + D3{0, 0, 1e-3}); double l = L * c.uni(0, 2); k.x = {a[0], a[1], a[2], b[0], b[1], b[2]}; k.eval = [=](const V &x, V *g) { double p[2][3], C, G[2][3]; fill(p, x); d::CdC_SquareLengthLineseg3D(C, G, p, l); if (g) g->assign(&G[0][0], &G[0][0] + 6); return V{C}; }; k.oracle = [=](const V &x) { return V{len(x, 2)[0] - l}; }; break; }
    case 4: { k.name = "quadratic bending"; k.nc = 3; k.rigid = 2; V C = c.flip() ? flat_hinge(c, L) : hinge(c, L); k.x = rpts(c, 12, L); k.eval = [=](const V &x, V *g) { double P[4][3], p[4][3], q[3], G[3][4][3]; fill(P, C); fill(p, x); d::CdC_QuadBend(q, G, P, p); if (g) g->assign(&G[0][0][0], &G[0][0][0] + 36); return V(q, q + 3); };
      // weights of the hinge from its edge lengths alone: unfold the two triangles into the plane, the weights reproduce that plane
      k.oracle = [=](const V &x) { D3 p[4]; for (int i = 0; i < 4; ++i) p[i] = tri_pt(C, i); double l = dist(p[2], p[3]); auto foot = [&](int i) { return dot(p[i] - p[2], p[3] - p[2]) / l; }; double s0 = foot(0), s1 = foot(1), h0 = std::sqrt(std::max(0.0, dot(p[0] - p[2], p[0] - p[2]) - s0 * s0)), h1 = std::sqrt(std::max(0.0, dot(p[1] - p[2], p[1] - p[2]) - s1 * s1)), A = 0.5 * l * (h0 + h1), f = std::sqrt(3.0) / std::sqrt(A); double w[4] = {-l / h0, -l / h1, 0, 0}; w[3] = -(w[0] * s0 + w[1] * s1) / l; w[2] = -w[0] - w[1] - w[3]; V r(3); for (int k = 0; k < 3; ++k) for (int i = 0; i < 4; ++i) r[k] += f * w[i] * x[i * 3 + k]; return r; }; break; }
    case 5: { k.name = "triangle strain"; k.nc = 3; k.rigid = 1; V C = flat_tri(c, L); k.x = rpts(c, 9, L); k.eval = [=](const V &x, V *g) { double P[3][2], p[3][3], q[3], G[3][9]; fill(P, C); fill(p, x); d::CdC_StVK(q, G, P, p); if (g) g->assign(&G[0][0], &G[0][0] + 27); return V(q, q + 3); }; k.oracle = [=](const V &x) { return green(C, x); }; break; }
    case 6: { k.name = "triangle strain energy"; k.nc = 1; k.rigid = 1; double la = c.uni(0, 5), mu = c.uni(0.1, 5); V C = flat_tri(c, L); k.x = rpts(c, 9, L); k.eval = [=](const V &x, V *g) { double P[3][2], p[3][3], q, G[9]; fill(P, C); fill(p, x); d::CdC_EnergyStVK(q, G, P, p, la, mu); if (g) g->assign(G, G + 9); return V{q}; }; k.oracle = [=](const V &x) { V e = green(C, x); double tr = e[0] + e[1]; return V{area_tri(C) * (0.5 * la * tr * tr + mu * (e[0] * e[0] + e[1] * e[1] + 0.5 * e[2] * e[2]))}; }; break; }
    case 7: { k.name = "straight rod"; k.nc = 3; k.rigid = 2; k.x = rodpts(c, L); k.eval = [](const V &x, V *g) { double p[3][3], q[3], G[3][3][3]; fill(p, x); d::CdC_Rod3BendStraight(q, G, p); if (g) g->assign(&G[0][0][0], &G[0][0][0] + 27); return V(q, q + 3); };
      k.oracle = [](const V &x) { D3 u = unit(tri_pt(x, 1) - tri_pt(x, 0)), v = unit(tri_pt(x, 2) - tri_pt(x, 1)), w = cross(u, v); double th = std::atan2(norm(w), dot(u, v)); D3 r = norm(w) > 0 ? (std::tan(th / 2) / norm(w)) * w : D3{0, 0, 0}; return V{r[0], r[1], r[2]}; }; break; }
    case 8: { k.name = "rod frames"; k.nc = 3; auto cfg = std::make_shared<RodCfg>(rodcfg(c, L)); k.h = 3e-4 * std::min(1.0, L); k.x.assign(11, 0.0); k.eval = [=](const V &x, V *g) { d::CVec3d P[3], S[2]; rodmove(*cfg, x, P, S); double C[3], dt[3][2]; d::CVec3d dp[3][3]; d::CdC_Rod(C, dp, dt, P, S); d::CVec3d D = d::Darboux_Rod(P, S); for (int i = 0; i < 3; ++i) if (std::fabs(D[i] - C[i]) > 1e-12 * (1 + std::fabs(C[i]))) C[i] = NAN; if (g) { g->clear(); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 9; ++j) g->push_back(dp[i][j / 3][j % 3]); g->push_back(dt[i][0]); g->push_back(dt[i][1]); } } return V(C, C + 3); };
      // rotation that takes the first frame to the second: its vector tan(angle/2) axis, in the first frame
      k.oracle = [=](const V &x) { d::CVec3d P[3], S[2]; rodmove(*cfg, x, P, S); D3 f[2][3]; for (int s = 0; s < 2; ++s) { D3 t{P[s + 1][0] - P[s][0], P[s + 1][1] - P[s][1], P[s + 1][2] - P[s][2]}; f[s][2] = unit(t); f[s][0] = D3{S[s][0], S[s][1], S[s][2]}; f[s][1] = cross(f[s][2], f[s][0]); } double R[3][3], tr = 1; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i][j] = dot(f[0][i], f[1][j]); for (int i = 0; i < 3; ++i) tr += R[i][i]; return V{(R[1][2] - R[2][1]) / tr, (R[2][0] - R[0][2]) / tr, (R[0][1] - R[1][0]) / tr}; }; break; }
    default: { k.name = "screen coordinate"; k.nc = 2; double *M = nullptr; auto m = std::make_shared<array<double, 16>>(); M = m->data(); for (;;) { for (int i = 0; i < 16; ++i) M[i] = c.uni(-1, 1); k.x = rpts(c, 3, L); double w = M[12] * k.x[0] + M[13] * k.x[1] + M[14] * k.x[2] + M[15]; if (std::fabs(w) > 0.3 * std::max(1.0, L)) break; } k.eval = [=](const V &x, V *g) { double C[2], G[2][3]; d::CdC_ScreenCoordinate<d::CVec3d>(C, G, m->data(), x.data()); if (g) g->assign(&G[0][0], &G[0][0] + 6); return V(C, C + 2); };
      k.oracle = [=](const V &x) { auto &M = *m; auto row = [&](int r) { return M[r * 4] * x[0] + M[r * 4 + 1] * x[1] + M[r * 4 + 2] * x[2] + M[r * 4 + 3]; }; return V{row(0) / row(3), row(1) / row(3)}; }; } }
  return k; }
VP_PROP(gradients, 60000, 600000, "constraints of shells, edges, segments, hinges, strains, rods with and without frames, and screen projection: values against independent formulas, derivatives against fourth-order difference quotients, invariance under rigid motion; non-trivial always") {
  Con k = make_con(c, c.range(0, 9)); c.nontrivial(); c.label("%s", k.name.c_str()); const char *nm = k.name.c_str(); V g, C = k.eval(k.x, &g), W = k.oracle(k.x); int n = (int) k.x.size(); double mC = mx(W), mg = mx(g); VP_CHECK((int) C.size() == k.nc && (int) g.size() == k.nc * n, "%s: sizes", nm);
  for (int i = 0; i < k.nc; ++i) VP_CHECK(std::fabs(C[i] - W[i]) <= 1e-9 * (mC + k.L * mg), "%s: value %d is %.15g, not %.15g", nm, i, C[i], W[i]);
  for (int j = 0; j < n; ++j) { V q = fd([&](const V &x) { return k.eval(x, nullptr); }, k.x, j, k.h); for (int i = 0; i < k.nc; ++i) VP_CHECK(std::fabs(q[i] - g[i * n + j]) <= 3e-6 * mg + 1e-11 * mC / k.h + 1e-12, "%s: derivative (%d,%d) is %.12g, difference quotient %.12g", nm, i, j, g[i * n + j], q[i]); }
  if (k.rigid) { auto R = rotation(c); D3 t = rv(c, 3 * k.L); V y; for (int i = 0; i < n / 3; ++i) push(y, mul(R, tri_pt(k.x, i)) + t); V g2, D = k.eval(y, &g2); V want = C; if (k.rigid == 2) { D3 w = mul(R, {C[0], C[1], C[2]}); want = {w[0], w[1], w[2]}; } for (int i = 0; i < k.nc; ++i) { VP_CHECK(std::fabs(D[i] - want[i]) <= 1e-8 * (mC + k.L * mg), "%s: value %d after a rigid motion is %.12g, not %.12g", nm, i, D[i], want[i]); D3 s{}, m{}; for (int v = 0; v < n / 3; ++v) { D3 f{g[i * n + v * 3], g[i * n + v * 3 + 1], g[i * n + v * 3 + 2]}; s = s + f; m = m + cross(tri_pt(k.x, v), f); } VP_CHECK(norm(s) <= 1e-9 * mg, "%s: derivatives of value %d sum to %g", nm, i, norm(s)); if (k.rigid == 1) VP_CHECK(norm(m) <= 1e-8 * mg * k.L, "%s: moment %g of value %d", nm, norm(m), i); } }
}
VP_PROP(update, 30000, 300000, "one update of three random constraints over 2-6 distinct points with random masses: a linear constraint is reduced by exactly the ratio, the move is a mass-weighted combination of gradients, other points stay, centre of mass kept when the constraint ignores translation; non-trivial: more points than the constraint touches") {
  int np = c.range(2, 6), N = np + c.range(0, 3); double L = c.logreal(1e-2, 1e2), ratio = c.chance(1, 3) ? 1.0 : c.uni(0, 1.5); vector<uint> id(N); for (int i = 0; i < N; ++i) id[i] = (uint) i; c.shuffle(id.begin(), id.end()); id.resize(np); V x = rpts(c, N * 3, L), x0 = x, m(np), G = rpts(c, 9 * np, 1), C(3); for (double &w: m) w = c.logreal(0.1, 10); bool trans = np > 2 && c.flip();
  if (trans) for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) { double s = 0; for (int v = 0; v + 1 < np; ++v) s += G[i * 3 * np + v * 3 + k]; G[i * 3 * np + (np - 1) * 3 + k] = -s; }
  for (double &v: C) v = c.uni(-1, 1) * L; vector<double> A(9); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int q = 0; q < 3 * np; ++q) A[i * 3 + j] += G[i * 3 * np + q] * G[j * 3 * np + q] / m[q / 3]; double tr = (A[0] + A[4] + A[8]) / 3, det = A[0] * (A[4] * A[8] - A[5] * A[7]) - A[1] * (A[3] * A[8] - A[5] * A[6]) + A[2] * (A[3] * A[7] - A[4] * A[6]); c.assume(det > 1e-3 * tr * tr * tr); vector<double> lm; VP_CHECK(solve<double>(A, C, lm), "reference");
  d::PBD_Update_Const3(x.data(), np, 3, m.data(), C.data(), G.data(), id.data(), ratio); double s = mx(lm) / 0.1 + L; V want = x0; for (int v = 0; v < np; ++v) for (int k = 0; k < 3; ++k) for (int i = 0; i < 3; ++i) want[id[v] * 3 + k] -= ratio * lm[i] * G[i * 3 * np + v * 3 + k] / m[v]; for (int i = 0; i < 3 * N; ++i) VP_CHECK(std::fabs(x[i] - want[i]) <= 1e-9 * s, "coordinate %d moved to %.12g, not %.12g", i, x[i], want[i]);
  for (int i = 0; i < 3; ++i) { double t = C[i]; for (int v = 0; v < np; ++v) for (int k = 0; k < 3; ++k) t += G[i * 3 * np + v * 3 + k] * (x[id[v] * 3 + k] - x0[id[v] * 3 + k]); VP_NEAR(t, (1 - ratio) * C[i], 1e-8 * s); }
  if (trans) for (int k = 0; k < 3; ++k) { double t = 0; for (int v = 0; v < np; ++v) t += m[v] * (x[id[v] * 3 + k] - x0[id[v] * 3 + k]); VP_NEAR(t, 0.0, 1e-8 * s); } if (N > np) c.nontrivial(); c.label("%s", trans ? "translation free" : "any");
}
// points of a random flat mesh with relabelled points
struct Flat { vector<D2> xy; vector<uint> tri; };
static Flat flat_mesh(vp::Case &c, bool joined, double L) { Flat f; if (joined) { int nx = c.range(1, 4), ny = c.range(1, 4); for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) f.xy.push_back({L * (i + c.uni(-0.2, 0.2)), L * (j + c.uni(-0.2, 0.2))}); for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { uint a = j * (nx + 1) + i, b = a + 1, e = a + nx + 1, g = e + 1; if (c.flip()) f.tri.insert(f.tri.end(), {a, b, g, a, g, e}); else f.tri.insert(f.tri.end(), {a, b, e, b, g, e}); } }
  else { int k = c.range(1, 5); for (int q = 0; q < k; ++q) { V C = flat_hinge(c, L); uint b = (uint) f.xy.size(); D3 e = unit(tri_pt(C, 3) - tri_pt(C, 2)), n = tri_pt(C, 0) - tri_pt(C, 2); n = unit(n - dot(n, e) * e); for (int i = 0; i < 4; ++i) f.xy.push_back({dot(tri_pt(C, i) - tri_pt(C, 2), e), dot(tri_pt(C, i) - tri_pt(C, 2), n)}); bool pos = area2(f.xy[b], f.xy[b + 2], f.xy[b + 3]) > 0; f.tri.insert(f.tri.end(), {b, pos ? b + 2 : b + 3, pos ? b + 3 : b + 2, b + 1, pos ? b + 3 : b + 2, pos ? b + 2 : b + 3}); } }
  size_t n = f.xy.size(), m = f.tri.size() / 3; vector<uint> p(n), o(m); for (uint i = 0; i < n; ++i) p[i] = i; for (uint i = 0; i < m; ++i) o[i] = i; c.shuffle(p.begin(), p.end()); c.shuffle(o.begin(), o.end()); Flat r; r.xy.resize(n); for (uint i = 0; i < n; ++i) r.xy[p[i]] = f.xy[i]; for (uint t: o) { int s = c.range(0, 2); for (int k = 0; k < 3; ++k) r.tri.push_back(p[f.tri[t * 3 + (k + s) % 3]]); } return r; }
VP_PROP(cloth, 8000, 80000, "strain and bending sweeps over random flat meshes, joined or of separate pieces: isometric copies are fixed points, the centroid never moves, separate hinges are satisfied by the ratio, separate triangles get the least move that cancels the linearised strain, a bending sweep never moves away from any affine image of the rest shape; non-trivial: something moved") {
  bool joined = c.flip(), bend = c.flip(); double L = c.logreal(1e-1, 1e1); Flat f = flat_mesh(c, joined, L); uint n = (uint) f.xy.size(); if (!joined && !bend) { Flat g; for (size_t t = 0; t < f.tri.size(); t += 6) for (int k = 0; k < 3; ++k) { g.tri.push_back((uint) g.xy.size()); g.xy.push_back(f.xy[f.tri[t + k]]); } f = g; n = (uint) f.xy.size(); }
  int mode = c.range(0, 2); auto R = rotation(c); D3 T = rv(c, 3 * L); V x; for (auto &q: f.xy) push(x, mul(R, {q[0], q[1], 0}) + T); double amp = mode == 0 ? 0 : mode == 1 ? 0.1 : 0.02; for (double &v: x) v += amp * L * c.uni(-1, 1); V x0 = x; double ratio = bend ? c.chance(1, 2) ? 1.0 : c.uni(0, 1.2) : 1, Y = L * (1 + 5);
  vector<d::CDynTri> et; vector<d::CDynPntSur> ep; vector<d::CVec2d> v2; if (bend) { d::InitializeMesh(ep, et, f.tri.data(), f.tri.size() / 3, n); for (auto &q: f.xy) v2.emplace_back(q[0], q[1]); d::PBD_Bend(x.data(), n, et, v2, ratio); } else { vector<array<uint, 3>> tv; vector<array<double, 2>> xy; for (size_t t = 0; t < f.tri.size(); t += 3) tv.push_back({f.tri[t], f.tri[t + 1], f.tri[t + 2]}); for (auto &q: f.xy) xy.push_back({q[0], q[1]}); d::PBD_TriStrain(x.data(), n, tv, xy); }
  double moved = 0; for (size_t i = 0; i < x.size(); ++i) { VP_CHECK(std::isfinite(x[i]), "coordinate %zu is %g", i, x[i]); moved = std::max(moved, std::fabs(x[i] - x0[i])); } if (mode == 0) VP_CHECK(moved <= 1e-9 * Y, "isometric copy moved by %g", moved);
  for (int k = 0; k < 3; ++k) { double s = 0; for (uint i = 0; i < n; ++i) s += x[i * 3 + k] - x0[i * 3 + k]; VP_NEAR(s, 0.0, 1e-9 * Y * n); }
  if (bend && ratio <= 2) { double a = 0, b = 0; D3 e1 = rv(c, 1), e2 = rv(c, 1), e3 = rv(c, L); for (uint i = 0; i < n; ++i) { D3 y = f.xy[i][0] * e1 + f.xy[i][1] * e2 + e3; a += std::pow(dist(y, P3(x0, i)), 2); b += std::pow(dist(y, P3(x, i)), 2); } VP_CHECK(b <= a * (1 + 1e-9) + 1e-18 * L * L, "distance to a flat shape grew from %.12g to %.12g", std::sqrt(a), std::sqrt(b)); }
  if (bend && !joined) for (size_t it = 0; it < et.size(); ++it) for (int ie = 0; ie < 3; ++ie) { uint jt = et[it].s2[ie]; if (jt == UINT_MAX || jt > it) continue; uint je = 3; for (int k = 0; k < 3; ++k) if (et[jt].s2[k] == it) je = k; VP_CHECK(je < 3, "adjacency"); uint id[4] = {et[it].v[ie], et[jt].v[je], et[it].v[(ie + 1) % 3], et[it].v[(ie + 2) % 3]}; double P[4][3], p[4][3], p0[4][3], C[3], C0[3], G[3][4][3]; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) { P[i][k] = k < 2 ? f.xy[id[i]][k] : 0; p[i][k] = x[id[i] * 3 + k]; p0[i][k] = x0[id[i] * 3 + k]; } d::CdC_QuadBend(C0, G, P, p0); d::CdC_QuadBend(C, G, P, p); for (int k = 0; k < 3; ++k) VP_NEAR(C[k], (1 - ratio) * C0[k], 1e-8 * (std::fabs(C0[k]) + Y / L)); }
  if (!bend && !joined) for (size_t t = 0; t < f.tri.size(); t += 3) { V C, p0, dx; for (int k = 0; k < 3; ++k) { uint i = f.tri[t + k]; C.insert(C.end(), {f.xy[i][0], f.xy[i][1]}); push(p0, P3(x0, i)); push(dx, P3(x, i) - P3(x0, i)); } V E = green(C, p0); vector<V> J(3, V(9)); for (int j = 0; j < 9; ++j) { V q = fd([&](const V &y) { return green(C, y); }, p0, j, 1e-3 * L); for (int i = 0; i < 3; ++i) J[i][j] = q[i]; } for (int i = 0; i < 3; ++i) { double s = E[i]; for (int j = 0; j < 9; ++j) s += J[i][j] * dx[j]; VP_CHECK(std::fabs(s) <= 1e-6 * (mx(E) + mx(dx) * mx(J[i])) + 1e-9, "linearised strain %d left: %g of %g", i, s, mx(E)); }
      // least move: orthogonal to the null space, i.e. a combination of the gradients
      vector<double> A(9), b(3), l; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) for (int k = 0; k < 9; ++k) A[i * 3 + j] += J[i][k] * J[j][k]; for (int k = 0; k < 9; ++k) b[i] += J[i][k] * dx[k]; } VP_CHECK(solve<double>(A, b, l), "reference"); for (int k = 0; k < 9; ++k) { double s = 0; for (int i = 0; i < 3; ++i) s += l[i] * J[i][k]; VP_CHECK(std::fabs(s - dx[k]) <= 1e-5 * mx(dx) + 1e-10 * L, "move %d is %.12g, least move %.12g", k, dx[k], s); } }
  if (moved > 1e-6 * L) c.nontrivial(); c.label("%s, %s", bend ? "bending" : "strain", joined ? "joined" : "separate");
}
VP_PROP(shape_matching, 20000, 200000, "rigid shape matching in two and three dimensions with random clusters and stiffness: goal positions are the rest shape moved by the rotation of least squared error (no nearby rotation does better), blended by stiffness, centroid kept, rigid copies unmoved, points outside clusters untouched; non-trivial: a deformed cluster of three or more points") {
  const int D = c.flip() ? 2 : 3; int N = c.range(D + 1, 12), ncl = c.range(0, 3); double L = c.logreal(1e-1, 1e1), st = c.chance(1, 3) ? 1.0 : c.uni(0, 1); V q = rpts(c, N * D, L), p(N * D); auto R3 = rotation(c); if (D == 2) { double th = c.uni(-3.1, 3.1); R3 = {std::cos(th), -std::sin(th), 0, std::sin(th), std::cos(th), 0, 0, 0, 1}; } D3 T = rv(c, 5 * L); double amp = c.chance(1, 4) ? 0 : 0.15 * L; auto at = [&](const V &x, int i) { return D == 2 ? D3{x[i * 2], x[i * 2 + 1], 0} : tri_pt(x, i); };
  for (int i = 0; i < N; ++i) { D3 y = mul(R3, at(q, i)) + T; for (int k = 0; k < D; ++k) p[i * D + k] = y[k] + amp * c.uni(-1, 1); } vector<int> ci{0}, cl; vector<uint> ciu{0}, clu; for (int k = 0; k < ncl; ++k) { vector<int> a(N); for (int i = 0; i < N; ++i) a[i] = i; c.shuffle(a.begin(), a.end()); int s = c.range(D + 1, N); cl.insert(cl.end(), a.begin(), a.begin() + s); ci.push_back((int) cl.size()); } ciu.assign(ci.begin(), ci.end()); clu.assign(cl.begin(), cl.end());
  V x0 = p; auto cloud = [&](const V &x, int k) { vector<D3> r; for (int j = ci[k]; j < ci[k + 1]; ++j) r.push_back(at(x, cl[j])); return r; }; auto mean = [](const vector<D3> &a) { D3 s{}; for (auto &v: a) s = s + v; return (1.0 / a.size()) * s; };
  for (int k = 0; k < ncl; ++k) { vector<D3> a = cloud(q, k); D3 m = mean(a); double S[9] = {}; for (auto &v: a) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) S[i * 3 + j] += (v - m)[i] * (v - m)[j]; double tr = S[0] + S[4] + S[8], det = D == 2 ? S[0] * S[4] - S[1] * S[3] : S[0] * (S[4] * S[8] - S[5] * S[7]) - S[1] * (S[3] * S[8] - S[5] * S[6]) + S[2] * (S[3] * S[7] - S[4] * S[6]); c.assume(det > (D == 2 ? 0.03 * tr * tr : 2e-3 * tr * tr * tr)); }
  if (ncl == 1 || st == 0 || amp == 0) {} else if (ncl > 1) { ci.resize(2); ciu.resize(2); cl.resize(ci[1]); clu.resize(ci[1]); ncl = 1; } // overlapping clusters: only where the result does not depend on the order
  if (D == 2) d::PBD_ConstProj_Rigid2D(p.data(), st, ciu.data(), ciu.size(), clu.data(), clu.size(), q.data(), q.size()); else d::PBD_ConstProj_Rigid3D(p.data(), st, ci.data(), (int) ci.size(), cl.data(), (int) cl.size(), q.data(), (int) q.size());
  if (amp == 0 || st == 0) { for (int i = 0; i < N * D; ++i) VP_CHECK(std::fabs(p[i] - x0[i]) <= 1e-7 * L, "coordinate %d of a rigid copy moved from %.12g to %.12g", i, x0[i], p[i]); return; }
  vector<char> in(N, 0); for (int i: cl) in[i] = 1; for (int i = 0; i < N; ++i) if (!in[i]) for (int k = 0; k < D; ++k) VP_CHECK(p[i * D + k] == x0[i * D + k], "point %d outside the clusters moved", i);
  for (int k = 0; k < ncl; ++k) { vector<D3> a = cloud(q, k), b = cloud(x0, k), e = cloud(p, k), g; D3 ma = mean(a), mb = mean(b), me = mean(e); VP_CHECK(dist(mb, me) <= 1e-8 * L, "centroid moved by %g", dist(mb, me)); if (st < 0.05) continue; for (size_t i = 0; i < a.size(); ++i) g.push_back((1 / st) * (e[i] - b[i]) + b[i]);
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < i; ++j) VP_CHECK(std::fabs(dist(g[i], g[j]) - dist(a[i], a[j])) <= 1e-6 * L, "distance of goals %zu %zu is %.12g, at rest %.12g", i, j, dist(g[i], g[j]), dist(a[i], a[j])); if (D == 2) { for (size_t i = 2; i < a.size(); ++i) VP_NEAR(cross(g[1] - g[0], g[i] - g[0])[2], cross(a[1] - a[0], a[i] - a[0])[2], 1e-5 * L * L); } else for (size_t i = 3; i < a.size(); ++i) VP_NEAR(tetvol(g[0], g[1], g[2], g[i]), tetvol(a[0], a[1], a[2], a[i]), 1e-5 * L * L * L);
    auto err = [&](D3 w) { double th = norm(w), s = 0; D3 u = th > 0 ? (1 / th) * w : D3{0, 0, 1}; for (size_t i = 0; i < g.size(); ++i) { D3 v = g[i] - me; v = std::cos(th) * v + std::sin(th) * cross(u, v) + (1 - std::cos(th)) * dot(u, v) * u; s += std::pow(norm(v + me - b[i]), 2); } return s; }; double e0 = err({0, 0, 0}); for (int t = 0; t < 6; ++t) { D3 w = c.logreal(1e-3, 3) * unit(rv(c, 1) + D3{0, 0, 1e-3}); if (D == 2) w = {0, 0, w[2]}; VP_CHECK(err(w) >= e0 - 1e-8 * L * L * N, "turning the goals by %g lowers the error from %.12g to %.12g", norm(w), e0, err(w)); }
    c.nontrivial(); } c.label("%dD", D);
}
VP_PROP(integration, 20000, 200000, "prediction and velocity update: free points move by velocity and gravity, then take velocity from the displacement; fixed points keep position and velocity; seams keep the midpoint of a pair and close it by a hundredth or completely; non-trivial: a free and a fixed point") {
  int n = c.range(1, 10); V x = rpts(c, n * 3, 5), v = rpts(c, n * 3, 5), t, x0 = x, v0 = v; vector<int> bc(n); for (int &b: bc) b = c.chance(1, 3) ? c.range(1, 3) : 0; double dt = c.logreal(1e-3, 1), g[3] = {c.uni(-10, 10), c.uni(-10, 10), c.uni(-10, 10)}; if (c.flip()) t = rpts(c, c.range(0, n * 4), 1); d::PBD_Pre3D(t, dt, g, x, v, bc); VP_CHECK(t.size() == x.size() && x == x0 && v == v0, "sizes or inputs changed"); int fr = 0; for (int i = 0; i < 3 * n; ++i) { double w = bc[i / 3] ? x[i] : x[i] + dt * v[i] + dt * dt * g[i % 3]; VP_NEAR(t[i], w, 1e-13 * 50); fr += bc[i / 3] == 0; }
  for (double &y: t) y += c.uni(-1, 1); V t0 = t; d::PBD_Post(x, v, dt, t, bc); VP_CHECK(t == t0, "input changed"); for (int i = 0; i < 3 * n; ++i) { VP_NEAR(x[i], bc[i / 3] ? x0[i] : t[i], 0.0); VP_NEAR(v[i], bc[i / 3] ? v0[i] : (t[i] - x0[i]) / dt, 1e-12 * 50 / dt); }
  V s = rpts(c, n * 3, 1); vector<uint> perm(n), line; for (int i = 0; i < n; ++i) perm[i] = (uint) i; c.shuffle(perm.begin(), perm.end()); for (int i = 0; i + 1 < n; i += 2) { if (c.flip()) { double e = c.pick({0.0, 1e-4, 4e-3, 9e-3, 0.02}); for (int k = 0; k < 3; ++k) s[perm[i + 1] * 3 + k] = s[perm[i] * 3 + k] + e * c.uni(-0.5, 0.5); } if (c.chance(3, 4)) line.insert(line.end(), {perm[i], perm[i + 1]}); } V s0 = s; d::PBD_Seam(s.data(), n, line.data(), line.size() / 2); vector<char> in(n, 0);
  for (size_t l = 0; l < line.size(); l += 2) { uint a = line[l], b = line[l + 1]; in[a] = in[b] = 1; D3 A = P3(s0, a), B = P3(s0, b), a1 = P3(s, a), b1 = P3(s, b); double e = dist(A, B), f = dist(a1, b1); VP_CHECK(norm(A + B - a1 - b1) <= 1e-13, "midpoint moved"); VP_NEAR(f, e > 0.01 ? e - 0.01 : 0.0, 1e-13); VP_CHECK(norm(cross(b1 - a1, B - A)) <= 1e-13 && dot(b1 - a1, B - A) >= -1e-15, "direction of the seam changed"); } for (int i = 0; i < n; ++i) if (!in[i]) for (int k = 0; k < 3; ++k) VP_CHECK(s[i * 3 + k] == s0[i * 3 + k], "point %d outside the seam moved", i); if (fr && fr < 3 * n) c.nontrivial();
}
VP_PROP(arap, 8000, 80000, "as-rigid-as-possible energy over random neighbour lists: value by direct summation, gradient by difference quotients, unchanged when shape and rotations turn together, zero for a rigid copy; the local stiffness is the least-rotation quadratic form of the same energy; non-trivial always") {
  c.nontrivial(); int n = c.range(2, 7); double L = c.logreal(1e-1, 1e1); V X = rpts(c, 3 * n, L), x = rpts(c, 3 * n, L), Q; vector<array<double, 9>> R; auto quat = [&]() { double q[4], s = 0; do { s = 0; for (double &v: q) { v = c.uni(-1, 1); s += v * v; } } while (s < 0.01); for (double &v: q) v /= std::sqrt(s); double a = q[0], b = q[1], e = q[2], w = q[3]; Q.insert(Q.end(), q, q + 4); R.push_back({1 - 2 * (b * b + e * e), 2 * (a * b - e * w), 2 * (a * e + b * w), 2 * (a * b + e * w), 1 - 2 * (a * a + e * e), 2 * (b * e - a * w), 2 * (a * e - b * w), 2 * (b * e + a * w), 1 - 2 * (a * a + b * b)}); };
  for (int i = 0; i < n; ++i) quat(); vector<uint> ind{0}, ps; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) if (j != i && c.chance(2, 3)) ps.push_back((uint) j); ind.push_back((uint) ps.size()); } auto W = [&](const V &x, const vector<array<double, 9>> &R) { double w = 0; for (int i = 0; i < n; ++i) for (uint k = ind[i]; k < ind[i + 1]; ++k) { D3 e = mul(R[i], P3(X, ps[k]) - P3(X, i)) - (P3(x, ps[k]) - P3(x, i)); w += 0.5 * dot(e, e); } return w; };
  double w = d::W_ArapEnergy(X, x, Q, ind, ps); VP_NEAR(w, W(x, R), 1e-11 * (L * L * n * n)); V g = rpts(c, c.range(0, 5), 1); d::dW_ArapEnergy(g, X, x, Q, ind, ps); VP_CHECK(g.size() == x.size(), "size of the gradient"); for (int j = 0; j < 3 * n; ++j) { V q = fd([&](const V &y) { return V{W(y, R)}; }, x, j, 1e-2 * L); VP_NEAR(q[0], g[j], 1e-9 * (n * L)); }
  { V y, Q2; for (int i = 0; i < n; ++i) { push(y, mul(R[0], P3(X, i)) + D3{L, -L, 2 * L}); Q2.insert(Q2.end(), Q.begin(), Q.begin() + 4); } VP_NEAR(d::W_ArapEnergy(X, y, Q2, ind, ps), 0.0, 1e-20 * L * L * n * n + 1e-24); V z; d::dW_ArapEnergy(z, X, y, Q2, ind, ps); VP_CHECK(mx(z) <= 1e-12 * n * L, "force %g on a rigid copy", mx(z)); }
  // local stiffness at vertex ip: u^T K u = min over w of sum |w x R v_j - (u_j - u_i)|^2
  int m = c.range(3, 6); V Y; vector<uint> ip; for (int t = 0;; ++t) { Y = rpts(c, 3 * (m + 1), L); double S[9] = {}, tr = 0; for (int j = 0; j < m; ++j) { D3 v = P3(Y, j) - P3(Y, m); tr += dot(v, v); for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) S[a * 3 + b] += v[a] * v[b]; } double I[9]; for (int a = 0; a < 9; ++a) I[a] = (a % 4 == 0 ? tr : 0) - S[a]; double det = I[0] * (I[4] * I[8] - I[5] * I[7]) - I[1] * (I[3] * I[8] - I[5] * I[6]) + I[2] * (I[3] * I[7] - I[4] * I[6]); if (det > 0.02 * tr * tr * tr) break; if (t > 20) { c.discard(); return; } }
  vector<uint> lab(m + 1); for (int i = 0; i <= m; ++i) lab[i] = (uint) i; c.shuffle(lab.begin(), lab.end()); V Z(3 * (m + 1)); for (int i = 0; i <= m; ++i) for (int k = 0; k < 3; ++k) Z[lab[i] * 3 + k] = Y[i * 3 + k]; Q.clear(); R.clear(); for (int i = 0; i <= m; ++i) quat(); V K = rpts(c, 3, 1); d::ddW_ArapEnergy(K, lab, Z, Q); int nd = 3 * (m + 1); VP_CHECK((int) K.size() == nd * nd, "size of the stiffness"); auto k = [&](int i, int a, int j, int b) { return K[(i * (m + 1) + j) * 9 + a * 3 + b]; };
  for (int t = 0; t < 3; ++t) { V u = rpts(c, nd, 1), v = rpts(c, nd, 1); if (t == 0) { D3 om = rv(c, 1), tt = rv(c, 1); for (int i = 0; i <= m; ++i) { D3 y = cross(om, mul(R[lab[m]], P3(Y, i))) + tt; for (int a = 0; a < 3; ++a) u[i * 3 + a] = y[a]; } } auto Kq = [&](const V &u, const V &v) { double s = 0; for (int i = 0; i <= m; ++i) for (int j = 0; j <= m; ++j) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) s += u[i * 3 + a] * k(i, a, j, b) * v[j * 3 + b]; return s; };
    vector<double> A(9), b(3), o; double c0 = 0; for (int j = 0; j < m; ++j) { D3 r = mul(R[lab[m]], P3(Y, j) - P3(Y, m)), du = P3(u, j) - P3(u, m), q = cross(r, du); c0 += dot(du, du); for (int a = 0; a < 3; ++a) { b[a] += q[a]; for (int e = 0; e < 3; ++e) A[a * 3 + e] += (a == e ? dot(r, r) : 0) - r[a] * r[e]; } } VP_CHECK(solve<double>(A, b, o), "reference"); double want = c0 - b[0] * o[0] - b[1] * o[1] - b[2] * o[2]; double tol = 1e-9 * (c0 + 1) * (1 + mx(u)); VP_NEAR(Kq(u, u), want, tol); VP_NEAR(Kq(u, v), Kq(v, u), 1e-9 * m * 10); if (t == 0) VP_NEAR(want, 0.0, tol); }
}
