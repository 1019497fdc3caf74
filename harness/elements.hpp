// Random instances of every element / force model that returns an energy, its gradient and its Hessian.
#pragma once
#include "common.hpp"
#include <iostream>
#include <functional>
#include <memory>
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/quadrature.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/fem_rod2.h"
#include "delfem2/fem_mips.h"
#include "delfem2/fem_distance3.h"
#include "delfem2/fem_stvk.h"
#include "delfem2/fem_quadratic_bending.h"
#include "delfem2/fem_mitc3.h"
#include "delfem2/fem_rod3_straight.h"
#include "delfem2/fem_rod3_darboux.h"
#include "delfem2/fem_solidhyper.h"
#include "delfem2/fem_invertiblefem.h"
#include "delfem2/fem_beam2.h"
#include "delfem2/fem_dkt.h"
#include "delfem2/femcloth.h"
namespace elm {
using namespace ref; namespace d = delfem2; using std::string; using std::vector;
typedef vector<double> V;
struct Out { double W = 0; V g, H; };
// x: degrees of freedom (nn nodes of nd), eval: energy, gradient, Hessian[i*n+j] = d g_i / d x_j
struct El { string name; int nn = 0, nd = 0; V x; double L = 1; std::function<Out(const V &)> eval; bool energy = true, hessian = true, sym = true; int rigid = 0; /* 2 or 3: invariant under rigid motion in that space; positions x (or rest + x if disp) */ V rest; bool zero = false; /* the rest shape has no energy */ V restx; std::function<bool(const V &)> exact; /* empty, or: the Hessian is exact here, elsewhere a positive semi-definite upper bound */ V gn; std::function<V(const V &)> residual; /* or: the Hessian is the Gauss-Newton one of these weighted residuals */ };
// fourth-order central difference of f at x
template<class F> V fd(F f, V x, int j, double h) { double o = x[j]; x[j] = o + h; V a = f(x); x[j] = o - h; V b = f(x); x[j] = o + 2 * h; V e = f(x); x[j] = o - 2 * h; V g = f(x); for (size_t i = 0; i < a.size(); ++i) a[i] = (8 * (a[i] - b[i]) - (e[i] - g[i])) / (12 * h); return a; }
inline D3 tri_pt(const V &x, int i) { return {x[i * 3], x[i * 3 + 1], x[i * 3 + 2]}; }
inline bool fat_tri(D3 a, D3 b, D3 c) { double m = std::max({dist(a, b), dist(b, c), dist(c, a)}); return norm(cross(b - a, c - a)) > 0.15 * m * m; }
inline V rpts(vp::Case &c, int n, double L) { V x(n); for (double &v: x) v = c.uni(-L, L); return x; }
inline D3 rv(vp::Case &c, double L) { return {c.uni(-L, L), c.uni(-L, L), c.uni(-L, L)}; }
template<int N, int D, class A> void pack4(Out &o, const double *g, const A &H) { o.g.assign(g, g + N * D); o.H.resize(N * D * N * D); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < D; ++k) for (int l = 0; l < D; ++l) o.H[(i * D + k) * N * D + j * D + l] = H[i][j][k][l]; }
template<int N, int D> void fill(double (&a)[N][D], const V &x) { for (int i = 0; i < N; ++i) for (int j = 0; j < D; ++j) a[i][j] = x[i * D + j]; }
inline El spring(vp::Case &c) { El e; e.name = "spring"; e.nn = 2; e.nd = 3; e.rigid = 3; double L = e.L = c.logreal(1e-2, 1e2), k = c.uni(0.1, 10), L0 = L * c.uni(0.3, 2); D3 a = rv(c, L), v = L * c.uni(0.3, 2) * unit(rv(c, 1) + D3{1.5, 0, 0}), b = a + v; e.x = {a[0], a[1], a[2], b[0], b[1], b[2]};
  e.eval = [=](const V &x) { Out o; d::CVec3d p[2] = {{x[0], x[1], x[2]}, {x[3], x[4], x[5]}}, g[2]; d::CMat3d H[2][2]; o.W = d::WdWddW_SquareLengthLineseg3D(g, H, k, p, L0); o.H.resize(36); for (int i = 0; i < 2; ++i) { for (int t = 0; t < 3; ++t) o.g.push_back(g[i][t]); for (int j = 0; j < 2; ++j) for (int s = 0; s < 3; ++s) for (int t = 0; t < 3; ++t) o.H[(i * 3 + s) * 6 + j * 3 + t] = H[i][j](s, t); } return o; };
  e.zero = true; D3 q = a + (L0 / norm(v)) * v; e.restx = {a[0], a[1], a[2], q[0], q[1], q[2]}; return e; }
inline El rod2(vp::Case &c) { El e; e.name = "rod2"; e.nn = 3; e.nd = 2; e.rigid = 2; double L = e.L = c.logreal(1e-1, 1e1), k0 = c.uni(0.1, 5), k1 = c.uni(0.1, 5), kb = c.uni(0.1, 5) * L * L; double a = c.uni(-3, 3), b = a + c.uni(-2, 2), l0 = L * c.uni(0.3, 2), l1 = L * c.uni(0.3, 2), aL0 = L * c.uni(0.3, 2), aL1 = L * c.uni(0.3, 2); D2 o = {c.uni(-L, L), c.uni(-L, L)}; e.x = {o[0], o[1], o[0] + l0 * std::cos(a), o[1] + l0 * std::sin(a), o[0] + l0 * std::cos(a) + l1 * std::cos(b), o[1] + l0 * std::sin(a) + l1 * std::sin(b)};
  e.eval = [=](const V &x) { Out r; double p[3][2], g[3][2], H[3][3][2][2], aL[2] = {aL0, aL1}; fill(p, x); d::WdWddW_Rod2(r.W, g, H, p, aL, k0, k1, kb); pack4<3, 2>(r, &g[0][0], H); return r; };
  e.gn = {k0, k1, kb}; e.residual = [=](const V &x) { D2 u{x[2] - x[0], x[3] - x[1]}, v{x[4] - x[2], x[5] - x[3]}; double th = std::atan2(u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1]); return V{std::hypot(u[0], u[1]) - aL0, std::hypot(v[0], v[1]) - aL1, std::tan(th / 2)}; };
  e.zero = true; e.restx = {0, 0, aL0 * std::cos(a), aL0 * std::sin(a), (aL0 + aL1) * std::cos(a), (aL0 + aL1) * std::sin(a)}; return e; }
inline void two_tri(vp::Case &c, double L, V &C, V &x) { do { C = rpts(c, 9, L); } while (!fat_tri(tri_pt(C, 0), tri_pt(C, 1), tri_pt(C, 2))); do { if (c.flip()) x = rpts(c, 9, L); else { x = C; for (double &v: x) v += c.uni(-0.2, 0.2) * L; } } while (!fat_tri(tri_pt(x, 0), tri_pt(x, 1), tri_pt(x, 2))); }
inline El mips(vp::Case &c) { El e; e.name = "MIPS"; e.nn = 3; e.nd = 3; e.rigid = 3; double L = e.L = c.logreal(1e-1, 1e1); V C; two_tri(c, L, C, e.x);
  e.eval = [=](const V &x) { Out r; double p[3][3], P[3][3], g[3][3], H[3][3][3][3]; fill(p, x); fill(P, C); d::WdWddW_MIPS(r.W, g, H, p, P); pack4<3, 3>(r, &g[0][0], H); return r; }; return e; }
// is the St.Venant-Kirchhoff membrane stress positive definite?
inline bool tension(const V &C, const V &x, double la, double mu) { D3 A = tri_pt(C, 1) - tri_pt(C, 0), B = tri_pt(C, 2) - tri_pt(C, 0), a = tri_pt(x, 1) - tri_pt(x, 0), b = tri_pt(x, 2) - tri_pt(x, 0), e1 = unit(A), e2 = unit(B - dot(B, e1) * e1); double p = dot(A, e1), q = dot(B, e1), r = dot(B, e2); D3 f1 = (1 / p) * a, f2 = (1 / r) * (b - (q / p) * a); double E[3] = {0.5 * (dot(f1, f1) - 1), 0.5 * (dot(f2, f2) - 1), 0.5 * dot(f1, f2)}, t = la * (E[0] + E[1]), S0 = t + 2 * mu * E[0], S1 = t + 2 * mu * E[1], S2 = 2 * mu * E[2], m = std::fabs(S0) + std::fabs(S1) + std::fabs(S2); return S0 + S1 > 1e-6 * m && S0 * S1 - S2 * S2 > 1e-6 * m * m; }
// smallest pivot of the Cholesky factorisation of A + s I is positive
inline bool psd(V A, int n, double s) { for (int i = 0; i < n; ++i) A[i * n + i] += s; for (int k = 0; k < n; ++k) { if (A[k * n + k] <= 0) return false; for (int i = k + 1; i < n; ++i) { double f = A[i * n + k] / A[k * n + k]; for (int j = k; j < n; ++j) A[i * n + j] -= f * A[k * n + j]; } } return true; }
inline El cst(vp::Case &c) { El e; e.name = "CST"; e.nn = 3; e.nd = 3; e.rigid = 3; double L = e.L = c.logreal(1e-1, 1e1), la = c.uni(0, 5), mu = c.uni(0.1, 5); V C; two_tri(c, L, C, e.x); e.zero = true; e.restx = C; e.exact = [=](const V &x) { return tension(C, x, la, mu); };
  e.eval = [=](const V &x) { Out r; double p[3][3], P[3][3], g[3][3], H[3][3][3][3]; fill(p, x); fill(P, C); d::WdWddW_CST(r.W, g, H, P, p, la, mu); pack4<3, 3>(r, &g[0][0], H); return r; }; return e; }
inline V hinge(vp::Case &c, double L) { V C; for (;;) { C = rpts(c, 12, L); if (fat_tri(tri_pt(C, 0), tri_pt(C, 2), tri_pt(C, 3)) && fat_tri(tri_pt(C, 1), tri_pt(C, 3), tri_pt(C, 2))) return C; } }
inline V flat_hinge(vp::Case &c, double L) { D3 ex = unit(rv(c, 1) + D3{1.5, 0, 0}), ey = unit(cross(ex, D3{0, 0.3, 1})), o = rv(c, L); double l = L * c.uni(0.5, 1.5); D3 q[4] = {o + (c.uni(0, 1) * l) * ex + (c.uni(0.4, 1) * l) * ey, o + (c.uni(0, 1) * l) * ex - (c.uni(0.4, 1) * l) * ey, o, o + l * ex}; V C; for (auto &p: q) for (double v: p) C.push_back(v); return C; }
inline El bend(vp::Case &c) { El e; e.name = "quadratic bending"; e.nn = 4; e.nd = 3; e.rigid = 3; double L = e.L = c.logreal(1e-1, 1e1), k = c.uni(0.1, 5); bool flat = c.flip(); V C = flat ? flat_hinge(c, L) : hinge(c, L); e.x = rpts(c, 12, L); e.zero = flat; e.restx = C;
  e.eval = [=](const V &x) { Out r; double p[4][3], P[4][3], g[4][3], H[4][4][3][3]; fill(p, x); fill(P, C); d::WdWddW_Bend(r.W, g, H, P, p, k); pack4<4, 3>(r, &g[0][0], H); return r; }; return e; }
inline El mitc3(vp::Case &c) { El e; e.name = "MITC3 plate"; e.nn = 3; e.nd = 3; double L = e.L = c.logreal(1e-1, 1e1), t = L * c.uni(0.05, 0.5), la = c.uni(0, 5), mu = c.uni(0.1, 5); V C; for (;;) { C = rpts(c, 6, L); D3 a{C[0], C[1], 0}, b{C[2], C[3], 0}, g{C[4], C[5], 0}; if (fat_tri(a, b, g)) { if (cross(b - a, g - a)[2] < 0) { std::swap(C[2], C[4]); std::swap(C[3], C[5]); } break; } } e.x = rpts(c, 9, 1); for (int i = 0; i < 3; ++i) e.x[i * 3] *= L;
  e.eval = [=](const V &x) { Out r; double u[3][3], P[3][2], g[3][3] = {}, H[3][3][3][3] = {}; fill(u, x); fill(P, C); d::WdWddW_PlateBendingMITC3(r.W, g, H, P, u, t, la, mu); pack4<3, 3>(r, &g[0][0], H); return r; };
  e.zero = true; double w0 = c.uni(-1, 1), a = c.uni(-1, 1), b = c.uni(-1, 1); for (int i = 0; i < 3; ++i) { e.restx.push_back(w0 * L + a * C[i * 2] + b * C[i * 2 + 1]); e.restx.push_back(b); e.restx.push_back(-a); } return e; } // rigid motion of the plate: w affine, rotations its slopes
inline V rodpts(vp::Case &c, double L) { for (;;) { D3 a = rv(c, L), b = a + L * c.uni(0.3, 1.5) * unit(rv(c, 1) + D3{0, 1e-3, 1e-3}), g = b + L * c.uni(0.3, 1.5) * unit(rv(c, 1) + D3{0, 1e-3, 1e-3}); if (dot(unit(b - a), unit(g - b)) > -0.6) return {a[0], a[1], a[2], b[0], b[1], b[2], g[0], g[1], g[2]}; } }
inline El rodstraight(vp::Case &c) { El e; e.name = "straight rod"; e.nn = 3; e.nd = 3; e.rigid = 3; double L = e.L = c.logreal(1e-1, 1e1); e.x = rodpts(c, L); e.zero = true; D3 a = tri_pt(e.x, 0), b = tri_pt(e.x, 1), q = b + c.uni(0.4, 2) * (b - a); e.restx = e.x; for (int k = 0; k < 3; ++k) e.restx[6 + k] = q[k];
  e.eval = [=](const V &x) { Out o; d::CVec3d p[3] = {{x[0], x[1], x[2]}, {x[3], x[4], x[5]}, {x[6], x[7], x[8]}}, g[3]; d::CMat3d H[3][3]; o.W = d::WdWddW_Rod3BendStraight(g, H, p); o.H.resize(81); for (int i = 0; i < 3; ++i) { for (int t = 0; t < 3; ++t) o.g.push_back(g[i][t]); for (int j = 0; j < 3; ++j) for (int s = 0; s < 3; ++s) for (int t = 0; t < 3; ++t) o.H[(i * 3 + s) * 9 + j * 3 + t] = H[i][j](s, t); } return o; }; return e; }
inline V hexrest(vp::Case &c, double L) { static const int q[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}; double s[3] = {c.uni(0.5, 1.5), c.uni(0.5, 1.5), c.uni(0.5, 1.5)}; V r; for (auto &p: q) for (int k = 0; k < 3; ++k) r.push_back(L * (p[k] * s[k] + c.uni(-0.1, 0.1))); return r; }
inline El hyper(vp::Case &c, bool comp) { El e; e.name = comp ? "compressible hexahedron" : "Mooney-Rivlin hexahedron"; e.nn = 8; e.nd = 3; e.rigid = 3; double L = e.L = c.logreal(1e-1, 1e1), c1 = c.uni(0.1, 5), c2 = c.uni(0.1, 5); int ig = c.range(0, 3); V P = hexrest(c, L); e.rest = P; for (int i = 0; i < 24; ++i) e.x.push_back(c.uni(-0.12, 0.12) * L); if (c.flip()) { double s = c.uni(0.8, 1.3); for (int i = 0; i < 24; ++i) e.x[i] += (s - 1) * P[i]; } e.zero = true; e.restx.assign(24, 0);
  e.eval = [=](const V &x) { Out r; double u[8][3], p[8][3], g[8][3] = {}, vol = 0; static thread_local double H[8][8][3][3]; std::fill_n(&H[0][0][0][0], 576, 0.0); fill(u, x); fill(p, P); if (comp) d::AddWdWddW_Solid3Compression_Hex(r.W, g, H, vol, c1, p, u, ig); else d::AddWdWddW_Solid3HyperMooneyrivlin2Reduced_Hex(r.W, g, H, vol, c1, c2, p, u, ig); pack4<8, 3>(r, &g[0][0], H); return r; }; return e; }
inline El invertible(vp::Case &c) { El e; e.name = "invertible tetrahedron"; e.nn = 4; e.nd = 3; e.rigid = 3; double L = e.L = c.logreal(1e-1, 1e1), mu = c.uni(0.2, 3), la = c.uni(0, 3); V P; for (;;) { P = rpts(c, 12, L); double v = tetvol(tri_pt(P, 0), tri_pt(P, 1), tri_pt(P, 2), tri_pt(P, 3)); if (std::fabs(v) < 0.1 * L * L * L) continue; if (v < 0) for (int k = 0; k < 3; ++k) std::swap(P[k], P[3 + k]); break; }
  // displaced by a stretch with well separated principal values: the differential of the decomposition is singular otherwise
  D3 a = unit(rv(c, 1) + D3{0, 0, 1.2}), b = unit(cross(a, rv(c, 1) + D3{1.2, 0, 0})), g = cross(a, b), a2 = unit(rv(c, 1) + D3{0, 0, 1.2}), b2 = unit(cross(a2, rv(c, 1) + D3{1.2, 0, 0})), g2 = cross(a2, b2); double s[3] = {c.uni(1.35, 2), c.uni(0.85, 1.2), c.uni(0.3, 0.7)}; if (c.chance(1, 3)) s[2] = -s[2];
  for (int i = 0; i < 4; ++i) { D3 p = tri_pt(P, i); p = (s[0] * dot(a, p)) * a2 + (s[1] * dot(b, p)) * b2 + (s[2] * dot(g, p)) * g2; for (double v: p) e.x.push_back(v); }
  e.eval = [=](const V &x) { Out r; double p[4][3], q[4][3], gr[4][3], H[4][4][3][3]; fill(p, x); fill(q, P); auto neo = [=](double dW[3], double ddW[3][3], double l0, double l1, double l2) { double l[3] = {l0, l1, l2}, J = l0 * l1 * l2, W = 0.5 * la * (J - 1) * (J - 1); for (int i = 0; i < 3; ++i) { W += 0.5 * mu * (l[i] - 1) * (l[i] - 1) + 0.1 * mu * l[i] * l[i] * l[i] * l[i]; double Ji = l[(i + 1) % 3] * l[(i + 2) % 3]; dW[i] = la * (J - 1) * Ji + mu * (l[i] - 1) + 0.4 * mu * l[i] * l[i] * l[i]; for (int j = 0; j < 3; ++j) { double Jj = l[(j + 1) % 3] * l[(j + 2) % 3]; ddW[i][j] = la * Ji * Jj + (i == j ? mu + 1.2 * mu * l[i] * l[i] : la * (J - 1) * l[3 - i - j]); } } return W; };
    r.W = d::WdWddW_InvertibleFEM(gr, H, q, p, neo); pack4<4, 3>(r, &gr[0][0], H); return r; }; return e; }
inline El beam2(vp::Case &c) { El e; e.name = "beam"; e.nn = 2; e.nd = 3; e.energy = false; double L = e.L = c.logreal(1e-1, 1e1), EI = c.uni(0.1, 5), AE = c.uni(0.1, 5), th = c.uni(-3.2, 3.2), l = L * c.uni(0.3, 2); V X{c.uni(-L, L), c.uni(-L, L), 0, 0}; X[2] = X[0] + l * std::cos(th); X[3] = X[1] + l * std::sin(th); e.x = rpts(c, 6, 1);
  e.eval = [=](const V &x) { Out r; double u[2][3], p[2][2], g[2][3], H[2][2][3][3]; fill(u, x); fill(p, X); d::dWddW_Beam2(g, H, EI, AE, p, u); pack4<2, 3>(r, &g[0][0], H); for (int i = 0; i < 6; ++i) r.W += 0.5 * r.g[i] * x[i]; return r; };
  e.zero = true; double a = c.uni(-1, 1), tx = c.uni(-1, 1), ty = c.uni(-1, 1); e.restx = {tx - a * X[1], ty + a * X[0], a, tx - a * X[3], ty + a * X[2], a}; return e; }
inline El dkt(vp::Case &c) { El e; e.name = "DKT plate"; e.nn = 3; e.nd = 3; e.energy = false; double L = e.L = c.logreal(1e-1, 1e1), t = L * c.uni(0.05, 0.5), E = c.uni(0.1, 5), nu = c.uni(0, 0.45); V C; for (;;) { C = rpts(c, 6, L); D3 a{C[0], C[1], 0}, b{C[2], C[3], 0}, g{C[4], C[5], 0}; if (fat_tri(a, b, g)) { if (cross(b - a, g - a)[2] < 0) { std::swap(C[2], C[4]); std::swap(C[3], C[5]); } break; } } e.x = rpts(c, 9, 1); for (int i = 0; i < 3; ++i) e.x[i * 3] *= L;
  e.eval = [=](const V &x) { Out r; double P[3][2], w[3], rot[3][2], ww[3][3], wr[3][3][2], rw[3][3][2], rr[3][3][2][2], ew[3], er[3][2]; fill(P, C); for (int i = 0; i < 3; ++i) { w[i] = x[i * 3]; rot[i][0] = x[i * 3 + 1]; rot[i][1] = x[i * 3 + 2]; } d::MakeMat_PlateBendingDKT(ww, wr, rw, rr, ew, er, E, nu, t, P, w, rot); r.H.resize(81);
    for (int i = 0; i < 3; ++i) { r.g.insert(r.g.end(), {-ew[i], -er[i][0], -er[i][1]}); for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) r.H[(i * 3 + k) * 9 + j * 3 + l] = k == 0 ? (l == 0 ? ww[i][j] : wr[i][j][l - 1]) : (l == 0 ? rw[i][j][k - 1] : rr[i][j][k - 1][l - 1]); } for (int i = 0; i < 9; ++i) r.W += 0.5 * r.g[i] * x[i]; return r; }; // the residual is minus the force
  e.zero = true; double w0 = c.uni(-1, 1), a = c.uni(-1, 1), b = c.uni(-1, 1); for (int i = 0; i < 3; ++i) { e.restx.push_back(w0 * L + a * C[i * 2] + b * C[i * 2 + 1]); e.restx.push_back(b); e.restx.push_back(-a); } return e; }
// rods with material frames: displacements of 3 points and 2 twist angles, frames carried by RodFrameTrans
struct RodCfg { V P; D3 S[2]; };
inline RodCfg rodcfg(vp::Case &c, double L) { RodCfg r; for (;;) { r.P = rodpts(c, L); D3 a = tri_pt(r.P, 0), b = tri_pt(r.P, 1), g = tri_pt(r.P, 2), u = unit(b - a), v = unit(g - b), s = rv(c, 1), t = rv(c, 1); s = s - dot(s, u) * u; t = t - dot(t, v) * v; if (norm(s) < 0.1 || norm(t) < 0.1) continue; r.S[0] = unit(s); r.S[1] = unit(t); double Y = 1 + dot(r.S[0], r.S[1]) + dot(u, v) + dot(cross(u, r.S[0]), cross(v, r.S[1])); if (Y > 0.5) return r; } }
inline void rodmove(const RodCfg &r, const V &x, d::CVec3d P[3], d::CVec3d S[2]) { d::CVec3d q[3]; for (int i = 0; i < 3; ++i) { q[i] = d::CVec3d(r.P[i * 3], r.P[i * 3 + 1], r.P[i * 3 + 2]); P[i] = q[i] + d::CVec3d(x[i * 3], x[i * 3 + 1], x[i * 3 + 2]); } for (int k = 0; k < 2; ++k) { d::CVec3d f[3]; d::RodFrameTrans(f, d::CVec3d(r.S[k][0], r.S[k][1], r.S[k][2]), q[k + 1] - q[k], (P[k + 1] - q[k + 1]) - (P[k] - q[k]), x[9 + k]); S[k] = f[0]; } }
inline El rodframe(vp::Case &c, int kind) { static const char *nm[] = {"rod (exact)", "rod (Gauss-Newton)", "hair (Gauss-Newton)", "frame products"}; El e; e.name = nm[kind]; e.nn = 11; e.nd = 1; double L = e.L = c.logreal(1e-1, 1e1); auto cfg = std::make_shared<RodCfg>(rodcfg(c, L)); double st[3] = {c.uni(0.2, 3), c.uni(0.2, 3), c.uni(0.2, 3)}, of[3] = {c.uni(-1, 1), c.uni(-1, 1), c.uni(-1, 1)}; array<double, 3> stiff{st[0], st[1], st[2]}, off{of[0], of[1], of[2]}; e.x.assign(11, 0); e.hessian = kind == 0 || kind == 3; e.sym = false;
  e.eval = [=](const V &x) { Out o; d::CVec3d P[3], S[2], gP[3], HtP[2][3]; double gt[2], Htt[2][2]; d::CMat3d HPP[3][3]; rodmove(*cfg, x, P, S); o.H.resize(121);
    if (kind == 2) { double g[3][4], H[3][3][4][4]; o.W = d::WdWddW_HairApprox(g, H, stiff.data(), P, S, d::CVec3d(off[0], off[1], off[2])); auto id = [](int k) { return k < 9 ? std::make_pair(k / 3, k % 3) : std::make_pair(k - 9, 3); }; for (int i = 0; i < 11; ++i) { auto a = id(i); o.g.push_back(g[a.first][a.second]); for (int j = 0; j < 11; ++j) { auto b = id(j); o.H[i * 11 + j] = H[a.first][b.first][a.second][b.second]; } } return o; }
    if (kind == 0) o.W = d::WdWddW_Rod3Exact(gP, gt, HPP, HtP, Htt, stiff.data(), P, S, d::CVec3d(off[0], off[1], off[2])); else if (kind == 1) o.W = d::WdWddW_Rod3Approx(gP, gt, HPP, HtP, Htt, stiff.data(), P, S, d::CVec3d(off[0], off[1], off[2])); else o.W = d::WdWddW_DotFrame(gP, gt, HPP, HtP, Htt, P, S, off.data());
    for (int i = 0; i < 9; ++i) o.g.push_back(gP[i / 3][i % 3]); o.g.push_back(gt[0]); o.g.push_back(gt[1]); for (int i = 0; i < 11; ++i) for (int j = 0; j < 11; ++j) o.H[i * 11 + j] = i < 9 && j < 9 ? HPP[i / 3][j / 3](i % 3, j % 3) : i < 9 ? HtP[j - 9][i / 3][i % 3] : j < 9 ? HtP[i - 9][j / 3][j % 3] : Htt[i - 9][j - 9]; return o; }; return e; }
struct PlaneContact : d::CInput_Contact { D3 n; double h; double penetrationNormal(double &nx, double &ny, double &nz, double px, double py, double pz) const override { nx = n[0]; ny = n[1]; nz = n[2]; return h - (n[0] * px + n[1] * py + n[2] * pz); } };
inline El contact(vp::Case &c) { El e; e.name = "contact"; e.nn = 1; e.nd = 3; e.L = 1; auto in = std::make_shared<PlaneContact>(); in->n = unit(rv(c, 1) + D3{0, 0, 1.2}); in->h = c.uni(-1, 1); double k = c.uni(0.1, 5), cl = c.uni(0, 0.3); D3 p = rv(c, 1.5); double pd = in->h - dot(in->n, p) + cl; if (std::fabs(pd) < 0.01) p = p + 0.05 * in->n; e.x = {p[0], p[1], p[2]};
  e.eval = [=](const V &x) { Out r; double g[3], H[3][3]; d::WdWddW_Contact(r.W, g, H, x.data(), k, cl, *in); r.g.assign(g, g + 3); for (auto &q: H) r.H.insert(r.H.end(), q, q + 3); return r; }; return e; }
static const int NEL = 18;
inline El make(vp::Case &c, int k) { switch (k) { case 0: return spring(c); case 1: return rod2(c); case 2: return mips(c); case 3: return cst(c); case 4: return bend(c); case 5: return mitc3(c); case 6: return rodstraight(c); case 7: return hyper(c, false); case 8: return hyper(c, true); case 9: case 10: return invertible(c); case 11: return beam2(c); case 12: return dkt(c); case 13: case 14: case 15: case 16: return rodframe(c, k - 13); default: return contact(c); } }
inline double mx(const V &v) { double m = 0; for (double x: v) m = std::max(m, std::fabs(x)); return m; }
}
