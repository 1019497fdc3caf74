// SCALE: 3 8
#include "elements.hpp"
#include <complex>
#include "delfem2/jagarray.h"
#include "delfem2/femutil.h"
#include "delfem2/fem_poisson.h"
#include "delfem2/fem_solidlinear.h"
#include "delfem2/fem_stokes.h"
#include "delfem2/fem_navierstokes.h"
#include "delfem2/fem_helmholtz.h"
using namespace elm;
typedef std::complex<double> cd;
// random simplex of dimension D with positive volume; gradients of the shape functions by solving for affine functions
template<int D> struct Sx { double P[D + 1][D]; double vol; double g[D + 1][D]; };
template<int D> Sx<D> simplex(vp::Case &c, double L) { Sx<D> s; for (;;) { for (auto &p: s.P) for (double &v: p) v = c.uni(-L, L);
    if (D == 2) s.vol = area2({s.P[0][0], s.P[0][1]}, {s.P[1][0], s.P[1][1]}, {s.P[2][0], s.P[2][1]}); else s.vol = tetvol({s.P[0][0], s.P[0][1], s.P[0][D - 1]}, {s.P[1][0], s.P[1][1], s.P[1][D - 1]}, {s.P[2][0], s.P[2][1], s.P[2][D - 1]}, {s.P[D][0], s.P[D][1], s.P[D][D - 1]});
    if (s.vol < 0) { for (int k = 0; k < D; ++k) std::swap(s.P[0][k], s.P[1][k]); s.vol = -s.vol; } if (s.vol > 0.05 * std::pow(L, D)) break; }
  for (int i = 0; i <= D; ++i) { V A, b, x; for (int j = 0; j <= D; ++j) { A.push_back(L); for (int k = 0; k < D; ++k) A.push_back(s.P[j][k]); b.push_back(i == j); } solve(A, b, x); for (int k = 0; k < D; ++k) s.g[i][k] = x[k + 1]; }
  return s; }
template<int D> double gg(const Sx<D> &s, int i, int j) { double t = 0; for (int k = 0; k < D; ++k) t += s.g[i][k] * s.g[j][k]; return t; }
// stiffness of isotropic elasticity from constant gradients
inline double el(double la, double mu, const double *gi, const double *gj, int D, int a, int b) { double t = 0; for (int k = 0; k < D; ++k) t += gi[k] * gj[k]; return la * gi[a] * gj[b] + mu * gj[a] * gi[b] + (a == b ? mu * t : 0); }
#define CMP(a, b, tol, ...) do { double a_ = (a), b_ = (b), t_ = (tol); VP_CHECK(std::fabs(a_ - b_) <= t_, "%s: got %.12g, want %.12g (tolerance %.3g)", vp::format(__VA_ARGS__).c_str(), a_, b_, t_); } while (0)
namespace vp { inline std::string format(const char *f, int a = 0, int b = 0, int k = 0, int l = 0) { char s[200]; snprintf(s, sizeof s, f, a, b, k, l); return s; } }
template<int D> static void poisson(vp::Case &c) { const int N = D + 1; double L = c.logreal(1e-2, 1e2), al = c.uni(0.1, 5), src = c.uni(-2, 2), rho = c.uni(0.1, 5), dt = c.uni(0.01, 1), ga = c.uni(0, 1); auto s = simplex<D>(c, L); double u[N], v[N], r[N], K[N][N], r2[N], K2[N][N]; for (int i = 0; i < N; ++i) u[i] = c.uni(-1, 1), v[i] = c.uni(-1, 1);
  if constexpr (D == 2) { d::EMat_Poisson_Tri2D(r, K, al, src, s.P, u); d::EMat_Diffusion_Tri2D(r2, K2, al, src, dt, ga, rho, s.P, u, v); } else { d::EMat_Poisson_Tet3D(r, K, al, src, s.P, u); d::EMat_Diffusion_Newmark_Tet3D(r2, K2, al, src, dt, ga, rho, s.P, u, v); }
  double k0 = 0, m0 = rho * s.vol; for (int i = 0; i < N; ++i) k0 = std::max(k0, al * s.vol * gg(s, i, i)); double t1 = 1e-9 * (k0 + std::fabs(src) * s.vol), t2 = t1 * (1 + dt) + 1e-9 * m0;
  for (int i = 0; i < N; ++i) { double w = src * s.vol / N, w2 = w; for (int j = 0; j < N; ++j) { double k = al * s.vol * gg(s, i, j), m = m0 * (i == j ? 2 : 1) / ((D + 1) * (D + 2)); CMP(K[i][j], k, t1, "stiffness (%d,%d)", i, j); CMP(K2[i][j], m + ga * dt * k, t2, "diffusion matrix (%d,%d)", i, j); w -= k * u[j]; w2 -= k * (u[j] + dt * v[j]) + m * v[j]; } CMP(r[i], w, t1, "residual %d", i); CMP(r2[i], w2, t2, "diffusion residual %d", i); } c.nontrivial(); c.label("dimension %d", D); }
VP_PROP(poisson, 30000, 300000, "Poisson and diffusion elements of random triangles and tetrahedra against exact integrals of the shape functions; matrices and residuals of rectangles against exact integration; non-trivial always") { int k = c.range(0, 2); if (k == 0) poisson<2>(c); else if (k == 1) poisson<3>(c); else {
  double lx = c.logreal(1e-2, 1e2), ly = lx * c.uni(0.1, 10), A[4][4], B[4][4], S[4][4][2][2], mu = c.uni(0.1, 3), la = c.uni(0, 3); int ng = c.range(1, 3); d::EMat_Poission2_QuadOrth(A, lx, ly); d::EMat_Poisson2_QuadOrth_GaussInt(B, lx, ly, ng); d::EMat_SolidLinear2_QuadOrth_GaussInt(S, lx, ly, mu, la, ng); double q[2] = {0.5 - 0.5 / std::sqrt(3.0), 0.5 + 0.5 / std::sqrt(3.0)}, W[4][4] = {}, Z[4][4][2][2] = {};
  for (double x: q) for (double y: q) { double g[4][2] = {{-(1 - y) / lx, -(1 - x) / ly}, {(1 - y) / lx, -x / ly}, {y / lx, x / ly}, {-y / lx, (1 - x) / ly}}; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { W[i][j] += 0.25 * lx * ly * (g[i][0] * g[j][0] + g[i][1] * g[j][1]); for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) Z[i][j][a][b] += 0.25 * lx * ly * el(la, mu, g[i], g[j], 2, a, b); } }
  double m = W[0][0], m2 = Z[0][0][0][0] + Z[0][0][1][1]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { CMP(A[i][j], W[i][j], 1e-10 * m, "rectangle, closed form (%d,%d)", i, j); CMP(B[i][j], W[i][j], 1e-9 * m, "rectangle, quadrature (%d,%d)", i, j); for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) CMP(S[i][j][a][b], Z[i][j][a][b], 1e-9 * m2, "elastic rectangle (%d,%d,%d,%d)", i, j, a, b); } c.nontrivial(); c.label("rectangle"); } }
template<int D> static void solid(vp::Case &c) { const int N = D + 1; double L = c.logreal(1e-2, 1e2), la = c.uni(0, 5), mu = c.uni(0.1, 5), rho = c.uni(0.1, 5), dt = c.uni(0.01, 1), be = c.uni(0, 1), ga = c.uni(0, 1), G[3] = {c.uni(-2, 2), c.uni(-2, 2), c.uni(-2, 2)}; auto s = simplex<D>(c, L); bool init = c.flip(), add = c.flip(); double u[N][D], v[N][D], a[N][D], r[N][D], K[N][N][D][D], r2[N][D], K2[N][N][D][D], off = add && D == 3 ? c.uni(-2, 2) : 0; for (int i = 0; i < N; ++i) for (int k = 0; k < D; ++k) u[i][k] = L * c.uni(-1, 1), v[i][k] = L * c.uni(-1, 1), a[i][k] = L * c.uni(-1, 1); for (auto &q: r) for (double &x: q) x = off; for (auto &p: K) for (auto &q: p) for (auto &x: q) for (double &y: x) y = off;
  double g0 = 1; if constexpr (D == 2) { d::EMat_SolidStaticLinear_Tri2D(r, K, mu, la, rho, G[0], G[1], u, s.P); d::EMat_SolidDynamicLinear_Tri2D(r2, K2, mu, la, rho, G[0], G[1], dt, ga, be, u, v, a, s.P, init); } else { d::EMat_SolidLinear_Static_Tet(K, r, mu, la, s.P, u, add); g0 = 0; d::EMat_SolidLinear_NewmarkBeta_MeshTet3D(r2, K2, mu, la, rho, G[0], G[1], G[2], dt, ga, be, u, v, a, s.P, init); }
  double k0 = 0, m0 = rho * s.vol; for (int i = 0; i < N; ++i) k0 = std::max(k0, (la + 2 * mu) * s.vol * gg(s, i, i)); double t1 = 1e-9 * (k0 + 1), t2 = t1 * (1 + dt * dt) + 1e-9 * m0, tr = 1e-9 * (k0 * L * (1 + dt + dt * dt) + m0 * (1 + L) + std::fabs(off));
  for (int i = 0; i < N; ++i) for (int p = 0; p < D; ++p) { double w = off + g0 * m0 * G[p] / N, w2 = m0 * G[p] / N; for (int j = 0; j < N; ++j) for (int q = 0; q < D; ++q) { double k = s.vol * el(la, mu, s.g[i], s.g[j], D, p, q), m = p == q ? m0 * (i == j ? 2 : 1) / ((D + 1) * (D + 2)) : 0; CMP(K[i][j][p][q], k + off, t1, "stiffness (%d,%d,%d,%d)", i, j, p, q); CMP(K2[i][j][p][q], m + be * dt * dt * k, t2, "dynamic matrix (%d,%d,%d,%d)", i, j, p, q); w -= (k + off) * u[j][q]; w2 -= k * u[j][q] + m * a[j][q] + (init ? k * (dt * v[j][q] + 0.5 * dt * dt * a[j][q]) : 0); } CMP(r[i][p], w, tr + 1e-9 * std::fabs(off) * L * 12, "static residual (%d,%d)", i, p); CMP(r2[i][p], w2, tr, "dynamic residual (%d,%d)", i, p); } c.nontrivial(); c.label("dimension %d", D); }
VP_PROP(solid, 30000, 300000, "linear elastic triangles and tetrahedra, static and Newmark with and without prediction, against exact integrals; non-trivial always") { if (c.flip()) solid<2>(c); else solid<3>(c); }
VP_PROP(solid_high, 4000, 40000, "trilinear hexahedra (boxes, parallelepipeds, distorted) and quadratic tetrahedra: matrices against exact integration where the integrand is polynomial, rigid motions give no force, linear fields the exact nodal forces, body forces exact, residual = load - K u, stress at a point; non-trivial always") { c.nontrivial(); double L = c.logreal(1e-1, 1e1), la = c.uni(0, 5), mu = c.uni(0.1, 5), rho = c.uni(0.1, 5), G[3] = {c.uni(-2, 2), c.uni(-2, 2), c.uni(-2, 2)};
  if (c.flip()) { static thread_local double K[8][8][3][3]; double P[8][3], u[8][3], r[8][3], Z[8][3] = {}; V H = hexrest(c, L); bool par = c.flip(); if (par) { D3 o = rv(c, L), e[3]; do { for (auto &q: e) q = rv(c, L); } while (dot(e[0], cross(e[1], e[2])) < 0.1 * L * L * L); static const int q[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}; for (int i = 0; i < 8; ++i) { D3 p = o; for (int k = 0; k < 3; ++k) p = p + double(q[i][k]) * e[k]; for (int k = 0; k < 3; ++k) H[i * 3 + k] = p[k]; } } fill(P, H); V U = rpts(c, 24, L); fill(u, U);
    d::elemMatRes_LinearSolidGravity3_Static_Q1(mu, la, rho, G, P, u, K, r); static thread_local double W[8][8][3][3]; std::fill_n(&W[0][0][0][0], 576, 0.0); double f[8] = {}, B[8][3] = {}; static const int sg[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}}; double g3[3] = {-std::sqrt(0.6), 0, std::sqrt(0.6)}, w3[3] = {5. / 9, 8. / 9, 5. / 9};
    for (int x = 0; x < 27; ++x) { double t[3] = {g3[x % 3], g3[x / 3 % 3], g3[x / 9]}, w = w3[x % 3] * w3[x / 3 % 3] * w3[x / 9], dN[8][3], N[8]; for (int i = 0; i < 8; ++i) { N[i] = 1; for (int k = 0; k < 3; ++k) N[i] *= (1 + sg[i][k] * t[k]) / 2; for (int k = 0; k < 3; ++k) { dN[i][k] = sg[i][k] / 2.0; for (int l = 0; l < 3; ++l) if (l != k) dN[i][k] *= (1 + sg[i][l] * t[l]) / 2; } }
      D3 J[3] = {}; for (int i = 0; i < 8; ++i) for (int k = 0; k < 3; ++k) J[k] = J[k] + dN[i][k] * D3{P[i][0], P[i][1], P[i][2]}; double det = dot(J[0], cross(J[1], J[2])); D3 I[3] = {(1 / det) * cross(J[1], J[2]), (1 / det) * cross(J[2], J[0]), (1 / det) * cross(J[0], J[1])}; double g[8][3]; for (int i = 0; i < 8; ++i) for (int k = 0; k < 3; ++k) { g[i][k] = 0; for (int l = 0; l < 3; ++l) g[i][k] += dN[i][l] * I[l][k]; B[i][k] += w * det * g[i][k]; } for (int i = 0; i < 8; ++i) { f[i] += w * det * N[i]; for (int j = 0; j < 8; ++j) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) W[i][j][a][b] += w * det * el(la, mu, g[i], g[j], 3, a, b); } }
    double M = 0; for (double *q = &W[0][0][0][0]; q < &W[0][0][0][0] + 576; ++q) M = std::max(M, std::fabs(*q)); double A[3][3], rot[3] = {c.uni(-1, 1), c.uni(-1, 1), c.uni(-1, 1)}, tr[3] = {c.uni(-1, 1), c.uni(-1, 1), c.uni(-1, 1)}; for (auto &q: A) for (double &x: q) x = c.uni(-1, 1); double tt = A[0][0] + A[1][1] + A[2][2];
    for (int i = 0; i < 8; ++i) for (int a = 0; a < 3; ++a) { double w = rho * G[a] * f[i], lin = 0, rig = 0, force = 0; for (int j = 0; j < 8; ++j) { D3 pj{P[j][0], P[j][1], P[j][2]}, rj = cross(D3{rot[0], rot[1], rot[2]}, pj); for (int b = 0; b < 3; ++b) { double k = K[i][j][a][b]; if (par) CMP(k, W[i][j][a][b], 1e-9 * M, "hexahedron stiffness (%d,%d,%d,%d)", i, j, a, b); VP_NEAR(k, K[j][i][b][a], 1e-11 * M); w -= k * u[j][b]; lin += k * (A[b][0] * pj[0] + A[b][1] * pj[1] + A[b][2] * pj[2]); rig += k * (rj[b] + L * tr[b]); } }
      for (int b = 0; b < 3; ++b) force += (mu * (A[a][b] + A[b][a]) + (a == b ? la * tt : 0)) * B[i][b]; CMP(r[i][a], w, 1e-9 * (M * L + rho * L * L * L), "hexahedron residual (%d,%d)", i, a); CMP(lin, force, 1e-9 * M * L, "hexahedron, force of a linear field (%d,%d)", i, a); CMP(rig, 0, 1e-9 * M * L, "hexahedron, force of a rigid motion (%d,%d)", i, a); } (void) Z; c.label("hexahedron%s", par ? ", affine" : ""); }
  else { auto s = simplex<3>(c, L); static thread_local double K[10][10][3][3]; double u[10][3], r[10][3]; for (auto &q: u) for (double &x: q) x = L * c.uni(-1, 1); d::matRes_LinearSolid_TetP2(K, r, s.vol, la, mu, G[0], G[1], G[2], rho, s.g, u); static const int ed[6][2] = {{0, 1}, {1, 2}, {0, 2}, {0, 3}, {1, 3}, {2, 3}}; // gradients are linear: their values at the corners decide them
    double g[10][4][3]; for (int a = 0; a < 4; ++a) { double l[4] = {}; l[a] = 1; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) g[i][a][k] = (4 * l[i] - 1) * s.g[i][k]; for (int e = 0; e < 6; ++e) for (int k = 0; k < 3; ++k) g[4 + e][a][k] = 4 * (l[ed[e][0]] * s.g[ed[e][1]][k] + l[ed[e][1]] * s.g[ed[e][0]][k]); }
    double M = 0; for (int i = 0; i < 4; ++i) M = std::max(M, 9 * (la + 2 * mu) * s.vol * gg(s, i, i)); for (int i = 0; i < 10; ++i) for (int p = 0; p < 3; ++p) { double w = rho * G[p] * s.vol * (i < 4 ? -0.05 : 0.2); for (int j = 0; j < 10; ++j) for (int q = 0; q < 3; ++q) { double k = 0; for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) k += s.vol * (a == b ? 2 : 1) / 20 * el(la, mu, g[i][a], g[j][b], 3, p, q); CMP(K[i][j][p][q], k, 1e-7 * M, "quadratic tetrahedron stiffness (%d,%d,%d,%d)", i, j, p, q); w -= k * u[j][q]; } CMP(r[i][p], w, 1e-7 * (M * L + rho * s.vol), "quadratic tetrahedron residual (%d,%d)", i, p); }
    double l[4], sum = 0, S[3][3], H[3][3] = {}; for (double &x: l) sum += x = c.uni(0.05, 1); for (double &x: l) x /= sum; d::stress_LinearSolid_TetP2(S, l[0], l[1], l[2], l[3], s.vol, la, mu, 0, 0, 0, s.g, u); for (int i = 0; i < 10; ++i) for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) for (int a = 0; a < 4; ++a) H[p][q] += u[i][p] * l[a] * g[i][a][q]; for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) CMP(S[p][q], mu * (H[p][q] + H[q][p]) + (p == q ? la * (H[0][0] + H[1][1] + H[2][2]) : 0), 1e-8 * M * L / s.vol * L, "stress (%d,%d)", p, q); c.label("quadratic tetrahedron"); } }
// Stokes: velocity block, pressure coupling, stabilisation a negative multiple of the pressure Laplacian
template<int D> static void stokes(vp::Case &c) { const int N = D + 1, Q = D + 1; double L = c.logreal(1e-1, 1e1), al = c.uni(0.1, 5), rho = c.uni(0.1, 5), dt = c.uni(0.01, 1), ga = c.uni(0.1, 1), G[3] = {c.uni(-2, 2), c.uni(-2, 2), c.uni(-2, 2)}; auto s = simplex<D>(c, L); double u[N][Q], a[N][Q], r[N][Q], K[N][N][Q][Q], r2[N][Q], K2[N][N][Q][Q], rx[N][Q], Kx[N][N][Q][Q]; for (int i = 0; i < N; ++i) for (int k = 0; k < Q; ++k) u[i][k] = c.uni(-1, 1), a[i][k] = c.uni(-1, 1);
  auto stat = [&](double al_) { if constexpr (D == 2) d::EMat_Stokes2D_Static_P1(al_, G[0], G[1], s.P, u, K, r); else d::MakeMat_Stokes3D_Static_P1(al_, G[0], G[1], G[2], s.P, u, K, r); }; stat(2 * al); double ta2 = -K[0][0][D][D] / (s.vol * gg(s, 0, 0)); stat(al);
  double ta = -K[0][0][D][D] / (s.vol * gg(s, 0, 0)); VP_CHECK(ta > 0 && std::isfinite(ta), "stabilisation %g", ta); VP_NEAR(2 * ta2, ta, 1e-6 * ta); bool alt = false;
  if constexpr (D == 2) d::EMat_Stokes2D_Dynamic_P1(al, rho, G[0], G[1], dt, ga, s.P, u, a, K2, r2); else { d::MakeMat_Stokes3D_Dynamic_P1(al, rho, G[0], G[1], G[2], dt, ga, s.P, u, a, K2, r2); alt = true; double v[4][3], p[4], av[4][3], ap[4], uu[4][4][3][3], up[4][4][3], pu[4][4][3], pp[4][4], ru[4][3], rp[4]; for (int i = 0; i < 4; ++i) { for (int k = 0; k < 3; ++k) v[i][k] = u[i][k], av[i][k] = a[i][k]; p[i] = u[i][3]; ap[i] = a[i][3]; } d::MakeMat_Stokes3D_Dynamic_Newmark_P1P1(al, rho, G[0], G[1], G[2], dt, ga, s.P, v, p, av, ap, uu, up, pu, pp, ru, rp); for (int i = 0; i < 4; ++i) { for (int k = 0; k < 3; ++k) rx[i][k] = ru[i][k]; rx[i][3] = rp[i]; for (int j = 0; j < 4; ++j) { for (int k = 0; k < 3; ++k) { for (int l = 0; l < 3; ++l) Kx[i][j][k][l] = uu[i][j][k][l]; Kx[i][j][k][3] = up[i][j][k]; Kx[i][j][3][k] = pu[i][j][k]; } Kx[i][j][3][3] = pp[i][j]; } } }
  double S = 0; for (int i = 0; i < N; ++i) S = std::max(S, s.vol * (al * gg(s, i, i) + ta * gg(s, i, i) + std::sqrt(gg(s, i, i)) + 1 + rho)); double t = 1e-6 * S, m0 = rho * s.vol;
  for (int i = 0; i < N; ++i) for (int p = 0; p < Q; ++p) { double w = p < D ? s.vol * G[p] / N : 0, w2 = w; for (int j = 0; j < N; ++j) for (int q = 0; q < Q; ++q) { double k = p < D && q < D ? (p == q ? al * s.vol * gg(s, i, j) : 0) : p < D ? s.vol * s.g[i][p] / N : q < D ? s.vol * s.g[j][q] / N : -ta * s.vol * gg(s, i, j), m = p == q && p < D ? m0 * (i == j ? 2 : 1) / ((D + 1) * (D + 2)) : 0; CMP(K[i][j][p][q], k, t, "Stokes matrix (%d,%d,%d,%d)", i, j, p, q); CMP(K2[i][j][p][q], m + ga * dt * k, t, "dynamic Stokes matrix (%d,%d,%d,%d)", i, j, p, q); if (alt) CMP(Kx[i][j][p][q], m + ga * dt * k, t, "dynamic Stokes blocks (%d,%d,%d,%d)", i, j, p, q); w -= k * u[j][q]; w2 -= k * (u[j][q] + dt * a[j][q]) + m * a[j][q]; } CMP(r[i][p], w, 20 * t, "Stokes residual (%d,%d)", i, p); CMP(r2[i][p], w2, 20 * t, "dynamic Stokes residual (%d,%d)", i, p); if (alt) CMP(rx[i][p], w2, 20 * t, "dynamic Stokes block residual (%d,%d)", i, p); } c.nontrivial(); c.label("dimension %d", D); }
VP_PROP(stokes, 20000, 200000, "Stokes elements in two and three dimensions, static and dynamic in every variant, against exact integrals with a stabilisation term that is a positive multiple of the pressure Laplacian, inversely proportional to viscosity; non-trivial always") { if (c.flip()) stokes<2>(c); else stokes<3>(c); }
template<int D> static void navier(vp::Case &c) { const int N = D + 1, Q = D + 1; double L = c.logreal(1e-1, 1e1), mu = c.logreal(1e-3, 1e1), rho = c.uni(0.1, 5), dt = c.uni(0.01, 1), ga = c.uni(0.1, 1), G[3] = {c.uni(-2, 2), c.uni(-2, 2), c.uni(-2, 2)}; auto s = simplex<D>(c, L); typedef V Vec; Vec u(N * Q), a(N * Q); bool rest = c.chance(1, 6); for (double &x: u) x = c.uni(-1, 1); for (double &x: a) x = c.uni(-1, 1); if (rest) for (int i = 0; i < N; ++i) for (int k = 0; k < D; ++k) u[i * Q + k] = 0;
  auto run = [&](const Sx<D> &s, const Vec &u, const Vec &a, const double *G, double ga, Vec &K) { double uu[N][Q], aa[N][Q], r[N][Q], M[N][N][Q][Q]; fill(uu, u); fill(aa, a); if constexpr (D == 2) d::EMat_NavierStokes2D_Dynamic_P1(mu, rho, G[0], G[1], dt, ga, s.P, uu, aa, M, r); else d::MakeMat_NavierStokes3D_Dynamic_P1(mu, rho, G[0], G[1], G[2], dt, ga, s.P, uu, aa, M, r); Out o; pack4<N, Q>(o, &r[0][0], M); K = o.H; return o.g; };
  Vec K, K1, Kt, r = run(s, u, a, G, ga, K), r1; const int n = N * Q; run(s, u, a, G, 1, K1); double S = mx(K1) + mx(r); for (double x: K) VP_CHECK(std::isfinite(x), "matrix entry %g", x);
  for (int j = 0; j < n; ++j) { Vec b = a; b[j] += 1; r1 = run(s, u, b, G, ga, Kt); for (int i = 0; i < n; ++i) { CMP(r[i] - r1[i], K1[i * n + j], 1e-9 * S, "slope of residual %d with rate %d", i, j); VP_NEAR(Kt[i * n + j], K[i * n + j], 1e-12 * S); } if (j % Q == D) { b = u; b[j] += 1; r1 = run(s, b, a, G, ga, Kt); for (int i = 0; i < n; ++i) CMP(r[i] - r1[i], K1[i * n + j] / dt, 1e-9 * S / dt, "slope of residual %d with pressure %d", i, j); } }
  run(s, u, a, G, 0, Kt); for (int i = 0; i < n * n; ++i) CMP(K[i], Kt[i] + ga * (K1[i] - Kt[i]), 1e-10 * S, "matrix entry %d depends linearly on gamma", i);
  // balance of momentum and of mass
  double uave[3] = {}, div = 0; for (int i = 0; i < N; ++i) for (int k = 0; k < D; ++k) { uave[k] += u[i * Q + k] / N; div += s.g[i][k] * (u[i * Q + k] + dt * a[i * Q + k]); } for (int p = 0; p < D; ++p) { double sum = 0, acc = 0, conv = 0; for (int i = 0; i < N; ++i) { sum += r[i * Q + p]; acc += a[i * Q + p] / N; for (int k = 0; k < D; ++k) conv += uave[k] * s.g[i][k] * (u[i * Q + p] + dt * a[i * Q + p]); } CMP(sum, rho * s.vol * (G[p] - acc - conv), 1e-9 * S, "momentum %d", p); } double sp = 0; for (int i = 0; i < N; ++i) sp += r[i * Q + D]; CMP(sp, -s.vol * div, 1e-9 * S, "mass balance");
  // viscous power: the work of the residual on a rigid rotation field, with flow and rates at rest, is that of the body force
  if (rest) { Vec z(n, 0.0); Vec rr = run(s, z, z, G, ga, Kt); for (int i = 0; i < N; ++i) for (int k = 0; k < D; ++k) CMP(rr[i * Q + k], rho * s.vol * G[k] / N, 1e-9 * S, "load (%d,%d)", i, k); Vec w(n, 0.0); D3 om = rv(c, 1); for (int i = 0; i < N; ++i) { if (D == 2) { w[i * Q] = -om[2] * s.P[i][1]; w[i * Q + 1] = om[2] * s.P[i][0]; } else { D3 q = cross(om, D3{s.P[i][0], s.P[i][1], s.P[i][D - 1]}); for (int k = 0; k < D; ++k) w[i * Q + k] = q[k]; } } for (double &x: w) x /= dt; // u = 0, dt a = rotation
    Vec r0 = run(s, z, w, G, ga, Kt); double sum = 0; for (int i = 0; i < N; ++i) sum += r0[i * Q + D]; CMP(sum, 0, 1e-9 * S * (1 + L) / dt, "divergence of a rotation"); for (int i = 0; i < N; ++i) for (int k = 0; k < D; ++k) { double want = rho * s.vol * G[k] / N; for (int j = 0; j < N; ++j) want -= rho * s.vol * (i == j ? 2 : 1) / ((D + 1) * (D + 2)) * w[j * Q + k]; CMP(r0[i * Q + k], want, 1e-9 * (S + mx(w) * rho * s.vol + S * (1 + L) / dt), "viscous force of a rotation (%d,%d)", i, k); } }
  // frame indifference
  array<double, 9> R; if (D == 3) R = rotation(c); else { double th = c.uni(-3, 3); R = {std::cos(th), -std::sin(th), 0, std::sin(th), std::cos(th), 0, 0, 0, 1}; } auto rot = [&](const double *x, double *y) { for (int k = 0; k < D; ++k) { y[k] = 0; for (int l = 0; l < D; ++l) y[k] += R[k * 3 + l] * x[l]; } }; Sx<D> s2 = s; Vec u2 = u, a2 = a; double G2[3]; rot(G, G2); for (int i = 0; i < N; ++i) { rot(s.P[i], s2.P[i]); rot(&u[i * Q], &u2[i * Q]); rot(&a[i * Q], &a2[i * Q]); } Vec r2 = run(s2, u2, a2, G2, ga, Kt); for (int i = 0; i < N; ++i) { double w[3]; rot(&r[i * Q], w); for (int k = 0; k < D; ++k) CMP(r2[i * Q + k], w[k], 1e-7 * S, "rotated residual (%d,%d)", i, k); CMP(r2[i * Q + D], r[i * Q + D], 1e-7 * S, "rotated mass residual %d", i); }
  c.nontrivial(); c.label("dimension %d%s", D, rest ? ", at rest" : ""); }
VP_PROP(navier_stokes, 6000, 60000, "Navier-Stokes elements: matrix is the slope of the residual in the rates, momentum and mass balance of the element, viscous force of a rotation is zero, frame indifference, finite at rest; non-trivial always") { if (c.flip()) navier<2>(c); else navier<3>(c); }
VP_PROP(wave, 20000, 200000, "Helmholtz element and radiation boundary against exact integrals with k = 2 pi / wave length; non-trivial always") { c.nontrivial(); double L = c.logreal(1e-1, 1e1), wl = L * c.uni(0.5, 20), k = 2 * 3.14159265358979323846 / wl; auto s = simplex<2>(c, L); cd u[3], r[3], K[3][3]; for (cd &x: u) x = cd(c.uni(-1, 1), c.uni(-1, 1)); d::EMat_Helmholtz_Tri2D(r, K, wl, s.P, u); double t = 2e-5 * (k * k * s.vol + 1e-4 * s.vol * (gg(s, 0, 0) + gg(s, 1, 1)));
  for (int i = 0; i < 3; ++i) { cd w = 0; for (int j = 0; j < 3; ++j) { cd z = s.vol * gg(s, i, j) - k * k * s.vol * (i == j ? 2.0 : 1.0) / 12.0; VP_CHECK(std::abs(K[i][j] - z) <= t, "Helmholtz (%d,%d) %g%+gi, want %g%+gi", i, j, K[i][j].real(), K[i][j].imag(), z.real(), z.imag()); w -= K[i][j] * u[j]; } VP_CHECK(std::abs(w - r[i]) < 1e-12 * (1 + std::abs(w) + k * k * s.vol + s.vol * gg(s, i, i)), "residual %d", i); }
  double P[2][2] = {{s.P[0][0], s.P[0][1]}, {s.P[1][0], s.P[1][1]}}, l = std::hypot(P[0][0] - P[1][0], P[0][1] - P[1][1]); cd B[2][2], rb[2]; d::EMat_SommerfeltRadiationBC_Line2D(rb, B, wl, P, u); for (int i = 0; i < 2; ++i) { cd w = 0; for (int j = 0; j < 2; ++j) { cd z = cd(0, 1) * (k * l * (i == j ? 2 : 1) / 6 - (i == j ? 1 : -1) / (2 * k * l)); VP_CHECK(std::abs(B[i][j] - z) <= 2e-5 * (k * l + 1 / (k * l)), "radiation (%d,%d) %g%+gi, want %g%+gi", i, j, B[i][j].real(), B[i][j].imag(), z.real(), z.imag()); w -= B[i][j] * u[j]; } VP_CHECK(std::abs(w - rb[i]) < 1e-11 * (1 + k * l + 1 / (k * l)), "radiation residual %d", i); } }
// ---- assembly
template<class T> struct Asm { d::CMatrixSparse<T> A; vector<T> b; int L; };
template<class T, int Q, int N> static void expect(vp::Case &c, const char *name, Asm<T> &S, const vector<uint> &el, uint np, const std::function<void(int, T (&)[N][Q], T (&)[N][N][Q][Q])> &f, const vector<T> &b0, double scale0) {
  size_t n = np * Q; vector<T> D(n * n, T(0)), b = b0; double m = scale0; for (size_t e = 0; e < el.size() / N; ++e) { T r[N][Q], K[N][N][Q][Q]; f((int) e, r, K); for (int i = 0; i < N; ++i) for (int p = 0; p < Q; ++p) { b[el[e * N + i] * Q + p] += r[i][p]; m = std::max(m, std::abs(r[i][p])); for (int j = 0; j < N; ++j) for (int q = 0; q < Q; ++q) { D[(el[e * N + i] * Q + p) * n + el[e * N + j] * Q + q] += K[i][j][p][q]; m = std::max(m, std::abs(K[i][j][p][q])); } } }
  VP_CHECK(S.b.size() == n, "%s: right-hand side of %zu", name, S.b.size()); for (size_t i = 0; i < n; ++i) VP_CHECK(std::abs(S.b[i] - b[i]) <= 1e-10 * m, "%s: right-hand side %zu differs from the sum over elements by %g", name, i, std::abs(S.b[i] - b[i]));
  vector<T> x(n), y(n); for (size_t j = 0; j < n; ++j) { std::fill(x.begin(), x.end(), T(0)); x[j] = T(1); S.A.MatVec(y.data(), T(1), x.data(), T(0)); for (size_t i = 0; i < n; ++i) VP_CHECK(std::abs(y[i] - D[i * n + j]) <= 1e-10 * m, "%s: entry (%zu,%zu) differs from the sum over elements by %g", name, i, j, std::abs(y[i] - D[i * n + j])); } }
template<class T> static Asm<T> make_asm(vp::Case &c, const vector<uint> &el, int nn, uint np, int L, vector<T> &b0) { Asm<T> S; S.L = L; vector<uint> ind, arr; d::JArray_PSuP_MeshElem(ind, arr, el.data(), el.size() / nn, nn, np); d::JArray_Sort(ind, arr); S.A.Initialize(np, L, true); S.A.SetPattern(ind.data(), ind.size(), arr.data(), arr.size()); S.A.setZero(); b0.assign(np * L, T(0)); for (auto &x: b0) x = T(c.range(-2, 2)); S.b = b0; return S; }
template<int Q, int N> struct Ar { double r[N][Q], K[N][N][Q][Q]; };
template<int N, int Q> static void get(double (&o)[N][Q], const vector<uint> &el, int e, const V &x) { for (int i = 0; i < N; ++i) for (int k = 0; k < Q; ++k) o[i][k] = x[el[e * N + i] * Q + k]; }
VP_PROP(assembly, 6000, 60000, "every MergeLinSys function on random meshes of 1-12 elements with relabelled points, from a zero matrix and a right-hand side that already holds values: the result is the sum of element matrices and residuals in the right places; lumped masses sum to the total; non-trivial: elements share points") {
  int kind = c.range(0, 19); double al = c.uni(0.1, 3), rho = c.uni(0.1, 3), src = c.uni(-2, 2), dt = c.uni(0.05, 1), ga = c.uni(0, 1), be = c.uni(0, 1), la = c.uni(0, 3), mu = c.uni(0.1, 3), G[3] = {c.uni(-1, 1), c.uni(-1, 1), c.uni(-1, 1)};
  bool tri = kind < 11; V X; vector<uint> el; uint np; int N = tri ? 3 : 4, D = tri ? 2 : 3; if (kind == 19) { N = 8; int nx = c.range(1, 3); np = (nx + 1) * 4; for (int i = 0; i <= nx; ++i) for (int q = 0; q < 4; ++q) { X.push_back(i + c.uni(-0.1, 0.1)); X.push_back((q == 1 || q == 2) + c.uni(-0.1, 0.1)); X.push_back((q >= 2) + c.uni(-0.1, 0.1)); } for (int i = 0; i < nx; ++i) for (uint q: {0, 4, 5, 1, 3, 7, 6, 2}) el.push_back(i * 4 + q); }
  else if (tri) { int nx = c.range(1, 3), ny = c.range(1, 2); np = (nx + 1) * (ny + 1); for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { X.push_back(i + c.uni(-0.2, 0.2)); X.push_back(j + c.uni(-0.2, 0.2)); } for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { uint a = j * (nx + 1) + i, b = a + 1, e = a + nx + 1, f = e + 1; for (uint q: {a, b, f, a, f, e}) el.push_back(q); } }
  else { int nx = c.range(1, 2); np = (nx + 1) * 4; for (int i = 0; i <= nx; ++i) for (int q = 0; q < 4; ++q) { X.push_back(i + c.uni(-0.1, 0.1)); X.push_back((q & 1) + c.uni(-0.1, 0.1)); X.push_back((q >> 1) + c.uni(-0.1, 0.1)); } static const uint ks[6][4] = {{0, 1, 3, 7}, {0, 3, 2, 7}, {0, 2, 6, 7}, {0, 6, 4, 7}, {0, 4, 5, 7}, {0, 5, 1, 7}}; for (int i = 0; i < nx; ++i) for (auto &t: ks) for (uint q: t) el.push_back((i + (q & 1)) * 4 + (q >> 1)); for (size_t e = 0; e < el.size(); e += 4) if (tetvol(P3(X, el[e]), P3(X, el[e + 1]), P3(X, el[e + 2]), P3(X, el[e + 3])) < 0) std::swap(el[e], el[e + 1]); }
  { vector<uint> perm(np); for (uint i = 0; i < np; ++i) perm[i] = i; c.shuffle(perm.begin(), perm.end()); V Y(X.size()); for (uint i = 0; i < np; ++i) for (int k = 0; k < D; ++k) Y[perm[i] * D + k] = X[i * D + k]; X = Y; for (uint &i: el) i = perm[i]; } uint ne = el.size() / N; if (ne > 1) c.nontrivial();
  auto rnd = [&](int Q) { V v(np * Q); for (double &x: v) x = c.uni(-1, 1); return v; }; V b0; const uint *ep = el.data(); const double *xp = X.data(); const char *nm = "";
#define EL(Q, N, ...) [&](int e, double (&r)[N][Q], double (&K)[N][N][Q][Q]) { double P[N][N == 3 ? 2 : 3]; get(P, el, e, X); __VA_ARGS__ }
#define SC(N) double rs[N], Ks[N][N]; auto put = [&] { for (int i = 0; i < N; ++i) { r[i][0] = rs[i]; for (int j = 0; j < N; ++j) K[i][j][0][0] = Ks[i][j]; } };
  switch (kind) {
    case 0: { nm = "Poisson 2D"; auto S = make_asm(c, el, 3, np, 1, b0); V u = rnd(1); d::MergeLinSys_Poission_MeshTri2D(S.A, S.b.data(), al, src, xp, np, ep, ne, u.data()); expect<double, 1, 3>(c, nm, S, el, np, EL(1, 3, SC(3) double v[3][1]; get(v, el, e, u); double vv[3] = {v[0][0], v[1][0], v[2][0]}; d::EMat_Poisson_Tri2D(rs, Ks, al, src, P, vv); put();), b0, 1); break; }
    case 1: { nm = "diffusion 2D"; auto S = make_asm(c, el, 3, np, 1, b0); V u = rnd(1), w = rnd(1); d::MergeLinSys_Diffusion_MeshTri2D(S.A, S.b.data(), al, rho, src, dt, ga, xp, np, ep, ne, u.data(), w.data()); expect<double, 1, 3>(c, nm, S, el, np, EL(1, 3, SC(3) double v[3][1]; get(v, el, e, u); double z[3][1]; get(z, el, e, w); d::EMat_Diffusion_Tri2D(rs, Ks, al, src, dt, ga, rho, P, &v[0][0], &z[0][0]); put();), b0, 1); break; }
    case 2: { nm = "solid 2D"; auto S = make_asm(c, el, 3, np, 2, b0); V u = rnd(2); d::MergeLinSys_SolidLinear_Static_MeshTri2D(S.A, S.b.data(), mu, la, rho, G[0], G[1], xp, np, ep, ne, u.data()); expect<double, 2, 3>(c, nm, S, el, np, EL(2, 3, double v[3][2]; get(v, el, e, u); d::EMat_SolidStaticLinear_Tri2D(r, K, mu, la, rho, G[0], G[1], v, P);), b0, 1); break; }
    case 3: { nm = "dynamic solid 2D"; auto S = make_asm(c, el, 3, np, 2, b0); V u = rnd(2), w = rnd(2), q = rnd(2); d::MergeLinSys_SolidLinear_NewmarkBeta_MeshTri2D(S.A, S.b.data(), mu, la, rho, G[0], G[1], dt, ga, be, xp, np, ep, ne, u.data(), w.data(), q.data()); expect<double, 2, 3>(c, nm, S, el, np, EL(2, 3, double v[3][2]; get(v, el, e, u); double z[3][2]; get(z, el, e, w); double y[3][2]; get(y, el, e, q); d::EMat_SolidDynamicLinear_Tri2D(r, K, mu, la, rho, G[0], G[1], dt, ga, be, v, z, y, P, true);), b0, 1); break; }
    case 4: { nm = "Stokes 2D"; auto S = make_asm(c, el, 3, np, 3, b0); V u = rnd(3); d::MergeLinSys_StokesStatic2D(S.A, S.b.data(), mu, G[0], G[1], xp, np, ep, ne, u.data()); expect<double, 3, 3>(c, nm, S, el, np, EL(3, 3, double v[3][3]; get(v, el, e, u); d::EMat_Stokes2D_Static_P1(mu, G[0], G[1], P, v, K, r);), b0, 1); break; }
    case 5: { nm = "dynamic Stokes 2D"; auto S = make_asm(c, el, 3, np, 3, b0); V u = rnd(3), w = rnd(3); d::MergeLinSys_StokesDynamic2D(S.A, S.b.data(), mu, rho, G[0], G[1], dt, ga, xp, np, ep, ne, u.data(), w.data()); expect<double, 3, 3>(c, nm, S, el, np, EL(3, 3, double v[3][3]; get(v, el, e, u); double z[3][3]; get(z, el, e, w); d::EMat_Stokes2D_Dynamic_P1(mu, rho, G[0], G[1], dt, ga, P, v, z, K, r);), b0, 1); break; }
    case 6: { nm = "Navier-Stokes 2D"; auto S = make_asm(c, el, 3, np, 3, b0); V u = rnd(3), w = rnd(3); d::MergeLinSys_NavierStokes2D(S.A, S.b.data(), mu, rho, G[0], G[1], dt, ga, xp, np, ep, ne, u.data(), w.data()); expect<double, 3, 3>(c, nm, S, el, np, EL(3, 3, double v[3][3]; get(v, el, e, u); double z[3][3]; get(z, el, e, w); d::EMat_NavierStokes2D_Dynamic_P1(mu, rho, G[0], G[1], dt, ga, P, v, z, K, r);), b0, 1); break; }
    case 7: { nm = "Helmholtz"; vector<cd> cb; auto S = make_asm<cd>(c, el, 3, np, 1, cb); vector<cd> u(np); for (cd &x: u) x = cd(c.uni(-1, 1), c.uni(-1, 1)); double wl = c.uni(1, 10); d::MergeLinSys_Helmholtz_MeshTri2D(S.A, S.b.data(), wl, xp, np, ep, ne, u.data()); expect<cd, 1, 3>(c, nm, S, el, np, [&](int e, cd (&r)[3][1], cd (&K)[3][3][1][1]) { double P[3][2]; get(P, el, e, X); cd v[3], rs[3], Ks[3][3]; for (int i = 0; i < 3; ++i) v[i] = u[el[e * 3 + i]]; d::EMat_Helmholtz_Tri2D(rs, Ks, wl, P, v); for (int i = 0; i < 3; ++i) { r[i][0] = rs[i]; for (int j = 0; j < 3; ++j) K[i][j][0][0] = Ks[i][j]; } }, cb, 1); break; }
    case 8: { nm = "radiation"; vector<uint> pl; for (uint i = 0; i < np; ++i) pl.push_back(i); c.shuffle(pl.begin(), pl.end()); pl.resize(c.range(2, (int) np)); vector<uint> seg; for (size_t i = 0; i + 1 < pl.size(); ++i) { seg.push_back(pl[i]); seg.push_back(pl[i + 1]); } vector<cd> cb; auto S = make_asm<cd>(c, seg, 2, np, 1, cb); vector<cd> u(np); for (cd &x: u) x = cd(c.uni(-1, 1), c.uni(-1, 1)); double wl = c.uni(1, 10); d::MergeLinSys_SommerfeltRadiationBC_Polyline2D(S.A, S.b.data(), wl, xp, np, pl.data(), pl.size(), u.data()); expect<cd, 1, 2>(c, nm, S, seg, np, [&](int e, cd (&r)[2][1], cd (&K)[2][2][1][1]) { double P[2][2]; get(P, seg, e, X); cd v[2], rs[2], Ks[2][2]; for (int i = 0; i < 2; ++i) v[i] = u[seg[e * 2 + i]]; d::EMat_SommerfeltRadiationBC_Line2D(rs, Ks, wl, P, v); for (int i = 0; i < 2; ++i) { r[i][0] = rs[i]; for (int j = 0; j < 2; ++j) K[i][j][0][0] = Ks[i][j]; } }, cb, 1); break; }
    case 9: { nm = "MITC3 plate"; auto S = make_asm(c, el, 3, np, 3, b0); V u = rnd(3); double th = c.uni(0.05, 0.5); if (c.flip()) std::fill(u.begin(), u.end(), 0.0); d::MergeLinSys_ShellStaticPlateBendingMITC3_MeshTri2D(S.A, S.b.data(), th, la, mu, rho, G[2], xp, np, ep, ne, u.data()); expect<double, 3, 3>(c, nm, S, el, np, EL(3, 3, double v[3][3]; get(v, el, e, u); double W = 0, g[3][3] = {}; std::fill_n(&K[0][0][0][0], 81, 0.0); d::WdWddW_PlateBendingMITC3(W, g, K, P, v, th, la, mu); double A = area2({P[0][0], P[0][1]}, {P[1][0], P[1][1]}, {P[2][0], P[2][1]}); for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) r[i][k] = (k == 0 ? rho * th * A * G[2] / 3 : 0) - g[i][k];), b0, 1);
      V M(np * 3, 7.0); d::MassLumped_ShellPlateBendingMITC3(M.data(), rho, th, xp, np, ep, ne); V W(np * 3, 0.0); for (uint e = 0; e < ne; ++e) { double A = area2(P2(X, el[e * 3]), P2(X, el[e * 3 + 1]), P2(X, el[e * 3 + 2])); for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) W[el[e * 3 + i] * 3 + k] += rho * A / 3 * (k ? th * th * th / 12 : th); } for (uint i = 0; i < np * 3; ++i) VP_NEAR(M[i], W[i], 1e-12); break; }
    case 10: { nm = "cloth"; int nd = c.flip() ? 2 : 3; V I = X; if (nd == 3) { I.clear(); for (uint i = 0; i < np; ++i) { I.push_back(X[i * 2]); I.push_back(X[i * 2 + 1]); I.push_back(c.uni(-0.2, 0.2)); } } V Y = rnd(3); for (uint i = 0; i < np; ++i) { Y[i * 3] += X[i * 2]; Y[i * 3 + 1] += X[i * 2 + 1]; } vector<uint> q; for (int t = c.range(0, 3); t > 0; --t) { vector<uint> p(np); for (uint i = 0; i < np; ++i) p[i] = i; c.shuffle(p.begin(), p.end()); uint e = c.below(ne); uint a = el[e * 3], b = el[e * 3 + 1], g = el[e * 3 + 2]; for (uint f = 0; f < ne; ++f) for (int k = 0; k < 3; ++k) if (el[f * 3 + k] == g && el[f * 3 + (k + 1) % 3] == b) q.insert(q.end(), {a, el[f * 3 + (k + 2) % 3], b, g}); } if (np < 4) q.clear();
      vector<uint> prs; for (uint i = 0; i < np; ++i) for (uint j = 0; j < i; ++j) { prs.push_back(i); prs.push_back(j); } auto S = make_asm(c, prs, 2, np, 3, b0); double kb = c.uni(0, 2), W = d::MergeLinSys_Cloth(S.A, S.b.data(), la, mu, kb, I.data(), np, nd, ep, ne, q.data(), q.size() / 4, Y.data()), W2 = 0; auto pos = [&](uint i, double *o) { o[0] = I[i * nd]; o[1] = I[i * nd + 1]; o[2] = nd == 3 ? I[i * nd + 2] : 0; };
      size_t n = np * 3; V Dm(n * n, 0.0), b = b0; double m = 1; auto addel = [&](const uint *id, int k, const Out &o) { W2 += o.W; for (int i = 0; i < k * 3; ++i) { b[id[i / 3] * 3 + i % 3] += o.g[i]; for (int j = 0; j < k * 3; ++j) { Dm[(id[i / 3] * 3 + i % 3) * n + id[j / 3] * 3 + j % 3] += o.H[i * k * 3 + j]; m = std::max(m, std::fabs(o.H[i * k * 3 + j])); } } };
      for (uint e = 0; e < ne; ++e) { double C[3][3], p[3][3], g[3][3], H[3][3][3][3]; for (int i = 0; i < 3; ++i) { pos(el[e * 3 + i], C[i]); for (int k = 0; k < 3; ++k) p[i][k] = Y[el[e * 3 + i] * 3 + k]; } Out o; d::WdWddW_CST(o.W, g, H, C, p, la, mu); pack4<3, 3>(o, &g[0][0], H); addel(&el[e * 3], 3, o); } for (size_t e = 0; e < q.size() / 4; ++e) { double C[4][3], p[4][3], g[4][3], H[4][4][3][3]; for (int i = 0; i < 4; ++i) { pos(q[e * 4 + i], C[i]); for (int k = 0; k < 3; ++k) p[i][k] = Y[q[e * 4 + i] * 3 + k]; } Out o; d::WdWddW_Bend(o.W, g, H, C, p, kb); pack4<4, 3>(o, &g[0][0], H); addel(&q[e * 4], 4, o); }
      PlaneContact in; in.n = unit(rv(c, 1) + D3{0, 0, 1.2}); in.h = c.uni(-1, 1); double kc = c.uni(0.1, 3), cl = c.uni(0, 0.3); W += d::MergeLinSys_Contact(S.A, S.b.data(), kc, cl, in, Y.data(), (int) np); for (uint i = 0; i < np; ++i) { double g[3], H[3][3]; Out o; d::WdWddW_Contact(o.W, g, H, &Y[i * 3], kc, cl, in); o.g.assign(g, g + 3); o.H.assign(&H[0][0], &H[0][0] + 9); addel(&i, 1, o); }
      VP_NEAR(W, W2, 1e-10 * (1 + std::fabs(W2))); for (size_t i = 0; i < n; ++i) VP_NEAR(S.b[i], b[i], 1e-10 * m); V x(n), y(n); for (size_t j = 0; j < n; ++j) { std::fill(x.begin(), x.end(), 0.0); x[j] = 1; S.A.MatVec(y.data(), 1.0, x.data(), 0.0); for (size_t i = 0; i < n; ++i) VP_NEAR(y[i], Dm[i * n + j], 1e-10 * m); } break; }
    case 11: { nm = "Poisson 3D"; auto S = make_asm(c, el, 4, np, 1, b0); V u = rnd(1); d::MergeLinSys_Poission_MeshTet3D(S.A, S.b.data(), al, src, xp, np, ep, ne, u.data()); expect<double, 1, 4>(c, nm, S, el, np, EL(1, 4, SC(4) double v[4][1]; get(v, el, e, u); d::EMat_Poisson_Tet3D(rs, Ks, al, src, P, &v[0][0]); put();), b0, 1); break; }
    case 12: { nm = "diffusion 3D"; auto S = make_asm(c, el, 4, np, 1, b0); V u = rnd(1), w = rnd(1); d::MergeLinSys_Diffusion_MeshTet3D(S.A, S.b.data(), al, rho, src, dt, ga, xp, np, ep, ne, u.data(), w.data()); expect<double, 1, 4>(c, nm, S, el, np, EL(1, 4, SC(4) double v[4][1]; get(v, el, e, u); double z[4][1]; get(z, el, e, w); d::EMat_Diffusion_Newmark_Tet3D(rs, Ks, al, src, dt, ga, rho, P, &v[0][0], &z[0][0]); put();), b0, 1); break; }
    case 13: { nm = "solid 3D"; auto S = make_asm(c, el, 4, np, 3, b0); V u = rnd(3); d::MergeLinSys_SolidLinear_Static_MeshTet3D(S.A, S.b.data(), mu, la, rho, G, xp, np, ep, ne, u.data()); expect<double, 3, 4>(c, nm, S, el, np, EL(3, 4, double v[4][3]; get(v, el, e, u); d::EMat_SolidLinear_Static_Tet(K, r, mu, la, P, v, false); for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) r[i][k] += rho * G[k] / 4 * tetvol({P[0][0], P[0][1], P[0][2]}, {P[1][0], P[1][1], P[1][2]}, {P[2][0], P[2][1], P[2][2]}, {P[3][0], P[3][1], P[3][2]});), b0, 1); break; }
    case 14: { nm = "dynamic solid 3D"; auto S = make_asm(c, el, 4, np, 3, b0); V u = rnd(3), w = rnd(3), q = rnd(3); d::MergeLinSys_SolidLinear_NewmarkBeta_MeshTet3D(S.A, S.b.data(), mu, la, rho, G, dt, ga, be, xp, np, ep, ne, u.data(), w.data(), q.data()); expect<double, 3, 4>(c, nm, S, el, np, EL(3, 4, double v[4][3]; get(v, el, e, u); double z[4][3]; get(z, el, e, w); double y[4][3]; get(y, el, e, q); d::EMat_SolidLinear_NewmarkBeta_MeshTet3D(r, K, mu, la, rho, G[0], G[1], G[2], dt, ga, be, v, z, y, P, true);), b0, 1); break; }
    case 15: case 16: { bool warp = kind == 16; nm = warp ? "stiffness-warped solid" : "backward Euler solid"; auto S = make_asm(c, el, 4, np, 3, b0); V u = rnd(3), w = rnd(3), R; for (uint i = 0; i < np; ++i) { auto q = rotation(c); R.insert(R.end(), q.begin(), q.end()); } if (warp) d::MergeLinSys_SolidStiffwarp_BEuler_MeshTet3D(S.A, S.b.data(), mu, la, rho, G, dt, xp, np, ep, ne, u.data(), w.data(), R); else d::MergeLinSys_SolidLinear_BEuler_MeshTet3D(S.A, S.b.data(), mu, la, rho, G, dt, xp, np, ep, ne, u.data(), w.data());
      expect<double, 3, 4>(c, nm, S, el, np, EL(3, 4, double v[4][3]; get(v, el, e, u); double z[4][3]; get(z, el, e, w); double q[4][3], K0[4][4][3][3]; double vol = tetvol({P[0][0], P[0][1], P[0][2]}, {P[1][0], P[1][1], P[1][2]}, {P[2][0], P[2][1], P[2][2]}, {P[3][0], P[3][1], P[3][2]}); d::EMat_SolidLinear_Static_Tet(K0, q, mu, la, P, v, false); auto Rm = [&](int i, int a, int b) { return warp ? R[el[e * 4 + i] * 9 + a * 3 + b] : double(a == b); };
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { double t = 0; for (int s = 0; s < 3; ++s) for (int l = 0; l < 3; ++l) t += Rm(i, a, s) * K0[i][j][s][l] * Rm(i, b, l); K[i][j][a][b] = t; }
        for (int i = 0; i < 4; ++i) for (int a = 0; a < 3; ++a) { double t = vol * rho * G[a] / 4; for (int j = 0; j < 4; ++j) for (int b = 0; b < 3; ++b) { double x = v[j][b] + dt * z[j][b]; if (warp) { x += P[j][b]; for (int l = 0; l < 3; ++l) x -= Rm(i, b, l) * P[j][l]; } t -= K[i][j][a][b] * x; } r[i][a] = t / dt; } for (int i = 0; i < 4; ++i) for (int a = 0; a < 3; ++a) K[i][i][a][a] += rho * vol / 4 / (dt * dt);), b0, 1 + 1 / (dt * dt)); break; }
    case 17: { bool dyn = c.flip(); nm = dyn ? "dynamic Stokes 3D" : "Stokes 3D"; auto S = make_asm(c, el, 4, np, 4, b0); V u = rnd(4), w = rnd(4); if (dyn) d::MergeLinSys_Stokes3D_Dynamic(S.A, S.b, mu, rho, G[0], G[1], G[2], dt, ga, X, el, u, w); else d::MergeLinSys_Stokes3D_Static(S.A, S.b, mu, rho, G[0], G[1], G[2], X, el, u, w); std::fill(b0.begin(), b0.end(), 0.0); expect<double, 4, 4>(c, nm, S, el, np, EL(4, 4, double v[4][4]; get(v, el, e, u); double z[4][4]; get(z, el, e, w); if (dyn) d::MakeMat_Stokes3D_Dynamic_P1(mu, rho, G[0], G[1], G[2], dt, ga, P, v, z, K, r); else d::MakeMat_Stokes3D_Static_P1(mu, G[0], G[1], G[2], P, v, K, r);), b0, 1); break; }
    case 18: { nm = "Navier-Stokes 3D"; auto S = make_asm(c, el, 4, np, 4, b0); V u = rnd(4), w = rnd(4); d::MergeLinSys_NavierStokes3D_Dynamic(S.A, S.b, mu, rho, G[0], G[1], G[2], dt, ga, X, el, u, w); std::fill(b0.begin(), b0.end(), 0.0); expect<double, 4, 4>(c, nm, S, el, np, EL(4, 4, double v[4][4]; get(v, el, e, u); double z[4][4]; get(z, el, e, w); d::MakeMat_NavierStokes3D_Dynamic_P1(mu, rho, G[0], G[1], G[2], dt, ga, P, v, z, K, r);), b0, 1); break; }
    default: { nm = "hexahedra"; auto S = make_asm(c, el, 8, np, 3, b0); V u = rnd(3); d::MergeLinSys_LinearSolid3D_Static_Q1(S.A, S.b, mu, la, rho, G, X, el, u); std::fill(b0.begin(), b0.end(), 0.0); expect<double, 3, 8>(c, nm, S, el, np, [&](int e, double (&r)[8][3], double (&K)[8][8][3][3]) { double P[8][3], v[8][3]; get(P, el, e, X); get(v, el, e, u); d::elemMatRes_LinearSolidGravity3_Static_Q1(mu, la, rho, G, P, v, K, r); }, b0, 1); } }
  c.label("%s", nm); }
// ---- invariance of energies
VP_PROP(invariance, 20000, 200000, "every energy of the derivative check: unchanged by rigid motion (gradient turns with the body), no net force and no net moment, no energy and no force at the rest shape, symmetric Hessian that kills translations; non-trivial always") { c.nontrivial(); El e = make(c, c.range(0, NEL - 1)); c.label("%s", e.name.c_str()); int n = (int) e.x.size(); Out o = e.eval(e.x); double H = mx(o.H), G = mx(o.g); const char *nm = e.name.c_str();
  if (e.sym) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) VP_CHECK(std::fabs(o.H[i * n + j] - o.H[j * n + i]) <= 1e-8 * H, "%s: Hessian (%d,%d) is %.12g but (%d,%d) %.12g", nm, i, j, o.H[i * n + j], j, i, o.H[j * n + i]);
  if (e.zero) { Out z = e.eval(e.restx); double s = mx(z.H) * std::pow(std::max(mx(e.restx), e.L), 1); VP_CHECK(std::fabs(z.W) <= 1e-10 * (s * std::max(mx(e.restx), e.L) + std::fabs(o.W)) + 1e-14, "%s: energy at rest %g", nm, z.W); for (int i = 0; i < n; ++i) VP_CHECK(std::fabs(z.g[i]) <= 1e-9 * (s + G), "%s: force at rest %g (component %d)", nm, z.g[i], i); }
  if (e.rigid) { int D = e.nd; array<double, 9> R; if (D == 3) R = rotation(c); else { double th = c.uni(-3, 3); R = {std::cos(th), -std::sin(th), 0, std::sin(th), std::cos(th), 0, 0, 0, 1}; } D3 t = rv(c, e.L); bool disp = !e.rest.empty(); V y(n); auto P = [&](int i) { D3 p = {}; for (int k = 0; k < D; ++k) p[k] = e.x[i * D + k] + (disp ? e.rest[i * D + k] : 0); return p; };
    for (int i = 0; i < e.nn; ++i) { D3 q = mul(R, P(i)) + t; for (int k = 0; k < D; ++k) y[i * D + k] = q[k] - (disp ? e.rest[i * D + k] : 0); } Out r = e.eval(y); VP_CHECK(std::fabs(r.W - o.W) <= 1e-8 * (std::fabs(o.W) + G * e.L) + 1e-12, "%s: energy %.12g after a rigid motion %.12g", nm, o.W, r.W); D3 F = {}, T = {}; for (int i = 0; i < e.nn; ++i) { D3 g = {}, h = {}; for (int k = 0; k < D; ++k) g[k] = o.g[i * D + k], h[k] = r.g[i * D + k]; D3 q = mul(R, g); VP_CHECK(dist(q, h) <= 1e-7 * (G + H * e.L * 1e-3), "%s: gradient of node %d does not turn with the body", nm, i); F = F + g; T = T + cross(P(i), g); } VP_CHECK(norm(F) <= 1e-8 * (G + 1e-3 * H * e.L), "%s: net force %g", nm, norm(F)); VP_CHECK(norm(T) <= 1e-8 * (G + 1e-3 * H * e.L) * e.L * 10, "%s: net moment %g", nm, norm(T));
    for (int i = 0; i < n; ++i) for (int k = 0; k < D; ++k) { double sum = 0; for (int j = 0; j < e.nn; ++j) sum += o.H[i * n + j * D + k]; VP_CHECK(std::fabs(sum) <= 1e-8 * H, "%s: Hessian times a translation is %g", nm, sum); } } }
