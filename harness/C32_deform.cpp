// C32: Laplacian and as-rigid-as-possible mesh deformation
// SCALE: 8 90
#include "common.hpp"
#include <iostream>
#include <algorithm>
#include <functional>
#include <climits>
#include <array>
#include <set>
#include <cassert>
#include <cmath>
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/quat.h"
#include "delfem2/view_vectorx.h"
#include "delfem2/lsitrsol.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_ilu_block_sparse.h"
#include "delfem2/ls_solver_block_sparse.h"
#include "delfem2/ls_solver_block_sparse_ilu.h"
#include "delfem2/deflap.h"
#include "delfem2/defarap.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::array;
typedef vector<double> V; typedef unsigned int U; typedef array<double, 9> M3;
namespace {
D3 at(const V &x, size_t i) { return {x[3 * i], x[3 * i + 1], x[3 * i + 2]}; }
M3 axang(D3 w) { double a = norm(w); M3 m{1, 0, 0, 0, 1, 0, 0, 0, 1}; if (a < 1e-300) return m; D3 u = (1 / a) * w; double s = std::sin(a), k = std::cos(a); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[3 * i + j] = u[i] * u[j] * (1 - k) + (i == j ? k : 0); m[1] -= s * u[2]; m[2] += s * u[1]; m[3] += s * u[2]; m[5] -= s * u[0]; m[6] -= s * u[1]; m[7] += s * u[0]; return m; }
void aq(double *q, D3 w) { double a = norm(w); double f = a < 1e-12 ? 0.5 : std::sin(a / 2) / a; for (int i = 0; i < 3; ++i) q[i] = f * w[i]; q[3] = std::cos(a / 2); }
M3 qm(const double *q) { D3 v{q[0], q[1], q[2]}; double s = norm(v); return s < 1e-14 ? axang({0, 0, 0}) : axang((2 * std::atan2(s, q[3]) / s) * v); }
M3 T(const M3 &a) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[3 * i + j] = a[3 * j + i]; return r; }
M3 mm(const M3 &a, const M3 &b) { M3 r{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r[3 * i + j] += a[3 * i + k] * b[3 * k + j]; return r; }
M3 skew(D3 v) { return {0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0}; }
D3 rotvec(const M3 &R) { D3 w{R[7] - R[5], R[2] - R[6], R[3] - R[1]}; double s = norm(w) / 2, k = (R[0] + R[4] + R[8] - 1) / 2; return s < 1e-12 ? 0.5 * w : (std::atan2(s, k) / (2 * s)) * w; }
double nrm(const V &v) { double s = 0; for (double x: v) s += x * x; return std::sqrt(s); }
// mesh, one-ring neighbours, flags, target positions
struct Prob { Mesh m; int n; vector<vector<U>> nb; V X, x; vector<int> bc; vector<std::pair<U, d::CVec3d>> nr;
  Prob(vp::Case &c, bool closed, double amp) { if (closed || c.flip()) m = star(c, 2, 0.15); else { m = gridmesh(c.range(1, 4), c.range(1, 4)); for (size_t i = 0; i < m.nv(); ++i) { m.xyz[3 * i] += c.sym(0.2); m.xyz[3 * i + 1] += c.sym(0.2); m.xyz[3 * i + 2] += c.sym(0.4); } } X = m.xyz; n = (int) m.nv(); nb.resize(n); vector<std::set<U>> s(n); for (size_t t = 0; t < m.nt(); ++t) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) s[m.tri[3 * t + i]].insert(m.tri[3 * t + j]); for (int i = 0; i < n; ++i) nb[i].assign(s[i].begin(), s[i].end());
    bc.assign(3 * n, 0); x = X; int k = c.range(1, std::max(1, n / 2)); for (int i = 0; i < k; ++i) { int p = c.below(n); bool part = i > 0 && c.chance(1, 4); for (int j = 0; j < 3; ++j) if (!part || c.flip()) { bc[3 * p + j] = c.range(1, 2); x[3 * p + j] = X[3 * p + j] + c.sym(amp); } } if (c.flip()) for (int i = 0; i < 3 * n; ++i) if (!bc[i]) x[i] += c.sym(amp * 0.3); } };
V graphlap(const Prob &p, bool) { V L(9 * p.n * p.n, 0.); int N = 3 * p.n; for (int i = 0; i < p.n; ++i) for (int k = 0; k < 3; ++k) { L[(3 * i + k) * N + 3 * i + k] = (double) p.nb[i].size(); for (U j: p.nb[i]) L[(3 * i + k) * N + 3 * j + k] -= 1; } return L; }
V ata(const V &A, int rows, int N) { V r(N * N, 0.); for (int k = 0; k < rows; ++k) for (int i = 0; i < N; ++i) { double a = A[k * N + i]; if (a != 0) for (int j = 0; j < N; ++j) r[i * N + j] += a * A[k * N + j]; } return r; }
V atb(const V &A, int rows, int N, const V &b) { V r(N, 0.); for (int k = 0; k < rows; ++k) for (int i = 0; i < N; ++i) r[i] += A[k * N + i] * b[k]; return r; }
double resid(const V &A, const V &u, const V &b) { int N = (int) b.size(); V r = matvec(A, N, N, u); for (int i = 0; i < N; ++i) r[i] -= b[i]; return nrm(r) / std::max(nrm(b), 1e-300); }
}
VP_PROP(laplacian, 3000, 15000, "the four Laplacian deformers (row constraints; normal equations with penalties, with and without preconditioner, with normal constraints) on random meshes, constraints and starting shapes vs the dense least-squares problem; matrix-vector products; no displacement gives no motion; solving again with other constraints; non-trivial: a displaced constraint on a mesh of ten points") {
  int kind = c.below(4); Prob p(c, false, 1); int n = p.n, N = 3 * n; V L = graphlap(p, true), b0 = matvec(L, N, N, p.X); bool pre = c.flip(); if (n > 10) c.nontrivial(); c.label(kind == 0 ? "asym" : kind == 1 ? "gram" : kind == 2 ? "linear" : "degenerate");
  if (kind == 0) { d::CDef_LaplacianLinearAsym s; s.Init(p.X, p.m.tri); V y = p.x; s.Deform(y, p.X, p.bc); V A = L, r = b0; for (int i = 0; i < N; ++i) if (p.bc[i]) { for (int j = 0; j < N; ++j) A[i * N + j] = i == j; r[i] = p.x[i]; } V e; if (!solve(A, r, e)) return; if (s.aHistConv.empty() || s.aHistConv.back() > 1.01e-5) { c.label("not converged"); return; } VP_CHECK(resid(A, y, r) < 1e-4, "CDef_LaplacianLinearAsym: residual %g", resid(A, y, r)); return; }
  double wb = c.logreal(1, 1000), wn = c.logreal(1, 1000); if (kind >= 2 && c.flip()) { int k = c.range(1, 3); for (int i = 0; i < k; ++i) { D3 w = unit(rnd3(c, 1) + D3{1e-3, 0, 0}); p.nr.emplace_back(c.below(n), d::CVec3d(w[0], w[1], w[2])); } }
  V A = ata(L, N, N); for (int i = 0; i < N; ++i) if (p.bc[i]) A[i * N + i] += wb; for (auto &q: p.nr) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[(3 * q.first + i) * N + 3 * q.first + j] += wn * q.second.p[i] * q.second.p[j];
  V y = p.x, z(N), t(N); for (double &v: t) v = c.sym(1); auto go = [&](auto &s, auto setpre, const char *what, double tol) { V dl(N); for (int i = 0; i < N; ++i) dl[i] = p.X[i] - y[i]; V r = atb(L, N, N, matvec(L, N, N, dl)); V old = y; s.Deform(y, p.X); V u(N); for (int i = 0; i < N; ++i) u[i] = y[i] - old[i]; if (nrm(r) < 1e-9) { VP_CHECK(nrm(u) < 1e-8, "%s: nothing to do but it moves by %g", what, nrm(u)); } else { double rs = resid(A, u, r); VP_CHECK(rs < tol, "%s: residual %g of the least-squares problem (%zu iterations, preconditioner %d)", what, rs, s.aConvHist.size(), (int) pre); } double al = c.flip() ? 1 : c.sym(2), be = c.flip() ? 0 : c.sym(2); V z0(N); for (double &w: z0) w = c.sym(1); z = z0; s.MatVec(z.data(), al, t.data(), be); V e = matvec(A, N, N, t); double m = nrm(e); for (int i = 0; i < N; ++i) VP_NEAR(z[i], al * e[i] + be * z0[i], 1e-11 * (m + 1)); };
  int rounds = c.range(1, 2); if (c.chance(1, 6)) y = p.X;
  if (kind == 1) { d::CDef_LaplacianLinearGram s; s.Init(p.X, p.m.tri, pre); s.aBCFlag = p.bc; s.weight_bc = wb; s.SetBoundaryConditionToPreconditioner(); for (int i = 0; i < rounds; ++i) { go(s, 0, "CDef_LaplacianLinearGram", 1e-4); if (c.flip()) for (int k = 0; k < N; ++k) if (p.bc[k]) y[k] += c.sym(0.5); } }
  else if (kind == 2) { d::CDef_LaplacianLinear s; s.Init(p.X, p.m.tri, pre); VP_CHECK((int) s.aBCFlag.size() == N, "flags"); s.aBCFlag = p.bc; s.aIdpNrm = p.nr; s.weight_bc = wb; s.weight_nrm = wn; s.conv_tol = 1e-10; s.max_itr = 3000; s.SetValueToPreconditioner(); for (int i = 0; i < rounds; ++i) { go(s, 0, "CDef_LaplacianLinear", 1e-6); for (int k = 0; k < N; ++k) if (p.bc[k]) y[k] += c.sym(0.5); s.SetValueToPreconditioner(); } }
  else { d::CDef_LaplacianLinearDegenerate s; s.Init(p.X, p.m.tri, pre); VP_CHECK((int) s.aBCFlag.size() == N, "flags"); s.aBCFlag = p.bc; s.aIdpNrm = p.nr; s.weight_bc = wb; s.weight_nrm = wn; s.conv_tol = 1e-10; s.max_itr = 3000; s.SetBoundaryConditionToPreconditioner(); for (int i = 0; i < rounds; ++i) { go(s, 0, "CDef_LaplacianLinearDegenerate", 1e-6); for (int k = 0; k < N; ++k) if (p.bc[k]) y[k] += c.sym(0.5); } }
}
VP_PROP(arap_edge, 3000, 15000, "edge-based as-rigid-as-possible deformers without and with rotations (with and without preconditioner) vs the dense Gauss-Newton problem of the edge energy, rotations updated from the left; matrix-vector products; a rigidly moved mesh stays; non-trivial: more than ten points") {
  Prob p(c, false, 0.4); int n = p.n, N = 3 * n; if (n > 10) c.nontrivial(); vector<array<U, 2>> E; for (int i = 0; i < n; ++i) for (U j: p.nb[i]) E.push_back({(U) i, j}); int ne = (int) E.size(); double wb = c.logreal(1, 300); V y = p.x, t, z;
  if (c.flip()) { d::CDef_ArapEdgeLinearDisponly s(p.X, p.m.tri, wb, p.bc); V J(3 * ne * N, 0.), r(3 * ne); for (int e = 0; e < ne; ++e) for (int k = 0; k < 3; ++k) { J[(3 * e + k) * N + 3 * E[e][0] + k] += 1; J[(3 * e + k) * N + 3 * E[e][1] + k] -= 1; r[3 * e + k] = -((p.X[3 * E[e][1] + k] - p.X[3 * E[e][0] + k]) - (y[3 * E[e][1] + k] - y[3 * E[e][0] + k])); } V A = ata(J, 3 * ne, N), b = atb(J, 3 * ne, N, r); for (int i = 0; i < N; ++i) if (p.bc[i]) A[i * N + i] += wb; V old = y; s.Deform(y, p.X); V u(N); for (int i = 0; i < N; ++i) u[i] = y[i] - old[i]; if (nrm(b) < 1e-9) VP_CHECK(nrm(u) < 1e-7, "moves by %g", nrm(u)); else VP_CHECK(resid(A, u, b) < 1e-3, "CDef_ArapEdgeLinearDisponly: residual %g", resid(A, u, b)); t.resize(N); z.resize(N); for (double &v: t) v = c.sym(1); V z0(N); for (double &v: z0) v = c.sym(1); z = z0; double be = c.flip() ? 0 : c.sym(2); double al = c.flip() ? 1 : c.sym(2); s.MatVec(z.data(), al, t.data(), be); V e = matvec(A, N, N, t); for (int i = 0; i < N; ++i) VP_NEAR(z[i], al * e[i] + be * z0[i], 1e-11 * (nrm(e) + 1)); return; }
  bool pre = c.flip(), rigid = c.chance(1, 6); V q(4 * n); D3 w0 = rnd3(c, 1.5), tr = rnd3(c, 2); M3 R0 = axang(w0); if (rigid) for (int i = 0; i < n; ++i) { D3 r = mul(R0, at(p.X, i)) + tr; for (int k = 0; k < 3; ++k) y[3 * i + k] = r[k]; } for (int i = 0; i < n; ++i) aq(q.data() + 4 * i, rigid ? w0 : c.flip() ? rnd3(c, 0.4) : D3{0, 0, 0});
  d::CDef_ArapEdge s; s.Init(p.X, p.m.tri, wb, p.bc, pre); int M = 6 * n; int rounds = c.range(1, 2);
  for (int it = 0; it < rounds; ++it) { V J(3 * ne * M, 0.), r(3 * ne); vector<M3> R; for (int i = 0; i < n; ++i) R.push_back(qm(q.data() + 4 * i)); for (int e = 0; e < ne; ++e) { U i = E[e][0], j = E[e][1]; D3 g = mul(R[i], at(p.X, j) - at(p.X, i)), f = g - (at(y, j) - at(y, i)); M3 S = skew(g); for (int k = 0; k < 3; ++k) { J[(3 * e + k) * M + 3 * i + k] += 1; J[(3 * e + k) * M + 3 * j + k] -= 1; for (int l = 0; l < 3; ++l) J[(3 * e + k) * M + N + 3 * i + l] -= S[3 * k + l]; r[3 * e + k] = -f[k]; } }
    V A = ata(J, 3 * ne, M), b = atb(J, 3 * ne, M, r); for (int i = 0; i < N; ++i) if (p.bc[i]) A[i * M + i] += wb; V ex; bool big = !solve(A, b, ex); if (!big) for (int i = N; i < M; ++i) big = big || std::abs(ex[i]) > 1; V old = y; s.Deform(y, q, p.X); V u(M); for (int i = 0; i < N; ++i) u[i] = y[i] - old[i]; for (int i = 0; i < n; ++i) { double qn = 0; for (int k = 0; k < 4; ++k) qn += q[4 * i + k] * q[4 * i + k]; VP_NEAR(qn, 1, 1e-8); D3 w = rotvec(mm(qm(q.data() + 4 * i), T(R[i]))); if (norm(w) > 2.5) big = true; for (int k = 0; k < 3; ++k) u[N + 3 * i + k] = w[k]; }
    if (rigid) { VP_CHECK(nrm(u) < 1e-6, "a rigidly moved mesh moves by %g", nrm(u)); continue; } if (!big && nrm(b) > 1e-9) VP_CHECK(resid(A, u, b) < 3e-3, "CDef_ArapEdge: residual %g (preconditioner %d)", resid(A, u, b), (int) pre); t.resize(M); z.resize(M); for (double &v: t) v = c.sym(1); V z0(M); for (double &v: z0) v = c.sym(1); z = z0; double be = c.flip() ? 0 : c.sym(2); double al = c.flip() ? 1 : c.sym(2); s.MatVec(z.data(), al, t.data(), be); V e = matvec(A, M, M, t); for (int i = 0; i < M; ++i) VP_NEAR(z[i], al * e[i] + be * z0[i], 1e-10 * (nrm(e) + 1)); for (int k = 0; k < N; ++k) if (p.bc[k]) y[k] += c.sym(0.2); }
}
VP_PROP(arap, 3000, 15000, "as-rigid-as-possible deformers with rotations eliminated (with and without preconditioner) and with averaged rotations vs the dense Schur complement and the stationarity of the free points; constrained coordinates stay exactly; best rotations of each one-ring by polar decomposition (orthonormal, symmetric positive remainder) and by one linearised step (quadratic near a rigid motion); non-trivial: more than ten points") {
  Prob p(c, true, 0.3); int n = p.n, N = 3 * n; if (n > 10) c.nontrivial(); V y = p.x, q(4 * n); bool turned = c.flip(); D3 w0 = turned ? rnd3(c, 2) : D3{0, 0, 0}, tr = rnd3(c, 1); if (turned) for (int i = 0; i < n; ++i) { D3 r = mul(axang(w0), at(y, i)) + tr; for (int k = 0; k < 3; ++k) y[3 * i + k] = r[k]; } for (int i = 0; i < n; ++i) aq(q.data() + 4 * i, c.flip() ? w0 : w0 + rnd3(c, 0.3));
  vector<U> ind{0}, lst; for (int i = 0; i < n; ++i) { lst.insert(lst.end(), p.nb[i].begin(), p.nb[i].end()); ind.push_back((U) lst.size()); }
  { // best rotations
    V r = q; if (c.flip()) d::UpdateQuaternions_Svd(r, p.X, y, ind, lst); else for (int i = 0; i < n; ++i) d::UpdateRotationsByMatchingCluster_SVD(r, i, p.X, y, ind, lst); for (int i = 0; i < n; ++i) { M3 A{}; double l = 0; for (U j: p.nb[i]) { D3 a = at(y, j) - at(y, i), b = at(p.X, j) - at(p.X, i); l += norm(a) * norm(b); for (int k = 0; k < 9; ++k) A[k] += a[k / 3] * b[k % 3]; } double det = A[0] * (A[4] * A[8] - A[5] * A[7]) - A[1] * (A[3] * A[8] - A[5] * A[6]) + A[2] * (A[3] * A[7] - A[4] * A[6]); if (det < 0.002 * l * l * l) continue; double qn = 0; for (int k = 0; k < 4; ++k) qn += r[4 * i + k] * r[4 * i + k]; VP_NEAR(qn, 1, 1e-6); M3 S = mm(T(qm(r.data() + 4 * i)), A); VP_CHECK(std::abs(S[1] - S[3]) + std::abs(S[2] - S[6]) + std::abs(S[5] - S[7]) < 1e-5 * l, "rotation of point %d is not the best: asymmetry %g %g %g of %g", i, S[1] - S[3], S[2] - S[6], S[5] - S[7], l); VP_CHECK(S[0] > 0 && S[0] * S[4] - S[1] * S[3] > 0, "rotation of point %d is not the best", i); c.label("rotation"); } }
  { // near a rigid motion the linearised step converges quadratically
    double ep = c.logreal(1e-3, 0.1); M3 R = axang(w0); V z(N), r(4 * n), k0(n); for (int i = 0; i < n; ++i) { D3 g = mul(R, at(p.X, i)) + tr; for (int k = 0; k < 3; ++k) z[3 * i + k] = g[k]; D3 e = rnd3(c, ep); double a[4], b[4]; aq(a, e); aq(b, w0); d::QuatQuat(r.data() + 4 * i, a, b); k0[i] = norm(e); } d::UpdateRotationsByMatchingCluster_Linear(r, p.X, z, ind, lst); for (int i = 0; i < n; ++i) { M3 A{}; double l = 0; for (U j: p.nb[i]) { M3 s = skew(at(p.X, j) - at(p.X, i)); M3 ss = mm(T(s), s); for (int k = 0; k < 9; ++k) A[k] += ss[k]; l += dot(at(p.X, j) - at(p.X, i), at(p.X, j) - at(p.X, i)); } double det = A[0] * (A[4] * A[8] - A[5] * A[7]) - A[1] * (A[3] * A[8] - A[5] * A[6]) + A[2] * (A[3] * A[7] - A[4] * A[6]); if (det < 0.1 * l * l * l * 8 / 27) continue; double left = norm(rotvec(mm(qm(r.data() + 4 * i), T(R)))); VP_CHECK(left < 10 * k0[i] * k0[i] + 1e-9, "linearised rotation of point %d: error %g left of %g", i, left, k0[i]); } }
  V old = y, g(N, 0.); vector<M3> R; if (c.flip()) d::UpdateQuaternions_Svd(q, p.X, y, ind, lst); for (int i = 0; i < n; ++i) R.push_back(qm(q.data() + 4 * i));
  if (c.flip()) { d::Deformer_Arap s; bool pre = c.flip(); s.Init(p.X, p.m.tri, pre); int rounds = c.range(1, 2); for (int it = 0; it < rounds; ++it) { old = y; std::fill(g.begin(), g.end(), 0.); V A(N * N, 0.); bool bad = false; for (int i = 0; i < n; ++i) { int k = (int) p.nb[i].size(), m = 3 * k + 3; V J(3 * k * (m + 3), 0.); for (int a = 0; a < k; ++a) { D3 e = mul(R[i], at(p.X, p.nb[i][a]) - at(p.X, i)), f = (at(y, p.nb[i][a]) - at(y, i)) - e; M3 S = skew(e); for (int h = 0; h < 3; ++h) { J[(3 * a + h) * (m + 3) + 3 * a + h] = 1; J[(3 * a + h) * (m + 3) + 3 * k + h] = -1; for (int o = 0; o < 3; ++o) J[(3 * a + h) * (m + 3) + m + o] = S[3 * h + o]; g[3 * p.nb[i][a] + h] += f[h]; g[3 * i + h] -= f[h]; } } V H = ata(J, 3 * k, m + 3); for (int e = 0; e < 3; ++e) { int pv = m + 2 - e; if (H[pv * (m + 3) + pv] < 0.02) bad = true; for (int a = 0; a < pv; ++a) for (int b = 0; b < pv; ++b) H[a * (m + 3) + b] -= H[a * (m + 3) + pv] * H[pv * (m + 3) + b] / H[pv * (m + 3) + pv]; } for (int a = 0; a < m; ++a) for (int b = 0; b < m; ++b) { U ia = a / 3 == k ? (U) i : p.nb[i][a / 3], ib = b / 3 == k ? (U) i : p.nb[i][b / 3]; A[(3 * ia + a % 3) * N + 3 * ib + b % 3] += H[a * (m + 3) + b]; } }
      if (bad) return; for (int a = 0; a < N; ++a) { A[a * N + a] += 1e-8; if (p.bc[a]) g[a] = 0; for (int b = 0; b < N; ++b) if (p.bc[a] || p.bc[b]) A[a * N + b] = a == b; } s.Deform(y, q, p.X, p.bc); V u(N); for (int a = 0; a < N; ++a) { u[a] = old[a] - y[a]; if (p.bc[a]) VP_CHECK(y[a] == old[a], "constrained coordinate %d moves", a); } if (s.convergence_history.size() > 290) { c.label("not converged"); return; } if (nrm(g) > 1e-9) VP_CHECK(resid(A, u, g) < 1e-4, "Deformer_Arap: residual %g (preconditioner %d, %zu iterations)", resid(A, u, g), (int) pre, s.convergence_history.size()); else VP_CHECK(nrm(u) < 1e-5 || nrm(matvec(A, N, N, u)) < 1e-6, "moves by %g", nrm(u)); d::UpdateQuaternions_Svd(q, p.X, y, ind, lst); R.clear(); for (int i = 0; i < n; ++i) R.push_back(qm(q.data() + 4 * i)); } }
  else { d::Deformer_Arap2 s; s.Init(p.X, p.m.tri, q, p.bc); s.Deform(y, q, p.X, p.bc); double mx = 0, g0 = 0; for (int i = 0; i < n; ++i) for (int pass = 0; pass < 2; ++pass) { const V &z = pass ? y : old; D3 r{0, 0, 0}; for (U j: p.nb[i]) r = r + 2. * (at(z, j) - at(z, i)) - (mul(R[i], at(p.X, j) - at(p.X, i)) + mul(R[j], at(p.X, j) - at(p.X, i))); for (int k = 0; k < 3; ++k) if (!p.bc[3 * i + k]) (pass ? mx : g0) = std::max(pass ? mx : g0, std::abs(r[k])); } for (int a = 0; a < N; ++a) if (p.bc[a]) VP_CHECK(y[a] == old[a], "constrained coordinate %d moves", a); V u(N); for (int a = 0; a < N; ++a) u[a] = y[a] - old[a]; VP_CHECK(mx < 1e-4 * g0 + 2e-5 * nrm(u) + 1e-9, "Deformer_Arap2: the free points are pulled by %g after, %g before", mx, g0); }
}
