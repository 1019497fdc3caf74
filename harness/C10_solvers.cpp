// SCALE: 6 12
#include "common.hpp"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_ilu_block_sparse.h"
#include "delfem2/vecxitrsol.h"
#include "delfem2/lsitrsol.h"
#include "delfem2/view_vectorx.h"
#include "delfem2/ls_solver_block_sparse.h"
#include "delfem2/ls_solver_block_sparse_ilu.h"
#include "delfem2/ls_tridiagonal.h"
#include "delfem2/ls_pentadiagonal.h"
using namespace ref;
namespace d = delfem2;
using V = vector<uint>;
using CD = std::complex<double>;
static double cj(double a) { return a; }
static CD cj(CD a) { return std::conj(a); }
template<class T> static T gen(vp::Case &c) { return (T) c.sym(1); }
template<> CD gen<CD>(vp::Case &c) { double a = c.sym(1); return {a, c.sym(1)}; }
enum Kind { SYM, GENERAL, CSYM };  // symmetric/Hermitian positive definite, general, complex symmetric; all diagonally dominant by a drawn margin
template<class T> struct Sys { d::CMatrixSparse<T> A; vector<T> D; uint n, L, N; V ind, arr; };
template<class T> static Sys<T> make(vp::Case &c, uint L, Kind kind, uint nmax = 12) {
  Sys<T> s; s.n = (uint) c.range(1, nmax); s.L = L; s.N = s.n * L; uint n = s.n, N = s.N; s.D.assign(N * N, T(0));
  vector<std::set<uint>> row(n); int topo = c.range(0, 3);
  auto link = [&](uint i, uint j) { if (i != j) { row[i].insert(j); row[j].insert(i); } };
  if (topo == 0) for (uint k = (uint) c.range(0, 20); k--;) link((uint) c.below(n), (uint) c.below(n));
  if (topo == 1) for (uint i = 1; i < n; ++i) link(i - 1, i);
  if (topo == 2) for (uint i = 1; i < n; ++i) link((uint) c.below(i), i);
  if (topo == 3) { uint w = (uint) c.range(2, 4); for (uint i = 0; i < n; ++i) { if (i % w) link(i - 1, i); if (i >= w) link(i - w, i); } }
  if (c.flip()) { V p(n); for (uint i = 0; i < n; ++i) p[i] = i; c.shuffle(p.begin(), p.end()); vector<std::set<uint>> r2(n); for (uint i = 0; i < n; ++i) for (uint j: row[i]) r2[p[i]].insert(p[j]); row = r2; }
  s.ind.push_back(0); bool sh = c.flip();
  for (auto &r: row) { V v(r.begin(), r.end()); if (sh) c.shuffle(v.begin(), v.end()); s.arr.insert(s.arr.end(), v.begin(), v.end()); s.ind.push_back((uint) s.arr.size()); }
  for (uint i = 0; i < N; ++i) for (uint j = 0; j < i; ++j) if (i / L == j / L || row[i / L].count(j / L)) {
    T v = gen<T>(c); s.D[i * N + j] = v; s.D[j * N + i] = kind == SYM ? cj(v) : kind == CSYM ? v : gen<T>(c); }
  double margin = c.logreal(0.02, 3);
  for (uint i = 0; i < N; ++i) { double r = 0, q = 0; for (uint j = 0; j < N; ++j) { r += std::abs(s.D[i * N + j]); q += std::abs(s.D[j * N + i]); } double m = std::max(r, q) + margin;
    if constexpr (std::is_same_v<T, CD>) s.D[i * N + i] = kind == SYM ? CD(m) : std::polar(m, c.uni(-1, 1)); else s.D[i * N + i] = m; }
  s.A.Initialize(n, L, true); s.A.SetPattern(s.ind.data(), s.ind.size(), s.arr.data(), s.arr.size()); s.A.setZero();
  for (uint i = 0; i < n; ++i) { for (uint z = 0; z < L * L; ++z) s.A.val_dia_[i * L * L + z] = s.D[(i * L + z / L) * N + i * L + z % L];
    for (uint k = s.ind[i]; k < s.ind[i + 1]; ++k) for (uint z = 0; z < L * L; ++z) s.A.val_crs_[k * L * L + z] = s.D[(i * L + z / L) * N + s.arr[k] * L + z % L]; }
  return s;
}
template<class T> static double residual(const Sys<T> &s, const vector<T> &x, const vector<T> &b) { double r = 0; for (uint i = 0; i < s.N; ++i) { T q = b[i]; for (uint j = 0; j < s.N; ++j) q -= s.D[i * s.N + j] * x[j]; r += std::norm(q); } return std::sqrt(r); }
template<class T> static vector<T> matvec2(const vector<T> &A, uint n, const vector<T> &x) { vector<T> y(n, T(0)); for (uint i = 0; i < n; ++i) for (uint j = 0; j < n; ++j) y[i] += A[i * n + j] * x[j]; return y; }
template<class T> static double nrm(const vector<T> &x) { double r = 0; for (auto &v: x) r += std::norm(v); return std::sqrt(r); }
template<class T> static vector<T> rhs(vp::Case &c, uint N, bool full = false) { vector<T> b(N); double sc = c.chance(1, 4) ? c.logreal(1e-3, 1e6) : 1; for (auto &v: b) v = !full && c.chance(1, 4) ? T(0) : gen<T>(c) * sc; double q = 0; for (auto &v: b) q += std::norm(v); if (q > 0 && q < 1e-18) c.discard();  /* the solvers take norms below 1e-15 for zero */ return b; }
// history: one entry per iteration, ends at the first entry below the tolerance (times s for absolute histories), which describes the residual of the returned vector
template<class T> static void judge(vp::Case &c, const Sys<T> &s, const vector<T> &x, const vector<T> &b, const vector<T> &r, const vector<double> &h, double tol, size_t skip, double unitlen, const char *what, size_t maxit = 100000) {
  double nb = nrm(b), res = residual(s, x, b); for (auto &v: x) VP_CHECK(std::isfinite(std::abs(v)), "%s: not a number", what);
  VP_CHECK(h.size() > skip, "%s: empty history", what);
  VP_CHECK(h.size() <= maxit + skip, "%s: %zu iterations, %zu allowed", what, h.size() - skip, maxit);
  VP_CHECK(h.back() / unitlen < tol, "%s: not converged, the last residual in the history is %g, requested %g", what, h.back() / unitlen, tol);
  for (size_t i = skip; i + 1 < h.size(); ++i) VP_CHECK(h[i] / unitlen >= tol, "%s: went on after reaching the tolerance in iteration %zu of %zu", what, i, h.size());
  double scale = nb + std::abs(s.D[0]) * nrm(x);
  VP_CHECK(res <= tol * nb * 1.01 + 1e-10 * scale, "%s: residual of the returned vector %g, requested %g", what, res, tol * nb);
  VP_NEAR(h.back() / unitlen * nb, res, 1e-10 * scale + 1e-6 * res);
  VP_NEAR(nrm(r), res, 1e-10 * scale + 1e-6 * res);
}
template<class T> static d::CPreconditionerILU<T> ilu(vp::Case &c, const Sys<T> &s, int fill) {
  d::CPreconditionerILU<T> P; if (c.flip()) P.Initialize_ILUk(s.A, c.range(-1, 2)); if (fill == 0 && c.flip()) P.SetPattern0(s.A); else P.Initialize_ILUk(s.A, fill);
  P.CopyValue(s.A); if (c.flip()) { P.Decompose(); P.CopyValue(s.A); }  // the pattern is reused for new values
  VP_CHECK(P.Decompose(), "decomposition refused"); if (c.flip()) { d::CPreconditionerILU<T> Q(P); return Q; } return P;
}
static double tolerance(vp::Case &c) { return c.logreal(1e-9, 1e-1); }
VP_PROP(cg, 8000, 80000, "conjugate gradients with and without incomplete LU preconditioner (fill 0-3, all), block size 1-5, on symmetric positive definite systems: residual against the dense matrix, history; non-trivial: at least three blocks and a non-zero right-hand side") {
  auto s = make<double>(c, (uint) c.range(1, 5), SYM); auto b = rhs<double>(c, s.N); double tol = tolerance(c), nb = nrm(b); auto r = b; vector<double> x(s.N, 7.0), t0(s.N), t1(s.N);
  auto h = d::Solve_CG(d::ViewAsVectorXd(r), d::ViewAsVectorXd(x), d::ViewAsVectorXd(t0), d::ViewAsVectorXd(t1), tol, 1000, s.A);
  if (nb == 0) { for (double v: x) VP_CHECK(v == 0); return; }
  c.nontrivial(s.n > 2); judge(c, s, x, b, r, h, tol, 0, 1, "Solve_CG"); VP_CHECK(h.size() <= s.N * 3 + 30, "Solve_CG needed %zu iterations for %u unknowns", h.size(), s.N);
  int fill = c.range(-1, 3); auto P = ilu(c, s, fill); r = b; std::fill(x.begin(), x.end(), -3.0);
  h = d::Solve_PCG(d::ViewAsVectorXd(r), d::ViewAsVectorXd(x), d::ViewAsVectorXd(t0), d::ViewAsVectorXd(t1), tol, 1000, s.A, P);
  VP_CHECK(!h.empty()); VP_NEAR(h[0], nb, 1e-12 * nb); judge(c, s, x, b, r, h, tol, 1, nb, "Solve_PCG");
  if (fill == -1) { VP_CHECK(h.size() <= 4, "%zu iterations with a complete factorisation", h.size()); c.label("complete factorisation"); }
  // stopped early: the history still describes the vector returned
  uint it = (uint) c.range(1, 3); r = b; h = d::Solve_CG(d::ViewAsVectorXd(r), d::ViewAsVectorXd(x), d::ViewAsVectorXd(t0), d::ViewAsVectorXd(t1), 1e-30, it, s.A); VP_CHECK(h.size() <= it); VP_NEAR(residual(s, x, b), h.back() * nb, 1e-10 * (nb + nrm(x) * std::abs(s.D[0])));
}
VP_PROP(bicgstab, 8000, 80000, "BiCGSTAB with and without preconditioner on general diagonally dominant systems, block size 1-4; non-trivial: at least three blocks and a non-zero right-hand side") {
  auto s = make<double>(c, (uint) c.range(1, 4), c.flip() ? GENERAL : SYM); auto b = rhs<double>(c, s.N, true); if (c.chance(1, 20)) std::fill(b.begin(), b.end(), 0.0);  // (mostly) no zero components: BiCGSTAB itself breaks down when a residual is exactly orthogonal to the first one
  double tol = c.logreal(1e-8, 1e-1); auto r = b; vector<double> x(s.N, 7.0);
  auto h = d::Solve_BiCGStab(r, x, tol, 2000, s.A);
  if (nrm(b) == 0) { VP_CHECK(x.size() == s.N); for (double v: x) VP_CHECK(v == 0, "zero right-hand side, solution %g", v); x.assign(s.N, 5); auto P = ilu(c, s, 0); r = b; d::Solve_PBiCGStab(r.data(), x.data(), tol, 100, s.A, P); for (double v: x) VP_CHECK(v == 0); return; }
  c.note("N=%u D=%s b=%s x=%s h=%s tol=%g", s.N, vp::str(s.D).c_str(), vp::str(b).c_str(), vp::str(x).c_str(), vp::str(h).c_str(), tol); c.nontrivial(s.n > 2); judge(c, s, x, b, r, h, tol, 0, 1, "Solve_BiCGStab", 2000);
  auto P = ilu(c, s, c.range(-1, 2)); r = b; std::fill(x.begin(), x.end(), 2.0); h = d::Solve_PBiCGStab(r.data(), x.data(), tol, 2000, s.A, P); c.note("P: x=%s h=%s", vp::str(x).c_str(), vp::str(h).c_str()); judge(c, s, x, b, r, h, tol, 0, 1, "Solve_PBiCGStab", 2000);
}
VP_PROP(complex_solvers, 6000, 60000, "complex solvers: CG and preconditioned CG on Hermitian positive definite, BiCGSTAB on general, COCG on complex symmetric systems; non-trivial: at least three blocks and a non-zero right-hand side") {
  int kind = c.range(0, 2); uint L = c.flip() ? 1 : (uint) c.range(1, 3); bool pre = L == 1; auto s = make<CD>(c, L, (Kind) kind, 10); auto b = rhs<CD>(c, s.N, true); if (c.chance(1, 20)) std::fill(b.begin(), b.end(), CD(0)); double tol = c.logreal(1e-8, 1e-1), nb = nrm(b); auto r = b; vector<CD> x(s.N, CD(3, 1)); c.label("kind %d", kind);
  if (nb == 0) { d::Solve_BiCGSTAB_Complex(r, x, tol, 10, s.A); VP_CHECK(nrm(x) == 0); return; }
  c.nontrivial(s.n > 2);
  auto h = d::Solve_BiCGSTAB_Complex(r, x, tol, 2000, s.A); judge(c, s, x, b, r, h, tol, 0, 1, "Solve_BiCGSTAB_Complex", 2000);
  if (kind == SYM) { r = b; auto g = d::Solve_CG_Complex(r, x, tol, 2000, s.A); judge(c, s, x, b, r, g, tol, 0, 1, "Solve_CG_Complex"); }
  if (!pre) return;
  auto P = ilu(c, s, c.range(-1, 2)); r = b; h = d::Solve_PBiCGStab_Complex(r.data(), x.data(), tol, 2000, s.A, P); judge(c, s, x, b, r, h, tol, 0, 1, "Solve_PBiCGStab_Complex", 2000);
  if (kind == SYM) { r = b; h = d::Solve_PCG_Complex(r.data(), x.data(), tol, 2000, s.A, P); judge(c, s, x, b, r, h, tol, 1, 1, "Solve_PCG_Complex"); }
  if (kind == CSYM) { r = b; h = d::Solve_PCOCG(r.data(), x.data(), tol, 2000, s.A, P); judge(c, s, x, b, r, h, tol, 0, 1, "Solve_PCOCG", 2000); }
}
template<class T> static void exact(vp::Case &c, uint L) {
  auto s = make<T>(c, L, c.flip() ? SYM : GENERAL); auto P = ilu(c, s, -1); c.nontrivial(s.n > 2); auto b = rhs<T>(c, s.N); auto x = b; P.SolvePrecond(x.data());
  VP_CHECK(residual(s, x, b) <= 1e-10 * (1 + nrm(b) + nrm(x) * std::abs(s.D[0])), "complete factorisation leaves residual %g, block size %u", residual(s, x, b), L);
  // the stored factors have the matrix as product on the pattern kept, for every level of fill
  int fill = c.range(0, 3); auto Q = ilu(c, s, fill); uint n = s.n, N = s.N; vector<T> Lo(N * N, T(0)), U(N * N, T(0));
  auto put = [&](vector<T> &M, uint i, uint j, const T *v) { for (uint z = 0; z < L * L; ++z) M[(i * L + z / L) * N + j * L + z % L] = v[z]; };
  for (uint i = 0; i < n; ++i) {
    vector<T> inv(L * L); // invert the stored inverse of the diagonal block
    for (uint j = 0; j < L; ++j) { vector<T> e(L, T(0)), y; e[j] = 1; VP_CHECK(solve<T>(vector<T>(Q.valDia.begin() + i * L * L, Q.valDia.begin() + (i + 1) * L * L), e, y), "singular diagonal"); for (uint k = 0; k < L; ++k) inv[k * L + j] = y[k]; }
    put(Lo, i, i, inv.data()); for (uint k = 0; k < L; ++k) U[(i * L + k) * N + i * L + k] = 1; uint prev = 0; bool first = true; std::set<uint> cols;
    for (uint k = Q.colInd[i]; k < Q.colInd[i + 1]; ++k) { uint j = Q.rowPtr[k]; VP_CHECK(j < n && j != i && (first || j > prev), "columns of row %u are not increasing", i); first = false; prev = j; cols.insert(j); put(j < i ? Lo : U, i, j, &Q.valCrs[k * L * L]); VP_CHECK((k < Q.m_diaInd[i]) == (j < i)); }
    for (uint k = s.ind[i]; k < s.ind[i + 1]; ++k) VP_CHECK(cols.count(s.arr[k]), "row %u lost block %u at fill %d", i, s.arr[k], fill); if (fill == 0) VP_CHECK(cols.size() == s.ind[i + 1] - s.ind[i], "fill level 0 keeps the pattern of the matrix");
  }
  for (uint i = 0; i < N; ++i) for (uint j = 0; j < N; ++j) { bool kept = i / L == j / L; for (uint k = Q.colInd[i / L]; k < Q.colInd[i / L + 1]; ++k) kept = kept || Q.rowPtr[k] == j / L; if (!kept) continue;
    T v = 0; for (uint k = 0; k < N; ++k) v += Lo[i * N + k] * U[k * N + j]; VP_CHECK(std::abs(v - s.D[i * N + j]) < 1e-9 * std::abs(s.D[0]) + 1e-9, "entry (%u,%u) of the product of the incomplete factors (fill %d) differs by %g", i, j, fill, std::abs(v - s.D[i * N + j])); }
  // the solve is the product of the two triangular inverses
  auto y = b; Q.SolvePrecond(y.data()); auto w = matvec2(U, N, y), z = matvec2(Lo, N, w); double e = 0; for (uint i = 0; i < N; ++i) e += std::abs(z[i] - b[i]); VP_CHECK(e < 1e-9 * (1 + nrm(b) + nrm(y) * std::abs(s.D[0])), "substitution does not invert the factors, error %g", e);
  if (L == 1) { uint K = (uint) c.range(1, 3); vector<T> m(N * K), o; for (auto &v: m) v = gen<T>(c); o = m; P.ForwardSubstitutionDegenerate(m.data(), K); P.BackwardSubstitutionDegenerate(m.data(), K);
    for (uint k = 0; k < K; ++k) { vector<T> q(N); for (uint i = 0; i < N; ++i) q[i] = o[i * K + k]; P.SolvePrecond(q.data()); for (uint i = 0; i < N; ++i) VP_CHECK(std::abs(q[i] - m[i * K + k]) < 1e-11 * (1 + nrm(q)), "degenerate substitution"); } }
}
VP_PROP(factorisation, 10000, 100000, "incomplete LU factorisation, block size 1-6, real and complex: product of the factors equals the matrix on the pattern kept, complete fill solves exactly, levels of fill, reuse of the pattern; non-trivial: at least three blocks") {
  if (c.chance(1, 4)) exact<CD>(c, 1); else exact<double>(c, (uint) c.range(1, 6));
}
template<uint L> static void banded(vp::Case &c) {
  bool penta = c.flip(); int n = penta ? c.range(4, 12) : c.range(1, 12); uint N = n * L; int w = penta ? 2 : 1, m = w + 1; vector<double> D(N * N, 0.0), b(N); c.label(penta ? "penta" : "tri"); c.nontrivial(n > 4);
  d::BlockTriDiagonalMatrix<L> T; d::BlockPentaDiagonalMatrix<L> Q; d::LinearSystemSolver_BlockPentaDiagonal<L> S;
  if (penta) { if (c.flip()) { Q.Initialize(c.range(4, 9)); Q.setZero(); } Q.Initialize(n); Q.setZero(); S.Initialize(n); S.BeginMerge(); VP_CHECK((int) Q.nblk() == n && S.ndof() == N && S.ndim() == L); } else { if (c.flip()) T.Initialize(c.range(2, 9)); T.Initialize(n); T.setZero(); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double *p = penta ? Q.GetValuePointer(i, j) : T.GetValuePointer(i, j); VP_CHECK((p != nullptr) == (std::abs(i - j) <= w), "block (%d,%d)", i, j); }
  VP_CHECK(!T.GetValuePointer(-1, 0) && !T.GetValuePointer(n, n));
  for (int e = 0; e + w < n; ++e) { // element matrices, non-symmetric
    double t2[2][2][L][L], t3[3][3][L][L]; double *q = penta ? &t3[0][0][0][0] : &t2[0][0][0][0];
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) for (uint z = 0; z < L * L; ++z) { double v = c.sym(1); q[(i * m + j) * L * L + z] = v; D[((e + i) * L + z / L) * N + (e + j) * L + z % L] += v; }
    if (penta) { Q.Merge(e, t3); uint id[3] = {(uint) e, (uint) e + 1, (uint) e + 2}; S.template Merge<3, 3, (int) L, (int) L>(id, id, t3); } else T.Merge(e, t2);
  }
  if (penta && c.flip()) { constexpr int L1 = L > 1 ? L - 1 : 1; double t[1][2][L][L1]; uint i = (uint) c.range(0, n - 2), ir[1] = {i}, jc[2] = {i + 1, i}; for (int k = 0; k < 2; ++k) for (uint a = 0; a < L; ++a) for (uint f = 0; f < L1; ++f) { t[0][k][a][f] = c.sym(1); D[(i * L + a) * N + jc[k] * L + f] += t[0][k][a][f]; Q.GetValuePointer(i, jc[k])[a * L + f] += t[0][k][a][f]; } S.template Merge<1, 2, (int) L, L1>(ir, jc, t); c.label("rectangular blocks"); }
  for (int i = 0; i < n; ++i) for (int j = std::max(0, i - w); j <= std::min(n - 1, i + w); ++j) { double *p = penta ? Q.GetValuePointer(i, j) : T.GetValuePointer(i, j); for (uint z = 0; z < L * L; ++z) { VP_NEAR(p[z], D[(i * L + z / L) * N + j * L + z % L], 1e-13); if (penta) VP_NEAR(S.dia.GetValuePointer(i, j)[z], p[z], 1e-13); } }
  for (uint i = 0; i < N; ++i) { double r = 0.5; for (uint j = 0; j < N; ++j) r += std::fabs(D[i * N + j]) + std::fabs(D[j * N + i]); D[i * N + i] += r; double *p = penta ? Q.GetValuePointer(i / L, i / L) : T.GetValuePointer(i / L, i / L); p[(i % L) * L + i % L] += r;  // (not in one expression: GCC 13 with -fsanitize=null evaluates the index in one branch only)
    if (penta) S.AddValueToDiagonal(i / L, i % L, r); b[i] = c.sym(1); }
  vector<char> fix(N, 0); for (uint i = 0; i < N; ++i) if (c.chance(1, 6)) { fix[i] = 1; for (uint j = 0; j < N; ++j) D[i * N + j] = D[j * N + i] = 0; D[i * N + i] = 1; if (penta) { Q.FixBC(i / L, i % L); S.dof_bcflag[i] = 1; } else T.FixBC(i / L, i % L); }
  vector<double> x = b; if (penta) { S.vec_r = b; Q.Decompose(); Q.Solve(x); } else { T.Decompose(); T.Solve(x); }
  auto y = matvec(D, N, N, x); for (uint i = 0; i < N; ++i) VP_NEAR(y[i], b[i], 1e-9);
  if (c.flip()) { for (auto &v: b) v = c.sym(1); x = b; if (penta) Q.Solve(x); else T.Solve(x); y = matvec(D, N, N, x); for (uint i = 0; i < N; ++i) VP_NEAR(y[i], b[i], 1e-9); }   // a second right-hand side

  if (penta) { auto b2 = S.vec_r; S.Solve(); y = matvec(D, N, N, S.vec_x); for (uint i = 0; i < N; ++i) VP_NEAR(y[i], fix[i] ? 0 : b2[i], 1e-9); }
}
VP_PROP(banded_direct, 12000, 120000, "block tri- and pentadiagonal direct solvers, block size 1-4, 1-12 (4-12) blocks, assembly, fixed degrees of freedom, several right-hand sides; non-trivial: at least five blocks") { switch (c.range(1, 4)) { case 1: return banded<1>(c); case 2: return banded<2>(c); case 3: return banded<3>(c); default: return banded<4>(c); } }

template<class LS> static void use(vp::Case &c, LS &ls, int how, const V &tri, uint n, const vector<double> &E, const vector<double> &dia, const vector<int> &bc, const vector<double> &b) {
  ls.BeginMerge();
  for (size_t t = 0; t < tri.size() / 3; ++t) { double em[3][3][2][2]; std::copy(E.begin() + t * 36, E.begin() + t * 36 + 36, &em[0][0][0][0]); ls.template Merge<3, 3, 2, 2>(&tri[t * 3], &tri[t * 3], em); }
  for (uint i = 0; i < n; ++i) for (uint k = 0; k < 2; ++k) ls.AddValueToDiagonal(i, k, dia[i * 2 + k]);
  ls.vec_r = b; ls.dof_bcflag = bc;
  if constexpr (std::is_same_v<LS, d::LinearSystemSolver_BlockSparse>) ls.Solve(); else { if (how) ls.Solve_PcgIlu(); else ls.Solve_Cg(); }
}
VP_PROP(solver_classes, 6000, 60000, "the packaged solvers (plain, ILU) over element assembly on a triangle strip with fixed degrees of freedom and a second use of the same object; non-trivial: some degree of freedom fixed") {
  uint n = (uint) c.range(3, 9); V tri; for (uint i = 0; i + 2 < n; ++i) { V t{i, i + 1, i + 2}; if (c.flip()) c.shuffle(t.begin(), t.end()); tri.insert(tri.end(), t.begin(), t.end()); }
  vector<std::set<uint>> row(n); for (size_t t = 0; t < tri.size(); t += 3) for (int a = 0; a < 3; ++a) for (int e = 0; e < 3; ++e) if (a != e) row[tri[t + a]].insert(tri[t + e]);
  V ind{0}, arr; for (auto &r: row) { arr.insert(arr.end(), r.begin(), r.end()); ind.push_back((uint) arr.size()); }
  d::LinearSystemSolver_BlockSparse l0; l0.Initialize(n, 2, ind, arr); d::LinearSystemSolver_BlockSparseILU l1; l1.Initialize(n, 2, ind, arr); VP_CHECK(l0.nblk() == n && l0.ndim() == 2 && l0.ndof() == 2 * n && l1.ndof() == 2 * n);
  for (int rep = 0; rep < 2; ++rep) {
    uint N = 2 * n; vector<double> E(tri.size() / 3 * 36), D(N * N, 0.0), dia(N), b(N); vector<int> bc(N); bool any = false;
    for (size_t t = 0; t < tri.size() / 3; ++t) for (int p = 0; p < 6; ++p) for (int q = 0; q <= p; ++q) { double v = c.sym(1); auto at = [&](int p, int q) -> double & { return E[t * 36 + ((p / 2) * 3 + q / 2) * 4 + (p % 2) * 2 + q % 2]; }; at(p, q) = v; at(q, p) = v; }
    for (size_t t = 0; t < tri.size() / 3; ++t) for (int p = 0; p < 6; ++p) for (int q = 0; q < 6; ++q) D[(tri[t * 3 + p / 2] * 2 + p % 2) * N + tri[t * 3 + q / 2] * 2 + q % 2] += E[t * 36 + ((p / 2) * 3 + q / 2) * 4 + (p % 2) * 2 + q % 2];
    for (uint i = 0; i < N; ++i) { double r = 0.5; for (uint j = 0; j < N; ++j) r += std::fabs(D[i * N + j]); dia[i] = r; D[i * N + i] += r; b[i] = c.sym(1); bc[i] = c.chance(1, 4); any = any || bc[i]; }
    c.nontrivial(any);
    for (uint i = 0; i < N; ++i) if (bc[i]) { for (uint j = 0; j < N; ++j) D[i * N + j] = D[j * N + i] = 0; D[i * N + i] = 1; }
    auto e = b; for (uint i = 0; i < N; ++i) if (bc[i]) e[i] = 0; double ne = nrm(e); if (ne < 1e-6) c.discard();
    auto judge2 = [&](const vector<double> &x, double tol, const char *w) { VP_CHECK(x.size() == N); auto y = matvec(D, N, N, x); double r = 0; for (uint i = 0; i < N; ++i) { r += (y[i] - e[i]) * (y[i] - e[i]); if (bc[i]) VP_NEAR(x[i], 0, 1e-12); } VP_CHECK(std::sqrt(r) <= tol * ne * 1.01, "%s: residual %g of %g", w, std::sqrt(r), ne); };
    use(c, l0, 0, tri, n, E, dia, bc, b); judge2(l0.vec_x, 1e-4, "LinearSystemSolver_BlockSparse");
    int how = c.range(0, 1); use(c, l1, how, tri, n, E, dia, bc, b); judge2(l1.vec_x, how ? 1e-5 : 1e-4, how ? "Solve_PcgIlu" : "Solve_Cg");
  }
}
