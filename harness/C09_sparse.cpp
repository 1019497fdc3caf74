// SCALE: 4 12
#include "common.hpp"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_masterslave.h"
#include "delfem2/vecxitrsol.h"
#include "delfem2/jagarray.h"
#include "delfem2/msh_topology_uniform.h"
using namespace ref;
namespace d = delfem2;
using V = vector<uint>;
using CD = std::complex<double>;
// all values are small integers (exact in every scalar type), so that sparse and dense results must agree exactly
template<class T> static T gen(vp::Case &c) { return (T) c.range(-4, 4); }
template<> CD gen<CD>(vp::Case &c) { double a = c.range(-4, 4); return {a, (double) c.range(-4, 4)}; }
template<class T> static std::string show(T v) { std::ostringstream o; o << v; return o.str(); }

struct Pattern { uint n; V ind, arr; vector<std::set<uint>> row; };
static Pattern pattern(vp::Case &c, bool symmetric, uint nmin = 1, uint nmax = 9) {
  Pattern p; p.n = (uint) c.range(nmin, nmax); p.row.resize(p.n); uint m = (uint) c.range(0, 14);
  for (uint k = 0; k < m; ++k) { uint i = (uint) c.below(p.n), j = (uint) c.below(p.n); if (i != j) { p.row[i].insert(j); if (symmetric) p.row[j].insert(i); } }
  if (p.n > 1 && p.row[0].empty()) { p.row[0].insert(1); if (symmetric) p.row[1].insert(0); }  // merging needs at least one off-diagonal block
  bool sort = c.flip(); p.ind.push_back(0);
  for (auto &r: p.row) { V v(r.begin(), r.end()); if (!sort) c.shuffle(v.begin(), v.end()); p.arr.insert(p.arr.end(), v.begin(), v.end()); p.ind.push_back((uint) p.arr.size()); }
  return p;
}
template<class T> struct Dense {
  uint nb, L; vector<T> a; Dense(uint nb, uint L) : nb(nb), L(L), a(nb * L * nb * L, T(0)) {}
  uint n() const { return nb * L; }
  T &at(uint i, uint j) { return a[i * n() + j]; }
  T at(uint i, uint j) const { return a[i * n() + j]; }
};
template<class T> static Dense<T> dense(const d::CMatrixSparse<T> &A) {
  Dense<T> D(A.nrowblk_, A.nrowdim_); uint L = D.L;
  for (uint i = 0; i < D.nb; ++i) {
    for (uint z = 0; z < L * L; ++z) D.at(i * L + z / L, i * L + z % L) += A.val_dia_[i * L * L + z];
    for (uint k = A.col_ind_[i]; k < A.col_ind_[i + 1]; ++k) for (uint z = 0; z < L * L; ++z) D.at(i * L + z / L, A.row_ptr_[k] * L + z % L) += A.val_crs_[k * L * L + z];
  }
  return D;
}
template<class T> static void compare(vp::Case &c, const d::CMatrixSparse<T> &A, const Dense<T> &D, const char *what) {
  auto E = dense(A); VP_CHECK(E.n() == D.n(), "%s: size", what);
  for (uint i = 0; i < D.n(); ++i) for (uint j = 0; j < D.n(); ++j) VP_CHECK(E.at(i, j) == D.at(i, j), "%s: entry (%u,%u) of the sparse matrix is %s, of the dense one %s", what, i, j, show(E.at(i, j)).c_str(), show(D.at(i, j)).c_str());
}
template<class T, int R, int C, int L> static void merge_block(d::CMatrixSparse<T> &A, const V &ir, const V &jc, const vector<T> &e, V &buf) {
  T em[R][C][L][L]; std::copy(e.begin(), e.end(), &em[0][0][0][0]); d::Merge<R, C, L, L, T>(A, ir.data(), jc.data(), em, buf);
}
template<class T, int R, int C> static void merge_scalar(d::CMatrixSparse<T> &A, const V &ir, const V &jc, const vector<T> &e, V &buf) {
  T em[R][C]; std::copy(e.begin(), e.end(), &em[0][0]); d::Merge<R, C, T>(A, ir.data(), jc.data(), em, buf);
}
template<class T, int L> static void history(vp::Case &c) {
  Pattern p = pattern(c, c.chance(2, 3)); uint n = p.n, N = n * L;
  d::CMatrixSparse<T> A; A.Initialize(n, L, true); A.SetPattern(p.ind.data(), p.ind.size(), p.arr.data(), p.arr.size());
  VP_CHECK(A.nrowblk_ == n && A.ncolblk_ == n && A.nrowdim_ == L && A.ncoldim_ == L);
  A.setZero(); Dense<T> D(n, L); V buf; bool shared = c.flip();  // one merge buffer shared by all calls, or a fresh one
  int nop = c.range(2, 10), prods = 0, merges = 0;
  auto vec = [&](uint k) { vector<T> v(k); for (auto &x: v) x = gen<T>(c); return v; };
  for (int op = 0; op < nop; ++op) {
    int o = c.range(0, 13); if (op < 2) o = 0;
    if (o <= 3 && n > 1) {  // an element matrix over the blocks the pattern admits
      if (!shared) buf.clear();
      V clique{(uint) c.below(n)};
      if (c.flip()) for (uint j = 0; j < n; ++j) { bool ok = true; for (uint i: clique) ok = ok && i != j && p.row[i].count(j) && p.row[j].count(i); if (ok) clique.push_back(j); }
      int R = c.range(1, 4), C = R; if (c.chance(1, 3)) C = c.range(1, 4); V ir, jc;
      if (C == R && c.flip()) { // same nodes for rows and columns
        c.shuffle(clique.begin(), clique.end()); if ((int) clique.size() > R) clique.resize(R); R = C = (int) clique.size(); ir = jc = clique;
        if (c.flip()) c.shuffle(jc.begin(), jc.end());
      } else {
        uint i0 = (uint) c.below(n); V cols(p.row[i0].begin(), p.row[i0].end()); cols.push_back(i0);
        ir.assign(1, i0); for (int k = 1; k < R; ++k) ir.push_back(i0);  // repeated rows: contributions add up
        for (int k = 0; k < C; ++k) jc.push_back(c.pick(cols));
      }
      if (R > 4) { R = C = 4; ir.resize(4); jc.resize(4); }
      vector<T> e = vec(R * C * L * L);
      for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) for (int z = 0; z < L * L; ++z) D.at(ir[i] * L + z / L, jc[j] * L + z % L) += e[(i * C + j) * L * L + z];
      int how = c.range(0, 2); ++merges;
      if (how == 1 && R == 2 && C == 2) merge_block<T, 2, 2, L>(A, ir, jc, e, buf);
      else if (how == 1 && R == 3 && C == 3) merge_block<T, 3, 3, L>(A, ir, jc, e, buf);
      else if (how == 1 && R == 4 && C == 4) merge_block<T, 4, 4, L>(A, ir, jc, e, buf);
      else if (how == 1 && R == 1 && C == 3) merge_block<T, 1, 3, L>(A, ir, jc, e, buf);
      else if (how == 1 && R == 3 && C == 2) merge_block<T, 3, 2, L>(A, ir, jc, e, buf);
      else if (how == 2 && L == 1 && R == 3 && C == 3) merge_scalar<T, 3, 3>(A, ir, jc, e, buf);
      else if (how == 2 && L == 1 && R == 2 && C == 4) merge_scalar<T, 2, 4>(A, ir, jc, e, buf);
      else if (how == 2 && L == 1 && R == 4 && C == 4) merge_scalar<T, 4, 4>(A, ir, jc, e, buf);
      else VP_CHECK(d::Mearge<T>(A, R, ir.data(), C, jc.data(), L * L, e.data(), buf));
      compare(c, A, D, "merge");
    } else if (o <= 6) {
      T al = gen<T>(c), be = gen<T>(c); vector<T> x = vec(N), y = vec(N), z = y; bool tr = o == 6; ++prods;
      if (tr) A.MatTVec(y.data(), al, x.data(), be); else A.MatVec(y.data(), al, x.data(), be);
      for (uint i = 0; i < N; ++i) { T s = 0; for (uint j = 0; j < N; ++j) s += (tr ? D.at(j, i) : D.at(i, j)) * x[j]; z[i] = be * z[i] + al * s;
        VP_CHECK(y[i] == z[i], "component %u of the %s product is %s, dense product %s", i, tr ? "transposed" : "matrix-vector", show(y[i]).c_str(), show(z[i]).c_str()); }
    } else if (o == 7) { T s = gen<T>(c); A.AddDia(s); for (uint i = 0; i < N; ++i) D.at(i, i) += s; compare(c, A, D, "AddDia"); }
    else if (o == 8) { vector<T> m = vec(n); double s = c.range(-2, 3); A.AddDia_LumpedMass(m.data(), s); for (uint i = 0; i < N; ++i) D.at(i, i) += m[i / L] * (T) s; compare(c, A, D, "AddDia_LumpedMass"); }
    else if (o == 9 || o == 10) {  // fixed degrees of freedom
      vector<int> bc(N); for (auto &b: bc) b = c.chance(1, 3) ? c.range(1, 2) : 0; T dv = gen<T>(c); int which = c.range(0, 3);
      if (which == 0) { A.SetFixedBC(bc.data()); for (uint i = 0; i < N; ++i) for (uint j = 0; j < N; ++j) if (bc[i] || bc[j]) D.at(i, j) = i == j ? T(1) : T(0); }
      if (which == 1) { A.SetFixedBC_Row(bc.data()); for (uint i = 0; i < N; ++i) for (uint j = 0; j < N; ++j) if (bc[i] && i / L != j / L) D.at(i, j) = 0; }
      if (which == 2) { A.SetFixedBC_Col(bc.data()); for (uint i = 0; i < N; ++i) for (uint j = 0; j < N; ++j) if (bc[j] && i / L != j / L) D.at(i, j) = 0; }
      if (which == 3) { A.SetFixedBC_Dia(bc.data(), dv); for (uint i = 0; i < N; ++i) for (uint j = 0; j < N; ++j) if (i / L == j / L && (bc[i] || bc[j])) D.at(i, j) = i == j ? dv : T(0); }
      compare(c, A, D, "fixed boundary condition");
    } else if (o == 11) { // copies are independent
      d::CMatrixSparse<T> B(A), C2; C2.Initialize(2, L, true); C2 = A; compare(c, B, D, "copy"); compare(c, C2, D, "assignment");
      B.AddDia(T(1)); C2.setZero(); compare(c, A, D, "after changing a copy"); Dense<T> Z(n, L); compare(c, C2, Z, "setZero");
      VP_CHECK(C2.nrowblk_ == n && C2.ncolblk_ == n && C2.nrowdim_ == L && C2.ncoldim_ == L);
    } else if (o == 12) {
      if constexpr (std::is_same_v<T, double>) {
        if (c.flip()) { vector<double> s(n); for (auto &x: s) x = c.range(-3, 3); d::MatSparse_ScaleBlk_LeftRight(A, s.data()); for (uint i = 0; i < N; ++i) for (uint j = 0; j < N; ++j) D.at(i, j) *= s[i / L] * s[j / L]; }
        else { vector<double> s(N); for (auto &x: s) x = c.range(-3, 3); d::MatSparse_ScaleBlkLen_LeftRight(A, s.data()); for (uint i = 0; i < N; ++i) for (uint j = 0; j < N; ++j) D.at(i, j) *= s[i] * s[j]; }
        compare(c, A, D, "scaling");
      }
    } else if (o == 13) {
      if constexpr (std::is_same_v<T, double>) { double s = 0; for (uint i = 0; i < N; ++i) for (uint j = 0; j < N; ++j) s += (D.at(i, j) - D.at(j, i)) * (D.at(i, j) - D.at(j, i));
        bool full = true; for (uint i = 0; i < n; ++i) for (uint j: p.row[i]) full = full && p.row[j].count(i);  // with a symmetric pattern: the squared norm of A - A^T
        double r = d::CheckSymmetry(A); if (full) VP_CHECK(r == s, "CheckSymmetry returns %g, the asymmetry is %g", r, s); else VP_CHECK((r == 0) == (s == 0), "CheckSymmetry returns %g for a matrix with asymmetry %g", r, s); }
    }
  }
  if (L == 1) { uint len = (uint) c.range(1, 4); T al = gen<T>(c), be = gen<T>(c); vector<T> x = vec(n * len), y = vec(n * len), z = y; A.MatVecDegenerate(y.data(), len, al, x.data(), be);
    for (uint i = 0; i < n; ++i) for (uint k = 0; k < len; ++k) { T s = 0; for (uint j = 0; j < n; ++j) s += D.at(i, j) * x[j * len + k]; VP_CHECK(y[i * len + k] == be * z[i * len + k] + al * s, "degenerate product, component (%u,%u)", i, k); } ++prods; }
  c.nontrivial(merges > 0 && n > 2); c.label("block size %d", L); if (prods) c.label("products");
}
VP_PROP(history_double, 60000, 600000, "histories of assembly (every Merge variant, permuted and repeated nodes), products, boundary conditions, scaling, copies over random patterns, block sizes 1-6, against a dense matrix, exactly; non-trivial: merges on at least three blocks") {
  switch (c.range(1, 6)) { case 1: return history<double, 1>(c); case 2: return history<double, 2>(c); case 3: return history<double, 3>(c); case 4: return history<double, 4>(c); case 5: return history<double, 5>(c); default: return history<double, 6>(c); }
}
VP_PROP(history_float, 15000, 150000, "the same for float, block sizes 1-4") { switch (c.range(1, 4)) { case 1: return history<float, 1>(c); case 2: return history<float, 2>(c); case 3: return history<float, 3>(c); default: return history<float, 4>(c); } }
VP_PROP(history_complex, 20000, 200000, "the same for complex numbers, block sizes 1-5") { switch (c.range(1, 5)) { case 1: return history<CD, 1>(c); case 2: return history<CD, 2>(c); case 3: return history<CD, 3>(c); case 4: return history<CD, 4>(c); default: return history<CD, 5>(c); } }

VP_PROP(rectangular, 10000, 100000, "transposed and plain products with block-rectangular blocks (rows x columns of a block differ) against the dense product; non-trivial: at least three blocks") {
  Pattern p = pattern(c, false); uint n = p.n, a = (uint) c.range(1, 4), b = (uint) c.range(1, 4);
  d::CMatrixSparse<double> A; A.Initialize(n, 1, true); A.nrowdim_ = a; A.ncoldim_ = b; A.val_dia_.assign(n * a * b, 0); A.SetPattern(p.ind.data(), p.ind.size(), p.arr.data(), p.arr.size());
  vector<double> D(n * a * n * b, 0.0);
  for (uint i = 0; i < n; ++i) {
    for (uint z = 0; z < a * b; ++z) D[(i * a + z / b) * n * b + i * b + z % b] = A.val_dia_[i * a * b + z] = gen<double>(c);
    for (uint k = p.ind[i]; k < p.ind[i + 1]; ++k) for (uint z = 0; z < a * b; ++z) D[(i * a + z / b) * n * b + p.arr[k] * b + z % b] = A.val_crs_[k * a * b + z] = gen<double>(c);
  }
  c.nontrivial(n > 2);
  vector<double> x(n * b), y(n * a), u(n * a), w(n * b); for (auto &v: x) v = gen<double>(c); for (auto &v: y) v = gen<double>(c); for (auto &v: u) v = gen<double>(c); for (auto &v: w) v = gen<double>(c);
  double al = c.range(-3, 3), be = c.range(-3, 3); auto y0 = y, w0 = w; A.MatVec(y.data(), al, x.data(), be); A.MatTVec(w.data(), al, u.data(), be);
  for (uint i = 0; i < n * a; ++i) { double s = 0; for (uint j = 0; j < n * b; ++j) s += D[i * n * b + j] * x[j]; VP_CHECK(y[i] == be * y0[i] + al * s, "component %u of the product with %ux%u blocks", i, a, b); }
  for (uint j = 0; j < n * b; ++j) { double s = 0; for (uint i = 0; i < n * a; ++i) s += D[i * n * b + j] * u[i]; VP_CHECK(w[j] == be * w0[j] + al * s, "component %u of the transposed product with %ux%u blocks", j, a, b); }
}

VP_PROP(master_slave, 30000, 300000, "degrees of freedom tied to masters: the pattern made for it holds every block needed, the matrix becomes P^T A P with identity on the tied ones and the right-hand side P^T b; solving it solves the tied system; non-trivial: at least two tied degrees of freedom") {
  Pattern p = pattern(c, true, 2, 8); uint n = p.n, L = (uint) c.range(1, 3), N = n * L; V ms(N, UINT_MAX); int nt = 0;
  // a degree of freedom is either a master, a slave or neither; the same component of another node
  vector<int> role(N); for (auto &r: role) r = c.range(0, 2);
  for (uint i = 0; i < N; ++i) if (role[i] == 2) { uint j = (uint) c.below(n) * L + i % L; if (role[j] != 2 && j / L != i / L) { ms[i] = j; ++nt; } }
  c.nontrivial(nt > 1); c.label("block size %u", L);
  V ind, arr; d::JArray_AddMasterSlavePattern(ind, arr, ms.data(), L, p.ind.data(), p.ind.size(), p.arr.data());
  VP_CHECK(ind.size() == n + 1 && ind[0] == 0 && ind[n] == arr.size());
  for (uint i = 0; i < n; ++i) { std::set<uint> s(arr.begin() + ind[i], arr.begin() + ind[i + 1]); VP_CHECK(s.size() == ind[i + 1] - ind[i] && !s.count(i), "row %u has repeated blocks or its own", i); for (uint j: p.row[i]) VP_CHECK(s.count(j), "row %u lost block %u", i, j); for (uint j: s) VP_CHECK(j < n); }
  d::CMatrixSparse<double> A; A.Initialize(n, L, true); A.SetPattern(ind.data(), ind.size(), arr.data(), arr.size()); A.setZero();
  for (uint i = 0; i < n; ++i) { for (uint z = 0; z < L * L; ++z) A.val_dia_[i * L * L + z] = gen<double>(c);
    for (uint k = ind[i]; k < ind[i + 1]; ++k) if (p.row[i].count(arr[k])) for (uint z = 0; z < L * L; ++z) A.val_crs_[k * L * L + z] = gen<double>(c); }
  auto D = dense(A); vector<double> b(N), b0; for (auto &v: b) v = gen<double>(c); b0 = b;
  d::SetMasterSlave(A, ms.data()); d::setRHS_MasterSlave(b.data(), N, ms.data());
  Dense<double> E(n, L); vector<double> e(N, 0.0); auto m = [&](uint i) { return ms[i] == UINT_MAX ? i : ms[i]; };
  for (uint i = 0; i < N; ++i) { for (uint j = 0; j < N; ++j) E.at(m(i), m(j)) += D.at(i, j); e[m(i)] += b0[i]; }
  for (uint i = 0; i < N; ++i) if (ms[i] != UINT_MAX) E.at(i, i) = 1;
  compare(c, A, E, "master-slave"); VP_CHECK(b == e, "right-hand side");
}

VP_PROP(vectors, 20000, 200000, "dense vector and matrix helpers (dot products, AXPY, masked updates, norm, orthogonalisation, dense products) against loops; non-trivial: at least three components") {
  uint n = (uint) c.range(1, 9); c.nontrivial(n > 2); auto vec = [&](uint k) { vector<double> v(k); for (auto &x: v) x = gen<double>(c); return v; };
  auto x = vec(n), y = vec(n), z = vec(n), w = vec(n); double a = c.range(-3, 3), b = c.range(-3, 3), g = c.range(-3, 3);
  double s = 0, q = 0; for (uint i = 0; i < n; ++i) s += x[i] * y[i], q += (x[i] - y[i]) * (x[i] - y[i]);
  VP_CHECK(d::Dot(x, y) == s && d::DotX(x.data(), y.data(), n) == s); VP_CHECK(d::Distance(x, y) == q, "Distance sums the squared differences");
  vector<CD> cx(n), cy(n); CD sc = 0, sm = 0; for (uint i = 0; i < n; ++i) { cx[i] = gen<CD>(c); cy[i] = gen<CD>(c); sc += cx[i] * std::conj(cy[i]); sm += cx[i] * cy[i]; }
  VP_CHECK(d::Dot(cx, cy) == sc && d::DotX(cx.data(), cy.data(), n) == sc, "complex dot product"); VP_CHECK(d::MultSumX(cx.data(), cy.data(), n) == sm);
  vector<int> bc(n); for (auto &f: bc) f = c.range(0, 1);
  auto t = y; d::AXPY(a, x, t); for (uint i = 0; i < n; ++i) VP_CHECK(t[i] == y[i] + a * x[i], "AXPY"); t = y; d::AXPY(a, x.data(), t.data(), n); for (uint i = 0; i < n; ++i) VP_CHECK(t[i] == y[i] + a * x[i], "AXPY");
  t = x; d::ScaleX(t.data(), a, n); for (uint i = 0; i < n; ++i) VP_CHECK(t[i] == a * x[i], "ScaleX");
  t = x; d::XPlusAY(t, n, bc, a, y); for (uint i = 0; i < n; ++i) VP_CHECK(t[i] == x[i] + (bc[i] ? 0 : a * y[i]), "XPlusAY");
  auto ct = cx; CD ca(a, b); d::XPlusAY(ct, n, bc, ca, cy); for (uint i = 0; i < n; ++i) VP_CHECK(ct[i] == cx[i] + (bc[i] ? CD(0) : ca * cy[i]), "XPlusAY complex");
  t = x; d::XPlusAYBZ(t, n, bc, a, y, b, z); for (uint i = 0; i < n; ++i) VP_CHECK(t[i] == x[i] + (bc[i] ? 0 : a * y[i] + b * z[i]), "XPlusAYBZ");
  t = x; d::XPlusAYBZCW(t, n, bc, a, y, b, z, g, w); for (uint i = 0; i < n; ++i) VP_CHECK(t[i] == x[i] + (bc[i] ? 0 : a * y[i] + b * z[i] + g * w[i]), "XPlusAYBZCW");
  int keep = c.range(0, 1); t = x; d::setRHS_Zero(t, bc, keep); for (uint i = 0; i < n; ++i) VP_CHECK(t[i] == (bc[i] == keep ? x[i] : 0), "setRHS_Zero"); ct = cx; d::setRHS_Zero(ct, bc, keep); for (uint i = 0; i < n; ++i) VP_CHECK(ct[i] == (bc[i] == keep ? cx[i] : CD(0)), "setRHS_Zero");
  double nx = std::sqrt(d::DotX(x.data(), x.data(), n)); if (nx > 0) { t = x; d::NormalizeX(t.data(), n); for (uint i = 0; i < n; ++i) VP_NEAR(t[i] * nx, x[i], 1e-13 * (1 + nx)); auto o = y; d::OrthogonalizeToUnitVectorX(o.data(), t.data(), n); VP_NEAR(d::Dot(o, t), 0, 1e-12); VP_NEAR(d::Dot(o, o) + d::Dot(y, t) * d::Dot(y, t), d::Dot(y, y), 1e-11); }
  uint m = (uint) c.range(1, 6), k = (uint) c.range(1, 6); auto A = vec(m * n), B = vec(n * k), Bt = vec(k * n); vector<double> M(m), MT = vec(n), MT0 = MT, P(m * k);
  d::MatVec(M.data(), A.data(), m, n, x.data()); for (uint i = 0; i < m; ++i) { double r = 0; for (uint j = 0; j < n; ++j) r += A[i * n + j] * x[j]; VP_CHECK(M[i] == r, "dense MatVec"); }
  d::MatTVec(MT.data(), a, A.data(), m, n, M.data(), b); for (uint j = 0; j < n; ++j) { double r = 0; for (uint i = 0; i < m; ++i) r += A[i * n + j] * M[i]; VP_CHECK(MT[j] == b * MT0[j] + a * r, "dense MatTVec"); }
  MatMatX(P.data(), m, k, A.data(), n, B.data()); for (uint i = 0; i < m; ++i) for (uint j = 0; j < k; ++j) { double r = 0; for (uint l = 0; l < n; ++l) r += A[i * n + l] * B[l * k + j]; VP_CHECK(P[i * k + j] == r, "MatMatX"); }
  MatMatTX(P.data(), m, k, A.data(), n, Bt.data()); for (uint i = 0; i < m; ++i) for (uint j = 0; j < k; ++j) { double r = 0; for (uint l = 0; l < n; ++l) r += A[i * n + l] * Bt[j * n + l]; VP_CHECK(P[i * k + j] == r, "MatMatTX"); }
}
