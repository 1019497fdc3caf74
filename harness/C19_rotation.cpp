// C19: quaternions, rotation matrices, rotation vectors, Euler angles, small dense matrices and their decompositions
// SCALE: 30 300
#include "common.hpp"
#include <iostream>
#include <functional>
#include <memory>
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/quat.h"
#include "delfem2/svd3.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/mat2.h"
#include "delfem2/mat4.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string;
using M9 = array<double, 9>; using M16 = array<double, 16>; using Q4 = array<double, 4>;

namespace {
M9 mm(const M9 &A, const M9 &B) { M9 C{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) C[i * 3 + j] += A[i * 3 + k] * B[k * 3 + j]; return C; }
M9 tr(const M9 &A) { return {A[0], A[3], A[6], A[1], A[4], A[7], A[2], A[5], A[8]}; }
double det(const M9 &A) { return A[0] * (A[4] * A[8] - A[5] * A[7]) - A[1] * (A[3] * A[8] - A[5] * A[6]) + A[2] * (A[3] * A[7] - A[4] * A[6]); }
const M9 I9{1, 0, 0, 0, 1, 0, 0, 0, 1};
template<class A> double maxdif(const A &a, const A &b) { double m = 0; for (size_t i = 0; i < a.size(); ++i) { double e = std::fabs(a[i] - b[i]); if (!(e <= m)) m = e; } return m; }
template<class A> double maxabs(const A &a) { double m = 0; for (double v: a) m = std::max(m, std::fabs(v)); return m; }
// rotation about a unit axis, Rodrigues' formula
M9 rodr(D3 n, double t) {
  double s = std::sin(t), c1 = 2 * std::sin(t / 2) * std::sin(t / 2); M9 K{0, -n[2], n[1], n[2], 0, -n[0], -n[1], n[0], 0}, K2 = mm(K, K), R;
  for (int i = 0; i < 9; ++i) R[i] = I9[i] + s * K[i] + c1 * K2[i];
  return R;
}
D3 axis(vp::Case &c) {
  if (c.chance(1, 4)) { D3 a{0, 0, 0}; a[c.below(3)] = c.flip() ? 1 : -1; return a; }
  for (;;) { D3 a = rnd3(c, 1); if (c.chance(1, 4)) a[c.below(3)] = 0; if (c.chance(1, 6)) a = {1, c.flip() ? 1. : -1., c.flip() ? 1. : 0.}; if (norm(a) > 0.1) return unit(a); }
}
// angle in [0, pi], often tiny, or very close to a half turn
double angle(vp::Case &c) {
  switch (c.below(6)) {
    case 0: return c.logreal(1e-12, 1e-2);
    case 1: return M_PI - c.logreal(1e-12, 1e-2);
    case 2: return c.pick(vector<double>{0, M_PI / 2, M_PI, M_PI / 3, 2 * M_PI / 3});
    default: return c.real(0, M_PI);
  }
}
Q4 qref(D3 n, double t) { double s = std::sin(t / 2); return {s * n[0], s * n[1], s * n[2], std::cos(t / 2)}; }
Q4 qunit(vp::Case &c) { Q4 q = qref(axis(c), angle(c)); if (c.flip()) for (double &v: q) v = -v; return q; }
M9 mat3(vp::Case &c) { M9 m; int k = (int) c.below(3); for (double &v: m) v = k == 0 ? c.sym(2) : k == 1 ? (double) (int) c.range(-3, 3) : c.gauss(); return m; }
template<class M> M9 a9(const M &m) { M9 r; for (int i = 0; i < 9; ++i) r[i] = m.p_[i]; return r; }
double qdist(const Q4 &a, const Q4 &b) { Q4 n; for (int i = 0; i < 4; ++i) n[i] = -b[i]; return std::min(maxdif(a, b), maxdif(a, n)); }
}

VP_PROP(quaternion, 6000, 60000, "quaternion algebra, conversion to and from matrices, slerp; non-trivial: angle within 1e-2 of 0 or pi, or slerp between close quaternions") {
  D3 n = axis(c); double t = angle(c); Q4 q = qref(n, t), p = qunit(c); M9 Rq = rodr(n, t);
  if (t < 1e-2 || t > M_PI - 1e-2) c.nontrivial();
  if (c.flip()) for (double &v: q) v = -v;
  c.note("axis %.17g %.17g %.17g angle %.17g", n[0], n[1], n[2], t);
  D3 v = rnd3(c, 3), want = mul(Rq, v), got;
  d::QuatVec(got.data(), q.data(), v.data()); VP_NEAR(dist(got, want), 0, 1e-14 * 10);
  got = d::QuatVec3(q.data(), v); VP_NEAR(dist(got, want), 0, 1e-13);
  d::QuatConjVec(got.data(), q.data(), v.data()); VP_NEAR(dist(got, mul(tr(Rq), v)), 0, 1e-13);
  M9 R; d::Mat3_Quat(R.data(), q.data()); VP_NEAR(maxdif(R, Rq), 0, 1e-13);
  VP_NEAR(maxdif(a9(d::CMat3d::Quat(q.data())), Rq), 0, 1e-13);
  d::CMat3d ms; ms.SetRotMatrix_Quaternion(q.data()); VP_NEAR(maxdif(a9(ms), Rq), 0, 1e-13);
  M16 A, B, C; d::Mat4_AffineQuaternion(A.data(), q.data()); d::Mat4_AffineQuaternionConjugate(B.data(), q.data());
  auto A4 = d::CMat4d::Quat(q.data()); for (int i = 0; i < 16; ++i) C[i] = A4.mat[i];
  M16 E{Rq[0], Rq[1], Rq[2], 0, Rq[3], Rq[4], Rq[5], 0, Rq[6], Rq[7], Rq[8], 0, 0, 0, 0, 1}, Et{Rq[0], Rq[3], Rq[6], 0, Rq[1], Rq[4], Rq[7], 0, Rq[2], Rq[5], Rq[8], 0, 0, 0, 0, 1};
  VP_NEAR(maxdif(A, E), 0, 1e-13); VP_NEAR(maxdif(B, Et), 0, 1e-13); VP_NEAR(maxdif(C, E), 0, 1e-13);
  double sc = c.real(0.1, 3); D3 tv = rnd3(c, 2); d::Mat4_ScaleRotTrans(A.data(), sc, q.data(), tv.data());
  for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) VP_NEAR(A[i * 4 + j], sc * Rq[i * 3 + j], 1e-12); VP_NEAR(A[i * 4 + 3], tv[i], 0); VP_NEAR(A[12 + i], 0, 0); }
  // product is composition
  Q4 r; d::QuatQuat(r.data(), q.data(), p.data()); M9 Rp, Rr; d::Mat3_Quat(Rp.data(), p.data()); d::Mat3_Quat(Rr.data(), r.data());
  VP_NEAR(maxdif(Rr, mm(Rq, Rp)), 0, 1e-13);
  VP_NEAR(maxdif(d::Mult_QuatQuat(q.data(), p.data()), r), 0, 0);
  d::CQuatd cq(q.data()), cp(p.data()), cr = cq * cp; VP_NEAR(maxdif(Q4{cr.x, cr.y, cr.z, cr.w}, r), 0, 1e-15);
  VP_NEAR(cq.norm(), 1, 1e-14); VP_NEAR(d::Dot_Quat(q.data(), p.data()), q[0] * p[0] + q[1] * p[1] + q[2] * p[2] + q[3] * p[3], 1e-15);
  d::CQuatd id = cq * cq.conjugate(); VP_NEAR(maxdif(Q4{id.x, id.y, id.z, id.w}, Q4{0, 0, 0, 1}), 0, 1e-14);
  // scaled quaternions: inverse and normalisation
  double k = c.logreal(1e-3, 1e3); Q4 qs = q, qi; for (double &x: qs) x *= k;
  VP_NEAR(d::Length_Quat(qs.data()), k, 1e-13 * k);
  d::Inverse_Quat(qi.data(), qs.data()); d::QuatQuat(r.data(), qs.data(), qi.data()); VP_NEAR(maxdif(r, Q4{0, 0, 0, 1}), 0, 1e-12);
  d::QuatQuat(r.data(), qi.data(), qs.data()); VP_NEAR(maxdif(r, Q4{0, 0, 0, 1}), 0, 1e-12);
  d::CQuatd cs(qs.data()); cs.normalize(); VP_NEAR(maxdif(Q4{cs.x, cs.y, cs.z, cs.w}, q), 0, 1e-14);
  d::Normalize_Quat(qs.data()); VP_NEAR(maxdif(qs, q), 0, 1e-14);
  cs.SetSmallerRotation(); VP_CHECK(cs.w >= 0, "SetSmallerRotation left w=%g", cs.w); VP_NEAR(qdist(Q4{cs.x, cs.y, cs.z, cs.w}, q), 0, 1e-14);
  auto rv = cq.RotateVector(v); VP_NEAR(dist(D3{rv[0], rv[1], rv[2]}, want), 0, 1e-13);
  d::CQuatd s1 = cq + cp, s2 = cq - cp, s3 = cq * k;
  for (int i = 0; i < 4; ++i) { VP_NEAR(s1.p[i], q[i] + p[i], 0); VP_NEAR(s2.p[i], q[i] - p[i], 0); VP_NEAR(s3.p[i], q[i] * k, 1e-15 * k); }
  // matrix -> quaternion
  Q4 qb; d::Quat_Mat3(qb.data(), Rq.data()); VP_NEAR(qdist(qb, q), 0, 1e-7 * 1e-6 + 1e-12);
  auto gq = d::CMat3d(Rq.data()).GetQuaternion(); VP_NEAR(maxdif(gq, qb), 0, 0);
  // slerp
  D3 n2 = axis(c); double t2 = c.chance(1, 3) ? c.logreal(1e-17, 1e-5) : angle(c); Q4 dq = qref(n2, t2), q1; d::QuatQuat(q1.data(), q.data(), dq.data());
  if (c.chance(1, 8)) { q1 = q; t2 = 0; }
  if (t2 < 1e-5) { c.nontrivial(); c.label("slerp between close quaternions"); }
  double s = c.pick(vector<double>{0, 1, 0.5, c.real(0, 1), c.real(0, 1)});
  d::CQuatd sl = d::SphericalLinearInterp(d::CQuatd(q.data()), d::CQuatd(q1.data()), s);
  Q4 dqs = qref(n2, t2 * s), ws; d::QuatQuat(ws.data(), q.data(), dqs.data());
  c.note("slerp angle %.17g s %.17g", t2, s);
  VP_NEAR(maxdif(Q4{sl.x, sl.y, sl.z, sl.w}, ws), 0, 1e-12);
}

VP_PROP(rotation_vectors, 6000, 60000, "axis-angle, Rodrigues and conformal vectors, Bryant and Euler angles, minimum rotation; non-trivial: angle within 1e-2 of 0 or pi") {
  D3 n = axis(c); double t = angle(c); M9 R0 = rodr(n, t), R; D3 a = t * n; double mat[9];
  if (t < 1e-2 || t > M_PI - 1e-2) c.nontrivial();
  c.note("axis %.17g %.17g %.17g angle %.17g", n[0], n[1], n[2], t);
  d::Mat3_RotMatFromAxisAngleVec(mat, a.data()); for (int i = 0; i < 9; ++i) R[i] = mat[i];
  VP_NEAR(maxdif(R, R0), 0, 1e-13);
  VP_NEAR(maxdif(d::Mat3_RotMatFromAxisAngleVec(a), R0), 0, 1e-13);
  double far = c.real(-8, 8); D3 b = far * n; VP_NEAR(maxdif(d::Mat3_RotMatFromAxisAngleVec(b), rodr(n, far)), 0, 1e-12);
  M16 A; d::Mat4_AffineRotationCartesian(A.data(), b.data()); { M9 e = rodr(n, far); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) VP_NEAR(A[i * 4 + j], e[i * 3 + j], 1e-12); VP_NEAR(A[i * 4 + 3], 0, 0); VP_NEAR(A[12 + i], 0, 0); } VP_NEAR(A[15], 1, 0); }
  Q4 q; d::Quat_CartesianAngle(q.data(), b.data()); VP_NEAR(maxdif(q, qref(n, far)), 0, 1e-12);
  d::Quat_CartesianAngle(q.data(), a.data()); VP_NEAR(maxdif(q, qref(n, t)), 0, 1e-14);
  // and back
  D3 v; d::AxisAngleVectorCartesian_Mat3(v.data(), R0.data());
  VP_CHECK(norm(v) <= M_PI + 1e-12, "axis-angle vector of length %.17g", norm(v));
  { double e = std::min(dist(v, a), t > M_PI - 1e-6 ? dist(v, -1.0 * a) + 0 : 1e9); VP_NEAR(e, 0, t > M_PI - 1e-6 ? 3e-6 : 1e-12); }
  auto v2 = d::Vec3_AxisAngleVecFromMat3<d::CMat3d, double>(d::CMat3d(R0.data())); VP_NEAR(maxdif(d::Mat3_RotMatFromAxisAngleVec(D3{v2[0], v2[1], v2[2]}), R0), 0, 1e-12);
  VP_NEAR(maxdif(d::Mat3_RotMatFromAxisAngleVec(v), R0), 0, 1e-12);
  auto sv = d::Vec3_SpinVectorFromMat3<d::CMat3d, double>(d::CMat3d(R0.data())); VP_NEAR(dist(D3{sv[0], sv[1], sv[2]}, std::sin(t) * n), 0, 1e-13);
  // Rodrigues (2 tan(t/2) n) and conformal (4 tan(t/4) n) vectors
  if (t < 3) {
    D3 rv = (2 * std::tan(t / 2)) * n; VP_NEAR(maxdif(d::Mat3_RotMatFromRodriguesVector(rv), R0), 0, 1e-12);
    M16 B = d::Mat4_AffineRotationRodriguez(rv[0], rv[1], rv[2]);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) VP_NEAR(B[i * 4 + j], R0[i * 3 + j], 1e-12);
    M16 X; for (double &x: X) x = c.sym(2); M16 Y = X, Z; d::Rotate_Mat4AffineRodriguez(Y.data(), rv.data()); d::MatMat4(Z.data(), B.data(), X.data()); VP_NEAR(maxdif(Y, Z), 0, 1e-14);
  }
  D3 cv = (4 * std::tan(t / 4)) * n; VP_NEAR(maxdif(d::Mat3_RotMatFromConformalRotationVector(cv), R0), 0, 1e-12);
  D3 cb; d::AxisAngleVectorCRV_Mat3(cb.data(), R0.data()); VP_NEAR(maxdif(d::Mat3_RotMatFromConformalRotationVector(cb), R0), 0, 1e-12);
  // Bryant and Euler angles
  double ex = c.sym(4), ey = c.sym(4), ez = c.sym(4); M9 X = rodr({1, 0, 0}, ex), Y = rodr({0, 1, 0}, ey), Z = rodr({0, 0, 1}, ez);
  Q4 qb; d::Quat_Bryant(qb.data(), ex, ey, ez); d::Mat3_Quat(R.data(), qb.data()); VP_NEAR(maxdif(R, mm(Z, mm(Y, X))), 0, 1e-13);
  d::CMat3d mb; mb.SetRotMatrix_BryantAngle(ex, ey, ez); VP_NEAR(maxdif(a9(mb), mm(Z, mm(Y, X))), 0, 1e-13);
  array<int, 3> ord{(int) c.below(3), (int) c.below(3), (int) c.below(3)}; array<double, 3> ea{ex, ey, ez};
  d::Quaternion_EulerAngle(qb.data(), ea, ord); d::Mat3_Quat(R.data(), qb.data());
  auto ax = [](int i) { D3 e{0, 0, 0}; e[i] = 1; return e; };
  VP_NEAR(maxdif(R, mm(rodr(ax(ord[0]), ex), mm(rodr(ax(ord[1]), ey), rodr(ax(ord[2]), ez)))), 0, 1e-13);
  ord = c.flip() ? array<int, 3>{2, 1, 0} : array<int, 3>{2, 0, 1};
  D3 eb; double mid = std::asin(std::max(-1.0, std::min(1.0, ord[1] == 1 ? -R0[6] : R0[7])));
  if (std::fabs(std::cos(mid)) > 1e-3) {
    d::EulerAngle_Mat3(eb.data(), R0.data(), ord);
    M9 W = mm(rodr(ax(ord[0]), eb[0]), mm(rodr(ax(ord[1]), eb[1]), rodr(ax(ord[2]), eb[2])));
    VP_NEAR(maxdif(W, R0), 0, 1e-9);
  }
  // minimum rotation between two vectors
  D3 p = c.logreal(1e-2, 1e2) * axis(c), side = cross(unit(p), axis(c)); if (norm(side) < 1e-3) side = cross(unit(p), D3{0.6, 0.48, 0.64}); if (norm(side) < 1e-3) side = cross(unit(p), D3{1, 0, 0});
  side = unit(side); double th = angle(c); D3 w = c.logreal(1e-2, 1e2) * (std::cos(th) * unit(p) + std::sin(th) * side);
  M9 Mr = d::Mat3_MinimumRotation(d::CVec3d(p.data()), d::CVec3d(w.data()));
  c.note("minimum rotation by %.17g from %.17g %.17g %.17g about", th, p[0], p[1], p[2]);
  VP_NEAR(maxdif(mm(Mr, tr(Mr)), I9), 0, 1e-7 * 1e-3); VP_NEAR(det(Mr), 1, 1e-10);
  VP_NEAR(dist(mul(Mr, unit(p)), unit(w)), 0, 1e-10);
  VP_NEAR((Mr[0] + Mr[4] + Mr[8] - 1) / 2, std::cos(th), 6e-9); // half turns are used for vectors within 1e-4 of opposite
}

VP_PROP(small_matrices, 5000, 40000, "products, inverses and special matrices of size 2, 3 and 4 against plain loops; non-trivial: the matrix to invert needs pivoting") {
  M9 A = mat3(c), B = mat3(c), C; D3 x = rnd3(c, 2), y;
  d::MatMat3(C.data(), A.data(), B.data()); VP_NEAR(maxdif(C, mm(A, B)), 0, 1e-13);
  d::MatMatT3(C.data(), A.data(), B.data()); VP_NEAR(maxdif(C, mm(A, tr(B))), 0, 1e-13);
  d::MatTMat3(C.data(), A.data(), B.data()); VP_NEAR(maxdif(C, mm(tr(A), B)), 0, 1e-13);
  double al = c.sym(2), be = c.sym(2); C = B; d::MatTMat3_ScaleAdd(C.data(), A.data(), B.data(), al, be);
  { M9 e = mm(tr(A), B); for (int i = 0; i < 9; ++i) VP_NEAR(C[i], al * e[i] + be * B[i], 1e-12); }
  d::Transpose_Mat3(C.data(), A.data()); VP_NEAR(maxdif(C, tr(A)), 0, 0);
  VP_NEAR(d::Det_Mat3(A.data()), det(A), 1e-12); VP_NEAR(d::CMat3d(A.data()).determinant(), det(A), 1e-12);
  d::MatVec3(y.data(), A.data(), x.data()); VP_NEAR(dist(y, mul(A, x)), 0, 1e-13);
  y = d::Mat3Vec3(A.data(), x); VP_NEAR(dist(y, mul(A, x)), 0, 1e-13);
  d::MatTVec3(y.data(), A.data(), x.data()); VP_NEAR(dist(y, mul(tr(A), x)), 0, 1e-13);
  d::VecMat3(y.data(), x.data(), A.data()); VP_NEAR(dist(y, mul(tr(A), x)), 0, 1e-13);
  D3 y0 = rnd3(c, 1); y = y0; d::MatVec3_ScaleAdd(y.data(), A.data(), x.data(), al, be); VP_NEAR(dist(y, al * mul(A, x) + be * y0), 0, 1e-12);
  y = y0; d::MatTVec3_ScaleAdd(y.data(), A.data(), x.data(), al, be); VP_NEAR(dist(y, al * mul(tr(A), x) + be * y0), 0, 1e-12);
  d::CVec3d cx(x.data()); d::CVec3d r1 = d::CMat3d(A.data()) * cx, r2 = cx * d::CMat3d(A.data());
  VP_NEAR(dist(D3{r1.x, r1.y, r1.z}, mul(A, x)), 0, 1e-13); VP_NEAR(dist(D3{r2.x, r2.y, r2.z}, mul(tr(A), x)), 0, 1e-13);
  VP_NEAR(maxdif(a9(d::CMat3d(A.data()) * d::CMat3d(B.data())), mm(A, B)), 0, 1e-13);
  M9 S; for (int i = 0; i < 9; ++i) S[i] = A[i] + B[i]; VP_NEAR(maxdif(a9(d::CMat3d(A.data()) + d::CMat3d(B.data())), S), 0, 0);
  for (int i = 0; i < 9; ++i) S[i] = A[i] - B[i]; VP_NEAR(maxdif(a9(d::CMat3d(A.data()) - d::CMat3d(B.data())), S), 0, 0);
  VP_NEAR(maxdif(a9(d::CMat3d(A.data()).transpose()), tr(A)), 0, 0); for (int i = 0; i < 9; ++i) S[i] = (A[i] + tr(A)[i]) / 2; VP_NEAR(maxdif(a9(d::CMat3d(A.data()).Sym()), S), 0, 1e-15);
  if (std::fabs(det(A)) > 1e-2) {
    double k = c.logreal(1e-3, 1e3); M9 Ak = A, Ai; for (double &v: Ak) v *= k; d::Inverse_Mat3(Ai.data(), Ak.data()); VP_NEAR(maxdif(mm(Ak, Ai), I9), 0, 1e-10);
    C = Ak; d::Inverse_Mat3(C.data()); VP_NEAR(maxdif(mm(C, Ak), I9), 0, 1e-10);
    VP_NEAR(maxdif(mm(Ak, a9(d::CMat3d(Ak.data()).Inverse())), I9), 0, 1e-10);
    d::CMat3d mi(Ak.data()); mi.SetInverse(); VP_NEAR(maxdif(mm(Ak, a9(mi)), I9), 0, 1e-10);
  }
  // special matrices
  M9 K{0, -x[2], x[1], x[2], 0, -x[0], -x[1], x[0], 0}, xx; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) xx[i * 3 + j] = x[i] * x[j];
  d::Mat3_Spin(C.data(), x.data()); VP_NEAR(maxdif(C, K), 0, 0); VP_NEAR(maxdif(d::Mat3_Spin(cx), K), 0, 0); VP_NEAR(maxdif(a9(d::CMat3d::Skew(cx)), K), 0, 0);
  C = A; d::Mat3_Spin_ScaleAdd(C.data(), x.data(), al, be); for (int i = 0; i < 9; ++i) VP_NEAR(C[i], al * K[i] + be * A[i], 1e-13);
  C = A; d::Mat3_Identity_ScaleAdd(C.data(), al, be); for (int i = 0; i < 9; ++i) VP_NEAR(C[i], al * I9[i] + be * A[i], 1e-13);
  VP_NEAR(maxdif(d::Mat3_CrossCross(cx), mm(K, K)), 0, 1e-13); M9 mk = mm(K, K); for (double &v: mk) v = -v; VP_NEAR(maxdif(d::Mat3_IrotPoint<d::CVec3d, double>(cx), mk), 0, 1e-13);
  VP_NEAR(maxdif(d::Mat3_OuterProduct(cx, cx), xx), 0, 1e-15);
  if (norm(x) > 1e-3) {
    D3 u = unit(x); M9 P, H; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { P[i * 3 + j] = (i == j) - u[i] * u[j]; H[i * 3 + j] = (i == j) - 2 * u[i] * u[j]; }
    VP_NEAR(maxdif(d::Mat3_NormalProjection(cx), P), 0, 1e-13); VP_NEAR(maxdif(d::Mat3_Mirror(cx), H), 0, 1e-13);
  }
  double sm[6]; for (double &v: sm) v = c.sym(2); d::CMat3d sy; sy.SetSymetric(sm); VP_NEAR(maxdif(a9(sy), M9{sm[0], sm[5], sm[4], sm[5], sm[1], sm[3], sm[4], sm[3], sm[2]}), 0, 0);
  // homogeneous 2D
  D2 p2{c.sym(2), c.sym(2)}, o2; double w = A[6] * p2[0] + A[7] * p2[1] + A[8];
  if (std::fabs(w) > 0.1) { d::Vec2_Mat3Vec2_Homography(o2.data(), A.data(), p2.data()); D2 e{(A[0] * p2[0] + A[1] * p2[1] + A[2]) / w, (A[3] * p2[0] + A[4] * p2[1] + A[5]) / w}; VP_NEAR(dist(o2, e), 0, 1e-12); auto o3 = d::Vec2_Mat3Vec2_Homography(A.data(), p2.data()); VP_NEAR(dist(D2{o3[0], o3[1]}, e), 0, 1e-12); }
  d::Vec2_Mat3Vec2_AffineDirection(o2.data(), A.data(), p2.data()); VP_NEAR(dist(o2, D2{A[0] * p2[0] + A[1] * p2[1], A[3] * p2[0] + A[4] * p2[1]}), 0, 1e-13);
  // 4x4
  M16 F, G, H; for (int k = 0; k < 16; ++k) { F[k] = c.chance(1, 3) ? 0 : c.sym(2); G[k] = c.sym(2); }
  auto mul4 = [](const M16 &P, const M16 &Q) { M16 R{}; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) R[i * 4 + j] += P[i * 4 + k] * Q[k * 4 + j]; return R; };
  d::MatMat4(H.data(), F.data(), G.data()); VP_NEAR(maxdif(H, mul4(F, G)), 0, 1e-13);
  { auto m4 = d::CMat4d(F.data()) * d::CMat4d(G.data()); for (int i = 0; i < 16; ++i) H[i] = m4.mat[i]; VP_NEAR(maxdif(H, mul4(F, G)), 0, 1e-13); }
  M16 I16{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1};
  if (c.flip()) F[0] = c.flip() ? 0 : c.logreal(1e-25, 1e-12); // needs pivoting
  if (std::fabs(F[0]) < 1e-10) c.nontrivial();
  vector<double> e4(16), sol; bool ok = true; double big = 0;
  for (int j = 0; j < 4; ++j) { vector<double> rhs(4, 0.); rhs[j] = 1; ok = ok && solve(vector<double>(F.begin(), F.end()), rhs, sol); if (ok) for (double v: sol) big = std::max(big, std::fabs(v)); }
  if (ok && big < 100) {
    double k = c.logreal(1e-4, 1e4); M16 Fk = F; for (double &v: Fk) v *= k;
    M16 J; d::Inverse_Mat4(J.data(), Fk.data()); VP_NEAR(maxdif(mul4(Fk, J), I16), 0, 1e-9); VP_NEAR(maxdif(d::Inverse_Mat4(Fk.data()), J), 0, 0);
    auto m4 = d::CMat4d(Fk.data()).Inverse(); for (int i = 0; i < 16; ++i) H[i] = m4.mat[i]; VP_NEAR(maxdif(mul4(H, Fk), I16), 0, 1e-9);
  }
  D3 v3 = rnd3(c, 2), o3; Q4 v4{v3[0], v3[1], v3[2], 1}, o4, e;
  for (int i = 0; i < 4; ++i) { e[i] = 0; for (int j = 0; j < 4; ++j) e[i] += G[i * 4 + j] * v4[j]; }
  d::MatVec4(o4.data(), G.data(), v4.data()); VP_NEAR(maxdif(o4, e), 0, 1e-13);
  d::Vec3_Mat4Vec3_Affine(o3.data(), G.data(), v3.data()); VP_NEAR(dist(o3, D3{e[0], e[1], e[2]}), 0, 1e-13);
  if (std::fabs(e[3]) > 0.05) { auto h = d::Vec3_Mat4Vec3_Homography(G.data(), v3.data()); VP_NEAR(dist(D3{h[0], h[1], h[2]}, (1 / e[3]) * D3{e[0], e[1], e[2]}), 0, 1e-11); auto h2 = d::CMat4d(G.data()).MultVec3_Homography(v3.data()); VP_NEAR(maxdif(h, h2), 0, 0); }
  M16 Gt; d::Transpose_Mat4(Gt.data(), G.data()); d::VecMat4(o4.data(), v4.data(), Gt.data()); VP_NEAR(maxdif(o4, e), 0, 1e-13);
  if (std::fabs(e[3]) > 0.05) { d::Vec3_Vec3Mat4_Homography(o3.data(), v3.data(), Gt.data()); VP_NEAR(dist(o3, (1 / e[3]) * D3{e[0], e[1], e[2]}), 0, 1e-11); }
  d::Mat4Vec3(o3.data(), G.data(), v3.data()); VP_NEAR(dist(o3, D3{e[0] - G[3], e[1] - G[7], e[2] - G[11]}), 0, 1e-13);
  d::Vec3Mat4(o3.data(), v3.data(), Gt.data()); VP_NEAR(dist(o3, D3{e[0] - G[3], e[1] - G[7], e[2] - G[11]}), 0, 1e-13);
  H = G; d::Translate_Mat4Affine(H.data(), x.data()); for (int i = 0; i < 16; ++i) VP_NEAR(H[i], G[i] + (i == 3 ? x[0] : i == 7 ? x[1] : i == 11 ? x[2] : 0), 0);
  d::Mat4_AffineTranslation(H.data(), x[0], x[1], x[2]); d::Vec3_Mat4Vec3_Affine(o3.data(), H.data(), v3.data()); VP_NEAR(dist(o3, v3 + x), 0, 1e-15);
  d::Mat4_AffineScale(H.data(), al); d::Vec3_Mat4Vec3_Affine(o3.data(), H.data(), v3.data()); VP_NEAR(dist(o3, al * v3), 0, 1e-15);
  // 2x2
  array<double, 4> a{c.sym(2), c.sym(2), c.sym(2), c.sym(2)}, b{c.sym(2), c.sym(2), c.sym(2), c.sym(2)}, r; double w2[2];
  d::MatMat2(r.data(), a.data(), b.data()); VP_NEAR(maxdif(r, array<double, 4>{a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3]}), 0, 1e-14);
  d::MatVec2(w2, a.data(), p2.data()); VP_NEAR(w2[0], a[0] * p2[0] + a[1] * p2[1], 1e-14); VP_NEAR(w2[1], a[2] * p2[0] + a[3] * p2[1], 1e-14);
  if (std::fabs(a[0] * a[3] - a[1] * a[2]) > 1e-3) { array<double, 4> ai; bool k = d::InverseMat2(ai.data(), a.data()); VP_CHECK(k, "InverseMat2 refused an invertible matrix"); d::MatMat2(r.data(), a.data(), ai.data()); VP_NEAR(maxdif(r, array<double, 4>{1, 0, 0, 1}), 0, 1e-11); }
  d::gramian2(r.data(), a.data()); VP_NEAR(maxdif(r, array<double, 4>{a[0] * a[0] + a[2] * a[2], a[0] * a[1] + a[2] * a[3], a[0] * a[1] + a[2] * a[3], a[1] * a[1] + a[3] * a[3]}), 0, 1e-14);
}

VP_PROP(decompositions, 6000, 60000, "polar decomposition, singular values, eigenvalues of 2x2 and 3x3 matrices; non-trivial: singular, repeated singular values, reflection or not of unit size") {
  // 2x2
  {
    int k = (int) c.below(5); double sc = c.chance(1, 2) ? 1 : c.logreal(1e-9, 1e6); d::CMat2d m, R, S, U, G(7, 7, 7, 7), V;
    double a = c.sym(4), b = c.sym(4), s0 = c.real(0, 2), s1 = k == 0 ? s0 : k == 1 ? -s0 : k == 2 ? 0 : c.sym(2);
    if (k == 3) { for (double &x: m.p) x = (double) (int) c.range(-2, 2); } else { double ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b); m = d::CMat2d(ca * s0 * cb + sa * s1 * sb, ca * s0 * sb - sa * s1 * cb, sa * s0 * cb - ca * s1 * sb, sa * s0 * sb + ca * s1 * cb); }
    if (c.chance(1, 3)) { m = d::CMat2d(s0, 0, 0, s1); } if (c.chance(1, 8)) m = d::CMat2d(s0, s1, s1, -s0);
    m *= sc; double nm = maxabs(array<double, 4>{m.p[0], m.p[1], m.p[2], m.p[3]}); if (k < 3 || sc != 1) c.nontrivial();
    c.note("2x2 %.17g %.17g %.17g %.17g", m.p[0], m.p[1], m.p[2], m.p[3]);
    auto A4 = [](const d::CMat2d &x) { return array<double, 4>{x.p[0], x.p[1], x.p[2], x.p[3]}; };
    d::polar_decomposition(R, S, m); VP_NEAR(maxdif(A4(R * R.transpose()), array<double, 4>{1, 0, 0, 1}), 0, 1e-13); VP_NEAR(R.determinant(), 1, 1e-13);
    VP_NEAR(maxdif(A4(R * S), A4(m)), 0, 1e-13 * nm); VP_NEAR(S.p[1] - S.p[2], 0, 1e-13 * nm);
    VP_CHECK(S.p[0] + S.p[3] >= -1e-13 * nm, "polar: trace(S)=%g", S.p[0] + S.p[3]);
    d::svd(U, G, V, m);
    VP_NEAR(maxdif(A4(U * U.transpose()), array<double, 4>{1, 0, 0, 1}), 0, 1e-13); VP_NEAR(maxdif(A4(V * V.transpose()), array<double, 4>{1, 0, 0, 1}), 0, 1e-13);
    VP_NEAR(G.p[1], 0, 0); VP_NEAR(G.p[2], 0, 0); VP_CHECK(G.p[0] >= G.p[3], "svd2: not sorted %g %g", G.p[0], G.p[3]);
    VP_NEAR(maxdif(A4(U * G * V.transpose()), A4(m)), 0, 1e-12 * nm);
    array<double, 4> r; d::RotationalComponentOfMatrix2(r.data(), m.p);
    if (nm > 1e-9) { VP_NEAR(r[0] * r[3] - r[1] * r[2], 1, 1e-12); VP_NEAR(r[0] - r[3], 0, 1e-13); VP_NEAR(r[1] + r[2], 0, 1e-13); }
    // no other rotation is closer
    auto dist2 = [&](double cc, double ss) { return (m.p[0] - cc) * (m.p[0] - cc) + (m.p[1] + ss) * (m.p[1] + ss) + (m.p[2] - ss) * (m.p[2] - ss) + (m.p[3] - cc) * (m.p[3] - cc); };
    double th = c.sym(4); VP_CHECK(dist2(R.p[0], R.p[2]) <= dist2(cos(th), sin(th)) + 1e-12 * (1 + nm * nm), "polar: rotation by %g is closer", th);
    if (nm > 1e-9) VP_CHECK(dist2(r[0], r[2]) <= dist2(cos(th), sin(th)) + 1e-12 * (1 + nm * nm), "RotationalComponentOfMatrix2: rotation by %g is closer", th);
    array<double, 4> w; double l0 = c.sym(2), l1 = c.sym(2), ca = cos(a), sa = sin(a), vv[4] = {ca, -sa, sa, ca}; d::VLVt2(w.data(), l0, l1, vv);
    VP_NEAR(maxdif(w, array<double, 4>{l0 * ca * ca + l1 * sa * sa, (l0 - l1) * ca * sa, (l0 - l1) * ca * sa, l0 * sa * sa + l1 * ca * ca}), 0, 1e-13);
  }
  // 3x3
  M9 Ru = rotation(c), Rv = rotation(c); double sc = c.chance(1, 2) ? 1 : c.logreal(1e-9, 1e6), g[3];
  int kind = (int) c.below(9); for (double &v: g) v = c.real(0.1, 2);
  if (kind == 0) g[1] = g[0]; if (kind == 1) g[1] = g[2] = g[0]; if (kind == 2) g[2] = 0; if (kind == 3) g[1] = g[2] = 0; if (kind == 4) g[0] *= -1; if (kind == 5) { g[1] = c.logreal(1e-9, 1e-3); g[2] = c.logreal(1e-9, 1e-3); }
  if (kind < 6 || sc != 1) c.nontrivial();
  if (c.chance(1, 4)) Ru = I9; if (c.chance(1, 4)) Rv = I9; M9 m, D{g[0], 0, 0, 0, g[1], 0, 0, 0, g[2]}; m = mm(Ru, mm(D, tr(Rv)));
  if (kind == 6) { D3 u{1, c.flip() ? 1. : -1., c.flip() ? 1. : -1.}, v = rnd3(c, 1); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i * 3 + j] = u[i] * v[j]; c.label("rank one"); }
  if (kind == 7) for (double &v: m) v = (double) (int) c.range(-2, 2);
  for (double &v: m) v *= sc;
  double nm = maxabs(m); c.label("3x3 kind %d", kind);
  c.note("3x3 %s", vp::str(vector<double>(m.begin(), m.end())).c_str());
  M9 U, V; D3 G; d::Svd3(U.data(), G.data(), V.data(), m.data(), 40);
  VP_NEAR(maxdif(mm(U, tr(U)), I9), 0, 1e-11); VP_NEAR(maxdif(mm(V, tr(V)), I9), 0, 1e-12); VP_NEAR(det(U), 1, 1e-10); VP_NEAR(det(V), 1, 1e-12);
  M9 GG{G[0], 0, 0, 0, G[1], 0, 0, 0, G[2]}; VP_NEAR(maxdif(mm(U, mm(GG, tr(V))), m), 0, 2e-8 * nm);
  VP_CHECK(G[0] >= G[1] - 1e-7 * nm && G[1] >= std::fabs(G[2]) - 1e-7 * nm, "singular values %g %g %g", G[0], G[1], G[2]);
  if (kind < 6) { double h[3] = {std::fabs(g[0]) * sc, g[1] * sc, g[2] * sc}; std::sort(h, h + 3); VP_NEAR(G[0], h[2], 1e-8 * nm); VP_NEAR(G[1], h[1], 1e-7 * nm); VP_NEAR(std::fabs(G[2]), h[0], 1e-7 * nm); }
  auto tup = d::Svd3<d::CMat3d>(d::CMat3d(m.data()), 40); VP_NEAR(maxdif(a9(std::get<0>(tup)), U), 0, 0); VP_NEAR(maxdif(a9(std::get<1>(tup)), GG), 0, 0); VP_NEAR(maxdif(a9(std::get<2>(tup)), V), 0, 0);
  M9 R; d::GetRotPolarDecomp(R.data(), m.data(), 40); VP_NEAR(maxdif(mm(R, tr(R)), I9), 0, 1e-11); VP_NEAR(det(R), 1, 1e-10);
  { M9 Q = rodr(axis(c), c.sym(3)); double t0 = 0, t1 = 0; for (int i = 0; i < 9; ++i) { t0 += R[i] * m[i]; t1 += Q[i] * m[i]; } VP_CHECK(t0 >= t1 - 1e-7 * nm, "another rotation is closer to the matrix: %g < %g", t0, t1); }
  // symmetric eigenvalues
  double sm[6]; M9 W; { M9 Dg{c.sym(2), 0, 0, 0, c.sym(2), 0, 0, 0, c.sym(2)}; if (c.chance(1, 4)) Dg[4] = Dg[0]; if (c.chance(1, 8)) Dg[8] = Dg[0]; W = mm(Rv, mm(Dg, tr(Rv))); for (double &v: W) v *= sc; }
  sm[0] = W[0]; sm[1] = W[4]; sm[2] = W[8]; sm[3] = W[5]; sm[4] = W[2]; sm[5] = W[1]; double l[3]; bool ok = d::EigenSym3(V.data(), l, sm, 40); double nw = maxabs(W);
  if (nw > 0) { VP_CHECK(ok, "EigenSym3 refused a matrix of size %g", nw); M9 L{l[0], 0, 0, 0, l[1], 0, 0, 0, l[2]}; VP_NEAR(maxdif(mm(V, tr(V)), I9), 0, 1e-12); VP_NEAR(maxdif(mm(V, mm(L, tr(V))), W), 0, 1e-12 * nw); }
  // derivative of the decomposition
  if ((kind >= 8 || kind == 4) && sc == 1) {
    d::Svd3(U.data(), G.data(), V.data(), m.data(), 40); double gap = std::min({G[0] - G[1], G[1] - std::fabs(G[2]), G[1] + G[2]}) / G[0]; 
    if (gap > 0.1) {
      double df[9][3][3]; d::CMat3d Uc(U.data()), Vc(V.data()), Sc(GG.data()); d::Svd3Differential(df, Uc, Sc, Vc); double e = 1e-6 * G[0]; c.label("derivative of the svd");
      int i = (int) c.below(3), j = (int) c.below(3); M9 mp = m, mn = m, Up, Un, Vp, Vn; D3 Gp, Gn; mp[i * 3 + j] += e; mn[i * 3 + j] -= e; d::Svd3(Up.data(), Gp.data(), Vp.data(), mp.data(), 40); d::Svd3(Un.data(), Gn.data(), Vn.data(), mn.data(), 40);
      auto align = [](M9 &X, const M9 &X0) { bool flip = false; for (int k = 0; k < 3; ++k) { double s = 0; for (int r = 0; r < 3; ++r) s += X[r * 3 + k] * X0[r * 3 + k]; if (s < 0) { flip = true; for (int r = 0; r < 3; ++r) X[r * 3 + k] *= -1; } } return flip; };
      align(Up, U); align(Un, U); align(Vp, V); align(Vn, V);
      M9 dU = mm(tr(U), Up), dU2 = mm(tr(U), Un), dV = mm(tr(V), Vp), dV2 = mm(tr(V), Vn);
      int ij[3] = {5, 6, 1};
      for (int k = 0; k < 3; ++k) {
        VP_NEAR((Gp[k] - Gn[k]) / (2 * e), df[3 + k][i][j], 1e-5);
        VP_NEAR(G[0] * (dU[ij[k]] - dU2[ij[k]]) / (2 * e), G[0] * df[k][i][j], 1e-3); VP_NEAR(G[0] * (dV[ij[k]] - dV2[ij[k]]) / (2 * e), G[0] * df[6 + k][i][j], 1e-3);
      }
    }
  }
}
