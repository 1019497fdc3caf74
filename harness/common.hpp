// Reference geometry and input generators, independent of the library under test.
#pragma once
#include "vp.hpp"
#include <map>
#include <set>
#include <complex>
#include <climits>

namespace ref {
using std::array; using std::vector;
using D3 = array<double, 3>;
using D2 = array<double, 2>;
using L3 = array<long double, 3>;
using uint = unsigned int;

inline D3 operator+(D3 a, D3 b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline D3 operator-(D3 a, D3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline D3 operator*(double s, D3 a) { return {s * a[0], s * a[1], s * a[2]}; }
inline double dot(D3 a, D3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline D3 cross(D3 a, D3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline double norm(D3 a) { return std::sqrt(dot(a, a)); }
inline D3 unit(D3 a) { return (1.0 / norm(a)) * a; }
inline double dist(D3 a, D3 b) { return norm(a - b); }
inline D2 operator+(D2 a, D2 b) { return {a[0] + b[0], a[1] + b[1]}; }
inline D2 operator-(D2 a, D2 b) { return {a[0] - b[0], a[1] - b[1]}; }
inline D2 operator*(double s, D2 a) { return {s * a[0], s * a[1]}; }
inline double dot(D2 a, D2 b) { return a[0] * b[0] + a[1] * b[1]; }
inline double cross(D2 a, D2 b) { return a[0] * b[1] - a[1] * b[0]; }
inline double norm(D2 a) { return std::hypot(a[0], a[1]); }
inline double dist(D2 a, D2 b) { return norm(a - b); }
inline D3 P3(const vector<double> &x, uint i) { return {x[i * 3], x[i * 3 + 1], x[i * 3 + 2]}; }
inline D2 P2(const vector<double> &x, uint i) { return {x[i * 2], x[i * 2 + 1]}; }

// closest point of a segment
template<class V> inline V near_seg(V p, V a, V b, double *t = nullptr) {
  V d = b - a; double dd = dot(d, d), s = dd > 0 ? dot(p - a, d) / dd : 0;
  s = s < 0 ? 0 : s > 1 ? 1 : s; if (t) *t = s; return a + s * d;
}
// closest point of a triangle to p (projection if inside, else best edge); exact for degenerate triangles as well
inline D3 near_tri(D3 p, D3 a, D3 b, D3 c) {
  D3 best = near_seg(p, a, b); double bd = dist(p, best);
  for (auto q: {near_seg(p, b, c), near_seg(p, c, a)}) if (dist(p, q) < bd) { bd = dist(p, q); best = q; }
  D3 n = cross(b - a, c - a); double nn = dot(n, n);
  if (nn > 0) {
    D3 q = p - (dot(p - a, n) / nn) * n;
    double r0 = dot(cross(b - q, c - q), n), r1 = dot(cross(c - q, a - q), n), r2 = dot(cross(a - q, b - q), n);
    if (r0 >= 0 && r1 >= 0 && r2 >= 0 && dist(p, q) < bd) best = q;
  }
  return best;
}
inline double area2(D2 a, D2 b, D2 c) { return 0.5 * cross(b - a, c - a); }
inline double tetvol(D3 a, D3 b, D3 c, D3 d) { return dot(cross(b - a, c - a), d - a) / 6; }

// dense helpers
inline vector<double> matvec(const vector<double> &A, size_t n, size_t m, const vector<double> &x) {
  vector<double> y(n, 0.0); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) y[i] += A[i * m + j] * x[j]; return y;
}
// dense solve with partial pivoting; returns false if (nearly) singular
template<class T> inline bool solve(vector<T> A, vector<T> b, vector<T> &x) {
  size_t n = b.size();
  for (size_t k = 0; k < n; ++k) {
    size_t p = k; for (size_t i = k + 1; i < n; ++i) if (std::abs(A[i * n + k]) > std::abs(A[p * n + k])) p = i;
    if (std::abs(A[p * n + k]) < 1e-13) return false;
    if (p != k) { for (size_t j = 0; j < n; ++j) std::swap(A[p * n + j], A[k * n + j]); std::swap(b[p], b[k]); }
    for (size_t i = k + 1; i < n; ++i) { T f = A[i * n + k] / A[k * n + k]; if (f == T(0)) continue; for (size_t j = k; j < n; ++j) A[i * n + j] -= f * A[k * n + j]; b[i] -= f * b[k]; }
  }
  x.assign(n, T(0));
  for (size_t k = n; k-- > 0;) { T s = b[k]; for (size_t j = k + 1; j < n; ++j) s -= A[k * n + j] * x[j]; x[k] = s / A[k * n + k]; }
  return true;
}
// random rotation matrix (row major)
inline array<double, 9> rotation(vp::Case &c) {
  double q[4]; double n = 0;
  for (double &v: q) { v = c.sym(1); n += v * v; }
  if (n < 1e-3) { q[3] = 1; q[0] = q[1] = q[2] = 0; n = 1; }
  n = std::sqrt(n); double x = q[0] / n, y = q[1] / n, z = q[2] / n, w = q[3] / n;
  return {1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)};
}
inline D3 mul(const array<double, 9> &R, D3 p) { return {R[0] * p[0] + R[1] * p[1] + R[2] * p[2], R[3] * p[0] + R[4] * p[1] + R[5] * p[2], R[6] * p[0] + R[7] * p[1] + R[8] * p[2]}; }
inline D3 rnd3(vp::Case &c, double a) { return {c.sym(a), c.sym(a), c.sym(a)}; }
inline D2 rnd2(vp::Case &c, double a) { return {c.sym(a), c.sym(a)}; }

struct Mesh { vector<double> xyz; vector<uint> tri; size_t nv() const { return xyz.size() / 3; } size_t nt() const { return tri.size() / 3; } };

// ---- meshes
inline void push(vector<double> &x, D3 p) { x.insert(x.end(), p.begin(), p.end()); }
// subdivided octahedron, outward oriented
inline Mesh octasphere(int ndiv) {
  Mesh m; std::map<array<int, 3>, uint> id;
  auto vtx = [&](array<int, 3> k) { auto it = id.find(k); if (it != id.end()) return it->second; uint i = (uint) m.nv(); id[k] = i; push(m.xyz, unit(D3{(double) k[0], (double) k[1], (double) k[2]})); return i; };
  for (int s = 0; s < 8; ++s) {
    int sx = s & 1 ? -1 : 1, sy = s & 2 ? -1 : 1, sz = s & 4 ? -1 : 1; bool neg = sx * sy * sz < 0;
    for (int i = 0; i < ndiv; ++i) for (int j = 0; i + j < ndiv; ++j) {
      auto P = [&](int a, int b) { return vtx({sx * (ndiv - a - b), sy * a, sz * b}); };
      uint t[3] = {P(i, j), P(i + 1, j), P(i, j + 1)};
      if (neg) std::swap(t[1], t[2]);
      m.tri.insert(m.tri.end(), t, t + 3);
      if (i + j + 1 < ndiv) { uint u[3] = {P(i + 1, j), P(i + 1, j + 1), P(i, j + 1)}; if (neg) std::swap(u[1], u[2]); m.tri.insert(m.tri.end(), u, u + 3); }
    }
  }
  return m;
}
// star-shaped closed surface about the origin
inline Mesh star(vp::Case &c, int maxdiv, double amp) {
  Mesh m = octasphere(c.range(1, maxdiv));
  D3 sc{c.uni(0.5, 1.5), c.uni(0.5, 1.5), c.uni(0.5, 1.5)};
  for (size_t i = 0; i < m.nv(); ++i) { double r = 1 + c.sym(amp); for (int d = 0; d < 3; ++d) m.xyz[i * 3 + d] *= r * sc[d]; }
  return m;
}
inline Mesh gridmesh(int nx, int ny) {
  Mesh m;
  for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) push(m.xyz, {(double) i, (double) j, 0.0});
  for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
    uint a = j * (nx + 1) + i, b = a + 1, d = a + nx + 1, e = d + 1;
    for (uint v: {a, b, e, a, e, d}) m.tri.push_back(v);
  }
  return m;
}
// triangle soup; vertices shared at random, no repeated vertex in a triangle
inline Mesh soup(vp::Case &c, int minnv, int maxnv, int maxnt) {
  Mesh m; int nv = c.range(std::max(3, minnv), maxnv), nt = c.range(1, maxnt);
  for (int i = 0; i < nv; ++i) push(m.xyz, {c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)});
  for (int t = 0; t < nt; ++t) {
    uint a = (uint) c.below(nv), b = (uint) c.below(nv - 1), d = (uint) c.below(nv - 2);
    if (b >= a) ++b;
    uint lo = std::min(a, b), hi = std::max(a, b);
    if (d >= lo) ++d; if (d >= hi) ++d;
    m.tri.push_back(a); m.tri.push_back(b); m.tri.push_back(d);
  }
  return m;
}
// any of the above; relabelled at random
inline Mesh anymesh(vp::Case &c, bool manifold) {
  Mesh m; int k = c.range(0, manifold ? 1 : 2);
  if (k == 0) { m = gridmesh(c.range(1, 6), c.range(1, 6)); double a = c.pick({0.0, 0.3}); for (auto &x: m.xyz) x += c.sym(a); }
  else if (k == 1) m = star(c, 4, 0.3);
  else m = soup(c, 3, 12, 14);
  if (c.flip()) { vector<uint> p(m.nv()); for (uint i = 0; i < p.size(); ++i) p[i] = i; c.shuffle(p.begin(), p.end()); vector<double> y(m.xyz.size()); for (uint i = 0; i < p.size(); ++i) for (int d = 0; d < 3; ++d) y[p[i] * 3 + d] = m.xyz[i * 3 + d]; m.xyz = y; for (auto &v: m.tri) v = p[v]; }
  return m;
}
// winding number of a closed oriented mesh around p (solid angle sum / 4pi)
inline double winding(const Mesh &m, D3 p) {
  double w = 0;
  for (size_t t = 0; t < m.nt(); ++t) {
    D3 a = P3(m.xyz, m.tri[t * 3]) - p, b = P3(m.xyz, m.tri[t * 3 + 1]) - p, d = P3(m.xyz, m.tri[t * 3 + 2]) - p;
    double la = norm(a), lb = norm(b), ld = norm(d);
    w += 2 * std::atan2(dot(a, cross(b, d)), la * lb * ld + dot(a, b) * ld + dot(b, d) * la + dot(d, a) * lb);
  }
  return w / (4 * M_PI);
}
// ray/triangle with double barycentrics: returns depth; margin = min barycentric (negative: outside)
inline bool ray_tri(D3 o, D3 d, D3 a, D3 b, D3 c3, double &depth, double &margin) {
  D3 n = cross(b - a, c3 - a); double den = dot(n, d), nn = dot(n, n);
  if (nn <= 0 || std::fabs(den) < 1e-12 * norm(n) * norm(d)) return false;
  depth = dot(n, a - o) / den; D3 q = o + depth * d;
  double r0 = dot(cross(b - q, c3 - q), n) / nn, r1 = dot(cross(c3 - q, a - q), n) / nn; margin = std::min({r0, r1, 1 - r0 - r1});
  return true;
}
}  // namespace ref
