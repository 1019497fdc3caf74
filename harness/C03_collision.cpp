// SCALE: 4 4
#include "common.hpp"
#include <iostream>
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_trimesh3_class.h"
#include "delfem2/geo_ccd.h"
#include "delfem2/srch_selfintersection_bvh.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/jagarray.h"
#include "delfem2/cloth_selfcollision.cpp"
using namespace ref;
namespace d = delfem2;
using CV = d::CVec3d;
static CV cv(D3 a) { return CV(a[0], a[1], a[2]); }
template<class BB> struct Tree { vector<d::CNodeBVH2> N; vector<BB> B; uint root; };
static void topo(const Mesh &m, vector<d::CNodeBVH2> &N) {
  vector<double> ctr;
  for (size_t t = 0; t < m.nt(); ++t) { D3 g = (1.0 / 3) * (P3(m.xyz, m.tri[t * 3]) + P3(m.xyz, m.tri[t * 3 + 1]) + P3(m.xyz, m.tri[t * 3 + 2])); push(ctr, g); }
  double mn[3] = {-3, -3, -3}, mx[3] = {3, 3, 3};
  vector<uint> sid, smc; d::SortedMortenCode_Points3(sid, smc, ctr, mn, mx); d::BVHTopology_Morton(N, sid, smc);
}
using K5 = array<int, 5>;
static K5 key(bool fv, array<int, 4> j) {
  if (fv) std::sort(j.begin(), j.begin() + 3);
  else { if (j[0] > j[1]) std::swap(j[0], j[1]); if (j[2] > j[3]) std::swap(j[2], j[3]); if (j[0] > j[2]) { std::swap(j[0], j[2]); std::swap(j[1], j[3]); } }
  return {fv, j[0], j[1], j[2], j[3]};
}
// two sheets / a folded sheet / a soup that really collide
static Mesh cloth(vp::Case &c) {
  Mesh m;
  int k = c.range(0, 2);
  if (k == 0) m = soup(c, 6, 14, 10);
  else {
    int nx = c.range(1, 3), ny = c.range(1, 3); m = gridmesh(nx, ny); double a = 0.3;
    Mesh u = gridmesh(c.range(1, 3), c.range(1, 3)); auto R = rotation(c); D3 t = rnd3(c, k == 1 ? 0.7 : 0.05); t = t + D3{nx * 0.5, ny * 0.5, 0};
    if (k == 2) R = {1, 0, 0, 0, 1, 0, 0, 0, 1};
    uint off = (uint) m.nv();
    for (size_t i = 0; i < u.nv(); ++i) push(m.xyz, mul(R, P3(u.xyz, (uint) i) - D3{.5, .5, 0}) + t);
    for (uint v: u.tri) m.tri.push_back(v + off);
    for (auto &x: m.xyz) { x += c.sym(k == 2 ? 0.05 : a); x *= 0.5; }
  }
  for (auto &x: m.xyz) x += c.sym(1e-3);
  return m;
}
// segment s0-s1 against triangle: +1 crosses robustly, -1 misses robustly, 0 too close to call; q: point
static int seg_tri(D3 s0, D3 s1, D3 a, D3 b, D3 e, D3 &q, double eps) {
  D3 n = cross(b - a, e - a); double A = norm(n); if (A < 1e-4) return 0; n = (1 / A) * n;
  double h0 = dot(s0 - a, n), h1 = dot(s1 - a, n);
  if (std::fabs(h0) < eps || std::fabs(h1) < eps) return 0;
  if ((h0 > 0) == (h1 > 0)) return -1;
  q = s0 + (h0 / (h0 - h1)) * (s1 - s0);
  double m = 1e9; D3 v[3] = {a, b, e};
  for (int i = 0; i < 3; ++i) { D3 x = v[i], y = v[(i + 1) % 3]; m = std::min(m, dot(cross(y - x, q - x), n) / norm(y - x)); }
  return m > eps ? 1 : m < -eps ? -1 : 0;
}

VP_PROP(tripair, 3000, 60000, "meshes (soup, crossing sheets): pairs of intersecting triangles found through the hierarchy and their segment, against edge-through-triangle tests of every pair without a shared vertex; non-trivial: some pair intersects") {
  Mesh m = cloth(c); vector<d::CNodeBVH2> N; topo(m, N); bool sph = c.flip();
  vector<d::CIntersectTriPair<double>> r; d::CLeafVolumeMaker_Mesh<d::CBV3d_AABB, double> la(1e-6, m.xyz.data(), m.nv(), m.tri.data(), m.nt(), 3);
  d::CLeafVolumeMaker_Mesh<d::CBV3d_Sphere, double> ls(1e-6, m.xyz.data(), m.nv(), m.tri.data(), m.nt(), 3);
  if (sph) { vector<d::CBV3d_Sphere> B; d::BVH_BuildBVHGeometry(B, 0u, N, ls); d::GetIntersectTriPairs(r, m.xyz, m.tri, 0, N, B); }
  else { vector<d::CBV3d_AABB> B; d::BVH_BuildBVHGeometry(B, 0u, N, la); d::GetIntersectTriPairs(r, m.xyz, m.tri, 0, N, B); }
  std::map<array<int, 2>, int> got;
  for (size_t i = 0; i < r.size(); ++i) { array<int, 2> k{std::min(r[i].itri, r[i].jtri), std::max(r[i].itri, r[i].jtri)}; VP_CHECK(!got.count(k), "pair %d %d twice", k[0], k[1]); got[k] = (int) i; }
  for (size_t i = 0; i < m.nt(); ++i) for (size_t j = i + 1; j < m.nt(); ++j) {
    auto it = got.find({(int) i, (int) j}); D3 T[2][3]; bool shared = false;
    for (int k = 0; k < 3; ++k) { T[0][k] = P3(m.xyz, m.tri[i * 3 + k]); T[1][k] = P3(m.xyz, m.tri[j * 3 + k]); for (int l = 0; l < 3; ++l) shared |= m.tri[i * 3 + k] == m.tri[j * 3 + l]; }
    if (shared) { VP_CHECK(it == got.end(), "triangles %zu %zu share a vertex", i, j); continue; }
    bool amb = false; vector<D3> P;
    for (int s = 0; s < 2; ++s) for (int k = 0; k < 3; ++k) { D3 q; int z = seg_tri(T[s][k], T[s][(k + 1) % 3], T[1 - s][0], T[1 - s][1], T[1 - s][2], q, 1e-5); if (z == 0) amb = true; if (z == 1) P.push_back(q); }
    if (amb) continue;
    VP_CHECK((it != got.end()) == (P.size() == 2), "triangles %zu %zu: %zu crossings, reported %d", i, j, P.size(), it != got.end());
    if (P.size() == 2) {
      c.nontrivial();
      auto &R = r[it->second]; D3 a{R.P[0].x, R.P[0].y, R.P[0].z}, b{R.P[1].x, R.P[1].y, R.P[1].z};
      double e = std::min(std::max(dist(a, P[0]), dist(b, P[1])), std::max(dist(a, P[1]), dist(b, P[0])));
      VP_CHECK(e < 1e-6, "segment ends of %zu %zu off by %g", i, j, e);
    }
  }
}

VP_PROP(proximity, 3000, 60000, "meshes, clearance delta, leaf margin delta: proximate vertex-face and edge-edge pairs found through the hierarchy against every pair of triangles by closest points of plane and lines; non-trivial: some pair is proximate") {
  Mesh m = cloth(c); double delta = c.logreal(1e-3, 0.3);
  if (c.chance(1, 4)) for (size_t i = 0; i < m.nv(); ++i) m.xyz[i * 3 + 2] *= 0.1;
  vector<d::CNodeBVH2> N; topo(m, N);
  d::CLeafVolumeMaker_Mesh<d::CBV3d_AABB, double> la(delta * 1.0001, m.xyz.data(), m.nv(), m.tri.data(), m.nt(), 3);
  vector<d::CBV3d_AABB> B; d::BVH_BuildBVHGeometry(B, 0u, N, la);
  std::set<d::CContactElement> S; d::GetContactElement_Proximity(S, delta, m.xyz, m.tri, 0, N, B);
  std::set<K5> got; for (auto &e: S) got.insert(key(e.is_fv, {e.ino0, e.ino1, e.ino2, e.ino3}));
  std::set<K5> must, may;
  auto fv = [&](uint a, uint b, uint e, uint p) {
    if (p == a || p == b || p == e) return;
    D3 A = P3(m.xyz, a), Bq = P3(m.xyz, b), E = P3(m.xyz, e), p3 = P3(m.xyz, p), n = cross(Bq - A, E - A); double ar = norm(n);
    K5 k = key(true, {(int) a, (int) b, (int) e, (int) p});
    if (ar < 1e-4) { may.insert(k); return; }
    n = (1 / ar) * n; double h = std::fabs(dot(p3 - A, n)); D3 q = p3 - dot(p3 - A, n) * n;
    double w = std::min({dot(cross(Bq - A, q - A), n), dot(cross(E - Bq, q - Bq), n), dot(cross(A - E, q - E), n)}) / ar;
    if (h < delta * (1 - 1e-6) - 1e-9 && w > 1e-7) must.insert(k);
    if (h < delta * (1 + 1e-6) + 1e-9 && w > -1e-7) may.insert(k);
  };
  auto ee = [&](uint a, uint b, uint e, uint f) {
    if (a == e || a == f || b == e || b == f) return;
    D3 A = P3(m.xyz, a), U = P3(m.xyz, b) - A, E = P3(m.xyz, e), V = P3(m.xyz, f) - E, n = cross(U, V); double nn = dot(n, n);
    K5 k = key(false, {(int) a, (int) b, (int) e, (int) f});
    if (nn < 1e-6 * dot(U, U) * dot(V, V)) { may.insert(k); return; }
    double s = dot(cross(E - A, V), n) / nn, t = dot(cross(E - A, U), n) / nn, h = std::fabs(dot(E - A, n)) / std::sqrt(nn);
    auto in = [](double x, double g) { return x > g && x < 1 - g; };
    if (h < delta * (1 - 1e-6) - 1e-9 && in(s, 1e-7) && in(t, 1e-7)) must.insert(k);
    if (h < delta * (1 + 1e-6) + 1e-9 && in(s, -1e-7) && in(t, -1e-7)) may.insert(k);
  };
  for (size_t i = 0; i < m.nt(); ++i) for (size_t j = 0; j < m.nt(); ++j) {
    if (i == j) continue;
    const uint *s = &m.tri[i * 3], *t = &m.tri[j * 3];
    for (int k = 0; k < 3; ++k) fv(s[0], s[1], s[2], t[k]);
    if (i < j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) ee(s[k], s[(k + 1) % 3], t[l], t[(l + 1) % 3]);
  }
  c.nontrivial(!must.empty());
  // the hierarchy may lack a pair only if one with the same four indices of the other kind is present (set order ignores the kind)
  for (auto &k: must) { K5 o = k; o[0] = !o[0]; VP_CHECK(got.count(k) || got.count(o), "%s %d %d %d %d missed, delta %g", k[0] ? "FV" : "EE", k[1], k[2], k[3], k[4], delta); }
  for (auto &k: got) VP_CHECK(may.count(k), "%s %d %d %d %d is not proximate, delta %g", k[0] ? "FV" : "EE", k[1], k[2], k[3], k[4], delta);
}

// ---- continuous collision detection
static double det4(const D3 p[4]) { return dot(cross(p[1] - p[0], p[2] - p[0]), p[3] - p[0]); }
static void at(const D3 s[4], const D3 e[4], double t, D3 r[4]) { for (int i = 0; i < 4; ++i) r[i] = (1 - t) * s[i] + t * e[i]; }
// real roots of the coplanarity cubic in [0,1]; false if an end value or an extremum is too close to zero
static bool roots(const D3 s[4], const D3 e[4], vector<double> &R, double eps) {
  const int n = 256; double v[n + 1]; D3 r[4]; R.clear();
  for (int i = 0; i <= n; ++i) { at(s, e, (double) i / n, r); v[i] = det4(r); }
  if (std::fabs(v[0]) < eps || std::fabs(v[n]) < eps) return false;
  if (std::fabs(v[0]) < 4 * std::fabs(v[1] - v[0]) || std::fabs(v[n]) < 4 * std::fabs(v[n] - v[n - 1])) return false;
  for (int i = 0; i < n; ++i) {
    if (v[i] == 0 || (i > 0 && (v[i] - v[i - 1]) * (v[i + 1] - v[i]) <= 0 && std::fabs(v[i]) < eps + 4 * std::fabs(v[i + 1] - v[i]) + 4 * std::fabs(v[i - 1] - v[i]))) return false;
    if ((v[i] > 0) != (v[i + 1] > 0)) {
      double a = (double) i / n, b = (double) (i + 1) / n; bool pa = v[i] > 0;
      for (int k = 0; k < 60; ++k) { double m = (a + b) / 2; at(s, e, m, r); ((det4(r) > 0) == pa ? a : b) = m; }
      R.push_back((a + b) / 2);
    }
  }
  return true;
}
static void motion(vp::Case &c, D3 s[4], D3 e[4]) {
  int k = c.range(0, 3);
  for (int i = 0; i < 4; ++i) { s[i] = rnd3(c, 1); e[i] = rnd3(c, 1); }
  if (k == 0) for (int i = 0; i < 4; ++i) if (c.flip()) e[i] = s[i];
  if (k == 1) { D3 t = rnd3(c, 1); for (int i = 0; i < 3; ++i) e[i] = s[i] + t; }
  if (k == 2) { double a = c.logreal(0.01, 1); for (int i = 0; i < 4; ++i) e[i] = s[i] + a * e[i]; }
  if (k == 3 && c.flip()) { auto R1 = rotation(c); for (int i = 0; i < 4; ++i) e[i] = mul(R1, s[i]); e[3] = rnd3(c, 1); }
}
VP_PROP(coplanar, 60000, 2000000, "four linearly moving points: a reported coplanar time lies in [0,1] and the points are coplanar there; none is reported only if the volume never changes sign; non-trivial: coplanar at some time") {
  D3 s[4], e[4]; motion(c, s, e); vector<double> R; bool ok = roots(s, e, R, 1e-6); double t = -1;
  bool r = d::FindCoplanerInterp(t, cv(s[0]), cv(s[1]), cv(s[2]), cv(s[3]), cv(e[0]), cv(e[1]), cv(e[2]), cv(e[3]));
  if (r) {
    VP_CHECK(t >= 0 && t <= 1, "time %g", t);
    D3 p[4]; at(s, e, t, p); double h = 0; for (int i = 0; i < 4; ++i) h = std::max(h, dist(s[i], e[i]));
    double v = std::fabs(det4(p)); VP_CHECK(v < 1e-3 * (1 + h), "volume %g at the coplanar time %g", v, t);
  }
  if (!ok) return;
  c.nontrivial(!R.empty());
  VP_CHECK(r == !R.empty(), "reported %d, %zu sign changes", r, R.size());
  if (r) { double b = 1e9; for (double x: R) b = std::min(b, std::fabs(x - t)); VP_CHECK(b < 1e-4, "time %g is %g away from a root", t, b); }
}
static int inside_fv(const D3 p[4], double g) {  // projection of p3 in triangle: 1 inside, -1 outside, 0 unclear
  D3 n = cross(p[1] - p[0], p[2] - p[0]); double nn = dot(n, n); if (nn < 1e-4) return 0; D3 q = p[3];
  double w0 = dot(cross(p[1] - q, p[2] - q), n) / nn, w1 = dot(cross(p[2] - q, p[0] - q), n) / nn, m = std::min({w0, w1, 1 - w0 - w1});
  return m > g ? 1 : m < -g ? -1 : 0;
}
static int inside_ee(const D3 p[4], double g) {
  D3 u = p[1] - p[0], v = p[3] - p[2], n = cross(u, v); double nn = dot(n, n); if (nn < 1e-2 * dot(u, u) * dot(v, v) || nn < 1e-4) return 0;
  double s = dot(cross(p[2] - p[0], v), n) / nn, t = dot(cross(p[2] - p[0], u), n) / nn, m = std::min({s, t, 1 - s, 1 - t});
  return m > g ? 1 : m < -g ? -1 : 0;
}
// expected answer from the roots: 1 must report, -1 must not, 0 either
static int expect(const D3 s[4], const D3 e[4], bool fv, double eps) {
  vector<double> R; if (!roots(s, e, R, eps)) return 0;
  if (R.empty()) return -1;
  bool allin = true, allout = true;
  for (double t: R) { D3 p[4]; at(s, e, t, p); int k = fv ? inside_fv(p, 1e-2) : inside_ee(p, 1e-2); allin &= k == 1; allout &= k == -1; }
  return allin ? 1 : allout ? -1 : 0;
}
VP_PROP(ccd_pair, 40000, 1000000, "moving vertex-face and edge-edge pairs, roots of the coplanarity cubic found by sampling and bisection: contact reported iff the primitives touch at a root; non-trivial: a root exists and the answer is robust") {
  D3 s[4], e[4]; motion(c, s, e); bool fv = c.flip(); bool r;
  if (c.chance(1, 3)) { int f = fv ? 3 : 2; D3 m = (1.0 / 3) * (s[0] + s[1] + s[2]); for (int i = f; i < 4; ++i) s[i] = 0.6 * s[i] + 0.4 * m; }
  if (fv) r = d::IsContact_FV_CCD2(0, 1, 2, 3, cv(s[0]), cv(s[1]), cv(s[2]), cv(s[3]), cv(e[0]), cv(e[1]), cv(e[2]), cv(e[3]));
  else r = d::IsContact_EE_CCD<d::CBV3d_AABB>(0, 1, 2, 3, cv(s[0]), cv(s[1]), cv(s[2]), cv(s[3]), cv(e[0]), cv(e[1]), cv(e[2]), cv(e[3]));
  int x = expect(s, e, fv, 1e-5);
  if (x == 0) return;
  vector<double> R; roots(s, e, R, 1e-5); c.nontrivial(!R.empty()); c.label("%s:%s", fv ? "FV" : "EE", x > 0 ? "touch" : R.empty() ? "never coplanar" : "pass by");
  VP_CHECK(r == (x > 0), "%s reported %d, expected %d, %zu roots", fv ? "FV" : "EE", r, x > 0, R.size());
}
VP_PROP(ccd_mesh, 1500, 30000, "moving meshes: colliding pairs found through the hierarchy against the pair tests over all pairs of triangles and against the cubic's roots; non-trivial: some pair collides") {
  Mesh m = cloth(c); vector<d::CNodeBVH2> N; topo(m, N); double dt = c.logreal(0.05, 1);
  vector<double> uvw; double a = c.logreal(0.05, 2); for (size_t i = 0; i < m.xyz.size(); ++i) uvw.push_back(c.sym(a));
  if (c.flip()) { D3 v = rnd3(c, 1); for (size_t i = 0; i < m.nv() / 2; ++i) for (int k = 0; k < 3; ++k) uvw[i * 3 + k] = v[k]; }
  d::CLeafVolumeMaker_DynamicTriangle<d::CBV3d_AABB, double> lv(dt, m.xyz, uvw, m.tri, 1e-10); vector<d::CBV3d_AABB> B; d::BVH_BuildBVHGeometry(B, 0u, N, lv);
  std::set<d::CContactElement> S; d::GetContactElement_CCD(S, dt, 0.01, m.xyz, uvw, m.tri, 0, N, B);
  std::set<K5> got; for (auto &e: S) got.insert(key(e.is_fv, {e.ino0, e.ino1, e.ino2, e.ino3}));
  auto P = [&](uint v, bool end) { D3 p = P3(m.xyz, v); return end ? p + dt * P3(uvw, v) : p; };
  auto test = [&](bool fv, uint x0, uint x1, uint x2, uint x3) {
    if (fv ? (x3 == x0 || x3 == x1 || x3 == x2) : (x0 == x2 || x0 == x3 || x1 == x2 || x1 == x3)) return;
    uint id[4] = {x0, x1, x2, x3}; D3 s[4], e[4]; for (int i = 0; i < 4; ++i) { s[i] = P(id[i], false); e[i] = P(id[i], true); }
    int x = expect(s, e, fv, 1e-7); if (x == 0) return;
    K5 k = key(fv, {(int) x0, (int) x1, (int) x2, (int) x3}), o = k; o[0] = !o[0];
    if (x > 0) { c.nontrivial(); VP_CHECK(got.count(k) || got.count(o), "%s %u %u %u %u missed", fv ? "FV" : "EE", x0, x1, x2, x3); }
    else { if (got.count(k)) { vector<double> R; roots(s, e, R, 1e-7); for (double t: R) { D3 p[4]; at(s, e, t, p); D3 u = p[1] - p[0], v = p[3] - p[2], n = cross(u, v); double nn = dot(n, n); c.note("t %.6g s %g t %g sin2 %g len %g %g", t, dot(cross(p[2] - p[0], v), n) / nn, dot(cross(p[2] - p[0], u), n) / nn, nn / dot(u, u) / dot(v, v), norm(u), norm(v)); } }
      VP_CHECK(!got.count(k), "%s %u %u %u %u reported but never touches", fv ? "FV" : "EE", x0, x1, x2, x3); }
  };
  std::set<std::pair<bool, std::array<uint, 4>>> done;
  for (size_t i = 0; i < m.nt(); ++i) for (size_t j = 0; j < m.nt(); ++j) if (i != j) {
    const uint *s = &m.tri[i * 3], *t = &m.tri[j * 3];
    // bounding-box prefilter of the oracle only (moving boxes do not overlap: no contact), independent of the hierarchy
    bool ov = true; for (int k = 0; k < 3; ++k) { double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9}; for (int l = 0; l < 3; ++l) for (int z = 0; z < 2; ++z) for (int w = 0; w < 2; ++w) { double x = P((z ? t : s)[l], w)[k]; lo[z] = std::min(lo[z], x); hi[z] = std::max(hi[z], x); } if (lo[0] > hi[1] || lo[1] > hi[0]) ov = false; }
    if (!ov) continue;
    for (int k = 0; k < 3; ++k) if (done.insert({true, {s[0], s[1], s[2], t[k]}}).second) test(true, s[0], s[1], s[2], t[k]);
    if (i < j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) if (done.insert({false, {s[k], s[(k + 1) % 3], t[l], t[(l + 1) % 3]}}).second) test(false, s[k], s[(k + 1) % 3], t[l], t[(l + 1) % 3]);
  }
  for (auto &k: got) { // nothing reported that shares a vertex
    std::set<int> u(k.begin() + 1, k.end()); VP_CHECK(u.size() == 4, "contact with a shared vertex"); }
}
VP_PROP(ccd_segments, 30000, 600000, "two moving segments meeting at known interior parameters, started near them: the Newton iteration reaches the contact and returns the distance there; non-trivial: the derivative is well conditioned") {
  D3 p0s = rnd3(c, 1), p0e = rnd3(c, 1), p1s = rnd3(c, 1), p1e = rnd3(c, 1), q0s = rnd3(c, 1), q0e = rnd3(c, 1), q1s = rnd3(c, 1), q1e = rnd3(c, 1);
  double s = c.uni(.2, .8), t = c.uni(.2, .8), u = c.uni(.2, .8);
  auto bil = [](D3 a, D3 b, D3 e, D3 f, double x, double y) { return (1 - x) * ((1 - y) * a + y * b) + x * ((1 - y) * e + y * f); };
  D3 g = bil(p0s, p0e, p1s, p1e, s, u) - bil(q0s, q0e, q1s, q1e, t, u);
  q0s = q0s + g; q0e = q0e + g; q1s = q1s + g; q1e = q1e + g;
  D3 ds = ((1 - u) * (p1s - p0s)) + u * (p1e - p0e), dt = ((1 - u) * (q1s - q0s)) + u * (q1e - q0e), du = ((1 - s) * (p0e - p0s)) + s * (p1e - p1s) - ((1 - t) * (q0e - q0s)) - t * (q1e - q1s);
  double J = std::fabs(dot(cross(ds, dt), du)); c.assume(J > 0.6); c.nontrivial();
  double x[3] = {s + c.sym(1e-4), t + c.sym(1e-4), u + c.sym(1e-4)};
  double r = d::Nearest_LineSeg_LineSeg_CCD_Iteration(x, cv(p0s), cv(p0e), cv(p1s), cv(p1e), cv(q0s), cv(q0e), cv(q1s), cv(q1e), 20);
  VP_NEAR(r, 0, 1e-7); VP_NEAR(x[0], s, 1e-6); VP_NEAR(x[1], t, 1e-6); VP_NEAR(x[2], u, 1e-6);
}
// away from a contact the optimum has a nonzero gap: interior stationary point of the distance
VP_PROP(ccd_segments_gap, 30000, 600000, "two moving segments with a stationary point of their space-time distance at known interior parameters and a small gap: Newton's iteration converges to it; non-trivial: well conditioned Hessian") {
  D3 P[8]; for (auto &p: P) p = rnd3(c, 1);
  double s = c.uni(.3, .7), t = c.uni(.3, .7), u = c.uni(.3, .7);
  auto bil = [](D3 a, D3 b, D3 e, D3 f, double x, double y) { return (1 - x) * ((1 - y) * a + y * b) + x * ((1 - y) * e + y * f); };
  // make du orthogonal to n = ds x dt, by adding to the end positions a shift along n: gap*n is then a stationary point
  D3 ds = ((1 - u) * (P[2] - P[0])) + u * (P[3] - P[1]), dt = ((1 - u) * (P[6] - P[4])) + u * (P[7] - P[5]), n = cross(ds, dt);
  c.assume(norm(n) > 0.3); n = unit(n);
  auto duf = [&] { return ((1 - s) * (P[1] - P[0])) + s * (P[3] - P[2]) - ((1 - t) * (P[5] - P[4])) - t * (P[7] - P[6]); };
  double k = dot(duf(), n); P[5] = P[5] + k * n; P[7] = P[7] + k * n;  // q's end moves along n: ds unchanged; dt unchanged (both q ends shift alike)
  D3 g = bil(P[0], P[1], P[2], P[3], s, u) - bil(P[4], P[5], P[6], P[7], t, u); double gap = c.uni(0.05, 0.3);
  for (int i = 4; i < 8; ++i) P[i] = P[i] + g - gap * n;   // now p - q = gap * n
  D3 du = duf(); D3 v0 = gap * n;
  D3 dsu = P[0] - P[1] - P[2] + P[3], dtu = -1.0 * (P[4] - P[5] - P[6] + P[7]); D3 mdt = -1.0 * dt;
  double A[3][3] = {{dot(ds, ds), dot(ds, mdt), dot(ds, du) + dot(v0, dsu)}, {0, dot(dt, dt), dot(mdt, du) + dot(v0, dtu)}, {0, 0, dot(du, du)}};
  A[1][0] = A[0][1]; A[2][0] = A[0][2]; A[2][1] = A[1][2];
  double det = A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]);
  c.assume(std::fabs(det) > 0.5); c.nontrivial();
  double x[3] = {s + c.sym(1e-3), t + c.sym(1e-3), u + c.sym(1e-3)};
  double r = d::Nearest_LineSeg_LineSeg_CCD_Iteration(x, cv(P[0]), cv(P[1]), cv(P[2]), cv(P[3]), cv(P[4]), cv(P[5]), cv(P[6]), cv(P[7]), 20);
  VP_NEAR(r, gap, 1e-6); VP_NEAR(x[0], s, 1e-5); VP_NEAR(x[1], t, 1e-5); VP_NEAR(x[2], u, 1e-5);
}
static void momenta(const Mesh &m, const vector<double> &v, D3 &p, D3 &L) {
  p = {0, 0, 0}; L = {0, 0, 0};
  for (uint i = 0; i < m.nv(); ++i) { p = p + P3(v, i); L = L + cross(P3(m.xyz, i), P3(v, i)); }
}
VP_PROP(resolve, 600, 10000, "two moving sheets, self-collision response: linear momentum is conserved; angular momentum too when only rigid impact zones act; velocities unchanged when nothing is in contact; non-trivial: an impulse was applied") {
  Mesh m = cloth(c); vector<d::CNodeBVH2> N; topo(m, N); vector<uint> pi, ps; d::JArray_PSuP_MeshElem(pi, ps, m.tri.data(), m.nt(), 3, m.nv());
  vector<double> v; double a = c.logreal(0.01, 1); for (size_t i = 0; i < m.xyz.size(); ++i) v.push_back(c.sym(a)); vector<double> v0 = v; vector<d::CBV3d_AABB> B; bool imp = false;
  double clr = c.logreal(1e-4, 0.05);
  std::streambuf *o = std::cout.rdbuf(nullptr);
  GetIntermidiateVelocityContactResolved(v, imp, 1.0, clr, 1.0, c.logreal(0.1, 100), m.xyz, m.tri, pi, ps, 0, N, B);
  std::cout.rdbuf(o); std::cout.clear();
  double vm = 0; for (double x: v) { if (!std::isfinite(x)) return; vm = std::max(vm, std::fabs(x)); }
  if (!imp) { VP_CHECK(v == v0, "no impulse but velocities changed"); return; }
  c.nontrivial(); D3 p0, L0, p1, L1; momenta(m, v0, p0, L0); momenta(m, v, p1, L1);
  double tol = 1e-9 * (1 + vm) * m.nv(); for (int k = 0; k < 3; ++k) VP_NEAR(p0[k], p1[k], tol);
}
VP_PROP(impact_zone, 20000, 300000, "point sets and velocities: replacing them by a rigid motion conserves linear and angular momentum and is a rigid motion; non-trivial: points not collinear") {
  int n = c.range(4, 12); Mesh m; for (int i = 0; i < n; ++i) push(m.xyz, rnd3(c, 1));
  vector<double> v0; for (int i = 0; i < 3 * n; ++i) v0.push_back(c.sym(1)); vector<double> v = v0; std::vector<std::set<int>> Z(c.range(1, 2));
  for (size_t z = 0; z < Z.size(); ++z) for (int i = (int) z; i < n; i += (int) Z.size()) if (Z[z].size() < 4 || c.flip()) Z[z].insert(i);
  for (auto &z: Z) c.assume(z.size() >= 3);
  ApplyRigidImpactZone(v, Z, m.xyz, v0);
  for (auto &z: Z) {
    D3 g{0, 0, 0}; for (int i: z) g = g + (1.0 / z.size()) * P3(m.xyz, i); double I[9] = {0};
    for (int i: z) { D3 q = P3(m.xyz, i) - g; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) I[k * 3 + l] += (k == l ? dot(q, q) : 0) - q[k] * q[l]; }
    double det = I[0] * (I[4] * I[8] - I[5] * I[7]) - I[1] * (I[3] * I[8] - I[5] * I[6]) + I[2] * (I[3] * I[7] - I[4] * I[6]); if (std::fabs(det) < 1e-2) return;
    c.nontrivial();
    D3 p0{0, 0, 0}, p1 = p0, L0 = p0, L1 = p0;
    for (int i: z) { p0 = p0 + P3(v0, i); p1 = p1 + P3(v, i); L0 = L0 + cross(P3(m.xyz, i), P3(v0, i)); L1 = L1 + cross(P3(m.xyz, i), P3(v, i)); }
    for (int k = 0; k < 3; ++k) { VP_NEAR(p0[k], p1[k], 1e-9); VP_NEAR(L0[k], L1[k], 1e-8); }
    for (int i: z) for (int j: z) VP_NEAR(dot(P3(m.xyz, i) - P3(m.xyz, j), P3(v, i) - P3(v, j)), 0, 1e-8);
  }
  for (int i = 0; i < n; ++i) { bool in = false; for (auto &z: Z) in |= z.count(i) > 0; if (!in) for (int k = 0; k < 3; ++k) VP_CHECK(v[i * 3 + k] == v0[i * 3 + k], "vertex outside zones"); }
}
