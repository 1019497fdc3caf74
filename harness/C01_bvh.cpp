// SCALE: 10 6
#include "common.hpp"
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_trimesh3_class.h"
#include "delfem2/msh_boundingbox.h"
#include "delfem2/msh_normal.h"
#include "delfem2/mshmisc.h"
using namespace ref;
namespace d = delfem2;
using CV = d::CVec3d;

// structure of a tree over nobj objects, independent of Check_BVH; returns the leaf node of every object
static vector<uint> check_tree(vp::Case &c, const vector<d::CNodeBVH2> &N, uint root, size_t nobj) {
  VP_CHECK(N.size() == 2 * nobj - 1, "nodes %zu objects %zu", N.size(), nobj);
  vector<uint> leaf(nobj, UINT_MAX); vector<int> seen(N.size(), 0);
  VP_CHECK(N[root].iparent == UINT_MAX, "root has a parent");
  vector<uint> st{root}; size_t nleaf = 0;
  while (!st.empty()) {
    uint i = st.back(); st.pop_back();
    VP_CHECK(i < N.size(), "node index %u of %zu", i, N.size());
    VP_CHECK(!seen[i], "node %u reached twice", i);
    seen[i] = 1;
    if (N[i].ichild[1] == UINT_MAX) {
      uint o = N[i].ichild[0];
      VP_CHECK(o < nobj, "leaf object %u of %zu", o, nobj);
      VP_CHECK(leaf[o] == UINT_MAX, "object %u in two leaves", o);
      leaf[o] = i; ++nleaf; continue;
    }
    for (int k = 0; k < 2; ++k) {
      uint ch = N[i].ichild[k];
      VP_CHECK(ch < N.size(), "child %u of %zu", ch, N.size());
      VP_CHECK(N[ch].iparent == i, "parent of child");
      st.push_back(ch);
    }
  }
  VP_CHECK(nleaf == nobj, "%zu leaves for %zu objects", nleaf, nobj);
  return leaf;
}
static vector<double> points(vp::Case &c, int maxn, std::string &kind) {
  int n = c.chance(1, 12) ? c.range(100, 400) : c.range(1, maxn);
  int k = c.range(0, 5); vector<double> x;
  static const char *names[] = {"uniform", "lattice", "coplanar", "duplicates", "clusters", "line"};
  kind = names[k];
  D3 ctr[3]; for (auto &q: ctr) q = rnd3(c, 1);
  for (int i = 0; i < n; ++i) {
    D3 p = rnd3(c, 1);
    if (k == 1) for (auto &v: p) v = std::round(v * 2) / 2;
    if (k == 2) p[(size_t) 1] = 0.25;
    if (k == 3 && i > 0 && c.flip()) p = P3(x, (uint) c.below(i));
    if (k == 4) p = ctr[c.below(3)] + 1e-4 * p;
    if (k == 5) p = D3{p[0], 0.5 * p[0], -0.25};
    push(x, p);
  }
  return x;
}

VP_PROP(clz_morton, 20000, 400000, "random 32-bit words and points in and around the unit cube: leading zeros, bit-interleaved Morton code vs bit-by-bit reference; non-trivial: code not saturated") {
  uint32_t w = (uint32_t) (c.bits64() >> c.below(64));
  VP_CHECK((int) d::nbits_leading_zero(w) == (w ? __builtin_clz(w) : 32), "clz(%u)", w);
  bool f = c.flip(); double p[3]; bool in = true;
  for (double &v: p) { v = c.below(6) == 0 ? c.uni(-2, 3) : c.below(4) == 0 ? c.below(1025) / 1024.0 : c.uni(0, 1); if (f) v = (float) v; if (v < 0 || v >= 1) in = false; }
  uint32_t g = f ? d::MortonCode<float>((float) p[0], (float) p[1], (float) p[2]) : d::MortonCode<double>(p[0], p[1], p[2]);
  uint32_t e = 0;
  for (int a = 0; a < 3; ++a) {
    uint32_t q = (uint32_t) std::min(std::max(std::floor(p[a] * 1024), 0.0), 1023.0);
    for (int b = 0; b < 10; ++b) if (q >> b & 1) e |= 1u << (3 * b + 2 - a);
  }
  VP_CHECK(g == e, "morton(%.17g,%.17g,%.17g) = %x, expected %x", p[0], p[1], p[2], g, e);
  c.nontrivial(in);
}

VP_PROP(morton_splits, 8000, 150000, "sorted 32-bit code arrays with runs of equal codes: ranges and splits of all internal nodes form a binary tree over the sorted order; non-trivial: >= 3 codes") {
  int n = c.range(1, c.chance(1, 10) ? 300 : 24); vector<uint32_t> mc; int bits = c.range(1, 30);
  for (int i = 0; i < n; ++i) mc.push_back(i && c.chance(1, 3) ? mc[c.below(i)] : (uint32_t) c.below(1ull << bits));
  std::sort(mc.begin(), mc.end());
  vector<uint> ids(n); for (int i = 0; i < n; ++i) ids[i] = i;
  c.shuffle(ids.begin(), ids.end());
  vector<d::CNodeBVH2> N(c.below(5));
  d::BVHTopology_Morton(N, ids, mc);
  auto leaf = check_tree(c, N, 0, n);
  // an in-order walk visits the sorted order
  vector<uint> st{0}, order;
  while (!st.empty()) { uint i = st.back(); st.pop_back(); if (N[i].ichild[1] == UINT_MAX) order.push_back(N[i].ichild[0]); else { st.push_back(N[i].ichild[1]); st.push_back(N[i].ichild[0]); } }
  VP_CHECK(order == ids, "leaves out of Morton order: %s vs %s", vp::str(order).c_str(), vp::str(ids).c_str());
  d::Check_MortonCode_RangeSplit(mc);
  c.nontrivial(n >= 3); c.label("n%s", n == 1 ? "=1" : n < 10 ? "<10" : ">=10");
}

template<class R, class BV> static void volumes_hold(vp::Case &c, const vector<d::CNodeBVH2> &N, const vector<BV> &B, uint root, const std::function<void(uint, std::function<void(D3)>)> &pts, std::function<double(const BV &, D3)> out) {
  for (uint l = 0; l < N.size(); ++l) if (N[l].ichild[1] == UINT_MAX) {
    pts(N[l].ichild[0], [&](D3 p) {
      for (uint a = l; a != UINT_MAX; a = N[a].iparent) { double e = out(B[a], p); VP_CHECK(e <= (sizeof(R) == 4 ? 1e-5 : 1e-9), "volume of node %u misses a point of object %u by %g", a, N[l].ichild[0], e); }
    });
  }
}
template<class R> static double out_s(const d::CBV3_Sphere<R> &b, D3 p) { return b.r < 0 ? 1e9 : dist(p, D3{b.c[0], b.c[1], b.c[2]}) - b.r; }
template<class R> static double out_b(const d::CBV3_AABB<R> &b, D3 p) { double e = b.bbmin[0] > b.bbmax[0] ? 1e9 : -1e9; for (int k = 0; k < 3; ++k) e = std::max({e, b.bbmin[k] - p[k], p[k] - b.bbmax[k]}); return e; }

template<class R> static void points_prop(vp::Case &c) {
  std::string kind; vector<double> x0 = points(c, 30, kind); uint np = x0.size() / 3;
  vector<R> x(x0.begin(), x0.end()); for (size_t i = 0; i < x.size(); ++i) x0[i] = x[i];
  R mn[3], mx[3]; d::BoundingBox3_Points3(mn, mx, x.data(), np);
  for (int k = 0; k < 3; ++k) { R lo = x[k], hi = x[k]; for (uint i = 0; i < np; ++i) { lo = std::min(lo, x[i * 3 + k]); hi = std::max(hi, x[i * 3 + k]); } VP_CHECK(lo == mn[k] && hi == mx[k], "bounding box axis %d", k); }
  if (c.flip()) for (int k = 0; k < 3; ++k) { R w = (R) c.uni(0, 0.3); mn[k] -= w; mx[k] += w; }
  vector<uint> id; vector<uint32_t> mc;
  d::SortedMortenCode_Points3(id, mc, x, mn, mx);
  vector<int> cnt(np, 0); VP_CHECK(id.size() == np && mc.size() == np, "sizes");
  for (uint i = 0; i < np; ++i) { VP_CHECK(id[i] < np, "id"); ++cnt[id[i]]; if (i) VP_CHECK(mc[i - 1] <= mc[i], "codes not sorted"); }
  for (int v: cnt) VP_CHECK(v == 1, "ids are no permutation");
  for (uint i = 0; i < np; ++i) { const R *p = x.data() + id[i] * 3; R q[3]; for (int k = 0; k < 3; ++k) q[k] = (p[k] - mn[k]) / (mx[k] - mn[k]); VP_CHECK(mc[i] == d::MortonCode(q[0], q[1], q[2]), "code of point %u", id[i]); }
  vector<d::CNodeBVH2> N; d::BVHTopology_Morton(N, id, mc);
  check_tree(c, N, 0, np); d::Check_BVH(N, np);
  vector<d::CBV3_Sphere<R>> S; vector<d::CBV3_AABB<R>> A;
  d::CLeafVolumeMaker_Point<d::CBV3_Sphere<R>, R> ls(x.data(), np); d::BVH_BuildBVHGeometry(S, 0, N, ls);
  d::CLeafVolumeMaker_Point<d::CBV3_AABB<R>, R> la(x.data(), np); d::BVH_BuildBVHGeometry(A, 0, N, la);
  auto pts = [&](uint o, std::function<void(D3)> f) { f(P3(x0, o)); };
  volumes_hold<R, d::CBV3_Sphere<R>>(c, N, S, 0, pts, out_s<R>);
  volumes_hold<R, d::CBV3_AABB<R>>(c, N, A, 0, pts, out_b<R>);
  double tol = sizeof(R) == 4 ? 2e-5 : 1e-10;
  for (int q = 0; q < 4; ++q) {
    D3 p = c.chance(1, 4) ? P3(x0, (uint) c.below(np)) : rnd3(c, 2);
    R pr[3] = {(R) p[0], (R) p[1], (R) p[2]}; p = {pr[0], pr[1], pr[2]};
    double best = 1e9; for (uint i = 0; i < np; ++i) best = std::min(best, dist(p, P3(x0, i)));
    uint ip = UINT_MAX; R cd = -1; d::BVH_IndPoint_NearestPoint(ip, cd, pr, 0, N, S);
    VP_CHECK(ip < np, "no nearest point found");
    VP_NEAR(dist(p, P3(x0, ip)), best, tol); VP_NEAR((double) cd, best, tol);
    // a search limited to a radius finds the nearest point if that is nearer, else nothing
    R lim = (R) (best * c.uni(0.5, 1.5)) + (R) 1e-3; uint ip1 = UINT_MAX; R cd1 = lim; d::BVH_IndPoint_NearestPoint(ip1, cd1, pr, 0, N, S);
    if (best < lim - tol) { VP_CHECK(ip1 < np, "limited search missed it"); VP_NEAR(dist(p, P3(x0, ip1)), best, tol); }
    if (best > lim + tol) VP_CHECK(ip1 == UINT_MAX, "limited search went beyond its limit");
    c.nontrivial(np > 2);
  }
  c.label("%s", kind.c_str());
}
VP_PROP(points_double, 4000, 80000, "point sets (uniform, lattice, coplanar, duplicated, clustered, collinear; n=1..400): Morton tree, volumes, nearest point vs exhaustive; non-trivial: > 2 points") { points_prop<double>(c); }
VP_PROP(points_float, 3000, 60000, "as points_double in single precision") { points_prop<float>(c); }

// mesh trees -------------------------------------------------------------------------------------------------------
struct Tree { vector<d::CNodeBVH2> N; vector<d::CBV3d_Sphere> S; vector<d::CBV3d_AABB> A; uint root = 0; d::CBVH_MeshTri3D<d::CBV3d_Sphere, double> C; };
static Mesh mesh_for(vp::Case &c) {
  Mesh m = anymesh(c, false); double s = 0; for (double v: m.xyz) s = std::max(s, std::fabs(v)); for (double &v: m.xyz) v /= s + 1e-9;
  if (c.chance(1, 8)) { size_t k = c.below(m.nt()) * 3; for (int r = c.range(1, 3); r--;) { uint t[3] = {m.tri[k], m.tri[k + 1], m.tri[k + 2]}; m.tri.insert(m.tri.end(), t, t + 3); } c.label("repeated triangle"); }
  return m;
}
static void mesh_tree(vp::Case &c, const Mesh &m, Tree &t, double margin, int kind) {
  if (kind == 0) { d::ConstructBVHTriangleMeshMortonCode(t.N, t.S, m.xyz, m.tri); d::ConstructBVHTriangleMeshMortonCode(t.N, t.A, m.xyz, m.tri); }
  else if (kind == 1) { d::BuildBVH_MeshTri3D_Morton(t.N, t.S, m.xyz, m.tri); d::BuildBVH_MeshTri3D_Morton(t.N, t.A, m.xyz, m.tri); }
  else {
    t.C.Init(m.xyz.data(), m.nv(), m.tri.data(), m.nt(), margin); t.N = t.C.aNodeBVH; t.root = t.C.iroot_bvh; t.S = t.C.aBB_BVH;
    d::CLeafVolumeMaker_Mesh<d::CBV3d_AABB, double> lv(margin, m.xyz.data(), m.nv(), m.tri.data(), m.nt(), 3); d::BVH_BuildBVHGeometry(t.A, t.root, t.N, lv);
  }
  check_tree(c, t.N, t.root, m.nt());
  auto pts = [&](uint o, std::function<void(D3)> f) { for (int k = 0; k < 3; ++k) f(P3(m.xyz, m.tri[o * 3 + k])); };
  volumes_hold<double, d::CBV3d_Sphere>(c, t.N, t.S, t.root, pts, out_s<double>);
  volumes_hold<double, d::CBV3d_AABB>(c, t.N, t.A, t.root, pts, out_b<double>);
  if (kind != 2) { t.C.aNodeBVH = t.N; t.C.aBB_BVH = t.S; t.C.iroot_bvh = 0; }
}
VP_PROP(mesh_tree_queries, 3000, 60000, "meshes (grids, closed surfaces, soups, repeated triangles), three tree builders: volume predicates (line, ray, point, distance range) vs leaf-by-leaf, distance range to nearest; non-trivial: > 2 triangles and some but not all leaves hit") {
  Mesh m = mesh_for(c); Tree t; int kind = c.range(0, 2); double mar = c.pick({0.0, 1e-10, 0.05}); mesh_tree(c, m, t, mar, kind);
  c.label("builder%d", kind);
  auto cmp = [&](const char *what, vector<uint> got, std::function<double(uint)> slack) {  // slack(leaf)>0: hit
    std::set<uint> g(got.begin(), got.end()); VP_CHECK(g.size() == got.size(), "%s: object reported twice", what);
    size_t nh = 0;
    for (uint l = 0; l < t.N.size(); ++l) if (t.N[l].ichild[1] == UINT_MAX) {
      double s = slack(l); uint o = t.N[l].ichild[0]; nh += s > 0;
      if (s > 1e-9) VP_CHECK(g.count(o), "%s: leaf of object %u (slack %g) not reported", what, o, s);
      if (s < -1e-9) VP_CHECK(!g.count(o), "%s: leaf of object %u (slack %g) wrongly reported", what, o, s);
    }
    c.nontrivial(m.nt() > 2 && nh > 0 && nh < m.nt());
  };
  for (int rep = 0; rep < 3; ++rep) {
    D3 s = rnd3(c, 1.5), e = c.flip() ? P3(m.xyz, (uint) c.below(m.nv())) : rnd3(c, 1); D3 dr = e - s; if (norm(dr) < 0.05) dr = {1, 0, 0};
    if (c.flip()) dr = unit(dr);
    vector<uint> g;
    d::BVH_GetIndElem_Predicate(g, d::CIsBV_IntersectLine<d::CBV3d_Sphere, double>(s.data(), dr.data()), t.root, t.N, t.S);
    auto C = [&](uint l) { return D3{t.S[l].c[0], t.S[l].c[1], t.S[l].c[2]}; };
    cmp("line", g, [&](uint l) { D3 q = C(l) - s; return t.S[l].r - norm(cross(q, dr)) / norm(dr); });
    g.clear(); d::BVH_GetIndElem_Predicate(g, d::CIsBV_IntersectRay<d::CBV3d_Sphere>(s.data(), dr.data()), t.root, t.N, t.S);
    cmp("ray", g, [&](uint l) { D3 q = C(l) - s; double tt = std::max(0.0, dot(q, dr) / dot(dr, dr)); return t.S[l].r - dist(q, tt * dr); });
    g.clear(); d::BVH_GetIndElem_Predicate(g, d::CIsBV_IncludePoint<d::CBV3d_Sphere>(e.data()), t.root, t.N, t.S);
    cmp("point in sphere", g, [&](uint l) { return t.S[l].r - dist(C(l), e); });
    g.clear(); d::BVH_GetIndElem_Predicate(g, d::CIsBV_IncludePoint<d::CBV3d_AABB>(e.data()), t.root, t.N, t.A);
    cmp("point in box", g, [&](uint l) { return -out_b(t.A[l], e); });
    double lo = c.uni(0, 2), hi = lo + c.uni(0, 1);
    g.clear(); d::BVH_GetIndElem_Predicate(g, d::CIsBV_InsideRange<d::CBV3d_Sphere>(s.data(), lo, hi), t.root, t.N, t.S);
    cmp("range", g, [&](uint l) { double L = dist(C(l), s), a = std::max(0.0, L - t.S[l].r), b = L + t.S[l].r; return std::min(b - lo, hi - a); });
    double mn = 1, mx = -1; d::BVH_Range_DistToNearestPoint(mn, mx, s.data(), t.root, t.N, t.S);
    double rmn = 1e9, rmx = 1e9; for (uint l = 0; l < t.N.size(); ++l) if (t.N[l].ichild[1] == UINT_MAX) { double L = dist(C(l), s); rmn = std::min(rmn, std::max(0.0, L - t.S[l].r)); rmx = std::min(rmx, L + t.S[l].r); }
    VP_NEAR(mn, rmn, 1e-9); VP_NEAR(mx, rmx, 1e-9);
  }
}
static D3 A3(const std::array<double, 3> &a) { return {a[0], a[1], a[2]}; }
VP_PROP(mesh_nearest, 3000, 60000, "nearest point on a mesh through the tree, through exhaustive search and within an explored radius vs reference closest point; also after moving the vertices and updating the tree; non-trivial: > 2 triangles") {
  Mesh m = mesh_for(c); Tree t; int kind = c.range(0, 2); double mar = c.pick({0.0, 0.05, 0.3}); mesh_tree(c, m, t, mar, kind);
  if (kind == 2 && c.flip()) {
    for (double &v: m.xyz) v += c.sym(0.5);
    t.C.UpdateGeometry(m.xyz.data(), m.nv(), m.tri.data(), m.nt(), mar); c.label("updated");
    auto pts = [&](uint o, std::function<void(D3)> f) { for (int k = 0; k < 3; ++k) f(P3(m.xyz, m.tri[o * 3 + k])); };
    volumes_hold<double, d::CBV3d_Sphere>(c, t.C.aNodeBVH, t.C.aBB_BVH, t.C.iroot_bvh, pts, out_s<double>);
  }
  for (size_t i = 0; i < m.nt(); ++i) if (norm(cross(P3(m.xyz, m.tri[i * 3 + 1]) - P3(m.xyz, m.tri[i * 3]), P3(m.xyz, m.tri[i * 3 + 2]) - P3(m.xyz, m.tri[i * 3]))) < 1e-3) c.discard();
  for (int rep = 0; rep < 4; ++rep) {
    D3 p = rnd3(c, 1.5); if (c.chance(1, 4)) p = P3(m.xyz, m.tri[c.below(m.tri.size())]) + rnd3(c, 0.05);
    vector<double> dt(m.nt()); double best = 1e9;
    for (size_t i = 0; i < m.nt(); ++i) { dt[i] = dist(p, near_tri(p, P3(m.xyz, m.tri[i * 3]), P3(m.xyz, m.tri[i * 3 + 1]), P3(m.xyz, m.tri[i * 3 + 2]))); best = std::min(best, dt[i]); }
    CV P(p[0], p[1], p[2]);
    auto pe = t.C.NearestPoint_Global(P, m.xyz, m.tri);
    VP_CHECK(pe.itri < m.nt() && pe.Check(m.xyz, m.tri, 1e-6), "point not on its triangle: %u %g %g", pe.itri, pe.r0, pe.r1);
    VP_NEAR(dist(p, A3(pe.PositionOnMeshTri3(m.xyz, m.tri))), best, 1e-7);
    auto pb = d::Nearest_Point_MeshTri3D(P, m.xyz, m.tri);
    VP_NEAR(dist(p, A3(pb.PositionOnMeshTri3(m.xyz, m.tri))), best, 1e-7);
    double rad = c.pick({0.0, 0.2, 1.0}); d::PointOnSurfaceMesh<double> pi;
    double r = t.C.Nearest_Point_IncludedInBVH(pi, P, rad, m.xyz.data(), m.nv(), m.tri.data(), m.nt());
    double bin = 1e9, bv = rad; bool amb = false;
    for (uint l = 0; l < t.C.aNodeBVH.size(); ++l) if (t.C.aNodeBVH[l].ichild[1] == UINT_MAX) {
      double e = out_s(t.C.aBB_BVH[l], p); if (std::fabs(e) < 1e-9) amb = true;
      if (e < 0) bin = std::min(bin, dt[t.C.aNodeBVH[l].ichild[0]]); else bv = std::min(bv, e);
    }
    if (amb) continue;
    if (bin < 1e8) { VP_CHECK(pi.itri < m.nt(), "included triangle missed"); VP_NEAR(r, bin, 1e-7); VP_NEAR(dist(p, A3(pi.PositionOnMeshTri3(m.xyz, m.tri))), bin, 1e-7); c.label("inside a volume"); }
    else { VP_CHECK(pi.itri == UINT_MAX, "triangle %u reported though no volume holds the point", pi.itri); VP_NEAR(r, bv, 1e-9); }
    c.nontrivial(m.nt() > 2);
  }
}
VP_PROP(mesh_ray, 4000, 80000, "rays against meshes: first hit through Morton trees and exhaustive ray hits vs reference ray/triangle test; rays passing within 1e-6 of an edge or parallel are skipped; non-trivial: the ray hits something") {
  Mesh m = mesh_for(c); Tree t; mesh_tree(c, m, t, 0, c.range(0, 1));
  for (int rep = 0; rep < 3; ++rep) {
    D3 s = rnd3(c, 2), e = c.flip() ? rnd3(c, 1) : P3(m.xyz, m.tri[c.below(m.tri.size())]) + rnd3(c, 0.2), dr = e - s; if (norm(dr) < 0.1) continue;
    dr = (c.flip() ? 1 / norm(dr) : 1.0) * dr;
    std::multimap<double, uint> hits; bool amb = false;
    for (uint i = 0; i < m.nt(); ++i) {
      double de, ma; D3 a = P3(m.xyz, m.tri[i * 3]), b = P3(m.xyz, m.tri[i * 3 + 1]), g = P3(m.xyz, m.tri[i * 3 + 2]), n = cross(b - a, g - a);
      if (norm(n) < 1e-3 || std::fabs(dot(n, dr)) < 1e-3 * norm(n) * norm(dr)) { amb = true; break; }
      ray_tri(s, dr, a, b, g, de, ma);
      if (std::fabs(ma) < 1e-6 || (ma > 0 && std::fabs(de) < 1e-6)) { amb = true; break; }
      if (ma > 0 && de > 0) hits.insert({de, i});
    }
    if (amb) continue;
    d::PointOnSurfaceMesh<double> pm; bool h = d::Intersection_Ray3_Tri3_Bvh(pm, CV(s[0], s[1], s[2]), CV(dr[0], dr[1], dr[2]), m.xyz, m.tri, t.N, t.S);
    VP_CHECK(h == !hits.empty(), "hit %d, expected %zu hits", h, hits.size());
    if (h) {
      D3 q = A3(pm.PositionOnMeshTri3(m.xyz, m.tri)); VP_NEAR(dist(q, s + hits.begin()->first * dr), 0, 1e-7); VP_CHECK(pm.Check(m.xyz, m.tri, 1e-6), "hit outside its triangle");
      c.nontrivial();
    }
    std::map<double, d::PointOnSurfaceMesh<double>> mp; d::IntersectionRay_MeshTri3(mp, CV(s[0], s[1], s[2]), CV(dr[0], dr[1], dr[2]), m.tri, m.xyz, 0.0);
    bool same = false; { auto i = hits.begin(); for (; i != hits.end() && std::next(i) != hits.end(); ++i) if (std::next(i)->first - i->first < 1e-9) same = true; }
    if (!same) { auto i = mp.begin(); auto j = hits.begin(); for (; i != mp.end() && j != hits.end(); ++i, ++j) VP_NEAR(dist(A3(i->second.PositionOnMeshTri3(m.xyz, m.tri)), s + j->first * dr), 0, 1e-7); VP_CHECK(i == mp.end() && j == hits.end(), "%zu hits, expected %zu", mp.size(), hits.size()); }
  }
}
VP_PROP(mesh_sdf, 2500, 50000, "signed distance to closed star-shaped surfaces: magnitude vs exhaustive, sign vs winding number (points whose probing ray passes within 1e-6 of an edge are skipped for the sign); non-trivial: point inside the surface") {
  Mesh m = star(c, 4, 0.3); Tree t; mesh_tree(c, m, t, 0, c.range(0, 2));
  vector<double> nrm(m.xyz.size()); d::Normal_MeshTri3D(nrm.data(), m.xyz.data(), m.nv(), m.tri.data(), m.nt());
  for (int rep = 0; rep < 4; ++rep) {
    D3 p = rnd3(c, 1.5); double best = 1e9; uint bi = 0;
    for (uint i = 0; i < m.nt(); ++i) { double dd = dist(p, near_tri(p, P3(m.xyz, m.tri[i * 3]), P3(m.xyz, m.tri[i * 3 + 1]), P3(m.xyz, m.tri[i * 3 + 2]))); if (dd < best) { best = dd; bi = i; } }
    CV n0; double s = t.C.SignedDistanceFunction(n0, CV(p[0], p[1], p[2]), m.xyz, m.tri, nrm);
    VP_NEAR(std::fabs(s), best, 1e-7);
    VP_NEAR(norm(D3{n0.p[0], n0.p[1], n0.p[2]}), 1, 1e-6);
    if (best < 1e-4) continue;
    // the probing ray goes through the centre of some nearest triangle: skip if any candidate ray is ambiguous
    bool amb = false;
    for (uint i = 0; i < m.nt() && !amb; ++i) {
      D3 q = near_tri(p, P3(m.xyz, m.tri[i * 3]), P3(m.xyz, m.tri[i * 3 + 1]), P3(m.xyz, m.tri[i * 3 + 2])); if (dist(p, q) > best + 1e-9) continue;
      D3 g = (1. / 3) * (P3(m.xyz, m.tri[i * 3]) + P3(m.xyz, m.tri[i * 3 + 1]) + P3(m.xyz, m.tri[i * 3 + 2])), dr = g - p;
      for (uint j = 0; j < m.nt(); ++j) { double de, ma; D3 a = P3(m.xyz, m.tri[j * 3]), b = P3(m.xyz, m.tri[j * 3 + 1]), e = P3(m.xyz, m.tri[j * 3 + 2]); if (!ray_tri(p, dr, a, b, e, de, ma) || std::fabs(dot(unit(cross(b - a, e - a)), unit(dr))) < 1e-4 || std::fabs(ma) < 1e-6) amb = true; }
    }
    if (amb) { c.label("ambiguous ray"); continue; }
    double w = winding(m, p); bool in = w > 0.5; c.nontrivial(in);
    VP_CHECK((s > 0) == in, "signed distance %g at (%.17g,%.17g,%.17g), winding %g", s, p[0], p[1], p[2], w);
    // moving by -s along n0... the normal is the direction in which the distance grows towards the outside
    D3 nn{n0.p[0], n0.p[1], n0.p[2]}; D3 q = p + s * nn; double dq = 1e9; for (uint i = 0; i < m.nt(); ++i) dq = std::min(dq, dist(q, near_tri(q, P3(m.xyz, m.tri[i * 3]), P3(m.xyz, m.tri[i * 3 + 1]), P3(m.xyz, m.tri[i * 3 + 2]))));
    VP_NEAR(dq, 0, 1e-6);
  }
}
VP_PROP(image_rays, 300, 4000, "ray image of a mesh through a tree, serial and parallel, of any width and height: every pixel equals the single-ray query; non-trivial: some pixels hit") {
  Mesh m = mesh_for(c); Tree t; mesh_tree(c, m, t, 0, c.range(0, 1));
  uint nh = c.range(1, 12), nw = c.range(1, 12); double mvp[16]; auto R = rotation(c); double sc = c.uni(0.5, 1);
  for (int i = 0; i < 16; ++i) mvp[i] = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) mvp[j * 4 + i] = sc * R[i * 3 + j]; mvp[15] = 1;
  vector<d::PointOnSurfaceMesh<double>> a, b;
  d::Intersection_ImageRay_TriMesh3(a, nh, nw, mvp, t.N, t.S, m.xyz, m.tri, false);
  d::Intersection_ImageRay_TriMesh3(b, nh, nw, mvp, t.N, t.S, m.xyz, m.tri, true);
  auto inv = d::Inverse_Mat4(mvp); VP_CHECK(a.size() == nh * nw && b.size() == nh * nw, "sizes");
  for (uint ih = 0; ih < nh; ++ih) for (uint iw = 0; iw < nw; ++iw) {
    auto ray = d::RayFromInverseMvpMatrix(inv.data(), iw, ih, nw, nh); d::PointOnSurfaceMesh<double> p; d::Intersection_Ray3_Tri3_Bvh(p, ray.first, ray.second, m.xyz, m.tri, t.N, t.S);
    uint k = ih * nw + iw;
    VP_CHECK(a[k].itri == p.itri && a[k].r0 == p.r0 && a[k].r1 == p.r1, "serial pixel %u,%u", ih, iw);
    VP_CHECK(b[k].itri == p.itri && b[k].r0 == p.r0 && b[k].r1 == p.r1, "parallel pixel %u,%u of %ux%u", ih, iw, nh, nw);
    c.nontrivial(p.itri != UINT_MAX);
  }
}
