// SCALE: 3 8
#include "common.hpp"
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_polygon2.h"
#include "delfem2/dtri_topology.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/dtri3_v3dtri.h"
using namespace ref;
namespace d = delfem2;
using T3 = array<uint, 3>;
using Po = vector<d::CDynPntSur>;
using Tr = vector<d::CDynTri>;
static T3 canon(uint a, uint b, uint c) { if (a < b && a < c) return {a, b, c}; if (b < c) return {b, c, a}; return {c, a, b}; }
static array<uint, 2> k2(uint a, uint b) { return {a, b}; }
static std::multiset<T3> tris(const Tr &t) { std::multiset<T3> r; for (auto &x: t) r.insert(canon(x.v[0], x.v[1], x.v[2])); return r; }
using DE = std::map<array<uint, 2>, uint>;  // directed edge -> triangle
static DE edges(const Tr &t) { DE m; for (uint i = 0; i < t.size(); ++i) for (int k = 0; k < 3; ++k) m[k2(t[i].v[k], t[i].v[(k + 1) % 3])] = i; return m; }
static void consistent(vp::Case &c, const Po &po, const Tr &t, const char *op) {
  DE m = edges(t); VP_CHECK(m.size() == 3 * t.size(), "%s: an oriented edge belongs to two triangles", op);
  vector<char> used(po.size(), 0);
  for (uint i = 0; i < t.size(); ++i) for (int k = 0; k < 3; ++k) {
    VP_CHECK(t[i].v[k] < po.size(), "%s: triangle %u refers to point %u", op, i, t[i].v[k]); used[t[i].v[k]] = 1;
    auto it = m.find(k2(t[i].v[(k + 2) % 3], t[i].v[(k + 1) % 3])); uint want = it == m.end() ? UINT_MAX : it->second;
    VP_CHECK(t[i].s2[k] == want, "%s: triangle %u edge %d: neighbour %u, expected %u", op, i, k, t[i].s2[k], want);
  }
  for (uint p = 0; p < po.size(); ++p) {
    if (used[p]) VP_CHECK(po[p].e < t.size() && po[p].d < 3 && t[po[p].e].v[po[p].d] == p, "%s: point %u stores triangle %u corner %u", op, p, po[p].e, po[p].d);
    else VP_CHECK(po[p].e == UINT_MAX, "%s: unused point %u stores triangle %u", op, p, po[p].e);
  }
}
struct Nb { std::map<uint, std::set<uint>> pp; std::map<uint, int> val; std::set<uint> bnd; };
static Nb nb(const Tr &t) {
  Nb r; DE m = edges(t);
  for (auto &e: m) { uint a = e.first[0], b = e.first[1]; r.pp[a].insert(b); r.pp[b].insert(a); if (!m.count(k2(b, a))) { r.bnd.insert(a); r.bnd.insert(b); } }
  for (auto &x: t) for (uint v: x.v) r.val[v]++;
  return r;
}
static void edit(vp::Case &c, Po &po, Tr &t, int nop, int &nontriv) {
  for (int op = 0; op < nop && !t.empty(); ++op) {
    auto before = tris(t); const Tr t0 = t; const Po p0 = po; Nb n = nb(t);
    uint it = (uint) c.below(t.size()), ie = (uint) c.below(3); const d::CDynTri A = t[it]; uint jt = A.s2[ie];
    uint W = A.v[ie], X = A.v[(ie + 1) % 3], Z = A.v[(ie + 2) % 3], Y = UINT_MAX;
    if (jt != UINT_MAX) for (uint v: t[jt].v) if (v != X && v != Z) Y = v;
    auto drop = [&](uint a, uint b, uint e) { auto i = before.find(canon(a, b, e)); VP_CHECK(i != before.end(), "harness"); before.erase(i); };
    auto put = [&](uint a, uint b, uint e) { before.insert(canon(a, b, e)); };
    int k = c.range(0, 3); bool ok;
    auto unchanged = [&](const char *what) { VP_CHECK(t.size() == t0.size() && po.size() == p0.size(), "%s failed but changed sizes", what); for (uint i = 0; i < t.size(); ++i) for (int q = 0; q < 3; ++q) VP_CHECK(t[i].v[q] == t0[i].v[q] && t[i].s2[q] == t0[i].s2[q], "%s reported failure but changed triangle %u", what, i); for (uint i = 0; i < po.size(); ++i) VP_CHECK(po[i].e == p0[i].e && (po[i].e == UINT_MAX || po[i].d == p0[i].d), "%s reported failure but changed point %u", what, i); };
    if (k == 0) {
      uint ip = (uint) po.size(); po.emplace_back(); ok = d::InsertPoint_Elem(ip, it, po, t); VP_CHECK(ok, "InsertPoint_Elem refused");
      drop(A.v[0], A.v[1], A.v[2]); for (int q = 0; q < 3; ++q) put(ip, A.v[q], A.v[(q + 1) % 3]);
    } else if (k == 1) {
      if (jt == UINT_MAX) continue;
      uint ip = (uint) po.size(); po.emplace_back(); ok = d::InsertPoint_ElemEdge(ip, it, ie, po, t); VP_CHECK(ok, "InsertPoint_ElemEdge refused");
      drop(W, X, Z); drop(Y, Z, X); put(ip, Z, W); put(ip, W, X); put(ip, X, Y); put(ip, Y, Z);
    } else if (k == 2) {
      if (jt == UINT_MAX) { ok = d::FlipEdge(it, ie, po, t); VP_CHECK(!ok, "flipped a boundary edge"); unchanged("FlipEdge"); continue; }
      if (n.pp[W].count(Y)) continue;  // the flipped edge would exist twice
      ok = d::FlipEdge(it, ie, po, t); VP_CHECK(ok, "FlipEdge refused an interior edge"); drop(W, X, Z); drop(Y, Z, X); put(W, X, Y); put(W, Y, Z); ++nontriv;
    } else {
      if (jt == UINT_MAX) continue;
      std::set<uint> common; for (uint v: n.pp[X]) if (n.pp[Z].count(v)) common.insert(v);
      bool interior = !n.bnd.count(X) && !n.bnd.count(Z);
      bool must = interior && common.size() == 2 && !(n.val[W] == 3 && !n.bnd.count(W)) && !(n.val[Y] == 3 && !n.bnd.count(Y));
      ok = d::CollapseEdge_MeshDTri(it, ie, po, t);
      if (!ok) { VP_CHECK(!must, "CollapseEdge refused an edge that can be collapsed"); unchanged("CollapseEdge"); c.label("collapse refused"); continue; }
      VP_CHECK(interior || (common.size() == 2), "collapsed an edge it must not"); drop(W, X, Z); drop(Y, Z, X);
      std::multiset<T3> q; for (auto x: before) { for (uint &v: x) if (v == Z) v = X; q.insert(canon(x[0], x[1], x[2])); } before = q; ++nontriv; c.label("collapsed");
      VP_CHECK(po[Z].e == UINT_MAX, "collapsed point still refers to a triangle");
    }
    const char *name[] = {"InsertPoint_Elem", "InsertPoint_ElemEdge", "FlipEdge", "CollapseEdge"};
    VP_CHECK(tris(t) == before, "%s (triangle %u edge %u): the triangles are not those expected", name[k], it, ie);
    consistent(c, po, t, name[k]);
  }
}
static void init(vp::Case &c, const Mesh &m, Po &po, Tr &t) {
  if (c.flip()) { po.resize(3); t.resize(5); }
  d::InitializeMesh(po, t, m.tri.data(), m.nt(), m.nv());
  VP_CHECK(po.size() == m.nv() && t.size() == m.nt(), "sizes"); for (uint i = 0; i < m.nt(); ++i) for (int k = 0; k < 3; ++k) VP_CHECK(t[i].v[k] == m.tri[i * 3 + k], "triangle %u", i);
  consistent(c, po, t, "InitializeMesh");
}
// every look-up agrees with a scan of the triangle list
static void lookups(vp::Case &c, const Po &po, const Tr &t) {
  DE m = edges(t); Nb n = nb(t); uint np = (uint) po.size();
  for (uint p = 0; p < np; ++p) {
    if (po[p].e == UINT_MAX) continue;
    for (int r = 0; r < 3; ++r) {
      uint q = r == 0 && n.pp[p].size() ? *std::next(n.pp[p].begin(), c.below(n.pp[p].size())) : (uint) c.below(np); if (q == p) continue;
      uint a = 77, b = 77, e = 77; bool f = d::FindEdge_LookAroundPoint(a, b, e, p, q, po, t); bool want = m.count(k2(p, q));
      VP_CHECK(f == want, "FindEdge_LookAroundPoint(%u,%u): %d, expected %d", p, q, (int) f, (int) want);
      if (f) VP_CHECK(a == m[k2(p, q)] && t[a].v[b] == p && t[a].v[e] == q, "FindEdge_LookAroundPoint(%u,%u): triangle %u", p, q, a);
      uint a2 = UINT_MAX, e2 = 9; d::FindEdge_LookAllTriangles(a2, e2, p, q, t); VP_CHECK(want ? a2 == m[k2(p, q)] && t[a2].v[e2] == p : a2 == UINT_MAX, "FindEdge_LookAllTriangles(%u,%u)", p, q);
    }
    uint tc = po[p].e, nc = po[p].d; if (d::MoveCCW(tc, nc, UINT_MAX, t)) { uint tb = tc, nb2 = nc; VP_CHECK(d::MoveCW(tb, nb2, UINT_MAX, t) && tb == po[p].e && nb2 == po[p].d, "MoveCW does not undo MoveCCW at point %u", p); VP_CHECK(t[tc].v[nc] == p, "MoveCCW left point %u", p); }
    if (n.bnd.count(p)) continue;
    vector<uint> ring{9}; VP_CHECK(d::FindPointAroundPoint(ring, p, po, t), "FindPointAroundPoint"); 
    for (size_t i = 0; i < ring.size(); ++i) VP_CHECK(m.count(k2(ring[i], ring[(i + 1) % ring.size()])) || m.count(k2(ring[(i + 1) % ring.size()], ring[i])), "ring of %u is not a cycle", p);
    std::sort(ring.begin(), ring.end()); VP_CHECK(ring == vector<uint>(n.pp[p].begin(), n.pp[p].end()), "points around %u", p);
    vector<std::pair<uint, uint>> ta; d::GetTriArrayAroundPoint(ta, p, po, t); std::set<uint> st; for (auto &x: ta) { VP_CHECK(t[x.first].v[x.second] == p, "corner"); st.insert(x.first); }
    VP_CHECK((int) st.size() == n.val[p] && st.size() == ta.size(), "triangles around %u: %zu, expected %d", p, ta.size(), n.val[p]);
  }
  vector<int> ei{4}, es; d::JArray_MakeElSuP(ei, es, t, np); VP_CHECK(ei.size() == np + 1 && es.size() == t.size() * 3 && ei.back() == (int) es.size(), "elsup sizes");
  for (uint p = 0; p < np; ++p) { VP_CHECK(ei[p + 1] - ei[p] == n.val[p], "elsup count %u", p); for (int i = ei[p]; i < ei[p + 1]; ++i) { auto &x = t[es[i]]; VP_CHECK(x.v[0] == p || x.v[1] == p || x.v[2] == p, "elsup %u", p); } }
  vector<int> pi, ps; if (c.flip()) pi.assign(np + 1, 3); d::JArray_PSuP(pi, ps, t, np, ei, es);
  for (uint p = 0; p < np; ++p) { vector<uint> r(ps.begin() + pi[p], ps.begin() + pi[p + 1]); std::sort(r.begin(), r.end()); VP_CHECK(r == vector<uint>(n.pp[p].begin(), n.pp[p].end()), "JArray_PSuP: row %u has %zu points, expected %zu", p, r.size(), n.pp[p].size()); }
  // boundary loops
  vector<vector<int>> H; d::extractHoles(H, (int) np, t); std::set<uint> seen; size_t cnt = 0;
  for (auto &h: H) { for (int v: h) { seen.insert(v); ++cnt; } for (size_t i = 0; i + 1 < h.size(); ++i) VP_CHECK(m.count(k2(h[i], h[i + 1])) && !m.count(k2(h[i + 1], h[i])), "hole does not follow boundary edges"); if (h.size()) VP_CHECK(m.count(k2(h.back(), h[0])), "hole is not closed"); }
  VP_CHECK(seen == n.bnd && cnt == seen.size(), "holes list %zu points, boundary has %zu", cnt, n.bnd.size());
}
static Mesh start(vp::Case &c) {
  int k = c.range(0, 3); Mesh m;
  if (k == 0) m = gridmesh(c.range(1, 5), c.range(1, 5));
  else if (k == 1) m = octasphere(c.range(1, 3));
  else if (k == 2) { m = octasphere(1); for (uint v: {0u, 2u, 1u, 0u, 1u, 3u, 0u, 3u, 2u, 1u, 2u, 3u}) m.tri.push_back(v); m.tri.erase(m.tri.begin(), m.tri.begin() + 24); m.xyz.resize(12); }  // tetrahedron
  else { m = gridmesh(3, 3); for (int q = 0; q < 6; ++q) m.tri.pop_back(); m.tri.erase(m.tri.begin() + 24, m.tri.begin() + 30); } // annulus-like with a hole
  if (c.flip()) { vector<uint> p(m.nv()); for (uint i = 0; i < p.size(); ++i) p[i] = i; c.shuffle(p.begin(), p.end()); vector<double> y(m.xyz.size()); for (uint i = 0; i < p.size(); ++i) for (int q = 0; q < 3; ++q) y[p[i] * 3 + q] = m.xyz[i * 3 + q]; m.xyz = y; for (auto &v: m.tri) v = p[v]; }
  for (uint i = 0; i < m.nt(); ++i) { int r = c.range(0, 2); std::rotate(m.tri.begin() + i * 3, m.tri.begin() + i * 3 + r, m.tri.begin() + i * 3 + 3); }
  return m;
}
VP_PROP(edit_sequence, 16000, 300000, "random sequences of InsertPoint_Elem/InsertPoint_ElemEdge/FlipEdge/CollapseEdge on grids, spheres, a tetrahedron and a holed sheet vs a model that holds the set of oriented triangles; adjacency recomputed after every step; non-trivial: at least 2 flips or collapses succeeded") {
  Mesh m = start(c); Po po; Tr t; init(c, m, po, t); int nt = 0; edit(c, po, t, c.range(1, 14), nt); if (nt >= 2) c.nontrivial();
}
VP_PROP(lookup, 4000, 80000, "look-ups (edge, ring, triangles around a point, incidence arrays, boundary loops) on meshes before and after edits vs scans of the triangle list; non-trivial: mesh was edited") {
  Mesh m = start(c); Po po; Tr t; init(c, m, po, t); int nt = 0; int k = c.range(0, 3); if (k) { edit(c, po, t, k * 3, nt); c.nontrivial(); }
  { Nb n = nb(t); DE e = edges(t); for (uint b: n.bnd) { int deg = 0; for (uint q: n.pp[b]) deg += e.count(k2(b, q)) + e.count(k2(q, b)) == 1; c.assume(deg == 2); } }
  lookups(c, po, t);
}
VP_PROP(delete_tri, 4000, 60000, "deleting isolated triangles from a mesh with several components keeps the other triangles and renumbers adjacency; non-trivial: another triangle was moved") {
  Mesh m = start(c); uint nv = (uint) m.nv(); int ni = c.range(1, 3);
  for (int i = 0; i < ni; ++i) { size_t at = c.below(m.nt() + 1) * 3; uint b = nv + i * 3; vector<uint> x{b, b + 1, b + 2}; m.tri.insert(m.tri.begin() + at, x.begin(), x.end()); for (int k = 0; k < 9; ++k) m.xyz.push_back(0); }
  Po po; Tr t; init(c, m, po, t); auto want = tris(t);
  for (int i = 0; i < ni; ++i) {
    uint it = po[nv + i * 3].e; if (it + 1 < t.size()) c.nontrivial(); VP_CHECK(d::DeleteTri(it, po, t), "DeleteTri refused"); for (int k = 0; k < 3; ++k) po[nv + i * 3 + k].e = UINT_MAX; want.erase(canon(nv + i * 3, nv + i * 3 + 1, nv + i * 3 + 2));
    VP_CHECK(tris(t) == want, "triangles after DeleteTri"); consistent(c, po, t, "DeleteTri");
  }
  size_t n = t.size(); VP_CHECK(d::DeleteTri((uint) n + 3, po, t) && t.size() == n, "out-of-range DeleteTri");
}
VP_PROP(wrappers, 4000, 60000, "CMeshDynTri2D/3D: insertPointElem places the point at the given weights, DeleteTriEdge and Delaunay flips keep the mesh consistent, bounding box and export agree, refinement plans split only long edges inside the circle; non-trivial: a point was inserted") {
  int nx = c.range(1, 5), ny = c.range(1, 5); Mesh m = gridmesh(nx, ny); for (uint i = 0; i < m.nv(); ++i) for (int q = 0; q < 2; ++q) m.xyz[i * 3 + q] += c.sym(0.2);
  bool three = c.flip(); int nop = c.range(1, 10); c.nontrivial();
  if (three) {
    auto R = rotation(c); for (uint i = 0; i < m.nv(); ++i) { D3 p = mul(R, P3(m.xyz, i)); for (int q = 0; q < 3; ++q) m.xyz[i * 3 + q] = p[q]; }
    d::CMeshDynTri3D M; M.Initialize(m.xyz.data(), (int) m.nv(), 3, m.tri.data(), (int) m.nt()); D3 nrm = mul(R, D3{0, 0, 1});
    for (int op = 0; op < nop; ++op) {
      uint it = (uint) c.below(M.nTri()); double a = c.uni(0.1, 0.4), b = c.uni(0.1, 0.4); auto T = M.aETri[it]; D3 w{0, 0, 0}; for (int q = 0; q < 3; ++q) w[q] = a * M.aVec3[T.v[0]].p[q] + b * M.aVec3[T.v[1]].p[q] + (1 - a - b) * M.aVec3[T.v[2]].p[q];
      uint ip = M.insertPointElem((int) it, a, b); VP_CHECK(ip + 1 == M.nPoint() && M.aVec3.size() == M.nPoint(), "point index"); VP_CHECK(dist(w, D3{M.aVec3[ip].x, M.aVec3[ip].y, M.aVec3[ip].z}) < 1e-12, "inserted position");
      if (c.flip()) M.DelaunayAroundPoint((int) ip); consistent(c, M.aEPo, M.aETri, "3D wrapper");
    }
    double A = 0; for (uint i = 0; i < M.nTri(); ++i) { auto &T = M.aETri[i]; D3 p[3]; for (int q = 0; q < 3; ++q) p[q] = {M.aVec3[T.v[q]].x, M.aVec3[T.v[q]].y, M.aVec3[T.v[q]].z}; D3 cr = cross(p[1] - p[0], p[2] - p[0]); VP_CHECK(dot(cr, nrm) > -1e-12, "triangle %u turned over", i); A += norm(cr) / 2;
      if (norm(cr) > 1e-3) { auto u = d::UnitNormal_DTri3(i, M.aETri, M.aVec3); VP_CHECK(dist(D3{u.x, u.y, u.z}, nrm) < 1e-6, "unit normal"); } }
    double A0 = 0; for (uint i = 0; i < m.nt(); ++i) A0 += norm(cross(P3(m.xyz, m.tri[i * 3 + 1]) - P3(m.xyz, m.tri[i * 3]), P3(m.xyz, m.tri[i * 3 + 2]) - P3(m.xyz, m.tri[i * 3]))) / 2;
    VP_NEAR(A, A0, 1e-9 * (1 + A0)); auto bb = M.MinMax_XYZ(); for (int q = 0; q < 3; ++q) { double lo = 1e9, hi = -1e9; for (auto &v: M.aVec3) lo = std::min(lo, v.p[q]), hi = std::max(hi, v.p[q]); VP_CHECK(bb[q * 2] == lo && bb[q * 2 + 1] == hi, "bounding box"); }
    // ray through the plane: hits exactly the triangles containing the point
    uint ti = (uint) c.below(M.nTri()); D3 p{0, 0, 0}; double w[3] = {c.uni(0.2, 1), c.uni(0.2, 1), c.uni(0.2, 1)}; for (int k = 0; k < 3; ++k) for (int q = 0; q < 3; ++q) p[q] += w[k] / (w[0] + w[1] + w[2]) * M.aVec3[M.aETri[ti].v[k]].p[q];
    D3 dir = unit(nrm + 0.3 * rnd3(c, 1)), o = p - 2.0 * dir, e = p + 2.0 * dir; vector<d::CVec3d> hit; bool h = d::FindRayTriangleMeshIntersections(hit, d::CVec3d(o[0], o[1], o[2]), d::CVec3d(e[0], e[1], e[2]), M.aETri, M.aVec3);
    D3 cr; { auto &T = M.aETri[ti]; D3 q[3]; for (int k = 0; k < 3; ++k) q[k] = {M.aVec3[T.v[k]].x, M.aVec3[T.v[k]].y, M.aVec3[T.v[k]].z}; cr = cross(q[1] - q[0], q[2] - q[0]); }
    if (norm(cr) > 1e-2) { VP_CHECK(h && hit.size() == 1, "line through triangle %u: %zu hits", ti, hit.size()); VP_CHECK(dist(p, D3{hit[0].x, hit[0].y, hit[0].z}) < 1e-8, "hit point"); }
    return;
  }
  vector<double> xy; for (uint i = 0; i < m.nv(); ++i) { xy.push_back(m.xyz[i * 3]); xy.push_back(m.xyz[i * 3 + 1]); }
  d::CMeshDynTri2D M; M.Initialize(xy.data(), (int) m.nv(), m.tri.data(), (int) m.nt());
  auto area = [&](const Tr &T, const vector<d::CVec2d> &v) { double A = 0; for (auto &x: T) { double a = area2({v[x.v[0]].x, v[x.v[0]].y}, {v[x.v[1]].x, v[x.v[1]].y}, {v[x.v[2]].x, v[x.v[2]].y}); VP_CHECK(a > -1e-12, "negative triangle"); A += a; } return A; };
  double A0 = area(M.aETri, M.aVec2);
  for (int op = 0; op < nop; ++op) {
    int k = c.range(0, 2);
    if (k == 0) { uint it = (uint) c.below(M.nTri()); double a = c.uni(0.1, 0.4), b = c.uni(0.1, 0.4); auto T = M.aETri[it]; auto w = a * M.aVec2[T.v[0]] + b * M.aVec2[T.v[1]] + (1 - a - b) * M.aVec2[T.v[2]]; int ip = M.insertPointElem((int) it, a, b); VP_CHECK(std::hypot(M.aVec2[ip].x - w.x, M.aVec2[ip].y - w.y) < 1e-12, "position"); if (c.flip()) M.DelaunayAroundPoint(ip); }
    else if (k == 1) M.DelaunayAroundPoint((int) c.below(M.nPoint()));
    else {
      double px = c.uni(0, nx), py = c.uni(0, ny), rad = c.uni(0.3, 2), el = c.uni(0.4, 2); std::set<array<uint, 2>> want; bool close = false;
      for (auto &x: M.aETri) { double cx = 0, cy = 0; for (uint v: x.v) cx += M.aVec2[v].x / 3, cy += M.aVec2[v].y / 3; double r = std::hypot(cx - px, cy - py); if (std::abs(r - rad) < 1e-4) close = true; if (r < rad) for (int q = 0; q < 3; ++q) { uint a = x.v[q], b = x.v[(q + 1) % 3]; double l = std::hypot(M.aVec2[a].x - M.aVec2[b].x, M.aVec2[a].y - M.aVec2[b].y); if (l > el) want.insert(k2(std::min(a, b), std::max(a, b))); } }
      d::CCmdRefineMesh cmd; auto old = M.aVec2; size_t n0 = M.nPoint(), nfree = 0; for (auto &p: M.aEPo) nfree += p.e == UINT_MAX; M.RefinementPlan_EdgeLongerThan_InsideCircle(cmd, el, px, py, rad); if (close) continue;
      std::set<array<uint, 2>> got; for (auto &e: cmd.aCmdEdge) got.insert(k2(e.ipo0, e.ipo1)); VP_CHECK(got == want && cmd.aCmdEdge.size() == want.size(), "planned %zu edges, expected %zu", got.size(), want.size()); VP_CHECK(M.nPoint() == std::max(n0, n0 + want.size() - std::min(want.size(), nfree)), "points after refinement: %zu", M.nPoint());
      vector<double> val(M.nPoint() * 2); for (size_t i = 0; i < n0; ++i) val[i * 2] = old[i].x, val[i * 2 + 1] = old[i].y; cmd.Interpolate(val.data(), (int) M.nPoint(), 2);
      for (auto &e: cmd.aCmdEdge) { auto &p = M.aVec2[e.ipo_new]; VP_CHECK(std::hypot(p.x - (old[e.ipo0].x + old[e.ipo1].x) / 2, p.y - (old[e.ipo0].y + old[e.ipo1].y) / 2) < 1e-12, "mid point"); VP_CHECK(std::hypot(p.x - val[e.ipo_new * 2], p.y - val[e.ipo_new * 2 + 1]) < 1e-12, "interpolated value"); }
      if (want.size()) c.label("refined");
    }
    // a point on the boundary edge may stay unconnected: the mesh itself must stay consistent
    consistent(c, M.aEPo, M.aETri, "2D wrapper"); VP_NEAR(area(M.aETri, M.aVec2), A0, 1e-9 * (1 + A0));
  }
  vector<double> ox; vector<uint> ot; M.Export_StlVectors(ox, ot); VP_CHECK(ox.size() == M.nPoint() * 2 && ot.size() == M.nTri() * 3, "export sizes"); for (uint i = 0; i < M.nTri(); ++i) for (int q = 0; q < 3; ++q) VP_CHECK(ot[i * 3 + q] == M.aETri[i].v[q], "export");
  vector<double> cx{1}; vector<uint> ct; d::CMeshTri2D(cx, ct, M.aVec2, M.aETri); VP_CHECK(cx == ox && ct == ot, "two exports differ");
  double lo, hi; d::MinMaxTriArea(lo, hi, M.aVec2, M.aETri); double l2 = 1e9, h2 = -1e9; for (auto &x: M.aETri) { double a = area2({M.aVec2[x.v[0]].x, M.aVec2[x.v[0]].y}, {M.aVec2[x.v[1]].x, M.aVec2[x.v[1]].y}, {M.aVec2[x.v[2]].x, M.aVec2[x.v[2]].y}); l2 = std::min(l2, a); h2 = std::max(h2, a); } VP_NEAR(lo, l2, 1e-12); VP_NEAR(hi, h2, 1e-12);
  vector<double> im; double rho = c.uni(0.5, 3); d::MakeInvMassLumped_Tri(im, rho, M.aVec2, M.aETri); double tm = 0; for (double v: im) if (v > 1e-9) tm += 1 / v; VP_NEAR(tm, rho * A0, 1e-6 * (1 + A0));
}
