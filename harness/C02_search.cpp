// SCALE: 6 6
#include "common.hpp"
#include "delfem2/vec3.h"
#include "delfem2/srch_kdtree.h"
#include "delfem2/srch_kdtree_tri.h"
#include "delfem2/srchgrid.h"
#include "delfem2/srch_bruteforce.h"
#include "delfem2/msh_topology_uniform.h"
using namespace ref;
namespace d = delfem2;
using CV = d::CVec3d;
static CV V(D3 p) { return {p[0], p[1], p[2]}; }
static D3 D(const CV &p) { return {p.p[0], p.p[1], p.p[2]}; }

static vector<D3> pts(vp::Case &c, int maxn) {
  int n = c.chance(1, 15) ? c.range(100, 500) : c.range(1, maxn), k = c.range(0, 4); vector<D3> v; D3 ctr = rnd3(c, 1);
  for (int i = 0; i < n; ++i) {
    D3 p = rnd3(c, 1);
    if (k == 1) for (auto &x: p) x = std::round(x * 2) / 2;
    if (k == 2) p[c.below(3)] = 0.25;
    if (k == 3 && i && c.flip()) p = v[c.below(i)];
    if (k == 4 && c.flip()) p = ctr + 1e-3 * p;
    v.push_back(p);
  }
  return v;
}
struct Free { d::KDTNodePoint<CV> *r; static void f(d::KDTNodePoint<CV> *n) { if (n) { f(n->leftChild); f(n->rightChild); delete n; } } ~Free() { f(r); } };
VP_PROP(kdtree_points, 20000, 300000, "point sets (uniform, lattice, planar, duplicates, clusters; n=1..500) and queries: nearest by k-d tree vs exhaustive, tree holds every point; non-trivial: >= 4 points") {
  auto p = pts(c, 40); vector<CV> P; for (auto &q: p) P.push_back(V(q));
  Free T{d::ConstructKDT(P)};
  std::multiset<D3> a(p.begin(), p.end()), b; vector<const d::KDTNodePoint<CV> *> st{T.r};
  while (!st.empty()) { auto n = st.back(); st.pop_back(); b.insert(D(n->separator)); for (auto ch: {n->leftChild, n->rightChild}) if (ch) { VP_CHECK(ch->parent == n, "parent link"); st.push_back(ch); } }
  VP_CHECK(a == b, "tree holds %zu points of %zu, or others", b.size(), a.size());
  for (int r = 0; r < 6; ++r) {
    D3 q = c.chance(1, 5) ? p[c.below(p.size())] : c.flip() ? rnd3(c, 2) : D3{c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)};
    double best = 1e9; for (auto &x: p) best = std::min(best, dist(x, q));
    D3 f = D(d::SearchNearstPoint(T.r, V(q)));
    VP_CHECK(a.count(f), "answer is no point of the set");
    VP_NEAR(dist(f, q), best, 1e-12);
  }
  c.nontrivial(p.size() >= 4);
}
VP_PROP(kdtree_triangles, 20000, 300000, "triangle soups with mixed sizes: every nearest triangle candidate list must hold a nearest triangle, without repeats; non-trivial: >= 3 triangles") {
  Mesh m = anymesh(c, false);
  if (c.flip()) { m = Mesh(); int n = c.range(1, 40); double big = c.logreal(0.05, 2); for (int i = 0; i < n; ++i) { D3 o = rnd3(c, 1); double s = c.chance(1, 4) ? big : 0.1; for (int k = 0; k < 3; ++k) { m.tri.push_back(m.nv()); push(m.xyz, o + rnd3(c, s)); } } c.label("mixed sizes"); }
  vector<CV> P; for (uint i = 0; i < m.nv(); ++i) P.push_back(V(P3(m.xyz, i)));
  d::KDTTriangle<CV, double> T(P, m.tri);
  for (int r = 0; r < 4; ++r) {
    D3 q = c.flip() ? rnd3(c, 2) : P3(m.xyz, m.tri[c.below(m.tri.size())]) + rnd3(c, 0.1);
    vector<double> dt(m.nt()); double best = 1e9; for (size_t i = 0; i < m.nt(); ++i) { dt[i] = dist(q, near_tri(q, P3(m.xyz, m.tri[i * 3]), P3(m.xyz, m.tri[i * 3 + 1]), P3(m.xyz, m.tri[i * 3 + 2]))); best = std::min(best, dt[i]); }
    auto cand = T.SearchNearest(V(q)); std::set<uint> s(cand.begin(), cand.end()); double bc = 1e9;
    for (uint i: cand) { VP_CHECK(i < m.nt(), "candidate %u of %zu", i, m.nt()); bc = std::min(bc, dt[i]); }
    VP_CHECK(!cand.empty(), "no candidate");
    VP_CHECK(bc <= best + 1e-9, "nearest triangle at %.12g, best candidate at %.12g of %zu candidates in %zu triangles", best, bc, s.size(), m.nt());
    VP_CHECK(s.size() == cand.size(), "candidate repeated");
    c.nontrivial(m.nt() >= 3);
  }
}
VP_PROP(search_grid, 15000, 200000, "points in and around a box, cell sizes, histories of moves followed by grid updates: one-ring query returns exactly the objects of the adjacent cells and hence all within the cell size; non-trivial: >= 5 objects and >= 1 move") {
  double h = c.pick({0.1, 0.25, 0.5, 1.0, 3.0}) * (c.flip() ? 1 : c.uni(0.7, 1.3)), bmin[3], bmax[3];
  for (int k = 0; k < 3; ++k) { bmin[k] = c.real(-1, 0); bmax[k] = bmin[k] + c.pick({0.3, 1.0, 1.7}); }
  int n = c.range(0, 40), moves = c.range(0, 4); vector<D3> p(n);
  d::SearchGrid g; if (c.chance(1, 4)) { double b0[3] = {0, 0, 0}, b1[3] = {2, 2, 2}; g.Initialize(b0, b1, 0.4, c.range(0, 9)); }
  g.Initialize(bmin, bmax, h, n);
  auto place = [&](D3 &q) { for (int k = 0; k < 3; ++k) q[k] = c.chance(1, 8) ? c.uni(bmin[k] - 1, bmax[k] + 1) : c.real(bmin[k], bmax[k]); };
  auto cell = [&](D3 q, int *o) { int nn[3]; for (int k = 0; k < 3; ++k) { nn[k] = (int) std::ceil((bmax[k] - bmin[k]) / h); o[k] = std::min(std::max((int) std::floor((q[k] - bmin[k]) / h), 0), nn[k] - 1); } };
  for (int mv = 0; mv <= moves; ++mv) {
    if (mv == 0) for (auto &q: p) place(q); else for (auto &q: p) if (c.chance(1, 3)) place(q);
    if (mv == 0) for (int i = 0; i < n; ++i) { g.aGrid2Obj[i].igrid = g.GetGridIndex(p[i].data()); g.aGrid2Obj[i].iobj = i; }
    else for (auto &e: g.aGrid2Obj) e.igrid = g.GetGridIndex(p[e.iobj].data());  // as the examples do
    g.PostProcess(mv == 0);
    for (int r = 0; r < 3; ++r) {
      D3 q; place(q); if (n && c.flip()) q = p[c.below(n)];
      vector<uint> got{7, 7}; g.GetOneRingNeighbor(got, q.data()); int cq[3]; cell(q, cq);
      std::set<uint> s(got.begin(), got.end()); VP_CHECK(s.size() == got.size(), "object returned twice");
      for (int i = 0; i < n; ++i) {
        int ci[3]; cell(p[i], ci); bool in = std::max({std::abs(ci[0] - cq[0]), std::abs(ci[1] - cq[1]), std::abs(ci[2] - cq[2])}) <= 1;
        VP_CHECK(in == (s.count(i) > 0), "object %d: adjacent %d returned %d", i, in, (int) s.count(i));
        if (dist(p[i], q) < h * (1 - 1e-9)) VP_CHECK(s.count(i), "object %d within the cell size missed", i);
      }
      for (uint i: s) VP_CHECK(i < (uint) n, "object index");
    }
  }
  c.nontrivial(n >= 5 && moves >= 1);
}
VP_PROP(highfield, 20000, 300000, "height fields of any width and height, lines through a random point of the surface: the surface point is found and every reported point lies on the line and the surface; non-trivial: nx != ny") {
  uint nx = c.range(2, 7), ny = c.range(2, 7); vector<float> h(nx * ny); double a = c.pick({0.0, 0.5, 2.0}); for (auto &v: h) v = (float) c.sym(a);
  // a point on a random cell half
  uint iex = c.below(nx - 1), iey = c.below(ny - 1); int half = c.range(0, 1); double r0 = c.uni(0.05, 0.9), r1 = c.uni(0.05, 0.95 - r0 > 0.05 ? 0.95 - r0 : 0.05);
  auto P = [&](uint i, uint j) { return D3{(double) i, (double) j, h[j * nx + i]}; };
  D3 A = P(iex, iey), B = half ? P(iex + 1, iey + 1) : P(iex + 1, iey), C = half ? P(iex, iey + 1) : P(iex + 1, iey + 1), S = r0 * A + r1 * B + (1 - r0 - r1) * C;
  D3 dr = rnd3(c, 1); dr[2] += dr[2] < 0 ? -0.5 : 0.5; D3 n = cross(B - A, C - A); if (std::fabs(dot(n, dr)) < 0.05 * norm(n) * norm(dr)) c.discard();
  D3 src = S + c.sym(3) * dr;
  vector<d::PointOnSurfaceMesh<double>> o; d::IntersectionLine_Hightfield(o, src.data(), dr.data(), nx, ny, h);
  bool hit = false;
  for (auto &p: o) { auto q = p.PositionOnGrid2(nx, ny, 1.0, h); D3 Q{q[0], q[1], q[2]}; VP_NEAR(norm(cross(Q - src, dr)) / norm(dr), 0, 1e-6); if (dist(Q, S) < 1e-7) hit = true; VP_CHECK(p.r0 > -2e-3 && p.r1 > -2e-3 && p.r0 + p.r1 < 1 + 2e-3, "outside of cell"); }
  VP_CHECK(hit, "the surface point in cell %u %u half %d was missed (%zu reported)", iex, iey, half, o.size());
  c.nontrivial(nx != ny);
}
VP_PROP(connected_in_sphere, 6000, 100000, "meshes, a start triangle and a sphere: triangles reached through triangles touching the sphere vs reference flood; non-trivial: some but not all triangles") {
  Mesh m = anymesh(c, true); vector<uint> adj; d::ElSuEl_MeshElem(adj, m.tri.data(), m.nt(), d::MESHELEM_TRI, m.nv());
  for (size_t i = 0; i < m.nt(); ++i) if (norm(cross(P3(m.xyz, m.tri[i * 3 + 1]) - P3(m.xyz, m.tri[i * 3]), P3(m.xyz, m.tri[i * 3 + 2]) - P3(m.xyz, m.tri[i * 3]))) < 1e-3) c.discard();
  uint t0 = c.below(m.nt()); D3 q = P3(m.xyz, m.tri[t0 * 3 + c.below(3)]) + rnd3(c, 0.4); double rad = c.uni(0, 2);
  vector<double> dt(m.nt()); for (size_t i = 0; i < m.nt(); ++i) { dt[i] = dist(q, near_tri(q, P3(m.xyz, m.tri[i * 3]), P3(m.xyz, m.tri[i * 3 + 1]), P3(m.xyz, m.tri[i * 3 + 2]))); if (std::fabs(dt[i] - rad) < 1e-9) c.discard(); }
  auto got = d::IndexesOfConnectedTriangleInSphere(q, rad, t0, m.xyz, m.tri, adj);
  // reference: edge adjacency from the connectivity
  std::map<std::pair<uint, uint>, vector<uint>> ed; for (uint t = 0; t < m.nt(); ++t) for (int k = 0; k < 3; ++k) { uint a = m.tri[t * 3 + k], b = m.tri[t * 3 + (k + 1) % 3]; ed[{std::min(a, b), std::max(a, b)}].push_back(t); }
  std::set<uint> ref; vector<uint> st; if (dt[t0] <= rad) { ref.insert(t0); st.push_back(t0); }
  while (!st.empty()) { uint t = st.back(); st.pop_back(); for (int k = 0; k < 3; ++k) { uint a = m.tri[t * 3 + k], b = m.tri[t * 3 + (k + 1) % 3]; for (uint u: ed[{std::min(a, b), std::max(a, b)}]) if (dt[u] <= rad && ref.insert(u).second) st.push_back(u); } }
  VP_CHECK(std::set<uint>(got.begin(), got.end()) == ref && got.size() == ref.size(), "%zu triangles, expected %zu", got.size(), ref.size());
  c.nontrivial(!ref.empty() && ref.size() < m.nt());
  // samples on the mesh: is one of them within rad of a given one, among connected triangles
  vector<std::tuple<uint, double, double>> smp; std::multimap<uint, uint> es; int ns = c.range(0, 6);
  auto rs = [&](uint t) { double a = c.uni(0, 1), b = c.uni(0, 1 - a); return std::make_tuple(t, a, b); };
  auto pos = [&](const std::tuple<uint, double, double> &s) { auto [t, a, b] = s; return a * P3(m.xyz, m.tri[t * 3]) + b * P3(m.xyz, m.tri[t * 3 + 1]) + (1 - a - b) * P3(m.xyz, m.tri[t * 3 + 2]); };
  for (int i = 0; i < ns; ++i) { smp.push_back(rs(c.below(m.nt()))); es.insert({std::get<0>(smp[i]), i}); }
  auto s = rs(t0); D3 sp = pos(s); std::set<uint> reach{t0}; st = {t0};
  auto DT = [&](uint u) { return dist(sp, near_tri(sp, P3(m.xyz, m.tri[u * 3]), P3(m.xyz, m.tri[u * 3 + 1]), P3(m.xyz, m.tri[u * 3 + 2]))); };
  if (rad < 1e-6) return;
  while (!st.empty()) { uint t = st.back(); st.pop_back(); for (int k = 0; k < 3; ++k) { uint a = m.tri[t * 3 + k], b = m.tri[t * 3 + (k + 1) % 3]; for (uint u: ed[{std::min(a, b), std::max(a, b)}]) { if (std::fabs(DT(u) - rad) < 1e-9) return; if (DT(u) <= rad && reach.insert(u).second) st.push_back(u); } } }
  bool ex = false; for (auto &x: smp) { double e = dist(pos(x), sp); if (std::fabs(e - rad) < 1e-9) return; if (reach.count(std::get<0>(x)) && e < rad) ex = true; }
  VP_CHECK(d::IsTherePointOnMeshInsideSphere(s, rad, smp, es, m.xyz, m.tri, adj) == ex, "expected %d rad %g sp %g %g %g DT0 %.17g", ex, rad, sp[0],sp[1],sp[2], DT(t0));
}
