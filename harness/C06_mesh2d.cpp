// SCALE: 4 8
#include "poly2.hpp"
#include "delfem2/vec2.h"
#include "delfem2/geo_polygon2.h"
#include "delfem2/dtri_topology.h"
#include "delfem2/dtri2_v2dtri.h"
using namespace ref;
namespace d = delfem2;
using Po = vector<d::CDynPntSur>;
using Tr = vector<d::CDynTri>;
using V2 = vector<d::CVec2d>;
static array<uint, 2> k2(uint a, uint b) { return {a, b}; }
static D2 q2(const d::CVec2d &p) { return {p.x, p.y}; }
static void consistent(vp::Case &c, const Po &po, const Tr &t, const char *op, bool walls = false) {
  std::map<array<uint, 2>, uint> m; for (uint i = 0; i < t.size(); ++i) for (int k = 0; k < 3; ++k) m[k2(t[i].v[k], t[i].v[(k + 1) % 3])] = i;
  VP_CHECK(m.size() == 3 * t.size(), "%s: an oriented edge belongs to two triangles", op); vector<char> used(po.size(), 0);
  for (uint i = 0; i < t.size(); ++i) for (int k = 0; k < 3; ++k) {
    VP_CHECK(t[i].v[k] < po.size(), "%s: point index", op); used[t[i].v[k]] = 1; auto it = m.find(k2(t[i].v[(k + 2) % 3], t[i].v[(k + 1) % 3])); uint want = it == m.end() ? UINT_MAX : it->second;
    VP_CHECK(t[i].s2[k] == want || (walls && t[i].s2[k] == UINT_MAX), "%s: neighbour of triangle %u", op, i);
  }
  for (uint p = 0; p < po.size(); ++p) if (used[p]) VP_CHECK(po[p].e < t.size() && po[p].d < 3 && t[po[p].e].v[po[p].d] == p, "%s: point %u stores triangle %u", op, p, po[p].e); else VP_CHECK(po[p].e == UINT_MAX, "%s: unused point %u stores triangle %u", op, p, po[p].e);
}
// how deep d lies inside the circumcircle of abc (0 if outside), relative to the radius
static double incircle(D2 a, D2 b, D2 e, D2 p) {
  long double bx = b[0] - a[0], by = b[1] - a[1], cx = e[0] - a[0], cy = e[1] - a[1], D = 2 * (bx * cy - by * cx); if (std::abs((double) D) < 1e-9) return 0;
  long double ux = (cy * (bx * bx + by * by) - by * (cx * cx + cy * cy)) / D, uy = (bx * (cx * cx + cy * cy) - cx * (bx * bx + by * by)) / D, r = sqrtl(ux * ux + uy * uy), q = hypotl(p[0] - a[0] - ux, p[1] - a[1] - uy);
  return q < r ? (double) ((r - q) / r) : 0;
}
static void check_region(vp::Case &c, const Loops &L, double el, const Po &po, const Tr &t, const V2 &v, bool refined) {
  VP_CHECK(po.size() == v.size(), "sizes"); consistent(c, po, t, "mesh");
  double A = 0; for (size_t i = 0; i < L.size(); ++i) A += (i ? -1 : 1) * std::abs(loop_area(L[i]));
  double S = 0; for (uint i = 0; i < t.size(); ++i) { double a = area2(q2(v[t[i].v[0]]), q2(v[t[i].v[1]]), q2(v[t[i].v[2]])); VP_CHECK(a > -1e-9, "triangle %u of area %g", i, a); S += a; }
  VP_NEAR(S, A, 1e-7 * (1 + A));
  // the boundary: every input edge split into equal parts, in place
  size_t n0 = 0, k = 0; for (auto &l: L) n0 += l.size() / 2; std::set<array<uint, 2>> B; for (auto &x: t) for (int q = 0; q < 3; ++q) if (x.s2[q] == UINT_MAX) B.insert(k2(x.v[(q + 1) % 3], x.v[(q + 2) % 3]));
  auto find = [&](D2 p) { for (uint i = 0; i < v.size(); ++i) if (dist(q2(v[i]), p) < 1e-9) return i; return UINT_MAX; };
  size_t nb = 0;
  for (size_t l = 0; l < L.size(); ++l) { uint n = (uint) L[l].size() / 2; bool ccw = loop_area(L[l]) > 0; 
    for (uint i = 0; i < n; ++i, ++k) { VP_CHECK(k < v.size() && dist(q2(v[k]), P2(L[l], i)) < 1e-12, "input point %zu moved", k);
      D2 a = P2(L[l], i), b = P2(L[l], (i + 1) % n); double len = dist(a, b), rat = el > 1e-9 ? len / el : 0; int nd = el > 1e-9 ? (int) rat : 0; 
      if (el > 1e-9 && std::abs(rat - std::round(rat)) < 1e-9) { nb += 100000; continue; }
      for (int s = 0; s <= nd; ++s, ++nb) { uint p = find(a + (s / (nd + 1.0)) * (b - a)), q = find(a + ((s + 1) / (nd + 1.0)) * (b - a)); VP_CHECK(p != UINT_MAX && q != UINT_MAX, "boundary point %d of edge %u missing", s, i); if ((l == 0) != ccw) std::swap(p, q); VP_CHECK(B.count(k2(p, q)), "boundary edge %u-%u missing", p, q); } } }
  if (nb < 100000) VP_CHECK(B.size() == nb, "mesh has %zu boundary edges, expected %zu", B.size(), nb);
  for (uint p = 0; p < po.size(); ++p) VP_CHECK(po[p].e != UINT_MAX, "point %u is not used", p);
  (void) refined; (void) n0;
}
VP_PROP(polygon, 6000, 100000, "star-shaped, rectangular, comb-shaped and untangled random polygons with up to 3 holes, both orientations, random boundary resolution: GenMesh covers exactly the region, keeps every boundary point and edge; non-trivial: concave or with a hole") {
  Loops L = region(c, 0.02); double el = c.flip() ? 0 : c.uni(0.15, 1.0); if (L.size() > 1) { c.nontrivial(); c.label("holes %zu", L.size() - 1); } else { size_t n = L[0].size() / 2; double sg = loop_area(L[0]); for (uint i = 0; i < n; ++i) if (area2(P2(L[0], i), P2(L[0], (i + 1) % n), P2(L[0], (i + 2) % n)) * sg < 0) c.nontrivial(); }
  Po po; Tr t; V2 v; if (c.flip()) { po.resize(3); t.resize(2); v.resize(9); }
  d::GenMesh(po, t, v, L, el, 0); check_region(c, L, el, po, t, v, false);
}
VP_PROP(refine, 2000, 30000, "the same regions with interior refinement (GenMesh and CMeshDynTri2D::meshing_loops): region still covered exactly, boundary untouched, mean triangle area below twice the square of the size asked; non-trivial: interior points were added") {
  Loops L = region(c, 0.05); double el = c.uni(0.12, 0.5); 
  for (auto &l: L) c.note("loop %s", vp::str(l).c_str()); c.note("el %g", el);
  d::CMeshDynTri2D M; double fl = el; if (c.flip()) M.meshing_loops(L, el); else { if (c.flip()) el = 0; fl = c.uni(0.12, 0.5); d::GenMesh(M.aEPo, M.aETri, M.aVec2, L, el, fl); }
  check_region(c, L, el, M.aEPo, M.aETri, M.aVec2, true); double big = 0; for (auto &x: M.aETri) big = std::max(big, area2(q2(M.aVec2[x.v[0]]), q2(M.aVec2[x.v[1]]), q2(M.aVec2[x.v[2]])));
  size_t nb = 0; for (auto &x: M.aETri) for (uint s: x.s2) nb += s == UINT_MAX; if (M.aVec2.size() > nb) c.nontrivial(); double A = 0; for (auto &l: L) A += (&l == &L[0] ? 1 : -1) * std::abs(loop_area(l)); VP_CHECK(A / M.aETri.size() < 2 * fl * fl, "mean triangle area %g (largest %g) for size %g", A / M.aETri.size(), big, fl);
}
VP_PROP(delaunay, 6000, 100000, "random and lattice point sets: incremental Delaunay triangulation in a super triangle is consistent, uses every point and has empty circumcircles; then every edge of a random non-crossing pair can be enforced; non-trivial: at least 5 points") {
  int n = c.range(1, 30); V2 v; bool lat = c.flip(); std::set<array<int, 2>> seen; 
  for (int i = 0; i < n; ++i) { if (lat) { int a = c.range(0, 5), b = c.range(0, 5); if (!seen.insert({a, b}).second) continue; v.push_back({a * 0.25, b * 0.25}); } else { D2 p = rnd2(c, 1); bool ok = true; for (auto &q: v) ok &= dist(p, q2(q)) > 1e-3; if (ok) v.push_back({p[0], p[1]}); } }
  double w = 0; for (auto &p: v) for (auto &q: v) w = std::max(w, dist(q2(p), q2(q))); c.assume(v.size() > 1 && w > 0.05); if (v.size() >= 5) c.nontrivial();
  Po po; Tr t; uint np = (uint) v.size(); d::Meshing_Initialize(po, t, v); VP_CHECK(v.size() == np + 3 && po.size() == np + 3, "sizes"); consistent(c, po, t, "Meshing_Initialize"); VP_CHECK(t.size() == 2 * np + 1, "%zu triangles for %u points", t.size(), np);
  double A = 0; for (auto &x: t) { double a = area2(q2(v[x.v[0]]), q2(v[x.v[1]]), q2(v[x.v[2]])); VP_CHECK(a > 0, "triangle area %g", a); A += a; for (uint p = 0; p < v.size(); ++p) VP_CHECK(incircle(q2(v[x.v[0]]), q2(v[x.v[1]]), q2(v[x.v[2]]), q2(v[p])) < 1e-6, "point %u inside a circumcircle", p); }
  VP_NEAR(A, area2(q2(v[np]), q2(v[np + 1]), q2(v[np + 2])), 1e-9 * (1 + A)); 
  if (np < 2) return; uint a = (uint) c.below(np), b = (uint) c.below(np); if (a == b) return;
  for (uint p = 0; p < v.size(); ++p) if (p != a && p != b && dist(q2(v[p]), near_seg(q2(v[p]), q2(v[a]), q2(v[b]))) < 1e-3) return;
  bool had = false; for (auto &x: t) for (int k = 0; k < 3; ++k) had |= x.v[k] == a && x.v[(k + 1) % 3] == b; c.label(had ? "edge present" : "edge enforced by flips");
  d::EnforceEdge(po, t, a, b, v); consistent(c, po, t, "EnforceEdge", true); uint wall = 0; double A2 = 0;
  for (auto &x: t) { double s = area2(q2(v[x.v[0]]), q2(v[x.v[1]]), q2(v[x.v[2]])); VP_CHECK(s > -1e-12, "EnforceEdge made a triangle of area %g", s); A2 += s; for (int k = 0; k < 3; ++k) if ((x.v[k] == a && x.v[(k + 1) % 3] == b) || (x.v[k] == b && x.v[(k + 1) % 3] == a)) { ++wall; VP_CHECK(x.s2[(k + 2) % 3] == UINT_MAX, "enforced edge is not a wall"); } }
  VP_CHECK(wall == 2, "edge %u-%u not in the mesh", a, b); VP_NEAR(A2, A, 1e-9 * (1 + A));
  // the same edge as a wall once more: already there, nothing to do
}
VP_PROP(local_delaunay, 4000, 60000, "DelaunayAroundPoint on jittered grids (random diagonals) keeps the triangles positive and covering and leaves no edge opposite the point whose other triangle's apex is inside the circumcircle; applied to every point until nothing changes it gives a Delaunay mesh; non-trivial: some triangle changed") {
  int nx = c.range(1, 5), ny = c.range(1, 5); V2 v; vector<uint> tri; double j = c.pick({0.0, 0.2, 0.4}); for (int y = 0; y <= ny; ++y) for (int x = 0; x <= nx; ++x) v.push_back({x + c.sym(j) * (x > 0 && x < nx), y + c.sym(j) * (y > 0 && y < ny)});
  for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) { uint a = y * (nx + 1) + x, b = a + 1, e = a + nx + 1, f = e + 1; bool dg = c.flip(); auto ar = [&](uint p, uint q, uint r) { return area2(q2(v[p]), q2(v[q]), q2(v[r])); }; if (dg ? !(ar(a, b, f) > 1e-3 && ar(a, f, e) > 1e-3) : !(ar(a, b, e) > 1e-3 && ar(b, f, e) > 1e-3)) dg = !dg; vector<uint> q = dg ? vector<uint>{a, b, f, a, f, e} : vector<uint>{a, b, e, b, f, e}; tri.insert(tri.end(), q.begin(), q.end()); }
  Po po; Tr t; d::InitializeMesh(po, t, tri.data(), tri.size() / 3, v.size()); double A0 = 0; for (auto &x: t) { double a = area2(q2(v[x.v[0]]), q2(v[x.v[1]]), q2(v[x.v[2]])); c.assume(a > 1e-3); A0 += a; }
  auto opp = [&](const d::CDynTri &x, int k) { uint jt = x.s2[k]; if (jt == UINT_MAX) return 0.0; uint y = 0; for (uint q: t[jt].v) if (q != x.v[(k + 1) % 3] && q != x.v[(k + 2) % 3]) y = q; return incircle(q2(v[x.v[0]]), q2(v[x.v[1]]), q2(v[x.v[2]]), q2(v[y])); };
  auto check = [&](const char *w) { consistent(c, po, t, w); double A = 0; for (auto &x: t) { double a = area2(q2(v[x.v[0]]), q2(v[x.v[1]]), q2(v[x.v[2]])); VP_CHECK(a > -1e-12, "%s: triangle area %g", w, a); A += a; } VP_NEAR(A, A0, 1e-9 * A0); };
  auto pass = [&](uint ip) { Tr o = t; d::DelaunayAroundPoint(ip, po, t, v); check("DelaunayAroundPoint"); for (auto &x: t) for (int k = 0; k < 3; ++k) if (x.v[k] == ip) VP_CHECK(opp(x, k) < 1e-6, "edge opposite point %u is not Delaunay", ip); for (uint i = 0; i < t.size(); ++i) for (int k = 0; k < 3; ++k) if (o[i].v[k] != t[i].v[k]) return true; return false; };
  for (int k = c.range(1, 6); k-- > 0;) if (pass((uint) c.below(v.size()))) c.nontrivial();
  for (int r = 0; r < 30; ++r) { bool ch = false; for (uint p = 0; p < v.size(); ++p) ch |= pass(p); if (!ch) break; VP_CHECK(r < 29, "flips do not settle"); }
  for (auto &x: t) for (int k = 0; k < 3; ++k) VP_CHECK(opp(x, k) < 1e-6, "mesh not Delaunay");
}
VP_PROP(boundary_check, 6000, 100000, "CheckInputBoundaryForTriangulation accepts exactly the loops that are simple, disjoint and nested properly (clear cases), FixLoopOrientation orients outer loops counter-clockwise and holes clockwise, ResamplingLoop splits edges evenly in place; non-trivial: invalid input or a reversed loop") {
  Loops L; bool valid; 
  if (c.flip()) { L = region(c, 0.02); valid = true; }
  else {
    L.push_back(polyloop(c)); int nh = c.range(0, 2); for (int h = 0; h < nh; ++h) { D2 o{c.sym(1.5), c.sym(1.5)}; double r = c.uni(0.1, 1); L.push_back(starloop(c, c.range(3, 5), o, r * 0.4, r)); }
    if (c.chance(1, 3)) { int n = c.range(4, 7); vector<double> l; for (int i = 0; i < n * 2; ++i) l.push_back(c.sym(1.5)); L[0] = l; }
    // clear cases only: proper crossings or no touch at all
    double f = 1e9; bool cross_ = false; struct S { D2 a, b; size_t l, i, n; }; vector<S> s; for (size_t l = 0; l < L.size(); ++l) { size_t n = L[l].size() / 2; for (size_t i = 0; i < n; ++i) s.push_back({P2(L[l], (uint) i), P2(L[l], (uint) ((i + 1) % n)), l, i, n}); }
    for (size_t x = 0; x < s.size(); ++x) for (size_t y = x + 1; y < s.size(); ++y) { if (s[x].l == s[y].l && ((s[x].i + 1) % s[x].n == s[y].i || (s[y].i + 1) % s[y].n == s[x].i)) continue; for (D2 p: {s[x].a, s[x].b}) f = std::min(f, dist(p, near_seg(p, s[y].a, s[y].b))); for (D2 p: {s[y].a, s[y].b}) f = std::min(f, dist(p, near_seg(p, s[x].a, s[x].b))); cross_ |= segdist(s[x].a, s[x].b, s[y].a, s[y].b) == 0; }
    c.assume(f > 1e-3); valid = !cross_;
    for (size_t l = 1; l < L.size() && valid; ++l) { valid &= inside(L[0], P2(L[l], 0)); for (size_t m = 1; m < L.size(); ++m) if (m != l && inside(L[m], P2(L[l], 0))) valid = false; }
    if (c.chance(1, 20)) { L[c.below(L.size())].resize(4); valid = false; }
  }
  if (!valid) c.nontrivial(); c.label(valid ? "valid" : "invalid");
  vector<int> ind, lp; V2 v; d::JArray_FromVecVec_XY(ind, lp, v, L); size_t k = 0; VP_CHECK(ind.size() == L.size() + 1, "loops"); for (size_t l = 0; l < L.size(); ++l) { VP_CHECK(ind[l] == (int) k, "index"); for (uint i = 0; i < L[l].size() / 2; ++i, ++k) VP_CHECK(dist(q2(v[k]), P2(L[l], i)) == 0 && lp[k] == (int) k, "point %zu", k); }
  bool got = d::CheckInputBoundaryForTriangulation(ind, v); VP_CHECK(got == valid, "boundary check says %d, expected %d", (int) got, (int) valid); if (!valid) return;
  d::FixLoopOrientation(lp, ind, v); auto lp0 = lp; auto v0 = v; auto ind0 = ind;
  for (size_t l = 0; l < L.size(); ++l) { double a = 0; vector<int> s; int n = ind[l + 1] - ind[l]; for (int i = 0; i < n; ++i) { int p = lp[ind[l] + i], q = lp[ind[l] + (i + 1) % n]; s.push_back(p); a += 0.5 * cross(q2(v[p]), q2(v[q])); VP_CHECK((q - p + n) % n == 1 || (p - q + n) % n == 1, "loop order"); } VP_CHECK((l == 0) == (a > 0), "loop %zu has area %g", l, a); if ((loop_area(L[l]) > 0) != (a > 0)) c.nontrivial(); std::sort(s.begin(), s.end()); for (int i = 0; i < n; ++i) VP_CHECK(s[i] == ind[l] + i, "loop points"); }
  double el = c.uni(0.1, 1); d::ResamplingLoop(ind, lp, v, el); VP_CHECK(ind.size() == ind0.size() && lp.size() == v.size() && ind.back() == (int) lp.size(), "sizes"); std::set<int> u(lp.begin(), lp.end()); VP_CHECK(u.size() == v.size() && *u.rbegin() + 1 == (int) v.size(), "every point once");
  for (size_t l = 0; l < L.size(); ++l) { int j = ind[l], n = ind0[l + 1] - ind0[l]; for (int i = 0; i < n; ++i) { int p = lp0[ind0[l] + i], q = lp0[ind0[l] + (i + 1) % n]; D2 a = q2(v0[p]), b = q2(v0[q]); int m = (int) (dist(a, b) / el); for (int s = 0; s <= m; ++s, ++j) { VP_CHECK(j < ind[l + 1], "loop %zu too short", l); VP_CHECK(dist(q2(v[lp[j]]), a + (s / (m + 1.0)) * (b - a)) < 1e-12, "sample %d of edge %d-%d", s, p, q); VP_CHECK(s || lp[j] == p, "corner"); } } VP_CHECK(j == ind[l + 1], "loop %zu too long", l); }
}
VP_PROP(delete_flag, 4000, 60000, "FlagConnected floods one side of the walls; DeleteTriFlag, DeletePointsFlag and DeleteUnrefPoints keep exactly the remaining triangles, points and adjacency under renumbering; non-trivial: a point before a kept one is deleted") {
  // several disjoint grids, components in random order
  int nc = c.range(1, 4); V2 v; vector<uint> tri; vector<int> comp; vector<int> pc; 
  for (int k = 0; k < nc; ++k) { Mesh m = gridmesh(c.range(1, 3), c.range(1, 3)); uint o = (uint) v.size(); for (uint i = 0; i < m.nv(); ++i) { v.push_back({m.xyz[i * 3] + 10 * k, m.xyz[i * 3 + 1]}); pc.push_back(k); } for (uint x: m.tri) tri.push_back(x + o); for (uint i = 0; i < m.nt(); ++i) comp.push_back(k); }
  vector<uint> pp(v.size()); for (uint i = 0; i < pp.size(); ++i) pp[i] = i; if (c.flip()) c.shuffle(pp.begin(), pp.end()); { V2 w(v.size()); vector<int> q(v.size()); for (uint i = 0; i < pp.size(); ++i) w[pp[i]] = v[i], q[pp[i]] = pc[i]; v = w; pc = q; for (auto &x: tri) x = pp[x]; }
  vector<uint> to(comp.size()); for (uint i = 0; i < to.size(); ++i) to[i] = i; if (c.flip()) c.shuffle(to.begin(), to.end()); { auto t2 = tri; auto c2 = comp; for (uint i = 0; i < to.size(); ++i) { for (int k = 0; k < 3; ++k) tri[i * 3 + k] = t2[to[i] * 3 + k]; comp[i] = c2[to[i]]; } }
  Po po; Tr t; d::InitializeMesh(po, t, tri.data(), tri.size() / 3, v.size()); unsigned del = (unsigned) c.below(1u << nc); vector<int> fl(t.size(), 0);
  for (int k = 0; k < nc; ++k) if (del >> k & 1) { vector<uint> cand; for (uint i = 0; i < t.size(); ++i) if (comp[i] == k) cand.push_back(i); d::FlagConnected(fl, t, cand[c.below(cand.size())], 7); }
  for (uint i = 0; i < t.size(); ++i) VP_CHECK((fl[i] == 7) == (bool) (del >> comp[i] & 1), "flag of triangle %u", i);
  Tr t0 = t; d::DeleteTriFlag(t, fl, 7); { uint j = 0; for (uint i = 0; i < t0.size(); ++i) if (!(del >> comp[i] & 1)) { VP_CHECK(j < t.size(), "too few triangles left"); for (int k = 0; k < 3; ++k) VP_CHECK(t[j].v[k] == t0[i].v[k], "kept triangle %u", i); ++j; } VP_CHECK(j == t.size() && fl.size() == j, "%zu triangles left, expected %u", t.size(), j); }
  vector<uint> pd; vector<int> pf(v.size(), 0); for (uint i = 0; i < v.size(); ++i) if (del >> pc[i] & 1) { pd.push_back(i); pf[i] = 3; }
  V2 v0 = v; vector<uint> keep; for (uint i = 0; i < v.size(); ++i) if (!(del >> pc[i] & 1)) { keep.push_back(i); if (keep.back() != keep.size() - 1) c.nontrivial(); } Tr t1 = t;
  if (c.flip()) d::DeleteUnrefPoints(v, po, t, pd); else { d::DeletePointsFlag(v, po, t, pf, 3); VP_CHECK(pf.size() == keep.size(), "flags"); }
  VP_CHECK(v.size() == keep.size() && po.size() == keep.size(), "%zu points left, expected %zu", v.size(), keep.size()); for (uint i = 0; i < keep.size(); ++i) VP_CHECK(dist(q2(v[i]), q2(v0[keep[i]])) == 0, "point %u", i);
  for (uint i = 0; i < t.size(); ++i) for (int k = 0; k < 3; ++k) VP_CHECK(keep[t[i].v[k]] == t1[i].v[k], "triangle %u refers to another point", i); consistent(c, po, t, "deletion");
}
