// C30: voxel and cube grids, iso-surface stuffing, adaptive distance fields, grid Laplacian
// SCALE: 3 40
#include "common.hpp"
#include <iostream>
#include <algorithm>
#include <functional>
#include <climits>
#include <queue>
#include <array>
#include <cassert>
#include <cmath>
#include "delfem2/mat4.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/geo_plane.h"
#include "delfem2/geo_edge.h"
#include "delfem2/gridvoxel.h"
#include "delfem2/gridcube.h"
#include "delfem2/grid2.h"
#include "delfem2/isrf_iss.h"
#include "delfem2/isrf_adf.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::array;
namespace {
typedef unsigned int U; typedef array<int, 3> I3;
D3 at(const vector<double> &x, size_t i) { return {x[3 * i], x[3 * i + 1], x[3 * i + 2]}; }
const int DIR[6][3] = {{-1, 0, 0}, {1, 0, 0}, {0, -1, 0}, {0, 1, 0}, {0, 0, -1}, {0, 0, 1}};
// a tetrahedral mesh: positive, conforming; returns boundary faces (as oriented outwards) and the volume
double tets(vp::Case &c, const char *w, const vector<double> &x, const vector<U> &t, vector<array<U, 3>> &bnd, double vmin) {
  VP_CHECK(t.size() % 4 == 0, "%s: size", w); std::map<array<U, 3>, array<int, 2>> fs; double vol = 0; static const int F[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
  for (size_t e = 0; e < t.size(); e += 4) { for (int k = 0; k < 4; ++k) { VP_CHECK(t[e + k] < x.size() / 3, "%s: tetrahedron %zu has node %u of %zu", w, e / 4, t[e + k], x.size() / 3); } double v = tetvol(at(x, t[e]), at(x, t[e + 1]), at(x, t[e + 2]), at(x, t[e + 3])); VP_CHECK(v > vmin, "%s: tetrahedron %zu (%u %u %u %u) has volume %g", w, e / 4, t[e], t[e + 1], t[e + 2], t[e + 3], v); vol += v;
    for (auto &f: F) { array<U, 3> a{t[e + f[0]], t[e + f[1]], t[e + f[2]]}; int m = (int) (std::min_element(a.begin(), a.end()) - a.begin()); std::rotate(a.begin(), a.begin() + m, a.end()); int s = a[1] < a[2]; if (!s) std::swap(a[1], a[2]); auto it = fs.emplace(a, array<int, 2>{0, 0}).first; VP_CHECK((++it->second[s] == 1), "%s: face %u %u %u belongs to two tetrahedra on the same side", w, a[0], a[1], a[2]); } }
  bnd.clear(); for (auto &f: fs) { if (f.second[0] && f.second[1]) continue; array<U, 3> a = f.first; if (f.second[0]) std::swap(a[1], a[2]); bnd.push_back(a); } return vol;
}
d::CGrid3<int> voxels(vp::Case &c, int mx) { d::CGrid3<int> g; g.am.SetScale(1, 1, 1); g.Initialize((U) c.range(1, mx), (U) c.range(1, mx), (U) c.range(1, mx), 0); int dens = c.range(0, 4); for (auto &v: g.aVal) v = c.below(4) < dens ? 1 : 0; return g; }
}
VP_PROP(voxel_meshes, 20000, 100000, "random occupied voxels in grids of any size: the quad mesh is exactly the faces between occupied and empty, facing the empty side; one hexahedron per voxel in standard order; six positive conforming tetrahedra per voxel; neighbours of a voxel; bounding box of voxels; non-trivial: occupied and empty voxels") {
  auto g = voxels(c, 5); const int nx = g.ndivx, ny = g.ndivy, nz = g.ndivz; vector<int> occ(nx * ny * nz, 0); auto id = [&](int i, int j, int k) { return i * ny * nz + j * nz + k; }; bool in = c.flip();
  if (in) { g.Initialize(nx, ny, nz, 0); int n = c.range(0, 20); for (int q = 0; q < n; ++q) { int i = c.range(-1, nx), j = c.range(-1, ny), k = c.range(-1, nz); g.Set(i, j, k, 1); bool ok = i >= 0 && i < nx && j >= 0 && j < ny && k >= 0 && k < nz; VP_CHECK(g.IsInclude(i, j, k) == ok, "IsInclude(%d %d %d)", i, j, k); if (ok) occ[id(i, j, k)] = 1; } VP_CHECK(g.aVal == occ, "Set"); } else occ = g.aVal;
  size_t n = 0; for (int v: occ) n += v; if (n && n < occ.size()) c.nontrivial(); auto full = [&](int i, int j, int k) { return i >= 0 && i < nx && j >= 0 && j < ny && k >= 0 && k < nz && occ[id(i, j, k)]; };
  for (int q = 0; q < nx * ny * nz; ++q) for (int f = 0; f < 6; ++f) { int i = q / (ny * nz) + DIR[f][0], j = q / nz % ny + DIR[f][1], k = q % nz + DIR[f][2]; bool ok = i >= 0 && i < nx && j >= 0 && j < ny && k >= 0 && k < nz; VP_CHECK(d::Adj_Grid(q, f, nx, ny, nz) == (ok ? id(i, j, k) : -1), "Adj_Grid(%d, %d)", q, f); }
  std::set<array<int, 6>> want; size_t nq = 0; for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) for (int k = 0; k < nz; ++k) if (full(i, j, k)) for (auto &e: DIR) if (!full(i + e[0], j + e[1], k + e[2])) { want.insert({2 * i + 1 + e[0], 2 * j + 1 + e[1], 2 * k + 1 + e[2], e[0], e[1], e[2]}); nq++; }
  vector<double> x, x2; vector<U> q; d::MeshQuad3D_VoxelGrid(x, q, nx, ny, nz, occ); VP_CHECK((int) x.size() == 3 * (nx + 1) * (ny + 1) * (nz + 1) && q.size() == 4 * nq, "quad mesh: %zu quads, should be %zu", q.size() / 4, nq);
  for (size_t e = 0; e < q.size(); e += 4) { D3 m{0, 0, 0}; for (int k = 0; k < 4; ++k) { VP_CHECK(q[e + k] < x.size() / 3, "quad node"); m = m + 0.5 * at(x, q[e + k]); VP_CHECK(std::abs(dist(at(x, q[e + k]), at(x, q[e + (k + 1) % 4])) - 1) < 1e-12, "quad with a long edge"); } D3 nr = cross(at(x, q[e + 1]) - at(x, q[e]), at(x, q[e + 2]) - at(x, q[e])); array<int, 6> a; for (int k = 0; k < 3; ++k) { a[k] = (int) std::lround(m[k]); a[3 + k] = (int) std::lround(nr[k]); } VP_CHECK(want.erase(a) == 1, "quad at (%g %g %g) with normal (%d %d %d) is not between an occupied and an empty voxel", m[0] / 2, m[1] / 2, m[2] / 2, a[3], a[4], a[5]); }
  static const int co[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}; vector<int> h; d::MeshHex3D_VoxelGrid(x, h, nx, ny, nz, occ); VP_CHECK(h.size() == 8 * n, "hexahedra"); std::set<int> seen; for (size_t e = 0; e < h.size(); e += 8) { D3 o = at(x, h[e]); VP_CHECK(full((int) o[0], (int) o[1], (int) o[2]) && seen.insert(id((int) o[0], (int) o[1], (int) o[2])).second, "hexahedron at an empty voxel or twice"); for (int k = 0; k < 8; ++k) VP_CHECK(((dist(at(x, h[e + k]), o + D3{(double) co[k][0], (double) co[k][1], (double) co[k][2]}) == 0)), "hexahedron node %d", k); }
  vector<int> t; d::MeshTet3D_VoxelGrid(x, t, nx, ny, nz, occ); VP_CHECK(t.size() == 24 * n, "tetrahedra"); vector<U> tu(t.begin(), t.end()); vector<array<U, 3>> b; double v = tets(c, "voxel tetrahedra", x, tu, b, 0.1); VP_NEAR(v, (double) n, 1e-9); VP_CHECK(b.size() == 2 * nq, "voxel tetrahedra: %zu boundary faces, should be %zu", b.size(), 2 * nq); std::map<int, double> pv; for (size_t e = 0; e < tu.size(); e += 4) { D3 m{0, 0, 0}; for (int k = 0; k < 4; ++k) m = m + 0.25 * at(x, tu[e + k]); pv[id((int) m[0], (int) m[1], (int) m[2])] += 1. / 6; VP_CHECK(full((int) m[0], (int) m[1], (int) m[2]), "tetrahedron in an empty voxel"); }
  { int bb[8] = {1, -1, 0, 0, 0, 0, 0, 0}; std::set<I3> s; int k = c.range(1, 5); for (int i = 0; i < k; ++i) { I3 p{c.range(-4, 4), c.range(-4, 4), c.range(-4, 4)}; s.insert(p); d::Add_AABB(bb, p[0], p[1], p[2]); } for (int a = 0; a < 3; ++a) { int lo = 99, hi = -99; for (auto &p: s) { lo = std::min(lo, p[a]); hi = std::max(hi, p[a] + 1); } VP_CHECK(bb[2 * a] == lo && bb[2 * a + 1] == hi, "Add_AABB: axis %d is %d %d, should be %d %d", a, bb[2 * a], bb[2 * a + 1], lo, hi); } I3 p{c.range(-5, 5), c.range(-5, 5), c.range(-5, 5)}; bool ins = true; for (int a = 0; a < 3; ++a) ins = ins && p[a] >= bb[2 * a] && p[a] < bb[2 * a + 1]; VP_CHECK(d::IsInclude_AABB(bb, p[0], p[1], p[2]) == ins, "IsInclude_AABB"); }
}
VP_PROP(voxel_morphology, 20000, 100000, "dilation, erosion and geodesic distance on random voxel grids of any size vs neighbour-by-neighbour reference and relaxation; repeated and several seeds; non-trivial: occupied and empty voxels") {
  auto g = voxels(c, 6); const int nx = g.ndivx, ny = g.ndivy, nz = g.ndivz; auto id = [&](int i, int j, int k) { return k * ny * nx + j * nx + i; }; const vector<int> v = g.aVal; size_t n = 0; for (int q: v) n += q; if (n && n < v.size()) c.nontrivial();
  auto get = [&](const vector<int> &a, int i, int j, int k) { return i >= 0 && i < nx && j >= 0 && j < ny && k >= 0 && k < nz ? a[id(i, j, k)] : 0; };
  auto dil = g, ero = g; d::Grid3Voxel_Dilation(dil); d::Grid3Voxel_Erosion(ero); for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { int a = get(v, i, j, k), m = a; for (auto &e: DIR) { a = std::max(a, get(v, i + e[0], j + e[1], k + e[2])); m = std::min(m, get(v, i + e[0], j + e[1], k + e[2])); } VP_CHECK(dil.aVal[id(i, j, k)] == a, "dilation at %d %d %d in %dx%dx%d is %d", i, j, k, nx, ny, nz, dil.aVal[id(i, j, k)]); VP_CHECK(ero.aVal[id(i, j, k)] == m, "erosion at %d %d %d in %dx%dx%d is %d", i, j, k, nx, ny, nz, ero.aVal[id(i, j, k)]); }
  double el = c.uni(0.1, 2); vector<std::pair<U, double>> seed; int ns = c.range(0, 4); vector<double> ref(v.size(), 1e300), D; for (int i = 0; i < ns; ++i) { U q = i && c.chance(1, 4) ? seed[0].first : (U) c.below((int) v.size()); seed.push_back({q, c.chance(1, 3) ? 0. : c.uni(0, 3)}); ref[q] = std::min(ref[q], seed.back().second); }
  for (bool ch = true; ch;) { ch = false; for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) if (v[id(i, j, k)]) for (auto &e: DIR) { int a = i + e[0], b = j + e[1], f = k + e[2]; if (a < 0 || b < 0 || f < 0 || a >= nx || b >= ny || f >= nz) continue; double z = ref[id(a, b, f)] + el; if (z < ref[id(i, j, k)] - 1e-12) { ref[id(i, j, k)] = z; ch = true; } } }
  d::VoxelGeodesic(D, seed, el, g); VP_CHECK(D.size() == v.size(), "VoxelGeodesic size"); for (size_t q = 0; q < v.size(); ++q) { if (ref[q] > 1e299) { VP_CHECK(D[q] == -1, "VoxelGeodesic: voxel %zu cannot be reached but has distance %g", q, D[q]); } else VP_NEAR(D[q], ref[q], 1e-9); }
}
VP_PROP(voxel_segment, 30000, 150000, "voxels along a line segment through a grid with a scale and an offset: generic, axis-parallel, starting or ending on voxel faces and outside the grid, backwards: exactly the voxels it passes, in order, once each; non-trivial: at least two voxels") {
  d::CGrid3<int> g; int nn[3]; for (int &a: nn) a = c.range(1, 9); g.Initialize(nn[0], nn[1], nn[2], 1); double sc[3]; D3 of{0, 0, 0}; bool unit_ = c.flip(); for (int k = 0; k < 3; ++k) { sc[k] = unit_ ? 1. : c.pick({0.5, 2., 0.25}); of[k] = unit_ ? 0. : c.range(-3, 3) * 0.5; } g.am.SetScale(sc[0], sc[1], sc[2]); g.am.mat[3] = of[0]; g.am.mat[7] = of[1]; g.am.mat[11] = of[2];
  int kind = c.below(4); D3 s, e; for (int k = 0; k < 3; ++k) { auto r = [&]() { return kind == 0 ? c.uni(-1.5, nn[k] + 1.5) : kind == 1 ? c.range(-2, 2 * nn[k] + 2) * 0.5 : c.uni(0, nn[k]); }; s[k] = r(); e[k] = r(); } if (kind >= 2) { int k = c.below(3); e[k] = s[k]; if (kind == 3) e[(k + 1) % 3] = s[(k + 1) % 3]; }
  D3 ws, we; for (int k = 0; k < 3; ++k) { ws[k] = s[k] * sc[k] + of[k]; we[k] = e[k] * sc[k] + of[k]; } c.note("grid %d %d %d segment (%.17g %.17g %.17g)-(%.17g %.17g %.17g) in voxels", nn[0], nn[1], nn[2], s[0], s[1], s[2], e[0], e[1], e[2]);
  vector<U> iv; d::Intersection_VoxelGrid_LinSeg(iv, g, d::CVec3d(ws[0], ws[1], ws[2]), d::CVec3d(we[0], we[1], we[2]));
  auto range = [&](const I3 &p, double grow, double &a, double &b) { a = 0; b = 1; for (int k = 0; k < 3; ++k) { double lo = p[k] - grow, hi = p[k] + 1 + grow, dd = e[k] - s[k]; if (std::abs(dd) < 1e-300) { if (s[k] < lo || s[k] > hi) { a = 1; b = 0; return; } continue; } double t0 = (lo - s[k]) / dd, t1 = (hi - s[k]) / dd; if (t0 > t1) std::swap(t0, t1); a = std::max(a, t0); b = std::min(b, t1); } };
  std::set<U> got; double last = -1; I3 pp{0, 0, 0}; for (size_t i = 0; i < iv.size(); ++i) { VP_CHECK(iv[i] < (U) (nn[0] * nn[1] * nn[2]) && got.insert(iv[i]).second, "voxel %u is reported twice or does not exist", iv[i]); I3 p{(int) iv[i] % nn[0], (int) iv[i] / nn[0] % nn[1], (int) iv[i] / nn[0] / nn[1]}; double a, b; range(p, 1e-9, a, b); VP_CHECK(a <= b, "voxel %d %d %d is not on the segment", p[0], p[1], p[2]); VP_CHECK(b > last - 1e-6, "voxels are not in order along the segment"); last = a; pp = p; }
  (void) pp; size_t need = 0; for (int k = 0; k < nn[2]; ++k) for (int j = 0; j < nn[1]; ++j) for (int i = 0; i < nn[0]; ++i) { double a, b; range({i, j, k}, -1e-9, a, b); if (b - a > 1e-7 || (a <= b && norm(e - s) < 1e-9)) { need++; VP_CHECK(got.count((k * nn[1] + j) * nn[0] + i), "voxel %d %d %d on the segment is missing (from %g to %g)", i, j, k, a, b); } } if (need > 1) c.nontrivial();
}
VP_PROP(cube_grid, 30000, 150000, "histories of adding and deleting cubes vs a set; neighbours; bounding box; picking by a ray vs exhaustive slab test (rays through edges or parallel to a face skipped); non-trivial: a cube is hit") {
  vector<d::CCubeGrid> g; std::set<I3> m, ever; int n = c.range(0, 25); for (int i = 0; i < n; ++i) { I3 p{c.range(-2, 2), c.range(-2, 2), c.range(-2, 2)}; if (c.chance(1, 3) && !m.empty()) { if (c.flip()) { auto it = m.begin(); std::advance(it, c.below((int) m.size())); p = *it; } d::Del_CubeGrid(g, p[0], p[1], p[2]); m.erase(p); } else { d::Add_CubeGrid(g, p[0], p[1], p[2]); m.insert(p); ever.insert(p); } std::set<I3> a; for (auto &q: g) if (q.is_active) VP_CHECK(((a.insert({q.ivx, q.ivy, q.ivz}).second)), "cube twice"); VP_CHECK(a == m, "active cubes differ from the history"); }
  int bb[6]; d::AABB_CubeGrid(bb, g); if (ever.empty()) { VP_CHECK(bb[0] > bb[1], "empty box"); return; } if (ever == m) for (int k = 0; k < 3; ++k) { int lo = 99, hi = -99; for (auto &p: m) { lo = std::min(lo, p[k]); hi = std::max(hi, p[k] + 1); } VP_CHECK(bb[2 * k] == lo && bb[2 * k + 1] == hi, "AABB_CubeGrid: axis %d is %d..%d, should be %d..%d", k, bb[2 * k], bb[2 * k + 1], lo, hi); }
  for (U i = 0; i < g.size(); ++i) for (int f = 0; f < 6; ++f) { int a, b, e; d::Adj_CubeGrid(a, b, e, i, f, g); VP_CHECK(a == g[i].ivx + DIR[f][0] && b == g[i].ivy + DIR[f][1] && e == g[i].ivz + DIR[f][2], "Adj_CubeGrid"); }
  double el = c.uni(0.2, 3); D3 o = rnd3(c, 2), u = unit(rnd3(c, 1)), s; if (!(norm(u) > 0.5)) return; D3 tgt{c.uni(-2, 3), c.uni(-2, 3), c.uni(-2, 3)}; s = o + el * (tgt - c.uni(8, 12) * u); D3 v = c.logreal(0.1, 10) * u; for (int k = 0; k < 3; ++k) if (std::abs(u[k]) < 1e-3) return;
  double best = 1e300; I3 hb{0, 0, 0}; int hf = -1; for (auto &p: m) { double a = -1e300, b = 1e300, f2 = -1e300; int f = -1; for (int k = 0; k < 3; ++k) { double lo = (o[k] + el * p[k] - s[k]) / v[k], hi = (o[k] + el * (p[k] + 1) - s[k]) / v[k]; int ff = 2 * k; if (lo > hi) { std::swap(lo, hi); ff++; } if (lo > a) { f2 = a; a = lo; f = ff; } else f2 = std::max(f2, lo); b = std::min(b, hi); } double w = el / norm(v); if (std::abs(a - b) < 1e-6 * w) return; if (a < b) { if (a - f2 < 1e-6 * w) return; if (a < best) { best = a; hb = p; hf = f; } } }
  U ic = 7; int fc = -1; d::Pick_CubeGrid(ic, fc, s.data(), v.data(), el, o.data(), g); if (hf < 0) { VP_CHECK(ic == UINT_MAX, "Pick_CubeGrid: a cube is hit but none is on the ray"); return; } c.nontrivial(); VP_CHECK((ic < g.size() && g[ic].is_active && (I3{g[ic].ivx, g[ic].ivy, g[ic].ivz}) == hb && fc == hf), "Pick_CubeGrid: cube %d face %d, should be %d %d %d face %d", (int) ic, fc, hb[0], hb[1], hb[2], hf);
}
namespace {
struct Shape { int kind; D3 ce, hw; double r, r2; double operator()(D3 p) const { p = p - ce; auto box = [&]() { D3 q{std::abs(p[0]) - hw[0], std::abs(p[1]) - hw[1], std::abs(p[2]) - hw[2]}; D3 m{std::max(q[0], 0.), std::max(q[1], 0.), std::max(q[2], 0.)}; double o = norm(m); return o > 0 ? -o : -std::max({q[0], q[1], q[2]}); };
    if (kind == 0) return r - norm(p); if (kind == 1) return box(); if (kind == 2) return r2 - std::hypot(std::hypot(p[0], p[1]) - r, p[2]); return std::min(r - norm(p), norm(p) - r2); }   // positive inside
  double volume() const { if (kind == 0) return 4. / 3 * M_PI * r * r * r; if (kind == 1) return 8 * hw[0] * hw[1] * hw[2]; if (kind == 2) return 2 * M_PI * M_PI * r * r2 * r2; return 4. / 3 * M_PI * (r * r * r - r2 * r2 * r2); }
  double area() const { if (kind == 0) return 4 * M_PI * r * r; if (kind == 1) return 8 * (hw[0] * hw[1] + hw[1] * hw[2] + hw[2] * hw[0]); if (kind == 2) return 4 * M_PI * M_PI * r * r2; return 4 * M_PI * (r * r + r2 * r2); }
  double rad() const { return kind == 1 ? norm(hw) : kind == 2 ? r + r2 : r; } double feature() const { return kind == 0 ? r : kind == 1 ? std::min({hw[0], hw[1], hw[2]}) : kind == 2 ? std::min(r2, r - r2) : std::min(r2, (r - r2) / 2); } };
Shape shape(vp::Case &c) { Shape s; s.kind = c.below(4); s.ce = rnd3(c, 1); s.hw = {c.uni(0.4, 1), c.uni(0.4, 1), c.uni(0.4, 1)}; s.r = c.uni(0.6, 1.2); s.r2 = s.r * c.uni(0.3, 0.5); return s; }
}
namespace { void stuff(vp::Case &c, bool walls) {
  struct In : d::CInput_IsosurfaceStuffing { Shape s; int lv = -1, ls = -1, nl = 1, mode = 0; D3 dir; double SignedDistance(double x, double y, double z) const override { return s({x, y, z}); } void Level(int &a, int &b, int &n, double &q, double x, double y, double z) const override { q = s({x, y, z}); n = nl; a = lv; b = ls; if (mode == 0) { a = b = -1; } else if (mode == 2) { if (dot(dir, D3{x, y, z} - s.ce) < 0) a = b = -1; } } } in;
  in.s = shape(c); in.mode = c.below(3); { int top = c.chance(1, 8) ? 2 : 1; in.lv = c.range(-1, top); in.ls = c.range(-1, top); } in.nl = c.range(1, 2); in.dir = rnd3(c, 1); if (!walls) { in.mode = in.mode == 2 ? 0 : in.mode; if (in.mode) { in.lv = -1; in.ls = in.ls > 0 ? 1 : 0; in.nl = 1; } } D3 ce = c.flip() ? in.s.ce : in.s.ce + rnd3(c, 0.3); double R = in.s.rad(), width = R * (c.chance(1, 4) ? c.uni(1.2, 2.2) : c.uni(2.8, 4)), el = in.s.feature() * c.uni(0.4, 0.65); if (width / el > 22) el = width / 22; if (el > 0.7 * in.s.feature()) return; if (in.mode && !walls) { ce = in.s.ce; width = 2 * R + el * c.uni(4, 8); }
  c.note("kind %d centre (%g %g %g) r %g %g hw (%g %g %g) mode %d levels %d %d %d elen %g width %g at (%g %g %g)", in.s.kind, in.s.ce[0], in.s.ce[1], in.s.ce[2], in.s.r, in.s.r2, in.s.hw[0], in.s.hw[1], in.s.hw[2], in.mode, in.lv, in.ls, in.nl, el, width, ce[0], ce[1], ce[2]); if (in.mode && (in.lv > 0 || in.ls > 0)) c.nontrivial();
  bool inbox = true; for (int k = 0; k < 3; ++k) inbox = inbox && std::abs(in.s.ce[k] - ce[k]) + R < width / 2 - 1e-6; vector<double> x; vector<U> t; vector<int> on; VP_CHECK(d::IsoSurfaceStuffing(x, t, on, in, el, width, ce.data()), "IsoSurfaceStuffing failed"); VP_CHECK(on.size() == x.size() / 3 && !t.empty(), "sizes"); double e = width / std::max(1, (int) (width / el)); vector<array<U, 3>> b; double v = tets(c, "stuffing", x, t, b, 0);
  auto wall = [&](D3 p) { double m = 1e300; for (int k = 0; k < 3; ++k) m = std::min(m, width / 2 - std::abs(p[k] - ce[k])); return m; }; double area = 0; bool inside = true;
  std::set<U> used(t.begin(), t.end()); for (U i: used) { D3 p = at(x, i); double q = in.s(p); VP_CHECK(wall(p) > -1e-9, "node %u is outside the box", i); if (on[i]) VP_CHECK(std::abs(q) < 0.5 * e, "surface node %u has distance %g, cell size %g", i, q, e); else VP_CHECK(q >= 0, "inner node %u is outside: %g", i, q); }
  for (auto &f: b) { D3 P[3]; bool srf = true, wl = false; for (int k = 0; k < 3; ++k) { P[k] = at(x, f[k]); srf = srf && on[f[k]]; } for (int k = 0; k < 3; ++k) for (double s: {-1., 1.}) { bool all = true; for (auto &p: P) all = all && std::abs(p[k] - ce[k] - s * width / 2) < 1e-9; wl = wl || all; } bool each = true; for (int k = 0; k < 3; ++k) each = each && (on[f[k]] || wall(P[k]) < 1e-9); inside = inside && srf; if (in.mode == 0 || inbox) VP_CHECK(each, "boundary face %u %u %u (distances to the surface %g %g %g, to the box %g %g %g, flags %d%d%d) is neither on the surface nor on the box", f[0], f[1], f[2], in.s(P[0]), in.s(P[1]), in.s(P[2]), wall(P[0]), wall(P[1]), wall(P[2]), on[f[0]], on[f[1]], on[f[2]]); inside = inside && !wl; area += norm(cross(P[1] - P[0], P[2] - P[0])) / 2; if (srf && !wl && in.s.kind == 0) { D3 m = (1. / 3) * (P[0] + P[1] + P[2]) - in.s.ce; VP_CHECK(dot(cross(P[1] - P[0], P[2] - P[0]), m) > -1e-12, "boundary face faces inwards"); } }
  if (inside && inbox) { double V = in.s.volume(), A = in.s.area(); VP_CHECK(std::abs(v - V) < 0.35 * e * A * (in.s.kind == 1 ? 1 : e / in.s.feature()) + 1e-9 * V, "volume %g, should be %g (cell %g)", v, V, e); VP_CHECK(area < 1.35 * A && area > 0.6 * A, "surface area %g, should be %g", area, A); }
}
}
VP_PROP(stuffing, 400, 4000, "iso-surface stuffing of spheres, boxes, tori and hollow spheres inside and reaching out of the box, uniform lattices and lattices refined by up to two levels towards the surface: positive conforming tetrahedra, boundary faces on the surface or on the box (graded: only when the shape is inside the box), flags, volume; non-trivial: graded lattice") { stuff(c, false); }
VP_PROP(stuffing_walls, 0, 0, "replay of the known finding only: irregularly graded lattices") { stuff(c, true); }
VP_PROP(adf, 150, 1500, "adaptive distance field of spheres, boxes, tori, hollow spheres: exact at the corners of the cells, continuous to the cell tolerance, right sign away from the surface, normals facing outwards, cell boundaries included, outside the field; marching cubes surface on the zero set, facing outwards, with the right area and volume; non-trivial: all") {
  struct In : d::Input_AdaptiveDistanceField3 { Shape s; double sdf(double x, double y, double z) const override { return s({x, y, z}); } } in; in.s = shape(c); c.nontrivial(); D3 ce = in.s.ce; double R = in.s.rad(), w = R * c.uni(1.05, 1.5), hw = w * 1.1234, mh = hw * 0.99 / 64; double bb[6]; for (int k = 0; k < 3; ++k) { double f = k == 0 ? 1. : c.uni(0.5, 1); bb[2 * k] = ce[k] - w * f; bb[2 * k + 1] = ce[k] + w * f; }
  d::AdaptiveDistanceField3 a; if (c.flip()) { Shape q = in.s; in.s.r *= 0.9; a.SetUp(in, bb); in.s = q; } a.SetUp(in, bb); c.note("kind %d centre (%g %g %g) r %g %g hw (%g %g %g) half width %g", in.s.kind, ce[0], ce[1], ce[2], in.s.r, in.s.r2, in.s.hw[0], in.s.hw[1], in.s.hw[2], hw); static const int co[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
  double lo = 1e300, hi = -1e300; vector<U> leaf; for (U i = 0; i < a.aNode.size(); ++i) { auto &n = a.aNode[i]; for (int k = 0; k < 8; ++k) { double q = in.s({n.cent_[0] + n.hw_ * co[k][0], n.cent_[1] + n.hw_ * co[k][1], n.cent_[2] + n.hw_ * co[k][2]}); VP_CHECK(std::abs(n.dists_[k] - q) < 1e-12, "cell %u: corner %d is %g, should be %g", i, k, n.dists_[k], q); lo = std::min(lo, q); hi = std::max(hi, q); } if (n.ichilds_[0] < 0) leaf.push_back(i); else for (int k = 0; k < 8; ++k) { VP_CHECK(n.ichilds_[k] > 0 && n.ichilds_[k] < (int) a.aNode.size(), "child"); auto &h = a.aNode[n.ichilds_[k]]; VP_CHECK(std::abs(h.hw_ - n.hw_ / 2) < 1e-12, "child size"); for (int j = 0; j < 3; ++j) VP_CHECK(std::abs(h.cent_[j] - n.cent_[j] - co[k][j] * n.hw_ / 2) < 1e-12, "child centre"); } } VP_NEAR(a.dist_min, lo, 1e-12); VP_NEAR(a.dist_max, hi, 1e-12);
  for (int q = 0; q < 300; ++q) { D3 p; int kind = c.below(4); if (kind == 0) p = ce + rnd3(c, hw * 0.999); else { auto &n = a.aNode[leaf[c.below((int) leaf.size())]]; for (int k = 0; k < 3; ++k) p[k] = n.cent_[k] + n.hw_ * (kind == 1 ? c.range(-1, 1) : kind == 2 ? c.uni(-1, 1) : c.pick({-1., 1., 0.3})); if (kind == 1) { bool edge = false; for (int k = 0; k < 3; ++k) edge = edge || std::abs(p[k] - ce[k]) > hw * 0.999; if (edge) p = ce; } else { bool o = false; for (int k = 0; k < 3; ++k) o = o || std::abs(p[k] - ce[k]) > hw * 0.999; if (o) continue; } }
    double h = 0; for (U i = 0;;) { auto &n = a.aNode[i]; h = n.hw_; if (n.ichilds_[0] < 0) break; int k = p[2] < n.cent_[2] ? 0 : 4; k += p[0] < n.cent_[0] ? (p[1] < n.cent_[1] ? 0 : 3) : (p[1] < n.cent_[1] ? 1 : 2); i = n.ichilds_[k]; }
    double n[3] = {9, 9, 9}, v = a.Projection(p[0], p[1], p[2], n), e = in.s(p); VP_CHECK(std::abs(v - e) < 1.8 * h, "distance at (%.17g %.17g %.17g) is %g, should be %g (cell %g)", p[0], p[1], p[2], v, e, h); if (std::abs(e) < mh) VP_CHECK(std::abs(v - e) < 2 * mh, "distance near the surface at (%g %g %g) is %g, should be %g (smallest cell %g)", p[0], p[1], p[2], v, e, mh); if (std::abs(e) > 2 * mh) VP_CHECK((v > 0) == (e > 0), "sign at (%g %g %g): %g, should be %g", p[0], p[1], p[2], v, e);
    if (std::abs(e) < mh) { D3 N{n[0], n[1], n[2]}, G; for (int k = 0; k < 3; ++k) { D3 a1 = p, a0 = p; a1[k] += 1e-6; a0[k] -= 1e-6; G[k] = -(in.s(a1) - in.s(a0)) / 2e-6; } VP_CHECK(std::abs(norm(N) - 1) < 1e-9, "normal is not a unit vector"); if (in.s.kind != 1) VP_CHECK(dot(N, unit(G)) > 0.8, "normal (%g %g %g) at (%g %g %g), should be (%g %g %g)", n[0], n[1], n[2], p[0], p[1], p[2], G[0], G[1], G[2]); } }
  for (int q = 0; q < 10; ++q) { D3 u = unit(rnd3(c, 1)); if (!(norm(u) > 0.5)) continue; D3 p = ce + hw * c.uni(1.8, 5) * u; double n[3] = {9, 9, 9}, v = a.Projection(p[0], p[1], p[2], n); VP_CHECK((v < 0 && std::abs(dot(u, D3{n[0], n[1], n[2]}) - 1) < 1e-9), "outside the field at (%g %g %g): distance %g normal (%g %g %g)", p[0] - ce[0], p[1] - ce[1], p[2] - ce[2], v, n[0], n[1], n[2]); }
  vector<double> t; a.BuildIsoSurface_MarchingCube(t); VP_CHECK(t.size() % 9 == 0 && !t.empty(), "marching cubes size"); double vol = 0, area = 0; for (size_t i = 0; i < t.size(); i += 9) { D3 P[3]; for (int k = 0; k < 3; ++k) { P[k] = at(t, i / 3 + k); VP_CHECK(std::abs(in.s(P[k])) < 2 * mh, "iso-surface point (%g %g %g) has distance %g", P[k][0], P[k][1], P[k][2], in.s(P[k])); P[k] = P[k] - ce; } D3 n = 0.5 * cross(P[1] - P[0], P[2] - P[0]); area += norm(n); vol += dot(P[0], n) / 3; } VP_CHECK(std::abs(vol - in.s.volume()) < 0.03 * in.s.volume(), "iso-surface volume %g, should be %g", vol, in.s.volume()); VP_CHECK(std::abs(area - in.s.area()) < 0.05 * in.s.area(), "iso-surface area %g, should be %g", area, in.s.area());
}
VP_PROP(grid_laplacian, 10000, 50000, "Laplacian and Laplacian smoothing of height grids of any size vs the five-point stencil with mirrored border; constants are kept; sum is zero; non-trivial: more than one row and column") {
  U nx = (U) c.range(1, 7), ny = (U) c.range(1, 7); if (nx > 1 && ny > 1) c.nontrivial(); vector<float> z(nx * ny), l(nx * ny, 99.f), s(nx * ny, 99.f); for (auto &q: z) q = (float) c.range(-8, 8); double al = c.uni(0, 1); d::LaplacianGrid(l, z, ny, nx); d::LaplacianSmoothGrid(s, al, z, ny, nx); double sum = 0;
  for (int y = 0; y < (int) ny; ++y) for (int x = 0; x < (int) nx; ++x) { auto g = [&](int a, int b) { return (double) z[std::max(0, std::min((int) ny - 1, b)) * nx + std::max(0, std::min((int) nx - 1, a))]; }; double n = g(x - 1, y) + g(x + 1, y) + g(x, y - 1) + g(x, y + 1); VP_NEAR((double) l[y * nx + x], 4 * g(x, y) - n, 1e-5); VP_NEAR((double) s[y * nx + x], al * n / 4 + (1 - al) * g(x, y), 1e-5); sum += l[y * nx + x]; } VP_NEAR(sum, 0., 1e-4);
}
