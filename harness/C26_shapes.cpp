// C26: primitive meshes, signed distances of primitives, subdivision, slicing and contours
// SCALE: 5 100
#include "common.hpp"
#include <iostream>
#include <functional>
#include <algorithm>
#include <numeric>
#include <climits>
#include <memory>
#include <array>
#include <cassert>
#include <cmath>
#include "delfem2/mat4.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/msh_primitive.h"
#include "delfem2/mshsubdiv.h"
#include "delfem2/msh_geodesic_polyhedron.h"
#include "delfem2/slice.h"
#include "delfem2/msh_arrow.h"
#include "delfem2/mshmisc.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string;
namespace {
typedef unsigned int U; typedef std::pair<U, U> E2;
D3 at(const vector<double> &x, size_t i) { return {x[3 * i], x[3 * i + 1], x[3 * i + 2]}; }
// orientation and closedness of a polygonal mesh with nn nodes per face
void surface(vp::Case &c, const char *what, const vector<double> &x, const vector<U> &el, U nn, int chi, size_t nbound) {
  VP_CHECK(el.size() % nn == 0 && x.size() % 3 == 0, "%s: sizes", what); size_t nv = x.size() / 3; vector<int> used(nv, 0); std::map<E2, int> ed;
  for (size_t f = 0; f < el.size(); f += nn) for (U k = 0; k < nn; ++k) { U a = el[f + k], b = el[f + (k + 1) % nn]; VP_CHECK(a < nv && a != b, "%s: face %zu has node %u of %zu", what, f / nn, a, nv); used[a] = 1; VP_CHECK((++ed[{a, b}] == 1), "%s: edge %u %u occurs twice in the same direction", what, a, b); }
  size_t nb = 0, ne = 0; for (auto &e: ed) { bool twin = ed.count({e.first.second, e.first.first}); if (!twin) nb++; if (!twin || e.first.first < e.first.second) ne++; }
  VP_CHECK(nb == nbound, "%s: %zu boundary edges, should be %zu", what, nb, nbound); for (size_t i = 0; i < nv; ++i) VP_CHECK(used[i], "%s: vertex %zu is unused", what, i);
  VP_CHECK((int) nv - (int) ne + (int) (el.size() / nn) == chi, "%s: Euler characteristic %d should be %d", what, (int) nv - (int) ne + (int) (el.size() / nn), chi);
}
double volume(const vector<double> &x, const vector<U> &t) { double v = 0; for (size_t i = 0; i < t.size(); i += 3) v += dot(at(x, t[i]), cross(at(x, t[i + 1]), at(x, t[i + 2]))) / 6; return v; }
D3 nrm(const vector<double> &x, const U *t) { return 0.5 * cross(at(x, t[1]) - at(x, t[0]), at(x, t[2]) - at(x, t[0])); }
template <class F> void outward(vp::Case &c, const char *what, const vector<double> &x, const vector<U> &t, F dir, double amin) { for (size_t i = 0; i < t.size(); i += 3) { D3 n = nrm(x, &t[i]), m = (1. / 3) * (at(x, t[i]) + at(x, t[i + 1]) + at(x, t[i + 2])); VP_CHECK(norm(n) > amin && dot(unit(n), dir(m)) > 1e-6, "%s: triangle %zu is not facing outwards (%g)", what, i / 3, dot(n, dir(m))); } }
double ngon(double r, double n) { return 0.5 * n * r * r * std::sin(2 * M_PI / n); }
double frustum(double a, double b, double h) { return h / 3 * (a + b + std::sqrt(a * b)); }
template <class T> vector<double> dbl(const vector<T> &x) { return vector<double>(x.begin(), x.end()); }
template <class T> void prims(vp::Case &c) {
  double rel = sizeof(T) == 4 ? 1e-4 : 1e-8; double R = c.logreal(1e-3, 1e3), L = R * c.uni(0.1, 10); T r = (T) R, l = (T) L; R = r; L = l; vector<T> xt; vector<U> t; U n1, n2, n3;
  auto axis = [](D3 p) { return D3{p[0], 0, p[2]}; };
  { n1 = (U) c.range(2, 9); n2 = (U) c.range(3, 9); d::MeshTri3D_Sphere(xt, t, r, n1, n2); auto x = dbl(xt); c.note("sphere %u %u r %g", n1, n2, R); VP_CHECK(x.size() == 3 * (n2 * (n1 - 1) + 2) && t.size() == 6 * n2 * (n1 - 1), "sphere: counts"); surface(c, "sphere", x, t, 3, 2, 0); for (size_t i = 0; i < x.size() / 3; ++i) VP_CHECK(std::abs(norm(at(x, i)) - R) < rel * R, "sphere: vertex %zu off the sphere", i);
    double v = 0; for (U i = 0; i < n1; ++i) v += frustum(ngon(R * std::sin(M_PI * i / n1), n2), ngon(R * std::sin(M_PI * (i + 1) / n1), n2), R * (std::cos(M_PI * i / n1) - std::cos(M_PI * (i + 1) / n1))); VP_NEAR(volume(x, t), v, 10 * rel * R * R * R); outward(c, "sphere", x, t, [](D3 p) { return p; }, 1e-7 * R * R); for (U k = 0; k < 2; ++k) { d::MeshTri3D_Sphere(xt, t, r, k, 5u); VP_CHECK(xt.empty() && t.empty(), "sphere with %u divisions", k); } }
  { n1 = (U) c.range(3, 12); n2 = (U) c.range(1, 6); d::MeshTri3D_CylinderOpen(xt, t, r, l, n1, n2); auto x = dbl(xt); c.note("cylinder %u %u r %g l %g", n1, n2, R, L); VP_CHECK(x.size() == 3 * n1 * (n2 + 1) && t.size() == 6 * n1 * n2, "open cylinder: counts"); surface(c, "open cylinder", x, t, 3, 0, 2 * n1); double a = 0; for (size_t i = 0; i < t.size(); i += 3) a += norm(nrm(x, &t[i])); VP_NEAR(a, n1 * 2 * R * std::sin(M_PI / n1) * L, 10 * rel * R * L); outward(c, "open cylinder", x, t, axis, 0); for (size_t i = 0; i < x.size() / 3; ++i) VP_CHECK(std::abs(norm(axis(at(x, i))) - R) < rel * R && std::abs(x[3 * i + 1]) < L * (0.5 + rel), "open cylinder: vertex");
    d::MeshTri3D_CylinderClosed(xt, t, r, l, n1, n2); x = dbl(xt); surface(c, "closed cylinder", x, t, 3, 2, 0); VP_CHECK(x.size() == 3 * (n1 * (n2 + 1) + 2) && t.size() == 3 * (2 * n1 * n2 + 2 * n1), "closed cylinder: counts"); VP_NEAR(volume(x, t), ngon(R, n1) * L, 10 * rel * R * R * L); outward(c, "closed cylinder", x, t, [&](D3 p) { return std::abs(std::abs(p[1]) - L / 2) < rel * L ? D3{0, p[1], 0} : axis(p); }, 0);
    d::MeshTri3D_CylinderClosed(xt, t, r, l, 2u, n2); VP_CHECK(xt.empty() && t.empty(), "degenerate cylinder"); }
  { n1 = (U) c.range(1, 7); d::MeshTri3D_Cube(xt, t, n1); auto x = dbl(xt); c.note("cube %u", n1); surface(c, "cube", x, t, 3, 2, 0); VP_CHECK(t.size() == 36 * n1 * n1, "cube: counts"); VP_NEAR(volume(x, t), 1., rel); for (size_t i = 0; i < x.size() / 3; ++i) VP_CHECK((std::abs(std::max({std::abs(x[3 * i]), std::abs(x[3 * i + 1]), std::abs(x[3 * i + 2])}) - 0.5) < rel), "cube: vertex %zu off the surface", i); for (size_t i = 0; i < t.size(); i += 3) { D3 n = nrm(x, &t[i]), m = (1. / 3) * (at(x, t[i]) + at(x, t[i + 1]) + at(x, t[i + 2])); int k = 0; for (int j = 1; j < 3; ++j) if (std::abs(m[j]) > std::abs(m[k])) k = j; VP_CHECK(std::abs(n[k] * (m[k] > 0 ? 1 : -1) - 0.5 / n1 / n1) < rel && std::abs(norm(n) - 0.5 / n1 / n1) < rel, "cube: triangle %zu", i / 3); } }
  { n1 = (U) c.range(3, 10); n2 = (U) c.range(1, 4); n3 = (U) c.range(1, 4); d::MeshTri3_Capsule(xt, t, r, l, n1, n2, n3); auto x = dbl(xt); c.note("capsule %u %u %u r %g l %g", n1, n2, n3, R, L); surface(c, "capsule", x, t, 3, 2, 0); VP_CHECK(x.size() / 3 == (2 * n2 + n3 - 1) * n1 + 2, "capsule: counts"); auto foot = [&](D3 p) { return D3{0, std::max(-L / 2, std::min(L / 2, p[1])), 0}; }; for (size_t i = 0; i < x.size() / 3; ++i) VP_CHECK(std::abs(dist(at(x, i), foot(at(x, i))) - R) < rel * (R + L), "capsule: vertex %zu off the surface", i);
    double v = ngon(R, n1) * L; for (U i = 0; i < n2; ++i) { double a = M_PI / 2 * i / n2, b = M_PI / 2 * (i + 1) / n2; v += 2 * frustum(ngon(R * std::cos(a), n1), ngon(R * std::cos(b), n1), R * (std::sin(b) - std::sin(a))); } VP_NEAR(volume(x, t), v, 10 * rel * R * R * (R + L)); outward(c, "capsule", x, t, [&](D3 p) { return p - foot(p); }, 0); }
  { n1 = (U) c.range(3, 10); n2 = (U) c.range(3, 10); T tu = (T) (R * c.uni(0.1, 0.9)); double q = tu; d::MeshTri3_Torus(xt, t, r, tu, n1, n2); auto x = dbl(xt); c.note("torus %u %u %g %g", n1, n2, R, q); surface(c, "torus", x, t, 3, 0, 0); VP_CHECK(x.size() == 3 * n1 * n2 && t.size() == 6 * n1 * n2, "torus: counts"); for (size_t i = 0; i < x.size() / 3; ++i) { D3 p = at(x, i); VP_CHECK(std::abs(std::hypot(std::hypot(p[0], p[1]) - R, p[2]) - q) < rel * R, "torus: vertex %zu", i); } VP_NEAR(volume(x, t), n1 * std::sin(2 * M_PI / n1) * R * ngon(q, n2), 10 * rel * R * R * R); }
  { T lo[3], hi[3]; double v = 1; for (int k = 0; k < 3; ++k) { lo[k] = (T) c.sym(3); hi[k] = lo[k] + (T) c.uni(0.1, 4); v *= hi[k] - lo[k]; } d::MeshQuad3_CubeVox(xt, t, lo, hi); auto x = dbl(xt); surface(c, "voxel", x, t, 4, 2, 0); vector<U> tt; for (size_t i = 0; i < t.size(); i += 4) for (int k: {0, 1, 2, 0, 2, 3}) tt.push_back(t[i + k]); VP_NEAR(volume(x, tt), v, rel * 100); std::set<array<T, 3>> s; for (size_t i = 0; i < 8; ++i) { for (int k = 0; k < 3; ++k) VP_CHECK(xt[3 * i + k] == lo[k] || xt[3 * i + k] == hi[k], "voxel corner"); s.insert({xt[3 * i], xt[3 * i + 1], xt[3 * i + 2]}); } VP_CHECK(s.size() == 8, "voxel corners"); }
  { n1 = (U) c.range(1, 4); n2 = (U) c.range(1, 4); n3 = (U) c.range(1, 4); d::MeshHex3_Grid(xt, t, n1, n2, n3, l); auto x = dbl(xt); VP_CHECK(x.size() == 3 * (n1 + 1) * (n2 + 1) * (n3 + 1) && t.size() == 8 * n1 * n2 * n3, "hexahedral grid: counts"); std::set<array<int, 3>> seen; for (size_t h = 0; h < t.size(); h += 8) { D3 o = at(x, t[h]); seen.insert({(int) std::lround(o[0] / L), (int) std::lround(o[1] / L), (int) std::lround(o[2] / L)}); static const double co[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}; for (int k = 0; k < 8; ++k) VP_CHECK((dist(at(x, t[h + k]), o + L * D3{co[k][0], co[k][1], co[k][2]}) < 20 * rel * L), "hexahedral grid: node %d of element %zu", k, h / 8); } VP_CHECK(seen.size() == n1 * n2 * n3, "hexahedral grid: repeated cells"); }
  { vector<T> ax; vector<U> at_; d::CMat4<T> id = d::CMat4<T>::Identity(); D3 p = rnd3(c, 2), q = rnd3(c, 2); if (norm(q) > 0.05) { T rr = (T) c.uni(0.05, 0.5), nr = (T) c.uni(0.2, 0.8); d::CVec3<T> p0((T) p[0], (T) p[1], (T) p[2]), dd((T) q[0], (T) q[1], (T) q[2]); d::Mesh_ArrowOcta<T, U>(ax, at_, id, p0, dd, rr, nr); auto x = dbl(ax); surface(c, "arrow", x, at_, 3, 2, 0); VP_CHECK(x.size() == 18 && dist(at(x, 0), p) < 1e-5 && dist(at(x, 1), p + q) < 1e-5, "arrow: ends"); double s = norm(q); VP_NEAR(volume(x, at_), s / 3 * 2 * (rr * s) * (rr * s), 1e-3); } }
}
}
VP_PROP(prims, 6000, 30000, "sphere, cylinder, cube, capsule, torus, disk, icosahedron, geodesic polyhedron, voxel, grids, arrow: closed, oriented, exact vertices and volume for every number of divisions, float and double; non-trivial: all") {
  c.nontrivial(); if (c.flip()) prims<double>(c); else prims<float>(c);
  vector<double> x; vector<U> t; double R = c.logreal(1e-3, 1e3);
  { int nr = c.range(1, 6), nt = c.range(3, 12); d::MeshTri3D_Disk(x, t, R, nr, nt); surface(c, "disk", x, t, 3, 1, nt); double a = 0; for (size_t i = 0; i < t.size(); i += 3) a += norm(nrm(x, &t[i])); VP_NEAR(a, ngon(R, nt), 1e-8 * R * R); outward(c, "disk", x, t, [](D3) { return D3{0, 1, 0}; }, 0); for (int i = 0; i < (int) x.size() / 3; ++i) VP_CHECK(x[3 * i + 1] == 0 && std::abs(norm(at(x, i)) - R * ((i + nt - 1) / nt) / nr) < 1e-9 * R, "disk: vertex %d", i); }
  if (c.chance(1, 20)) { d::MeshTri3D_Icosahedron(x, t); surface(c, "icosahedron", x, t, 3, 2, 0); VP_CHECK(t.size() == 60, "icosahedron: counts"); for (size_t i = 0; i < t.size(); ++i) VP_CHECK(std::abs(dist(at(x, t[i]), at(x, t[i / 3 * 3 + (i + 1) % 3])) - 2) < 1e-12, "icosahedron: edge"); outward(c, "icosahedron", x, t, [](D3 p) { return p; }, 0);
    MeshTri3D_GeodesicPolyhedron(x, t); surface(c, "geodesic polyhedron", x, t, 3, 2, 0); VP_CHECK(t.size() == 240, "geodesic polyhedron: counts"); for (size_t i = 0; i < x.size() / 3; ++i) VP_CHECK(std::abs(norm(at(x, i)) - norm(at(x, 0))) < 1e-12, "geodesic polyhedron: vertex %zu", i); outward(c, "geodesic polyhedron", x, t, [](D3 p) { return p; }, 0.1); }
  { U nx = (U) c.range(1, 6), ny = (U) c.range(1, 6); d::MeshQuad2D_Grid(x, t, nx, ny); vector<double> y; for (size_t i = 0; i < x.size() / 2; ++i) push(y, {x[2 * i], x[2 * i + 1], 0}); surface(c, "quad grid", y, t, 4, 1, 2 * (nx + ny)); for (size_t q = 0; q < t.size(); q += 4) { D3 o = at(y, t[q]); VP_CHECK((dist(at(y, t[q + 1]), o + D3{1, 0, 0}) == 0 && dist(at(y, t[q + 2]), o + D3{1, 1, 0}) == 0 && dist(at(y, t[q + 3]), o + D3{0, 1, 0}) == 0), "quad grid: quad %zu", q / 4); } VP_CHECK(t.size() == 4 * nx * ny, "quad grid: counts"); }
}
VP_PROP(distance, 20000, 100000, "signed distance, normal, inside test and ray intersection of plane, sphere, cylinder, torus and box for points inside, outside, on axes and on the surface; non-trivial: away from the centre") {
  double S = c.logreal(1e-2, 1e2), tol = 1e-9 * S; D3 p = c.chance(1, 3) ? D3{S * c.range(-2, 2), S * c.range(-2, 2), S * c.range(-2, 2)} : S * rnd3(c, 3), n; bool out = c.flip(); double sg = out ? 1 : -1;
  auto check = [&](const char *w, const d::CSDF3 &f, double ref, const std::function<double(D3)> &sdf) { double q[3] = {9, 9, 9}; double v = f.Projection(q, p[0], p[1], p[2]); n = {q[0], q[1], q[2]}; VP_CHECK(std::abs(v - ref) < tol, "%s: distance at (%g %g %g) is %g, should be %g", w, p[0], p[1], p[2], v, ref); VP_CHECK(std::abs(norm(n) - 1) < 1e-9, "%s: normal (%g %g %g) at (%g %g %g)", w, n[0], n[1], n[2], p[0], p[1], p[2]); VP_CHECK(std::abs(sdf(p + v * n)) < 10 * tol, "%s: point plus distance times normal is not on the surface: (%g %g %g) normal (%g %g %g) distance %g", w, p[0], p[1], p[2], n[0], n[1], n[2], v); VP_CHECK(sdf(p + (v + 1e-3 * S) * n) < 0, "%s: the normal (%g %g %g) does not face outward", w, n[0], n[1], n[2]); };
  { D3 m = rnd3(c, 1); if (norm(m) < 1e-3) m = D3{0, 0, 1}; m = unit(m); D3 o = S * rnd3(c, 1); d::CPlane<double> f(m.data(), o.data()); auto s = [&](D3 x) { return -dot(m, x - o); }; check("plane", f, s(p), s); }
  D3 ce = c.flip() ? D3{0, 0, 0} : S * rnd3(c, 1); double r = S * c.pick({1., 2., 0.5, c.uni(0.1, 2)}); D3 ro = S * rnd3(c, 3), rd = c.logreal(1e-2, 1e2) * unit(rnd3(c, 1)); if (!(norm(rd) > 0)) rd = D3{0, 0, 1};
  if (dist(p, ce) > 1e-3 * S) { c.nontrivial(); d::CSphere<double> f(r, {ce[0], ce[1], ce[2]}, out); auto s = [&](D3 x) { return sg * (r - dist(x, ce)); }; check("sphere", f, s(p), s); if (std::abs(s(p)) > tol) VP_CHECK(f.FindInOut(p[0], p[1], p[2]) == (dist(p, ce) < r ? 0u : 1u), "sphere: FindInOut");
    D3 u = unit(rd), w = ro - ce; double h = norm(w - dot(w, u) * u); if (std::abs(h - r) > 1e-3 * S) { double q[3]; bool hit = f.IntersectionPoint(q, ro.data(), rd.data()); VP_CHECK(hit == (h < r), "sphere: line at distance %g, radius %g, hit %d", h, r, hit); if (hit) { D3 z{q[0], q[1], q[2]}; double t = -dot(w, u) + std::sqrt(r * r - h * h); VP_CHECK(dist(z, ro + t * u) < 1e-7 * S, "sphere: intersection (%g %g %g)", q[0], q[1], q[2]); } } }
  { D3 ax = c.pick({0.5, 1., 3.}) * unit(c.chance(1, 3) ? D3{1, 0, 0} : rnd3(c, 1)), u; if (!(norm(ax) > 0)) ax = D3{0, 1, 0}; u = unit(ax); auto rad = [&](D3 x) { D3 w = x - ce; return norm(w - dot(w, u) * u); }; if (rad(p) > 1e-3 * S) { d::CCylinder<double> f(r, ce.data(), ax.data(), out); if (c.flip()) { d::CCylinder<double> g; g.SetCenter(ce.data()); g.SetDirection(ax.data()); g.SetRadius(r); g.is_out_ = out; f = g; } auto s = [&](D3 x) { return sg * (r - rad(x)); }; check("cylinder", f, s(p), s); if (std::abs(s(p)) > tol) VP_CHECK(f.FindInOut(p[0], p[1], p[2]) == (rad(p) < r ? 0u : 1u), "cylinder: FindInOut");
      D3 v = unit(rd), pr = cross(u, v); if (norm(pr) > 1e-2) { double h = std::abs(dot(unit(pr), ro - ce)); if (std::abs(h - r) > 1e-3 * S) { double q[3]; bool hit = f.IntersectionPoint(q, ro.data(), rd.data()); VP_CHECK(hit == (h < r), "cylinder: line at distance %g, radius %g, hit %d", h, r, hit); if (hit) { D3 z{q[0], q[1], q[2]}; VP_CHECK(std::abs(rad(z) - r) < 1e-6 * S && norm(cross(z - ro, v)) < 1e-6 * S * 100, "cylinder: intersection (%g %g %g) at radius %g", q[0], q[1], q[2], rad(z)); VP_CHECK(rad(z + 1e-3 * S * v) > r, "cylinder: not the last intersection"); } } } } }
  { d::CTorus<double> f; for (int k = 0; k < 3; ++k) f.cent_[k] = ce[k]; f.radius_ = r; f.radius_tube_ = r * c.uni(0.1, 0.9); if (c.chance(1, 4)) p = ce + D3{0, 0, S * c.range(-2, 2)}; auto s = [&](D3 x) { x = x - ce; return f.radius_tube_ - std::hypot(std::hypot(x[0], x[1]) - r, x[2]); }; D3 w = p - ce; if (std::hypot(std::hypot(w[0], w[1]) - r, w[2]) > 1e-3 * S) { double q[3] = {9, 9, 9}; double v = f.Projection(q, p[0], p[1], p[2]); n = {q[0], q[1], q[2]}; VP_CHECK(std::abs(v - s(p)) < tol && std::abs(norm(n) - 1) < 1e-9, "torus: distance at (%g %g %g) is %g, should be %g; normal (%g %g %g)", w[0], w[1], w[2], v, s(p), n[0], n[1], n[2]); VP_CHECK(std::abs(s(p + v * n)) < 10 * tol, "torus: distance times normal is not on the surface"); if (std::abs(s(p)) > tol) VP_CHECK(f.FindInOut(p[0], p[1], p[2]) == (s(p) > 0 ? 0u : 1u), "torus: FindInOut"); } }
  { d::CBox<double> f; f.hwx = S * c.pick({1., 2., c.uni(0.2, 3)}); f.hwy = S * c.pick({1., 2., c.uni(0.2, 3)}); f.hwz = S * c.pick({1., c.uni(0.2, 3)}); auto s = [&](D3 x) { D3 e{std::abs(x[0]) - f.hwx, std::abs(x[1]) - f.hwy, std::abs(x[2]) - f.hwz}; double in = std::max({e[0], e[1], e[2]}); if (in <= 0) return -in; D3 o{std::max(e[0], 0.), std::max(e[1], 0.), std::max(e[2], 0.)}; return -norm(o); }; check("box", f, s(p), s); }
}
VP_PROP(subdivide, 4000, 20000, "subdivision of quad, hexahedral and tetrahedral meshes: children, midpoints, conformity, volume, Catmull-Clark rule incl. boundary and isolated vertices; non-trivial: at least two elements") {
  int kind = c.below(3); vector<double> x; vector<U> el;
  if (kind == 0 && c.chance(1, 3)) { // each triangle of a triangle mesh (or fan) becomes three quads: interior vertices of any valence
    Mesh m; if (c.flip()) { int n = c.range(3, 9); push(m.xyz, {0, 0, 0}); for (int i = 0; i < n; ++i) { push(m.xyz, {std::cos(2 * M_PI * i / n), std::sin(2 * M_PI * i / n), 0.2 * i}); for (U q: {0u, (U) i + 1, (U) (i + 1) % n + 1}) m.tri.push_back(q); } } else if (c.flip()) m = star(c, c.chance(1, 2) ? 4 : 2, 0.3); else m = gridmesh(c.range(1, 4), c.range(1, 4));
    x = m.xyz; std::map<E2, U> mid; auto em = [&](U a, U b) { auto r = mid.emplace(E2{std::min(a, b), std::max(a, b)}, (U) (x.size() / 3)); if (r.second) push(x, 0.5 * (at(x, a) + at(x, b))); return r.first->second; };
    for (size_t t = 0; t < m.nt(); ++t) { U p[3], e[3]; for (int k = 0; k < 3; ++k) p[k] = m.tri[3 * t + k]; for (int k = 0; k < 3; ++k) e[k] = em(p[k], p[(k + 1) % 3]); U g = (U) (x.size() / 3); push(x, (1. / 3) * (at(x, p[0]) + at(x, p[1]) + at(x, p[2]))); for (int k = 0; k < 3; ++k) for (U q: {p[k], e[k], g, e[(k + 2) % 3]}) el.push_back(q); }
  } else if (kind == 0) { if (c.chance(1, 3)) { double lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1}; d::MeshQuad3_CubeVox(x, el, lo, hi); } else if (c.flip()) { int n = c.range(3, 6), m = c.range(1, 4); for (int j = 0; j <= m; ++j) for (int i = 0; i < n; ++i) push(x, {std::cos(2 * M_PI * i / n), std::sin(2 * M_PI * i / n), (double) j}); for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) for (int q: {j * n + i, j * n + (i + 1) % n, (j + 1) * n + (i + 1) % n, (j + 1) * n + i}) el.push_back(q); } else { vector<double> xy; d::MeshQuad2D_Grid(xy, el, (U) c.range(1, 4), (U) c.range(1, 4)); for (size_t i = 0; i < xy.size(); i += 2) push(x, {xy[i], xy[i + 1], 0}); } }
  else if (kind == 1) { d::MeshHex3_Grid(x, el, (U) c.range(1, 3), (U) c.range(1, 3), (U) c.range(1, 2), 1.); }
  else { Mesh m = gridmesh(c.range(1, 3), c.range(1, 3)); vector<double> xy; for (size_t i = 0; i < m.nv(); ++i) { xy.push_back(m.xyz[3 * i]); xy.push_back(m.xyz[3 * i + 1]); } d::ExtrudeTri2Tet(c.range(1, 2), 1., x, el, xy, m.tri); }
  if (c.flip()) push(x, rnd3(c, 3));   // an isolated vertex
  { size_t n = x.size() / 3; vector<U> p(n); std::iota(p.begin(), p.end(), 0u); c.shuffle(p.begin(), p.end()); vector<double> y(x.size()); for (size_t i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) y[3 * p[i] + k] = x[3 * i + k] + c.sym(0.1); x = y; for (auto &v: el) v = p[v]; }
  const U nn = kind == 1 ? 8 : 4; const size_t nv = x.size() / 3, ne = el.size() / nn; if (ne > 1) c.nontrivial(); vector<U> ch, ind, sup, ef; vector<double> y; const double tol = 1e-12;
  auto edges = [&](const vector<E2> &loc) { std::set<E2> s; for (size_t e = 0; e < ne; ++e) for (auto &l: loc) { U a = el[e * nn + l.first], b = el[e * nn + l.second]; s.insert({std::min(a, b), std::max(a, b)}); } return s; };
  if (kind == 0) {
    d::SubdivTopo_MeshQuad(ch, ind, sup, ef, el.data(), ne, nv); auto ed = edges({{0, 1}, {1, 2}, {2, 3}, {3, 0}}); size_t nd = ed.size(); VP_CHECK(sup.size() == nd && ef.size() == 4 * nd && ch.size() == 16 * ne, "SubdivTopo_MeshQuad sizes"); vector<int> efi(ef.begin(), ef.end()); d::SubdivPoints3_MeshQuad(y, efi, el, x); VP_CHECK(y.size() == 3 * (nv + nd + ne), "SubdivPoints3_MeshQuad size"); for (size_t i = 0; i < x.size(); ++i) VP_CHECK(y[i] == x[i], "subdivision moved a vertex");
    std::set<U> used; for (size_t q = 0; q < ne; ++q) { vector<int> seen(4, 0); for (int k = 0; k < 4; ++k) { const U *s = &ch[16 * q + 4 * k]; int r = -1; for (int j = 0; j < 4; ++j) if (s[j] < nv) { VP_CHECK(r < 0, "child quad with two old vertices"); r = j; } VP_CHECK(r >= 0, "child quad without old vertex"); int o = -1; for (int j = 0; j < 4; ++j) if (el[4 * q + j] == s[r]) o = j; VP_CHECK(o >= 0 && !seen[o], "child quad of another quad"); seen[o] = 1; D3 a = at(x, el[4 * q + o]), b = at(x, el[4 * q + (o + 1) % 4]), e = at(x, el[4 * q + (o + 3) % 4]), m{0, 0, 0}; for (int j = 0; j < 4; ++j) m = m + 0.25 * at(x, el[4 * q + j]); VP_CHECK(dist(at(y, s[(r + 1) % 4]), 0.5 * (a + b)) < tol && dist(at(y, s[(r + 2) % 4]), m) < tol && dist(at(y, s[(r + 3) % 4]), 0.5 * (a + e)) < tol, "child %d of quad %zu", k, q); for (int j = 0; j < 4; ++j) used.insert(s[j]); } }
    std::set<U> old(el.begin(), el.end()); VP_CHECK(used.size() == old.size() + nd + ne, "subdivided quads use %zu vertices, should be %zu", used.size(), old.size() + nd + ne);
    // Catmull-Clark
    vector<double> z; d::SubdivisionPoints_QuadCatmullClark(z, ch, ef, ind, sup, el.data(), ne, x.data(), nv); VP_CHECK(z.size() == y.size(), "Catmull-Clark size"); vector<D3> F(ne, D3{0, 0, 0}); for (size_t q = 0; q < ne; ++q) { for (int j = 0; j < 4; ++j) F[q] = F[q] + 0.25 * at(x, el[4 * q + j]); VP_CHECK(dist(at(z, nv + nd + q), F[q]) < tol, "Catmull-Clark face point"); }
    vector<int> bnd(nv, 0); for (size_t e = 0; e < nd; ++e) { U a = ef[4 * e], b = ef[4 * e + 1]; VP_CHECK((ed.count({std::min(a, b), std::max(a, b)})), "edge %u %u does not exist", a, b); vector<size_t> fs; for (size_t q = 0; q < ne; ++q) for (int j = 0; j < 4; ++j) { U u = el[4 * q + j], v = el[4 * q + (j + 1) % 4]; if ((u == a && v == b) || (u == b && v == a)) fs.push_back(q); } D3 m = 0.5 * (at(x, a) + at(x, b)); if (fs.size() == 2) m = 0.25 * (at(x, a) + at(x, b) + F[fs[0]] + F[fs[1]]); else bnd[a] = bnd[b] = 1; VP_CHECK(dist(at(z, nv + e), m) < tol, "Catmull-Clark edge point"); }
    for (U i = 0; i < nv; ++i) { D3 f{0, 0, 0}, m{0, 0, 0}; int n = 0, k = 0; for (size_t q = 0; q < ne; ++q) for (int j = 0; j < 4; ++j) if (el[4 * q + j] == i) { f = f + F[q]; n++; } for (auto &e: ed) if (e.first == i || e.second == i) { m = m + 0.5 * (at(x, e.first) + at(x, e.second)); k++; } D3 p = at(x, i); if (n && !bnd[i]) { VP_CHECK(n == k, "harness: valence"); p = (1. / n) * ((1. / n) * f + (2. / n) * m + (n - 3.) * p); } VP_CHECK(dist(at(z, i), p) < 1e-11, "Catmull-Clark vertex %u (valence %d, boundary %d)", i, n, bnd[i]); }
  } else if (kind == 1) {
    vector<U> qd; d::SubdivTopo_MeshHex(ch, ind, sup, qd, el.data(), ne, nv); d::SubdivisionPoints_Hex(y, ind, sup, qd, el.data(), (U) ne, x.data(), (U) nv); VP_CHECK(ch.size() == 64 * ne, "SubdivTopo_MeshHex size"); auto ed = edges({{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}}); static const int fa[6][4] = {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}}; std::set<array<U, 4>> fs; for (size_t h = 0; h < ne; ++h) for (auto &f: fa) { array<U, 4> k; for (int j = 0; j < 4; ++j) k[j] = el[8 * h + f[j]]; std::sort(k.begin(), k.end()); fs.insert(k); }
    size_t total = nv + ed.size() + fs.size() + ne; VP_CHECK(y.size() == 3 * total && qd.size() == 4 * fs.size(), "SubdivisionPoints_Hex: %zu points, should be %zu", y.size() / 3, total); for (size_t i = 0; i < x.size(); ++i) VP_CHECK(y[i] == x[i], "subdivision moved a vertex"); static const int co[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}; std::set<U> used;
    for (size_t h = 0; h < ne; ++h) { vector<int> seen(8, 0); for (int k = 0; k < 8; ++k) { const U *s = &ch[64 * h + 8 * k]; int o = -1; for (int j = 0; j < 8; ++j) if (s[j] < nv) for (int i = 0; i < 8; ++i) if (el[8 * h + i] == s[j]) { VP_CHECK(i == j, "child hexahedron is rotated"); o = i; } VP_CHECK(o >= 0 && !seen[o], "child hexahedron without its vertex"); seen[o] = 1; for (int j = 0; j < 8; ++j) { D3 p{0, 0, 0}; for (int i = 0; i < 8; ++i) { double w = 1; for (int a = 0; a < 3; ++a) { double u = 0.5 * (co[o][a] + co[j][a]); w *= co[i][a] ? u : 1 - u; } p = p + w * at(x, el[8 * h + i]); } VP_CHECK(dist(at(y, s[j]), p) < tol, "child %d of hexahedron %zu: node %d", k, h, j); used.insert(s[j]); } } }
    std::set<U> old(el.begin(), el.end()); VP_CHECK(used.size() == old.size() + total - nv, "subdivided hexahedra use %zu vertices", used.size());
  } else {
    d::SubdivTopo_MeshTet(ch, ind, sup, el.data(), (int) ne, (U) nv); auto ed = edges({{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}); VP_CHECK(ch.size() == 32 * ne && sup.size() == ed.size(), "SubdivTopo_MeshTet sizes"); y = x; for (U i = 0; i < nv; ++i) for (U k = ind[i]; k < ind[i + 1]; ++k) { VP_CHECK((ed.count({std::min(i, sup[k]), std::max(i, sup[k])})), "edge does not exist"); push(y, 0.5 * (at(x, i) + at(x, sup[k]))); }
    std::map<array<U, 3>, int> f0, f1; auto faces = [&](const vector<U> &t, std::map<array<U, 3>, int> &f) { for (size_t i = 0; i < t.size(); i += 4) for (int k = 0; k < 4; ++k) { array<U, 3> a; for (int j = 0, q = 0; j < 4; ++j) if (j != k) a[q++] = t[i + j]; std::sort(a.begin(), a.end()); f[a]++; } }; faces(el, f0); faces(ch, f1); size_t b0 = 0, b1 = 0; for (auto &f: f0) b0 += f.second == 1; for (auto &f: f1) { VP_CHECK(f.second <= 2, "face of %d tetrahedra", f.second); b1 += f.second == 1; } VP_CHECK(b1 == 4 * b0, "subdivided tetrahedra are not conforming: %zu boundary faces, should be %zu", b1, 4 * b0);
    for (size_t e = 0; e < ne; ++e) { auto vol = [&](const vector<double> &z, const U *t) { return tetvol(at(z, t[0]), at(z, t[1]), at(z, t[2]), at(z, t[3])); }; double v = vol(x, &el[4 * e]), s = 0; for (int k = 0; k < 8; ++k) { for (int j = 0; j < 4; ++j) VP_CHECK(ch[32 * e + 4 * k + j] < y.size() / 3, "tetrahedron node"); double w = vol(y, &ch[32 * e + 4 * k]); VP_CHECK(std::abs(w - v / 8) < 1e-12, "child %d of tetrahedron %zu has volume %g, parent %g", k, e, w, v); s += w; for (int j = 0; j < 4; ++j) { D3 p = at(y, ch[32 * e + 4 * k + j]); for (int i = 0; i < 4; ++i) { U t[4]; for (int q = 0; q < 4; ++q) t[q] = el[4 * e + q]; double b = 0; D3 P[4]; for (int q = 0; q < 4; ++q) P[q] = q == i ? p : at(x, t[q]); b = tetvol(P[0], P[1], P[2], P[3]) / v; VP_CHECK(b > -1e-9, "child outside its parent"); } } } VP_CHECK(std::abs(s - v) < 1e-12, "volume of the children"); }
  }
}
VP_PROP(slices, 6000, 30000, "contours and cross sections of closed and open triangle meshes at many levels, vertices exactly on a level included: one segment per crossed triangle, endpoints on the level, every closed loop once and in order; Reeb graph of closed surfaces; non-trivial: some loop") {
  bool closed = c.chance(2, 3); Mesh m = closed ? star(c, c.chance(1, 2) ? 8 : 3, 0.3) : gridmesh(c.range(1, 6), c.range(1, 6)); const size_t nv = m.nv(), nt = m.nt(); auto &x = m.xyz; auto &tri = m.tri; if (!closed) for (size_t i = 0; i < nv; ++i) x[3 * i + 2] = c.sym(1);
  vector<double> v(nv); int kind = c.below(3); D3 dir = unit(rnd3(c, 1)); for (size_t i = 0; i < nv; ++i) v[i] = kind == 0 ? (double) c.range(-2, 2) : kind == 1 ? dot(dir, at(x, i)) : std::round(4 * at(x, i)[2]) / 4; int nl = c.range(1, 4); std::set<double> ls; for (int i = 0; i < nl; ++i) ls.insert(kind == 0 ? c.range(-4, 4) * 0.5 : kind == 1 ? c.sym(1.2) : c.range(-4, 4) * 0.25); vector<double> lev(ls.begin(), ls.end()); c.note("values %s levels %s", vp::str(v).substr(0, 1500).c_str(), vp::str(lev).c_str());
  std::map<E2, U> de; for (U t = 0; t < nt; ++t) for (int k = 0; k < 3; ++k) de[{tri[3 * t + k], tri[3 * t + (k + 1) % 3]}] = t; vector<U> nb(3 * nt, UINT_MAX); for (U t = 0; t < nt; ++t) for (int k = 0; k < 3; ++k) { auto it = de.find({tri[3 * t + (k + 2) % 3], tri[3 * t + (k + 1) % 3]}); if (it != de.end()) nb[3 * t + k] = it->second; }
  auto val = [&](const D3 &b, U t) { return b[0] * v[tri[3 * t]] + b[1] * v[tri[3 * t + 1]] + b[2] * v[tri[3 * t + 2]]; }; const double tol = 1e-9;
  auto seg = [&](const d::CSegInfo &s, double h, D3 &A, D3 &B) { VP_CHECK(s.itri >= 0 && s.itri < (int) nt && s.iedA >= 0 && s.iedA < 3 && s.iedB >= 0 && s.iedB < 3 && s.iedA != s.iedB, "segment with edges %d %d of triangle %d", s.iedA, s.iedB, s.itri); VP_CHECK(s.r0A >= -1e-12 && s.r0A <= 1 + 1e-12 && s.r0B >= -1e-12 && s.r0B <= 1 + 1e-12, "ratios %g %g", s.r0A, s.r0B); double a[3], b[3]; s.Pos3D(a, b, x, tri); A = {a[0], a[1], a[2]}; B = {b[0], b[1], b[2]}; D3 ba{0, 0, 0}, bb{0, 0, 0}; ba[(s.iedA + 1) % 3] = 1 - s.r0A; ba[(s.iedA + 2) % 3] = s.r0A; bb[(s.iedB + 1) % 3] = 1 - s.r0B; bb[(s.iedB + 2) % 3] = s.r0B; VP_CHECK(std::abs(val(ba, s.itri) - h) < tol && std::abs(val(bb, s.itri) - h) < tol, "end points of the segment in triangle %d have values %g %g, level %g", s.itri, val(ba, s.itri), val(bb, s.itri), h);
    D3 P[3]; for (int k = 0; k < 3; ++k) P[k] = at(x, tri[3 * s.itri + k]); D3 ea = ba[0] * P[0] + ba[1] * P[1] + ba[2] * P[2], eb = bb[0] * P[0] + bb[1] * P[1] + bb[2] * P[2]; VP_CHECK(dist(A, ea) < tol && dist(B, eb) < tol, "Pos3D"); vector<double> xy; for (size_t i = 0; i < nv; ++i) { xy.push_back(x[3 * i]); xy.push_back(x[3 * i + 1]); } double a2[2], b2[2]; s.Pos2D(a2, b2, xy.data(), tri.data()); VP_CHECK(std::hypot(a2[0] - A[0], a2[1] - A[1]) < tol && std::hypot(b2[0] - B[0], b2[1] - B[1]) < tol, "Pos2D");
    D3 n = cross(P[1] - P[0], P[2] - P[0]); for (int k = 0; k < 3; ++k) if (dist(A, B) > 1e-6 && std::abs(v[tri[3 * s.itri + k]] - h) > 1e-6) { double side = dot(n, cross(B - A, P[k] - A)); VP_CHECK((side > 0) == (v[tri[3 * s.itri + k]] > h), "the higher side is not on the left of the segment"); } };
  for (double h: lev) { vector<d::CSegInfo> sg; d::AddContour(sg, h, tri.data(), nt, v.data()); std::set<int> got; for (auto &s: sg) { D3 A, B; seg(s, h, A, B); if (dist(A, B) > 1e-12) VP_CHECK(got.insert(s.itri).second, "two segments in triangle %d", s.itri); }
    for (U t = 0; t < nt; ++t) { int up = 0, eq = 0; for (int k = 0; k < 3; ++k) { double q = v[tri[3 * t + k]]; up += q > h; eq += q == h; } bool need = up > 0 && up + eq < 3 && up < 3; if (need) VP_CHECK(got.count(t), "AddContour: no segment in triangle %u", t); if (up == 0 || up == 3) VP_CHECK(!got.count(t), "AddContour: segment in triangle %u which is not crossed", t); if (up == 1 && eq == 2) VP_CHECK(got.count(t), "AddContour: the contour along an edge of triangle %u is missing", t); } }
  vector<d::CSliceTriMesh> cs; d::Slice_MeshTri3D_Heights(cs, lev, v, tri, nb); if (!cs.empty()) c.nontrivial();
  std::map<std::pair<U, U>, int> loopof; size_t nloop = 0; // (level, triangle) -> loop
  for (size_t i = 0; i < cs.size(); ++i) { auto &s = cs[i]; VP_CHECK(s.iHeight < lev.size() && s.IndHeight() == (int) s.iHeight && s.NumSeg() == s.aTriInfo.size() && s.NumSeg() > 0, "cross section %zu", i); if (i) VP_CHECK(cs[i - 1].iHeight <= s.iHeight, "cross sections are not ordered"); double h = lev[s.iHeight]; size_t n = s.NumSeg(); for (size_t k = 0; k < n; ++k) { D3 A, B, C, D; seg(s.aTriInfo[k], h, A, B); seg(s.aTriInfo[(k + 1) % n], h, C, D); VP_CHECK(dist(B, C) < tol, "cross section %zu: segment %zu does not end where the next one begins", i, k); VP_CHECK(nb[3 * s.aTriInfo[k].itri + s.aTriInfo[k].iedB] == (U) s.aTriInfo[(k + 1) % n].itri, "cross section %zu: next triangle", i); VP_CHECK(s.IndTri_Seg((U) k) == (U) s.aTriInfo[k].itri && loopof.emplace(std::make_pair(s.iHeight, (U) s.aTriInfo[k].itri), (int) i).second, "triangle %d twice at level %u", s.aTriInfo[k].itri, s.iHeight); } }
  for (U l = 0; l < lev.size(); ++l) { vector<int> cr(nt), seen(nt, 0); for (U t = 0; t < nt; ++t) { int up = 0; for (int k = 0; k < 3; ++k) up += v[tri[3 * t + k]] > lev[l]; cr[t] = up == 1 || up == 2; }
    for (U t = 0; t < nt; ++t) if (cr[t] && !seen[t]) { vector<U> comp{t}; seen[t] = 1; bool open = false; for (size_t q = 0; q < comp.size(); ++q) for (int k = 0; k < 3; ++k) { U a = tri[3 * comp[q] + (k + 1) % 3], b = tri[3 * comp[q] + (k + 2) % 3]; if ((v[a] > lev[l]) == (v[b] > lev[l])) continue; U z = nb[3 * comp[q] + k]; if (z == UINT_MAX) { open = true; continue; } if (!seen[z]) { seen[z] = 1; comp.push_back(z); } } if (open) { for (U q: comp) VP_CHECK((!loopof.count({l, q})), "an open contour was reported as loop"); continue; } nloop++; auto it = loopof.find({l, t}); VP_CHECK(it != loopof.end() && cs[it->second].NumSeg() == comp.size(), "the closed contour at level %g through triangle %u is missing", lev[l], t); for (U q: comp) { auto jt = loopof.find({l, q}); VP_CHECK(jt != loopof.end() && jt->second == it->second, "contour broken"); } } }
  VP_CHECK(nloop == cs.size(), "%zu loops, should be %zu", cs.size(), nloop);
  vector<std::set<U>> G; d::MakeReebGraph(G, cs, tri, nb); VP_CHECK(G.size() == cs.size(), "Reeb graph size"); for (U i = 0; i < G.size(); ++i) for (U j: G[i]) VP_CHECK(j < G.size() && G[j].count(i), "Reeb graph is not symmetric");
  if (!closed) return; auto band = [&](U p) { int b = 0; for (double h: lev) b += v[p] > h; return b; }; vector<int> lo(nt), hi(nt); for (U t = 0; t < nt; ++t) { lo[t] = 99; hi[t] = 0; for (int k = 0; k < 3; ++k) { int b = band(tri[3 * t + k]); lo[t] = std::min(lo[t], b); hi[t] = std::max(hi[t], b); } if (hi[t] - lo[t] > 1) return; }
  // pieces (triangle, band) joined across edges
  int nbd = (int) lev.size() + 1; vector<int> par(nt * nbd); std::iota(par.begin(), par.end(), 0); std::function<int(int)> root = [&](int a) { while (par[a] != a) a = par[a] = par[par[a]]; return a; }; vector<int> fl(nt); std::iota(fl.begin(), fl.end(), 0); std::function<int(int)> fr = [&](int a) { while (fl[a] != a) a = fl[a] = fl[fl[a]]; return a; };
  for (U t = 0; t < nt; ++t) for (int k = 0; k < 3; ++k) { U z = nb[3 * t + k]; int a = band(tri[3 * t + (k + 1) % 3]), b = band(tri[3 * t + (k + 2) % 3]); for (int q = std::min(a, b); q <= std::max(a, b); ++q) par[root(t * nbd + q)] = root(z * nbd + q); if (lo[t] == hi[t] && lo[z] == hi[z]) fl[fr(t)] = fr(z); }
  std::map<int, std::set<U>> loops; std::map<int, std::set<int>> floods; std::map<int, std::set<U>> touch; for (U i = 0; i < cs.size(); ++i) { U t = cs[i].IndTri_Seg(0); for (int q = 0; q < 2; ++q) loops[root(t * nbd + cs[i].IndHeight() + q)].insert(i); }
  for (U t = 0; t < nt; ++t) if (lo[t] == hi[t]) { floods[root(t * nbd + lo[t])].insert(fr(t)); for (int k = 0; k < 3; ++k) { U z = nb[3 * t + k]; if (lo[z] != hi[z]) touch[fr(t)].insert(loopof[{(U) lo[z], z}]); } }
  for (U i = 0; i < G.size(); ++i) for (U j: G[i]) { bool ok = false; for (auto &l: loops) ok |= l.second.count(i) && l.second.count(j); VP_CHECK(i != j && ok, "Reeb graph joins loops %u and %u which no part of the surface joins", i, j); }
  for (auto &l: loops) { auto &f = floods[l.first]; if (f.size() != 1 || touch[*f.begin()] != l.second) continue; std::set<int> hs; for (U i: l.second) hs.insert(cs[i].IndHeight()); for (U i: l.second) for (U j: l.second) if (i != j && (hs.size() == 1 || cs[i].IndHeight() != cs[j].IndHeight())) { c.label("joined"); VP_CHECK(G[i].count(j), "Reeb graph: loops %u and %u bound the same part of the surface", i, j); } }
}
