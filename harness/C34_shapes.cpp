// C34: pyramids and wedges, points on meshes, plane boxes, hair shapes, elastic polylines
// SCALE: 60 600
#include "common.hpp"
#include <iostream>
#include <sstream>
#include <algorithm>
#include <climits>
#include <array>
#include <cassert>
#include <cmath>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/geosolidelm_v3.h"
#include "delfem2/point_on_surface_mesh.h"
#include "delfem2/srch_bv2_aabb.h"
#include "delfem2/hair_darboux_util.h"
#include "delfem2/polyline_elastic_beam2.h"
#include "delfem2/polyline_elastic_rod2.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::array;
typedef vector<double> V; typedef unsigned int U;
namespace {
struct Quiet { std::streambuf *o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
d::CVec3d cv(D3 a) { return {a[0], a[1], a[2]}; }
D3 dv(const d::CVec3d &a) { return {a.x, a.y, a.z}; }
D3 ar(const array<double, 3> &a) { return {a[0], a[1], a[2]}; }
// smallest rotation taking direction a to direction b
D3 minrot(D3 a, D3 b, D3 v) { a = unit(a); b = unit(b); D3 n = cross(a, b); return v + cross(n, v) + (1 / (1 + dot(a, b))) * cross(n, cross(n, v)); }
}
VP_PROP(solid, 4000, 20000, "pyramids and wedges: volume vs the sum over tetrahedra (flat faces) and rigid motion, position by the shape functions, coordinates of the origin found by Newton steps from nearby; non-trivial: general element") {
  bool wedge = c.flip(); double A[9]; for (int i = 0; i < 9; ++i) A[i] = (i % 4 == 0) + c.sym(0.3); auto map = [&](D3 p) { return D3{A[0] * p[0] + A[1] * p[1] + A[2] * p[2], A[3] * p[0] + A[4] * p[1] + A[5] * p[2], A[6] * p[0] + A[7] * p[1] + A[8] * p[2]}; }; double det = A[0] * (A[4] * A[8] - A[5] * A[7]) - A[1] * (A[3] * A[8] - A[5] * A[6]) + A[2] * (A[3] * A[7] - A[4] * A[6]); if (det < 0.1) return; c.nontrivial(); c.label(wedge ? "wedge" : "pyramid"); D3 org = rnd3(c, 3); double sx = c.logreal(0.3, 3), sy = c.logreal(0.3, 3), h = c.logreal(0.3, 3); vector<D3> P;
  if (wedge) { D2 t[3] = {{0, 0}, {1, c.sym(0.3)}, {c.sym(0.3), 1}}; double top = c.chance(1, 3) ? 1 : c.logreal(0.5, 2); for (int k = 0; k < 2; ++k) for (auto &q: t) P.push_back(org + map({(k ? top : 1) * sx * q[0], (k ? top : 1) * sy * q[1], k * h})); double a = std::abs(cross(t[1] - t[0], t[2] - t[0])) / 2 * sx * sy, vol = a * h * (1 + top + top * top) / 3 * det; vector<d::CVec3d> q; for (auto &x: P) q.push_back(cv(x)); double v = d::Volume_Wedge(q[0], q[1], q[2], q[3], q[4], q[5]); VP_NEAR(std::abs(v), vol, 1e-9 * (1 + vol)); double w = d::Volume_Wedge(q[0], q[2], q[1], q[3], q[5], q[4]); VP_NEAR(w, -v, 1e-9 * (1 + vol)); double y = d::Volume_Wedge(q[1], q[2], q[0], q[4], q[5], q[3]); VP_NEAR(y, v, 1e-9 * (1 + vol)); }
  else { D2 t[4] = {{0, 0}, {1, c.sym(0.2)}, {1 + c.sym(0.2), 1 + c.sym(0.2)}, {c.sym(0.2), 1}}; for (auto &q: t) P.push_back(org + map({sx * q[0], sy * q[1], 0})); P.push_back(org + map({sx * c.sym(1.5), sy * c.sym(1.5), h})); double a = (cross(t[1] - t[0], t[2] - t[0]) + cross(t[2] - t[0], t[3] - t[0])) / 2 * sx * sy, vol = a * h / 3 * det; d::CVec3d q[5]; for (int i = 0; i < 5; ++i) q[i] = cv(P[i]); double v = d::Volume_Pyramid(q[0], q[1], q[2], q[3], q[4]); VP_NEAR(v, vol, 1e-9 * (1 + vol)); v = d::Volume_Pyramid(q[1], q[2], q[3], q[0], q[4]); VP_NEAR(v, vol, 1e-9 * (1 + vol)); v = d::Volume_Pyramid(q[3], q[2], q[1], q[0], q[4]); VP_NEAR(v, -vol, 1e-9 * (1 + vol)); }
  for (auto &x: P) x = x + rnd3(c, 0.03); double r0 = c.real(0.1, wedge ? 0.45 : 0.9), r1 = c.real(0.1, wedge ? 0.45 : 0.9), r2 = c.real(0.1, wedge ? 0.9 : 0.6); D3 X{0, 0, 0}; if (wedge) { double w[6] = {(1 - r2) * r0, (1 - r2) * r1, (1 - r2) * (1 - r0 - r1), r2 * r0, r2 * r1, r2 * (1 - r0 - r1)}; for (int i = 0; i < 6; ++i) X = X + w[i] * P[i]; } else { double w[5] = {(1 - r2) * (1 - r0) * (1 - r1), (1 - r2) * r0 * (1 - r1), (1 - r2) * r0 * r1, (1 - r2) * (1 - r0) * r1, r2}; for (int i = 0; i < 5; ++i) X = X + w[i] * P[i]; }
  auto pos = [&](double a, double b, double g, bool shift) { vector<d::CVec3d> q; for (auto &x: P) q.push_back(cv(shift ? x - X : x)); return dv(wedge ? d::positionBarycentricCoord_Wedge(a, b, g, q[0], q[1], q[2], q[3], q[4], q[5]) : d::positionBarycentricCoord_Pyramid(a, b, g, q[0], q[1], q[2], q[3], q[4])); }; VP_CHECK(norm(pos(r0, r1, r2, false) - X) < 1e-12 * (1 + norm(X)) + 1e-12, "position by coordinates"); double e = 0.05, a = r0 + c.sym(e), b = r1 + c.sym(e), g = r2 + c.sym(e); vector<d::CVec3d> q; for (auto &x: P) q.push_back(cv(x - X)); bool ok = wedge ? d::barycentricCoord_Origin_Wedge(a, b, g, q[0], q[1], q[2], q[3], q[4], q[5]) : d::barycentricCoord_Origin_Pyramid(a, b, g, q[0], q[1], q[2], q[3], q[4]); VP_CHECK(ok, "no coordinates"); double lh = std::min({sx, sy, h}); if (lh < 0.5) return; VP_CHECK(norm(pos(a, b, g, true)) < 1e-6, "coordinates of the origin: %g %g %g, expected %g %g %g", a, b, g, r0, r1, r2); c.label("newton");
}
VP_PROP(surfpoint, 6000, 30000, "positions, normals and validity of points on triangle meshes, on faces of tetrahedra and on height fields, their text form; plane bounding boxes vs set arithmetic; non-trivial: at least four triangles") {
  Mesh m = star(c, 2, 0.15); int nt = (int) m.nt(); c.nontrivial(nt >= 4); U it = c.below(nt); double a = c.real(0, 1), b = c.real(0, 1 - a); if (c.chance(1, 5)) { a = c.range(0, 1); b = a > 0 ? 0 : c.range(0, 1); } d::PointOnSurfaceMesh<double> p(it, a, b); U i0 = m.tri[3 * it], i1 = m.tri[3 * it + 1], i2 = m.tri[3 * it + 2]; D3 e = a * P3(m.xyz, i0) + b * P3(m.xyz, i1) + (1 - a - b) * P3(m.xyz, i2); VP_CHECK(norm(ar(p.PositionOnMeshTri3(m.xyz, m.tri)) - e) < 1e-12 && norm(ar(p.PositionOnMeshTri3(m.xyz.data(), m.nv(), m.tri.data(), nt)) - e) < 1e-12, "position on the mesh");
  V nm; for (size_t i = 0; i < m.nv(); ++i) { D3 z = unit(rnd3(c, 1) + D3{0.01, 0.02, 0.03}); push(nm, z); } D3 z = a * P3(nm, i0) + b * P3(nm, i1) + (1 - a - b) * P3(nm, i2); if (norm(z) > 0.05) VP_CHECK(norm(ar(p.UnitNormalOnMeshTri3(nm, m.tri)) - unit(z)) < 1e-10 && norm(ar(p.UnitNormalOnMeshTri3(m.xyz.data(), (U) m.nv(), m.tri.data(), (U) nt, nm.data())) - unit(z)) < 1e-10, "normal on the mesh");
  { double x = c.sym(1.3), y = c.sym(1.3), ep = c.chance(1, 2) ? 0.01 : 1e-9; U k = c.chance(1, 8) ? nt + c.below(3) : it; d::PointOnSurfaceMesh<double> q(k, x, y); auto in = [&](double v) { return v >= -ep && v <= 1 + ep; }; VP_CHECK(q.Check(m.xyz, m.tri, ep) == (k < (U) nt && in(x) && in(y) && in(1 - x - y)), "validity of (%u %g %g)", k, x, y); std::stringstream ss; ss.precision(17); ss << q; d::PointOnSurfaceMesh<double> r; ss >> r; VP_CHECK(r.itri == q.itri && r.r0 == q.r0 && r.r1 == q.r1, "text form"); }
  { int nx = c.range(2, 5), ny = c.range(2, 5); vector<float> H(nx * ny); for (auto &v: H) v = (float) c.sym(1); double el = c.logreal(0.1, 3); U ex = c.below(nx - 1), ey = c.below(ny - 1); bool up = c.flip(); d::PointOnSurfaceMesh<double> q((ey * nx + ex) * 2 + up, a, b); auto at = [&](U i, U j) { return D3{i * el, j * el, H[j * nx + i]}; }; D3 g = up ? a * at(ex, ey) + b * at(ex + 1, ey + 1) + (1 - a - b) * at(ex, ey + 1) : a * at(ex, ey) + b * at(ex + 1, ey) + (1 - a - b) * at(ex + 1, ey + 1); VP_CHECK(norm(ar(q.PositionOnGrid2(nx, ny, el, H)) - g) < 1e-12 * (1 + el * 9), "position on the height field"); }
  { int n = c.range(1, 4); V x; vector<U> tet, face; for (int i = 0; i < 4 * n; ++i) { push(x, rnd3(c, 2)); tet.push_back(i); } for (int i = 0; i < n; ++i) { for (int k = 0; k < 4; ++k) std::swap(tet[4 * i + k], tet[c.below(4 * n)]); } int nf = c.range(1, 5); for (int i = 0; i < nf; ++i) { face.push_back(c.below(n)); face.push_back(c.below(4)); } U k = c.below(nf); d::PointOnSurfaceMesh<double> q(k, a, b); static const int F[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}}; const int *f = F[face[2 * k + 1]]; const U *t = &tet[4 * face[2 * k]]; VP_CHECK(norm(ar(q.PositionOnFaceOfMeshTet(x, tet, face)) - (a * P3(x, t[f[0]]) + b * P3(x, t[f[1]]) + (1 - a - b) * P3(x, t[f[2]]))) < 1e-12, "position on a tetrahedron's face"); }
  { d::CBoundingBox2<double> A, B; VP_CHECK(!A.isActive() && !A.IsIntersectSphere(d::CVec2d(0, 0), 9), "empty box"); auto fill = [&](d::CBoundingBox2<double> &X, double *bb) { int n = c.range(1, 4); bb[0] = bb[2] = 1e9; bb[1] = bb[3] = -1e9; for (int i = 0; i < n; ++i) { double x = c.range(-4, 4), y = c.range(-4, 4); X.Add(x, y); bb[0] = std::min(bb[0], x); bb[1] = std::max(bb[1], x); bb[2] = std::min(bb[2], y); bb[3] = std::max(bb[3], y); } }; double p[4], q[4]; fill(A, p); auto same = [](const d::CBoundingBox2<double> &X, const double *bb) { return X.isActive() && X.x_min == bb[0] && X.x_max == bb[1] && X.y_min == bb[2] && X.y_max == bb[3]; }; VP_CHECK(same(A, p), "box of points"); d::CBoundingBox2<double> E, C = A; C += E; VP_CHECK(same(C, p), "adding an empty box"); E += A; VP_CHECK(same(E, p), "adding to an empty box"); fill(B, q); double cl = c.flip() ? 0 : c.range(0, 3); bool hit = p[0] <= q[1] + cl && q[0] <= p[1] + cl && p[2] <= q[3] + cl && q[2] <= p[3] + cl; VP_CHECK(A.IsIntersect(B, cl) == hit && B.IsIntersect(A, cl) == hit, "box intersection"); double x = c.range(-6, 6), y = c.range(-6, 6), r = c.range(0, 3); VP_CHECK(A.IsIntersectSphere(d::CVec2d(x, y), r) == (x >= p[0] - r && x <= p[1] + r && y >= p[2] - r && y <= p[3] + r), "box and circle"); VP_NEAR(A.LengthDiagonal(), std::hypot(p[1] - p[0], p[3] - p[2]), 1e-12); V mm = A.MinMaxXYZ(); VP_CHECK(((mm == (V{p[0], p[1], p[2], p[3], 0, 0}))), "box bounds"); A += B; double u[4] = {std::min(p[0], q[0]), std::max(p[1], q[1]), std::min(p[2], q[2]), std::max(p[3], q[3])}; VP_CHECK(same(A, u), "union of boxes"); }
}
VP_PROP(hair, 4000, 20000, "helical hair: edge length, helix, directors transported along the edges; fixed flags of many hairs; directors made orthogonal; updates of points and directors: unit, orthogonal, only free points move, twist by the given angle; parallel transport by its definition; non-trivial: more than one hair") {
  Quiet quiet; d::HairDarbouxShape s; s.num_points = c.range(3, 12); s.radius = c.logreal(0.2, 2); s.pitch = c.logreal(0.05, 3); s.edge_length = s.radius * c.logreal(0.05, 0.8); vector<d::CVec3d> P, S; if (c.flip()) { P.resize(c.below(5)); S.resize(c.below(20)); } s.MakeConfigDaboux(P, S); int np = s.num_points; VP_CHECK((int) P.size() == np && (int) S.size() == np, "sizes"); for (int i = 0; i + 1 < np; ++i) VP_NEAR(norm(dv(P[i + 1]) - dv(P[i])), s.edge_length, 1e-8 * s.edge_length); double turn = -1; for (int i = 0; i < np; ++i) { D3 p = dv(P[i]); double an = 2 * M_PI * p[0] / s.pitch; VP_NEAR(p[1], s.radius * std::cos(an), 1e-8 * s.radius); VP_NEAR(p[2], s.radius * std::sin(an), 1e-8 * s.radius); if (i == 1) turn = an; VP_NEAR(an, i * turn, 1e-8 * (1 + an) + (i ? 0 : 1)); } VP_CHECK(turn > 0 && dv(P[0])[0] == 0, "helix"); for (int i = 0; i + 1 < np; ++i) { D3 e = dv(P[i + 1]) - dv(P[i]); VP_NEAR(norm(dv(S[i])), 1, 1e-6); VP_NEAR(dot(dv(S[i]), unit(e)), 0, 1e-6); if (i) VP_CHECK(norm(dv(S[i]) - minrot(dv(P[i]) - dv(P[i - 1]), e, dv(S[i - 1]))) < 1e-6, "director %d is not transported", i); }
  int nh = c.range(1, 4); if (nh > 1) c.nontrivial(); vector<U> root{0}; vector<D3> Q, T; for (int h = 0; h < nh; ++h) { int n = c.range(3, 6); D3 dir = unit(rnd3(c, 1) + D3{0, 0, 1.01}), p = rnd3(c, 2); for (int i = 0; i < n; ++i) { Q.push_back(p); p = p + c.real(0.5, 1) * unit(dir + rnd3(c, 0.5)); } root.push_back((U) Q.size()); } int n = (int) Q.size(); vector<bool> last(n); for (int h = 0; h < nh; ++h) last[root[h + 1] - 1] = true; P.clear(); S.clear(); for (auto &x: Q) { P.push_back(cv(x)); S.push_back(cv(rnd3(c, 2) + D3{0.1, 0.2, 0.3})); }
  vector<int> flag(c.below(50), 1); d::MakeBCFlag_RodHair(flag, root); VP_CHECK((int) flag.size() == 4 * n, "flags"); for (int h = 0; h < nh; ++h) for (U i = root[h]; i < root[h + 1]; ++i) for (int k = 0; k < 4; ++k) VP_CHECK(flag[4 * i + k] == (k < 3 ? i < root[h] + 2 : i == root[h] || i + 1 == root[h + 1]), "flag %d of point %u", k, i);
  auto S0 = S; bool deg = false; for (int i = 0; i + 1 < n; ++i) { D3 e = unit(Q[i + 1] - Q[i]), x = dv(S0[i]) - dot(dv(S0[i]), e) * e; if (norm(x) < 0.05) deg = true; } if (deg) return; d::MakeDirectorOrthogonal_RodHair(S, P); for (int i = 0; i + 1 < n; ++i) { D3 e = unit(Q[i + 1] - Q[i]), x = dv(S0[i]) - dot(dv(S0[i]), e) * e; VP_CHECK(norm(dv(S[i]) - unit(x)) < 1e-11, "director %d", i); }
  if (c.flip()) { auto S1 = S; vector<D3> st(n); for (int i = 0; i < n; ++i) st[i] = dv(S[i]); for (int h = 0; h < nh; ++h) for (U i = root[h]; i + 2 < root[h + 1]; ++i) { D3 w = minrot(Q[i + 1] - Q[i], Q[i + 2] - Q[i + 1], st[i]) + st[i + 1], e = unit(Q[i + 2] - Q[i + 1]); w = w - dot(w, e) * e; if (norm(w) < 0.05) return; st[i + 1] = unit(w); } d::ParallelTransport_RodHair(P, S, root); for (int i = 0; i < n; ++i) VP_CHECK(norm(dv(S[i]) - st[i]) < 1e-6, "transported director %d", i); c.label("transport"); return; }
  V x(4 * n); double big = c.logreal(1e-4, 0.15); bool twist = c.chance(1, 3); for (int i = 0; i < n; ++i) for (int k = 0; k < 4; ++k) x[4 * i + k] = flag[4 * i + k] || (twist && k < 3) ? 0 : c.sym(big); auto S1 = S; d::UpdateSolutionHair(P, S, x, root, flag); for (int i = 0; i < n; ++i) { D3 g = flag[4 * i] ? Q[i] : Q[i] + D3{x[4 * i], x[4 * i + 1], x[4 * i + 2]}; VP_CHECK(norm(dv(P[i]) - g) < 1e-13, "point %d", i); } for (int i = 0; i < n; ++i) { if (last[i]) { VP_CHECK(norm(dv(S[i]) - dv(S1[i])) == 0, "director without an edge changes"); continue; } D3 e = unit(dv(P[i + 1]) - dv(P[i])), o = unit(Q[i + 1] - Q[i]); VP_NEAR(norm(dv(S[i])), 1, 1e-9); VP_NEAR(dot(dv(S[i]), e), 0, 1e-9); D3 f = minrot(o, e, dv(S1[i])); double an = std::atan2(dot(cross(f, dv(S[i])), e), dot(f, dv(S[i]))); double b2 = big * big; VP_NEAR(an, x[4 * i + 3], twist ? 2 * b2 * big + 1e-6 : 30 * b2 + 1e-6); } c.label("update");
}
VP_PROP(polyline, 3000, 15000, "elastic polylines: the beam clamped at its first point and dragged at another vs the dense solution of its energy, end points met, repeated drags are independent of the path; the rod: one dragged step vs the dense Newton system; non-trivial: five points") {
  int n = c.range(3, 9); if (n >= 5) c.nontrivial(); vector<d::CVec2d> v; D2 p{c.sym(1), c.sym(1)}; double an = c.sym(3); for (int i = 0; i < n; ++i) { v.emplace_back(p[0], p[1]); an += c.sym(0.6); double l = c.real(0.3, 1); p = p + l * D2{std::cos(an), std::sin(an)}; } auto X = v; U k = c.range(1, n - 1); double dx = c.sym(1), dy = c.sym(1);
  const bool beam = c.flip(); if (n < 4 || beam) { d::PolylineElasticEdit2 b; double x0 = c.sym(1), y0 = c.sym(1); b.Initialize(v, k, x0, y0); b.EI = c.logreal(0.5, 100); b.AE = b.EI * c.logreal(1, 300); int times = c.range(1, 3); for (int t = 1; t < times; ++t) b.Drag(v, x0 + c.sym(1), y0 + c.sym(1)); b.Drag(v, x0 + dx, y0 + dy); VP_CHECK((int) v.size() == n, "points"); int N = 3 * n; V A(N * N, 0.), r(N, 0.), u; for (int e = 0; e + 1 < n; ++e) { double x[2][2] = {{X[e].p[0], X[e].p[1]}, {X[e + 1].p[0], X[e + 1].p[1]}}, z[2][3] = {}, dd[2][2][3][3], dw[2][3]; d::dWddW_Beam2<double>(dw, dd, b.EI, b.AE, x, z); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) for (int g = 0; g < 3; ++g) for (int h = 0; h < 3; ++h) A[(3 * (e + i) + g) * N + 3 * (e + j) + h] += dd[i][j][g][h]; } auto fix = [&](int q, double val) { for (int j = 0; j < N; ++j) A[q * N + j] = j == q; r[q] = val; }; for (int q = 0; q < 3; ++q) fix(q, 0); fix(3 * k, dx); fix(3 * k + 1, dy); if (!solve(A, r, u)) return; double m = 0; for (double w: u) m = std::max(m, std::abs(w)); for (int i = 0; i < n; ++i) for (int q = 0; q < 2; ++q) VP_NEAR(v[i].p[q], X[i].p[q] + u[3 * i + q], 1e-6 * (1 + m)); VP_CHECK(v[0].p[0] == X[0].p[0] && v[0].p[1] == X[0].p[1], "clamped end moves"); VP_NEAR(v[k].p[0], X[k].p[0] + dx, 1e-12); VP_NEAR(v[k].p[1], X[k].p[1] + dy, 1e-12); c.label("beam"); return; }
  k = c.below(n); d::LinearSystemSolver_BlockPentaDiagonal<2> sp; if (c.flip()) sp.Initialize(c.range(4, 9)); double L = c.real(0.3, 1), kb = c.logreal(1e-4, 1); array<double, 2> to = {X[k].p[0] + 0.5 * dx, X[k].p[1] + 0.5 * dy}; int times = c.range(1, 3); for (int t = 0; t < times; ++t) { X = v; DragPolylineElastic_Rod2(v, sp, k, to, L, kb); int N = 2 * n; V A(N * N, 0.), r(N, 0.), u; for (int i = 0; i < N; ++i) A[i * N + i] = 1; for (int h = 0; h + 2 < n; ++h) { double ap[3][2], aL[2] = {L, L}, W, dW[3][2], dd[3][3][2][2]; for (int i = 0; i < 3; ++i) for (int q = 0; q < 2; ++q) ap[i][q] = h + i == (int) k ? to[q] : X[h + i].p[q]; d::WdWddW_Rod2(W, dW, dd, ap, aL, 1., 1., kb); for (int i = 0; i < 3; ++i) for (int q = 0; q < 2; ++q) { r[2 * (h + i) + q] -= dW[i][q]; for (int j = 0; j < 3; ++j) for (int w = 0; w < 2; ++w) A[(2 * (h + i) + q) * N + 2 * (h + j) + w] += dd[i][j][q][w]; } } for (int q = 0; q < 2; ++q) { for (int j = 0; j < N; ++j) A[(2 * k + q) * N + j] = j == (int) (2 * k + q); r[2 * k + q] = 0; for (int j = 0; j < N; ++j) if (j != (int) (2 * k + q)) A[j * N + 2 * k + q] = 0; } { V C = A; bool spd = true; for (int i = 0; i < N && spd; ++i) { if (C[i * N + i] < 0.01) spd = false; for (int j = i + 1; j < N && spd; ++j) { double g = C[j * N + i] / C[i * N + i]; for (int w = i; w < N; ++w) C[j * N + w] -= g * C[i * N + w]; } } for (double g: A) if (!(std::abs(g) < 1e4)) spd = false; if (!spd) { c.label("folded rod"); return; } } if (!solve(A, r, u)) return; double m = 0; for (double w: u) m = std::max(m, std::abs(w)); if (!(m < 30)) return; for (int i = 0; i < n; ++i) for (int q = 0; q < 2; ++q) VP_NEAR(v[i].p[q], i == (int) k ? to[q] : X[i].p[q] + u[2 * i + q], 1e-4 * (1 + m)); } c.label("rod");
}
