// C23: nearest points and intersections between points, edges, lines, planes, triangles and quads
// SCALE: 12 250
#include "common.hpp"
#include <iostream>
#include <functional>
#include <algorithm>
#include <limits>
#include <cassert>
#include <cmath>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_line.h"
#include "delfem2/geo_plane.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_tet.h"
#include "delfem2/geo_quad.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string;
namespace {
using V2 = d::CVec2d; using V3 = d::CVec3d;
V3 v(D3 a) { return V3(a[0], a[1], a[2]); }
V2 v(D2 a) { return V2(a[0], a[1]); }
D3 w(const V3 &a) { return {a[0], a[1], a[2]}; }
template<class V> D3 w3(const V &a) { return {(double) a[0], (double) a[1], (double) a[2]}; }
D3 lat(vp::Case &c, int n) { return {(double) c.range(-n, n), (double) c.range(-n, n), (double) c.range(-n, n)}; }
bool fin(D3 a) { return std::isfinite(a[0]) && std::isfinite(a[1]) && std::isfinite(a[2]); }
using fn1 = std::function<double(double)>;
double ternary(const fn1 &f, double a, double b) {   // minimum of a convex function
  for (int i = 0; i < 200; ++i) { double m0 = a + (b - a) / 3, m1 = b - (b - a) / 3; if (f(m0) < f(m1)) b = m1; else a = m0; }
  return std::min({f(a), f(b), f((a + b) / 2)});
}
D3 combo(double r0, double r1, D3 a, D3 b, D3 e) { return r0 * a + r1 * b + (1 - r0 - r1) * e; }
double near_line(D3 p, D3 o, D3 dir) { return norm(cross(p - o, dir)) / norm(dir); }
}
VP_PROP(edges, 12000, 60000, "nearest point of an edge (2D, 3D) and of a line vs direct projection; line-line, edge-line and edge-edge nearest points, including parallel ones and scales 1e-4..1e4; non-trivial: the nearest point is inside an edge, or parallel") {
  const double S = c.logreal(1e-4, 1e4); const bool integer = c.chance(1, 3);
  auto pt = [&]() { return integer ? S * lat(c, 3) : rnd3(c, S); };
  const double tol = 1e-8 * S;
  { D3 p = pt(), a = pt(), b = c.chance(1, 10) ? a : pt(); double t, tr;
    if (integer) b = a + 1.0 * (b - a);
    D3 n = near_seg(p, a, b, &tr); V3 q = d::Nearest_Edge_Point(t, v(p), v(a), v(b));
    c.note("S=%g p (%.17g %.17g %.17g) a (%.17g %.17g %.17g) b (%.17g %.17g %.17g)", S, p[0], p[1], p[2], a[0], a[1], a[2], b[0], b[1], b[2]);
    double dn = dist(p, n);
    VP_CHECK(fin(w(q)) && std::abs(dist(p, w(q)) - dn) < tol && dist(w(q), n) < 1e-6 * S, "Nearest_Edge_Point at (%g %g %g)", q[0], q[1], q[2]);
    VP_CHECK(t >= 0 && t <= 1 && dist(w(q), (1 - t) * a + t * b) < tol, "ratio %g does not give the nearest point", t);
    V3 q1 = d::Nearest_Edge_Point(v(p), v(a), v(b)); VP_CHECK(dist(w(q1), w(q)) < tol, "Nearest_Edge_Point without ratio");
    VP_NEAR(d::Distance_Edge_Point(v(p), v(a), v(b)), dn, tol);
    double q2[3]; d::Nearest_Edge3_Point3(q2, p.data(), a.data(), b.data()); VP_CHECK(dist(w3(q2), n) < 1e-6 * S, "Nearest_Edge3_Point3");
    if (tr > 0 && tr < 1) c.nontrivial();
    D2 p2{p[0], p[1]}, a2{a[0], a[1]}, b2{b[0], b[1]}; D2 n2 = near_seg(p2, a2, b2);
    V2 m2 = d::Nearest_Edge_Point(v(p2), v(a2), v(b2)); VP_CHECK(std::hypot(m2[0] - n2[0], m2[1] - n2[1]) < 1e-6 * S, "Nearest_Edge_Point in 2D");
    VP_NEAR(d::Distance_Edge_Point(v(p2), v(a2), v(b2)), dist(p2, n2), tol);
    if (dist(a, b) > 0.05 * S) {
      V3 l = d::Nearest_Line3_Point3(v(p), v(a), v(b - a)); double tl; V3 l1 = d::Nearest_Line3_Point3(tl, v(p), v(a), v(b - a));
      VP_CHECK(std::abs(dot(w(l) - p, unit(b - a))) < tol && near_line(w(l), a, b - a) < tol, "Nearest_Line3_Point3 is not the foot of the perpendicular");
      VP_CHECK(dist(w(l1), w(l)) < tol && dist(w(l1), a + tl * (b - a)) < tol, "Nearest_Line3_Point3 with parameter");
      if (dist(a2, b2) > 0.05 * S) { double tp = d::FindNearestPointParameter_Line_Point(v(p2), v(a2), v(b2)); D2 f = a2 + tp * (b2 - a2); VP_CHECK(std::abs(dot(f - p2, b2 - a2)) < tol * S, "line parameter %g is not the foot", tp); } } }
  { // two lines / edge and line
    D3 a = pt(), b = pt(), o = pt(), dir = c.logreal(1e-2, 1e2) * unit(rnd3(c, 1) + D3{1e-3, 0, 0}); if (dist(a, b) < 0.05 * S) return;
    int kind = c.below(6); bool par = kind == 0;
    if (par) dir = c.sym(5) * (b - a) + D3{0, 0, 0}; else if (kind == 1) dir = unit(b - a) + c.logreal(1e-3, 1e-1) * unit(rnd3(c, 1) + D3{0, 1e-3, 0}); else if (integer) dir = lat(c, 3);
    if (norm(dir) < 1e-3 * std::min(S, 1.)) return;
    double sn = norm(cross(unit(b - a), unit(dir)));
    if (!par && sn < 1e-4) return;
    c.note("a (%.17g %.17g %.17g) b (%.17g %.17g %.17g) o (%.17g %.17g %.17g) dir (%.17g %.17g %.17g)", a[0], a[1], a[2], b[0], b[1], b[2], o[0], o[1], o[2], dir[0], dir[1], dir[2]);
    double best = ternary([&](double t) { return near_line((1 - t) * a + t * b, o, dir); }, 0, 1);
    V3 n0, n1; d::Nearest_Edge3_Line3(n0, n1, v(a), v(b), v(o), v(dir));
    VP_CHECK(fin(w(n0)) && fin(w(n1)) && dist(near_seg(w(n0), a, b), w(n0)) < 1e-6 * S && near_line(w(n1), o, dir) < 1e-6 * S, "nearest points of edge and line are not on them");
    VP_CHECK(std::abs(dist(w(n0), w(n1)) - best) < 1e-6 * S, "edge-line distance %.12g, minimum %.12g (sin %g)", dist(w(n0), w(n1)), best, sn);
    if (par) { c.nontrivial(); c.label("parallel line"); }
    else {
      double D, Dta, Dtb; V3 Da, Db; d::Nearest_Line3_Line3(D, Da, Db, Dta, Dtb, v(a), v(b - a), v(o), v(dir));
      D3 x = (1 / D) * w(Da), y = (1 / D) * w(Db); double big = (S + norm(x) + norm(y)) / sn;
      VP_CHECK(near_line(x, a, b - a) < 1e-7 * big && near_line(y, o, dir) < 1e-7 * big, "nearest points of the lines are not on them");
      VP_CHECK(std::abs(dot(x - y, unit(b - a))) < 1e-7 * big / sn && std::abs(dot(x - y, unit(dir))) < 1e-7 * big / sn, "connection of the lines is not perpendicular");
      VP_CHECK(dist(a + (Dta / D) * (b - a), x) < 1e-6 * big && dist(o + (Dtb / D) * dir, y) < 1e-6 * big, "line parameters");
      double D2_; V3 Da2, Db2; d::Nearest_Line3_Line3(D2_, Da2, Db2, v(a), v(b - a), v(o), v(dir));
      VP_CHECK(dist((1 / D2_) * w(Da2), x) < 1e-6 * big && dist((1 / D2_) * w(Db2), y) < 1e-6 * big, "the two line-line variants differ"); } }
  { // two edges
    D3 p0 = pt(), p1 = pt(), q0 = pt(), q1 = pt(); if (dist(p0, p1) < 0.1 * S) return;
    bool par = c.chance(1, 3);
    if (par) { double s = (c.flip() ? 1 : -1) * (integer ? c.range(1, 4) * 0.5 : c.uni(0, 1) * 2 + 0.1); q0 = p0 + (integer ? c.range(-3, 3) * 0.5 : c.sym(2)) * (p1 - p0) + (c.flip() ? 1.0 : 0.0) * rnd3(c, S); q1 = q0 + s * (p1 - p0); }
    if (dist(q0, q1) < 0.1 * S) return;
    double sn = norm(cross(unit(p1 - p0), unit(q1 - q0))); if (!par && sn < 1e-3) return;
    c.note("p0 (%.17g %.17g %.17g) p1 (%.17g %.17g %.17g) q0 (%.17g %.17g %.17g) q1 (%.17g %.17g %.17g)", p0[0], p0[1], p0[2], p1[0], p1[1], p1[2], q0[0], q0[1], q0[2], q1[0], q1[1], q1[2]);
    double rp, rq, dd = d::Distance_Edge3_Edge3(v(p0), v(p1), v(q0), v(q1), rp, rq);
    D3 x = (1 - rp) * p0 + rp * p1, y = (1 - rq) * q0 + rq * q1;
    double segd = ternary([&](double t) { D3 z = (1 - t) * p0 + t * p1; return dist(z, near_seg(z, q0, q1)); }, 0, 1);
    double lined = par ? near_line(q0, p0, p1 - p0) : std::abs(dot(q0 - p0, unit(cross(p1 - p0, q1 - q0))));
    double big = (S + norm(x) + norm(y)) / sn; if (par) big = 10 * S;
    VP_CHECK(std::abs(dd - lined) < 1e-7 * big, "distance of the lines %.12g, should be %.12g", dd, lined);
    double lo, hi; // overlap of parallel edges in parameter of p
    if (par) { double l2 = dot(p1 - p0, p1 - p0), a = dot(q0 - p0, p1 - p0) / l2, b = dot(q1 - p0, p1 - p0) / l2; lo = std::max(0., std::min(a, b)); hi = std::min(1., std::max(a, b)); }
    else { VP_CHECK(std::abs(dist(x, y) - lined) < 1e-6 * big, "the ratios %g %g give a distance %g, lines have %g", rp, rq, dist(x, y), lined); }
    if (par && hi > lo + 1e-3) {
      c.nontrivial(); c.label("parallel overlapping edges");
      VP_CHECK(rp > -1e-9 && rp < 1 + 1e-9 && rq > -1e-9 && rq < 1 + 1e-9, "overlapping parallel edges: ratios %g %g outside the edges", rp, rq);
      VP_CHECK(std::abs(dist(x, y) - segd) < 1e-6 * S, "overlapping parallel edges: ratios give %g, distance %g", dist(x, y), segd); }
    bool inside = rp > 0 && rp < 1 && rq > 0 && rq < 1; if (inside) c.nontrivial();
    double delta = c.chance(1, 2) ? lined * (c.flip() ? 1.01 : 0.99) : c.logreal(1e-2, 1) * S;
    if (std::abs(lined - delta) < 1e-4 * S || std::abs(rp) < 1e-6 || std::abs(rp - 1) < 1e-6 || std::abs(rq) < 1e-6 || std::abs(rq - 1) < 1e-6) return;
    if (par && std::abs(hi - lo) < 1e-3) return;
    bool want = lined < delta && inside;
    bool got = d::IsContact_Edge3_Edge3_Proximity(0, 1, 2, 3, v(p0), v(p1), v(q0), v(q1), delta);
    VP_CHECK(got == want, "IsContact_Edge3_Edge3_Proximity = %d at distance %g, delta %g, ratios %g %g", got, lined, delta, rp, rq);
    int sh = c.below(4); VP_CHECK(!d::IsContact_Edge3_Edge3_Proximity(0, 1, sh < 2 ? sh : 2, sh < 2 ? 3 : sh - 2, v(p0), v(p1), v(q0), v(q1), delta), "edges sharing a node reported in contact"); }
}
VP_PROP(triangle_point, 12000, 80000, "nearest point of a triangle (also degenerate, scales 1e-4..1e4) to a point vs reference, barycentric coordinates reproduce it; projection, plane and point-triangle distance; non-trivial: nearest point is interior or on an edge of a non-degenerate triangle") {
  const double S = c.logreal(1e-4, 1e4); const bool integer = c.chance(1, 3);
  auto pt = [&]() { return integer ? (S / 3) * lat(c, 3) : rnd3(c, S); };
  D3 q0 = pt(), q1 = pt(), q2 = pt(), p = pt();
  int deg = c.below(12); if (deg == 0) q2 = q0 + c.sym(2) * (q1 - q0); else if (deg == 1) q2 = q0; else if (deg == 2) q1 = q0; else if (deg == 3) q1 = q2; else if (deg == 4) { q1 = q0; q2 = q0; }
  double A = norm(cross(q1 - q0, q2 - q0)), L = std::max({dist(q0, q1), dist(q1, q2), dist(q2, q0)}); bool fat = A > 1e-3 * L * L && L > 1e-2 * S;
  if (!fat && A > 1e-12 * L * L) return;   // thin but not degenerate: not decided
  if (fat && c.chance(1, 3)) { double u = c.sym(1.2), t = c.sym(1.2); p = combo(u, t, q0, q1, q2); if (c.flip()) p = p + c.sym(1.) * (L / A) * cross(q1 - q0, q2 - q0); }
  c.note("S=%g p (%.17g %.17g %.17g) q0 (%.17g %.17g %.17g) q1 (%.17g %.17g %.17g) q2 (%.17g %.17g %.17g)", S, p[0], p[1], p[2], q0[0], q0[1], q0[2], q1[0], q1[1], q1[2], q2[0], q2[1], q2[2]);
  D3 n = near_tri(p, q0, q1, q2); if (!fat) { n = near_seg(p, q0, q1); for (D3 m: {near_seg(p, q1, q2), near_seg(p, q2, q0)}) if (dist(m, p) < dist(n, p)) n = m; }
  double dn = dist(p, n), size = S + norm(p);
  if (fat) c.nontrivial(); else c.label("degenerate triangle");
  double x[3], r0, r1; d::Nearest_Triangle3_Point3(x, r0, r1, p.data(), q0.data(), q1.data(), q2.data());
  VP_CHECK(fin(w3(x)) && std::abs(dist(p, w3(x)) - dn) < 1e-7 * size, "Nearest_Triangle3_Point3: distance %.12g, minimum %.12g", dist(p, w3(x)), dn);
  VP_CHECK(dist(combo(r0, r1, q0, q1, q2), w3(x)) < 1e-6 * size && r0 > -1e-9 && r1 > -1e-9 && r0 + r1 < 1 + 1e-9, "Nearest_Triangle3_Point3: barycentric %g %g", r0, r1);
  V3 y = d::Nearest_Origin3_Tri3(r0, r1, v(q0 - p), v(q1 - p), v(q2 - p));
  VP_CHECK(fin(w(y)) && std::abs(norm(w(y)) - dn) < 1e-7 * size, "Nearest_Origin3_Tri3: distance %.12g, minimum %.12g", norm(w(y)), dn);
  VP_CHECK(dist(combo(r0, r1, q0 - p, q1 - p, q2 - p), w(y)) < 1e-6 * size && r0 > -1e-9 && r1 > -1e-9 && r0 + r1 < 1 + 1e-9, "Nearest_Origin3_Tri3: barycentric %g %g", r0, r1);
  if (!fat) return;
  D3 nrm = unit(cross(q1 - q0, q2 - q0)); D3 foot = p - dot(p - q0, nrm) * nrm;
  if (c.chance(1, 8)) p = c.flip() ? q0 : q1, foot = p;
  V3 f0 = d::ProjectPointOnTriangle(v(p), v(q0), v(q1), v(q2)); VP_CHECK(dist(w(f0), foot) < 1e-6 * size, "ProjectPointOnTriangle (%g %g %g)", f0[0], f0[1], f0[2]);
  V3 f1 = d::Nearest_Plane3_Point3(v(p), v(q0), v(c.logreal(1e-3, 1e3) * nrm)); VP_CHECK(dist(w(f1), foot) < 1e-6 * size, "Nearest_Plane3_Point3 (%g %g %g)", f1[0], f1[1], f1[2]);
  V3 f2 = d::Nearest_Origin3_PlaneTri3(r0, r1, v(q0 - p), v(q1 - p), v(q2 - p)); double amp = 1e3 * size;
  VP_CHECK(dist(w(f2) + p, foot) < 1e-9 * amp && dist(combo(r0, r1, q0 - p, q1 - p, q2 - p), w(f2)) < 1e-9 * amp, "Nearest_Origin3_PlaneTri3");
  double w0, w1, dv = d::DistanceFaceVertex(v(q0), v(q1), v(q2), v(p), w0, w1);
  VP_CHECK(std::abs(dv - dist(p, foot)) < 1e-9 * amp && dist(combo(w0, w1, q0, q1, q2), foot) < 1e-9 * amp, "DistanceFaceVertex %g, plane distance %g", dv, dist(p, foot));
}
VP_PROP(intersect2d, 12000, 80000, "edge-edge and box-edge intersection in 2D on an integer lattice vs exact arithmetic, distance of edges; non-trivial: bounding boxes meet") {
  const int n = c.pick({2, 4, 10, 60}); auto P = [&]() { return std::array<long, 2>{c.range(-n, n), c.range(-n, n)}; };
  using L2 = std::array<long, 2>;
  auto orient = [](L2 a, L2 b, L2 e) { long x = (b[0] - a[0]) * (e[1] - a[1]) - (b[1] - a[1]) * (e[0] - a[0]); return (x > 0) - (x < 0); };
  auto on = [&](L2 a, L2 b, L2 e) { return orient(a, b, e) == 0 && std::min(a[0], b[0]) <= e[0] && e[0] <= std::max(a[0], b[0]) && std::min(a[1], b[1]) <= e[1] && e[1] <= std::max(a[1], b[1]); };
  auto cross_ = [&](L2 a, L2 b, L2 e, L2 f) { if (orient(a, b, e) * orient(a, b, f) < 0 && orient(e, f, a) * orient(e, f, b) < 0) return true; return on(a, b, e) || on(a, b, f) || on(e, f, a) || on(e, f, b); };
  const double S = std::ldexp(1., c.range(-12, 12)); auto V = [&](L2 a) { return V2(S * a[0], S * a[1]); }; auto D = [&](L2 a) { return D2{S * a[0], S * a[1]}; };
  L2 a = P(), b = P(), e = P(), f = P();
  c.note("S=%g a %ld %ld b %ld %ld e %ld %ld f %ld %ld", S, a[0], a[1], b[0], b[1], e[0], e[1], f[0], f[1]);
  if (a != b && e != f) {
    bool want = cross_(a, b, e, f), got = d::IsIntersect_Edge2_Edge2(V(a), V(b), V(e), V(f));
    VP_CHECK(got == want, "IsIntersect_Edge2_Edge2 = %d", got); if (want) c.nontrivial();
    double m = std::min({dist(D(e), near_seg(D(e), D(a), D(b))), dist(D(f), near_seg(D(f), D(a), D(b))), dist(D(a), near_seg(D(a), D(e), D(f))), dist(D(b), near_seg(D(b), D(e), D(f)))});
    double dd = d::Distance_Edge2_Edge2(V(a), V(b), V(e), V(f)); if (want) VP_CHECK(dd == -1, "Distance_Edge2_Edge2 of crossing edges %g", dd); else VP_NEAR(dd, m, 1e-9 * S * n); }
  L2 lo{std::min(a[0], b[0]), std::min(a[1], b[1])}, hi{std::max(a[0], b[0]), std::max(a[1], b[1])};
  L2 c1{hi[0], lo[1]}, c3{lo[0], hi[1]};
  bool in = lo[0] <= e[0] && e[0] <= hi[0] && lo[1] <= e[1] && e[1] <= hi[1];
  bool want = in || cross_(lo, c1, e, f) || cross_(c1, hi, e, f) || cross_(hi, c3, e, f) || cross_(c3, lo, e, f);
  bool got = d::IsIntersect_AABB2_Edge2(V(lo), V(hi), V(e), V(f)); VP_CHECK(got == want, "IsIntersect_AABB2_Edge2 = %d", got);
  if (want) c.nontrivial();
}
VP_PROP(intersect_line, 10000, 80000, "line/ray with triangle and plane: intersection point, barycentric coordinates, inside test vs exact orientation on an integer lattice; pairs of triangles: crossing reported exactly, its segment lies on both triangles; non-trivial: they intersect") {
  const int n = c.pick({3, 6, 20}); const double S = std::ldexp(1., c.range(-12, 12));
  D3 q0 = S * lat(c, n), q1 = S * lat(c, n), q2 = S * lat(c, n), o = S * lat(c, n), e = S * lat(c, n);
  D3 nn = cross(q1 - q0, q2 - q0); D3 dir = e - o; if (norm(nn) == 0 || norm(dir) == 0) return;
  c.note("S=%g q0 (%g %g %g) q1 (%g %g %g) q2 (%g %g %g) o (%g %g %g) e (%g %g %g)", S, q0[0] / S, q0[1] / S, q0[2] / S, q1[0] / S, q1[1] / S, q1[2] / S, q2[0] / S, q2[1] / S, q2[2] / S, o[0] / S, o[1] / S, o[2] / S, e[0] / S, e[1] / S, e[2] / S);
  double dn = dot(dir, nn); auto sgn = [](double x) { return (x > 0) - (x < 0); };
  if (dn != 0) {
    double t = dot(q0 - o, nn) / dn; D3 x = o + t * dir; double big = 1e-9 * (S * n + norm(x)) * n;
    V3 x0 = d::Intersection_Plane3_Line3(v(q0), v(nn), v(o), v(dir)); VP_CHECK(dist(w(x0), x) < big, "Intersection_Plane3_Line3 (%g %g %g)", x0[0], x0[1], x0[2]);
    int s0 = sgn(tetvol(o, e, q1, q2)), s1 = sgn(tetvol(o, e, q2, q0)), s2 = sgn(tetvol(o, e, q0, q1)); int sd = -sgn(dn) == 0 ? 0 : (s0 + s1 + s2 > 0 ? 1 : -1);
    bool strict = s0 == sd && s1 == sd && s2 == sd, outside = s0 * s1 < 0 || s1 * s2 < 0 || s2 * s0 < 0;
    double a0, a1, a2; V3 x1; double eps = 0; bool h = d::Intersection_Plane3_Line3(x1, a0, a1, a2, eps, v(o), v(dir), v(q0), v(q1), v(q2));
    double vt = tetvol(o, e, q1, q2) + tetvol(o, e, q2, q0) + tetvol(o, e, q0, q1); double b0 = tetvol(o, e, q1, q2) / vt, b1 = tetvol(o, e, q2, q0) / vt; double bt = 1e-9 * (1 + std::abs(b0) + std::abs(b1));
    VP_CHECK(h == strict && dist(w(x1), x) < 10 * big && std::abs(a0 - b0) < bt && std::abs(a1 - b1) < bt && std::abs(a2 - (1 - b0 - b1)) < 2 * bt, "Intersection_Plane3_Line3 with triangle: hit %d, ratios %g %g %g", h, a0, a1, a2);
    double r0, r1; h = d::IntersectRay_Tri3(r0, r1, v(o), v(dir), v(q0), v(q1), v(q2), 0.0); VP_CHECK(h == !outside && std::abs(r0 - b0) < bt && std::abs(r1 - b1) < bt, "IntersectRay_Tri3: hit %d, ratios %g %g (exact %g %g)", h, r0, r1, b0, b1);
    double pad = c.logreal(1e-3, 1); double mb = std::min({b0, b1, 1 - b0 - b1}); if (std::abs(mb + pad) > 1e-6) VP_CHECK(d::IntersectRay_Tri3(r0, r1, v(o), v(dir), v(q0), v(q1), v(q2), pad) == (mb > -pad), "IntersectRay_Tri3 with slack %g, smallest ratio %g", pad, mb);
    if (strict || outside) { V3 x2; h = d::isRayIntersectingTriangle(v(o), v(e), v(q0), v(q1), v(q2), x2); bool want = strict && t >= 0; if (t != 0 && (strict || mb < -1e-9)) VP_CHECK(h == want && (!want || dist(w(x2), x) < big), "isRayIntersectingTriangle = %d at t %g", h, t); }
    if (strict && t >= 0) c.nontrivial();
    if (mb < -1e-9 || mb > 1e-9) VP_CHECK(d::isPointInsideTriangle(v(x), v(q0), v(q1), v(q2)) == (mb > 0), "isPointInsideTriangle, smallest ratio %g", mb);
  } else { V3 x2; VP_CHECK(!d::isRayIntersectingTriangle(v(o), v(e), v(q0), v(q1), v(q2), x2), "ray parallel to the plane intersects"); }
  // two triangles
  D3 p[3] = {q0, q1, q2}, q[3] = {o, e, S * lat(c, n)}; if (c.chance(1, 4)) { p[c.below(3)] = (1. / 2) * (q[0] + q[1]); }
  D3 np = cross(p[1] - p[0], p[2] - p[0]), nq = cross(q[1] - q[0], q[2] - q[0]); if (norm(np) == 0 || norm(nq) == 0 || norm(cross(np, nq)) == 0) return;
  vector<double> X; for (auto &a: p) push(X, a); for (auto &a: q) push(X, a); vector<unsigned int> T = {0, 1, 2, 3, 4, 5};
  vector<D3> hits; bool generic = true;
  auto pierce = [&](D3 a, D3 b, D3 *t) { int s = sgn(tetvol(t[0], t[1], t[2], a)), u = sgn(tetvol(t[0], t[1], t[2], b)); if (s == 0 || u == 0) { generic = false; return; } if (s == u) return;
    int k0 = sgn(tetvol(a, b, t[0], t[1])), k1 = sgn(tetvol(a, b, t[1], t[2])), k2 = sgn(tetvol(a, b, t[2], t[0])); if (!k0 || !k1 || !k2) { generic = false; return; }
    if (k0 == k1 && k1 == k2) { double h0 = std::abs(tetvol(t[0], t[1], t[2], a)), h1 = std::abs(tetvol(t[0], t[1], t[2], b)); hits.push_back((h1 / (h0 + h1)) * a + (h0 / (h0 + h1)) * b); } };
  for (int i = 0; i < 3; ++i) { pierce(p[i], p[(i + 1) % 3], q); pierce(q[i], q[(i + 1) % 3], p); }
  V3 P0, P1; bool got = d::isIntersectTriPair(P0, P1, 0, 1, T, X); c.note("second triangle with (%g %g %g), first vertex (%g %g %g) (%g %g %g) (%g %g %g)", q[2][0] / S, q[2][1] / S, q[2][2] / S, p[0][0] / S, p[0][1] / S, p[0][2] / S, p[1][0] / S, p[1][1] / S, p[1][2] / S, p[2][0] / S, p[2][1] / S, p[2][2] / S);
  if (hits.size() >= 1) c.nontrivial();
  if (generic) { VP_CHECK(hits.size() == 0 || hits.size() == 2, "reference: %d piercings", (int) hits.size());
    if (hits.size() == 0 || dist(hits[0], hits[1]) > 1e-6 * S) VP_CHECK(got == (hits.size() == 2), "isIntersectTriPair = %d with %d piercings", got, (int) hits.size()); }
  else { c.label("touching triangles"); double len = 0; for (auto &a: hits) for (auto &b: hits) len = std::max(len, dist(a, b)); if (len > 1e-6 * S) VP_CHECK(got, "isIntersectTriPair misses a crossing with a vertex or edge on the other triangle"); }
  if (got) { double tl = 1e-7 * S * n * n * n;
    VP_CHECK(fin(w(P0)) && fin(w(P1)), "intersection segment is not finite");
    for (auto &x: {w(P0), w(P1)}) { double e0 = dist(x, near_tri(x, p[0], p[1], p[2])), e1 = dist(x, near_tri(x, q[0], q[1], q[2])); VP_CHECK(e0 < tl && e1 < tl, "end of the intersection is %g, %g away from the triangles", e0, e1); }
    for (auto &h: hits) VP_CHECK(dist(h, near_seg(h, w(P0), w(P1))) < tl, "intersection segment does not cover a piercing point");
    vector<unsigned int> T2 = {0, 1, 2, 3, 4, (unsigned int) c.below(3)}; VP_CHECK(!d::isIntersectTriPair(P0, P1, 0, 1, T2, X), "triangles sharing a node reported as intersecting"); }
}
VP_PROP(quad_measures, 3000, 20000, "origin-quad and line-quad nearest points (parallelograms and mildly warped), solid angle of a triangle vs spherical excess, height/barycentric/volume/deformation gradient of a tetrahedron, moments of inertia vs exact quadrature, line-circle; non-trivial: always") {
  const double S = c.logreal(1e-3, 1e3);
  { D3 o = rnd3(c, 2), u = unit(rnd3(c, 1) + D3{1e-3, 0, 0}), t = rnd3(c, 1); t = t - dot(t, u) * u; if (norm(t) < 0.2) return; t = unit(t); u = (0.5 + c.uni(0, 1)) * u; t = (0.5 + c.uni(0, 1)) * t + c.sym(0.5) * u;
    double wa = c.flip() ? 0 : 0.1; D3 q[4] = {o, o + u, o + u + t, o + t}; for (auto &x: q) x = S * (x + wa * rnd3(c, 1));
    auto at = [&](double a, double b) { return (1 - a) * (1 - b) * q[0] + a * (1 - b) * q[1] + a * b * q[2] + (1 - a) * b * q[3]; };
    c.note("quad (%.17g %.17g %.17g) (%.17g %.17g %.17g) (%.17g %.17g %.17g) (%.17g %.17g %.17g)", q[0][0], q[0][1], q[0][2], q[1][0], q[1][1], q[1][2], q[2][0], q[2][1], q[2][2], q[3][0], q[3][1], q[3][2]);
    // reference by successive refinement of a sampling
    double best = 1e300, ba = 0, bb = 0; double h = 1; for (int lev = 0; lev < 12; ++lev) { double ca = ba, cb = bb; int m = lev ? 4 : 20; double st = lev ? h / 4 : 1. / 20; for (int i = lev ? -m : 0; i <= m; ++i) for (int j = lev ? -m : 0; j <= m; ++j) { double a = std::clamp(ca + i * st, 0., 1.), b = std::clamp(cb + j * st, 0., 1.); double l = norm(at(a, b)); if (l < best) { best = l; ba = a; bb = b; } } h = lev ? h / 3 : 2. / 20; }
    double s0, s1; V3 x = d::Nearst_Origin3_Quad3(s0, s1, v(q[0]), v(q[1]), v(q[2]), v(q[3]));
    double tl = (wa ? 2e-3 : 2e-4) * S;
    VP_CHECK(fin(w(x)) && dist(w(x), at(s0, s1)) < 1e-6 * S && s0 > -2e-4 && s0 < 1 + 2e-4 && s1 > -2e-4 && s1 < 1 + 2e-4, "Nearst_Origin3_Quad3: ratios %g %g, point (%g %g %g)", s0, s1, x[0], x[1], x[2]);
    VP_CHECK(norm(w(x)) < best + tl, "Nearst_Origin3_Quad3: distance %g, minimum %g", norm(w(x)), best);
    // a line through a point of the quad
    double a = c.sym(0.4) + 0.5, b = c.sym(0.4) + 0.5; D3 nn = unit(cross(u, t)); D3 dir = unit(nn + 0.5 * rnd3(c, 1)); if (std::abs(dot(dir, nn)) < 0.5) return; D3 src = at(a, b) - (S * c.sym(3)) * dir;
    V3 ps; double t0, t1; bool hit = d::intersection_Point_Quad(ps, t0, t1, v(src), v(dir), v(q[0]), v(q[1]), v(q[2]), v(q[3]));
    VP_CHECK(hit && dist(w(ps), at(t0, t1)) < 1e-6 * S && near_line(w(ps), src, dir) < (wa ? 1e-3 : 1e-6) * S, "intersection_Point_Quad: hit %d, ratios %g %g (line through %g %g)", hit, t0, t1, a, b);
    D3 far = at(3.5, 0.5); hit = d::intersection_Point_Quad(ps, t0, t1, v(far + nn), v(nn), v(q[0]), v(q[1]), v(q[2]), v(q[3])); VP_CHECK(!hit || wa, "intersection_Point_Quad reports a line far from a parallelogram"); }
  c.nontrivial();
  { D3 a = rnd3(c, 2), b = rnd3(c, 2), e = rnd3(c, 2); if (norm(a) < 0.1 || norm(b) < 0.1 || norm(e) < 0.1) return; a = S * a; b = S * b; e = S * e; double det = dot(cross(a, b), e) / (norm(a) * norm(b) * norm(e));
    D3 ab = cross(a, b), be = cross(b, e), ea = cross(e, a); auto ok = [&](D3 x, D3 y, D3 z) { return norm(x) > 0.05 * norm(y) * norm(z); };
    if (std::abs(det) > 1e-3 && ok(ab, a, b) && ok(be, b, e) && ok(ea, e, a)) {
      auto ang = [&](D3 x, D3 y) { return M_PI - std::acos(std::clamp(dot(unit(x), unit(y)), -1., 1.)); }; double ex = ang(ab, be) + ang(be, ea) + ang(ea, ab) - M_PI; if (det < 0) ex = 4 * M_PI - ex;
      double sa = d::SolidAngleTri(v(a), v(b), v(e)); c.note("solid angle of (%.17g %.17g %.17g) (%.17g %.17g %.17g) (%.17g %.17g %.17g)", a[0], a[1], a[2], b[0], b[1], b[2], e[0], e[1], e[2]); VP_CHECK(std::abs(sa - ex) < 1e-6, "SolidAngleTri %.12g, spherical excess (4 pi minus it if clockwise) %.12g", sa, ex); }
    auto inert = [&](const vector<std::pair<double, D3>> &pts) { array<double, 9> I{}; for (auto &[wt, x]: pts) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) I[i * 3 + j] += wt * ((i == j ? dot(x, x) : 0) - x[i] * x[j]); return I; };
    auto same = [](const array<double, 9> &x, const array<double, 9> &y, double m) { for (int i = 0; i < 9; ++i) if (!(std::abs(x[i] - y[i]) < m)) return false; return true; };
    double A = norm(cross(b - a, e - a)) / 2; auto I0 = inert({{A / 3, 0.5 * (a + b)}, {A / 3, 0.5 * (b + e)}, {A / 3, 0.5 * (e + a)}});
    VP_CHECK(same(d::Mat3_IrotTri(v(a), v(b), v(e)), I0, 1e-9 * std::pow(S, 4)), "Mat3_IrotTri");
    double vol = dot(a, cross(b, e)) / 6, al = 0.58541019662496852, be_ = 0.1381966011250105; D3 z{0, 0, 0}; auto g = [&](D3 p, D3 q, D3 r, D3 s) { return al * p + be_ * (q + r + s); };
    auto I1 = inert({{vol / 4, g(z, a, b, e)}, {vol / 4, g(a, z, b, e)}, {vol / 4, g(b, a, z, e)}, {vol / 4, g(e, a, b, z)}});
    VP_CHECK(same(d::Mat3_IrotTriSolid(v(a), v(b), v(e)), I1, 1e-9 * std::pow(S, 5)), "Mat3_IrotTriSolid");
    double l = dist(a, b); auto I2 = inert({{l / 6, a}, {l * 4 / 6, 0.5 * (a + b)}, {l / 6, b}}); VP_CHECK(same(d::Mat3_IrotLineSeg(v(a), v(b)), I2, 1e-9 * std::pow(S, 3)), "Mat3_IrotLineSeg");
    D3 f = S * rnd3(c, 2); double V = tetvol(a, b, e, f);
    VP_NEAR(d::Volume_Tet(v(a), v(b), v(e), v(f)), V, 1e-9 * S * S * S); VP_NEAR(d::Volume_OrgTet(v(a), v(b), v(e)), vol, 1e-9 * S * S * S);
    VP_NEAR(d::Area_Tri3(v(a), v(b), v(e)), A, 1e-9 * S * S); VP_NEAR(d::SquareTriArea(v(a), v(b), v(e)), A * A, 1e-8 * S * S * S * S);
    if (A > 0.05 * S * S) VP_NEAR(d::Height_Tet(v(a), v(b), v(e), v(f)), 3 * V / A, 1e-6 * S);
    if (std::abs(V) > 1e-2 * S * S * S) { double r0, r1, r2; V3 va = v(a), vb = v(b), ve = v(e), vf = v(f);
      d::barycentricCoord_Origin_Tet(r0, r1, r2, va, vb, ve, vf); D3 s = r0 * a + r1 * b + r2 * e + (1 - r0 - r1 - r2) * f; VP_CHECK(norm(s) < 1e-6 * S, "barycentricCoord_Origin_Tet: %g %g %g", r0, r1, r2);
      array<double, 9> M; for (auto &x: M) x = c.sym(2); D3 tr = rnd3(c, 1); auto map = [&](D3 p) { return v(mul(M, p) + tr); };
      auto F = d::DeformationGradientOfTet(va, vb, ve, vf, map(a), map(b), map(e), map(f)); VP_CHECK(same(F, M, 1e-6), "DeformationGradientOfTet of an affine map");
      double dF[4][3]; d::DiffDeformationGradientOfTet(dF, va, vb, ve, vf); D3 pos[4] = {a, b, e, f}; array<double, 9> G{}; for (int k = 0; k < 4; ++k) { D3 y = mul(M, pos[k]); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) G[i * 3 + j] += y[i] * dF[k][j]; } VP_CHECK(same(G, M, 1e-6), "DiffDeformationGradientOfTet does not reproduce the gradient of an affine map"); }
    vector<double> el; D3 pos[4] = {a, b, e, f}; for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) el.push_back(dot(pos[i] - pos[j], pos[i] - pos[j]));
    VP_NEAR(d::LongestSquaredEdgeLengthOfTet(v(a), v(b), v(e), v(f)), *std::max_element(el.begin(), el.end()), 1e-9 * S * S); VP_NEAR(d::ShortestSquaredEdgeLengthOfTet(v(a), v(b), v(e), v(f)), *std::min_element(el.begin(), el.end()), 1e-9 * S * S); }
  { D3 o = S * rnd3(c, 1), nn = unit(rnd3(c, 1) + D3{1e-3, 0, 0}), src = S * rnd3(c, 3), dir = c.logreal(0.1, 10) * unit(rnd3(c, 1) + D3{0, 1e-3, 0}); double rad = S * c.logreal(0.1, 3);
    V3 p, q; d::Nearest_Line_Circle(p, q, v(src), v(dir), v(o), v(nn), rad);
    D3 pp = w(p) - o; D3 pl = pp - dot(pp, nn) * nn; double big = S + norm(pp); if (!(big < 1e6 * S)) return;
    VP_CHECK(near_line(w(p), src, dir) < 1e-6 * big && std::abs(dot(w(q) - o, nn)) < 1e-6 * S && std::abs(norm(w(q) - o) - rad) < 1e-6 * S, "Nearest_Line_Circle: points are not on the line and the circle");
    if (norm(pl) > 1e-3 * big) VP_CHECK(dist(w(q), o + rad * unit(pl)) < 1e-4 * S, "Nearest_Line_Circle: circle point is not the nearest to the line point"); }
}
