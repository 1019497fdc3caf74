// SCALE: 2 6
#include "common.hpp"
#include "delfem2/vec3.h"
#include "delfem2/geo_tet.h"
#include "delfem2/geodelaunay3_v3.h"
#include "delfem2/dtet_v3.h"
using namespace ref;
namespace d = delfem2;
static D3 q3(const d::CVec3d &p) { return {p.x, p.y, p.z}; }
static d::CVec3d v3(D3 p) { return {p[0], p[1], p[2]}; }
static void sphere(D3 a, D3 b, D3 c3, D3 e, D3 &o, double &r) { // circumscribed sphere by solving the linear system
  vector<long double> A, y, x; for (D3 p: {b, c3, e}) { long double s = 0; for (int k = 0; k < 3; ++k) { A.push_back(2.0L * (p[k] - a[k])); s += (long double) p[k] * p[k] - (long double) a[k] * a[k]; } y.push_back(s); }
  r = -1; if (!solve(A, y, x)) return; o = {(double) x[0], (double) x[1], (double) x[2]}; r = dist(o, a);
}
struct DT { vector<d::CDynPointTet> po; vector<d::CDynTet> t; vector<d::CVec3d> cent; vector<int> buf; };
static D3 pt(const DT &M, uint i) { return q3(M.po[i].p); }
static D3 tp(const DT &M, uint it, int k) { return pt(M, M.t[it].v[k]); }
static const int F[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
static void consistent(vp::Case &c, const DT &M, double vol, uint np, const vector<uint> &ins) {
  std::map<array<uint, 3>, vector<std::pair<uint, int>>> faces; double V = 0; vector<char> used(M.po.size(), 0);
  for (uint i = 0; i < M.t.size(); ++i) { auto &t = M.t[i]; if (!t.isActive()) { for (uint s: t.s) VP_CHECK(s == UINT_MAX, "deleted tetrahedron %u keeps a neighbour", i); continue; }
    for (int k = 0; k < 4; ++k) { VP_CHECK(t.v[k] < np, "vertex of tetrahedron %u", i); used[t.v[k]] = 1; array<uint, 3> f{t.v[F[k][0]], t.v[F[k][1]], t.v[F[k][2]]}; std::sort(f.begin(), f.end()); faces[f].push_back({i, k}); }
    double v = tetvol(tp(M, i, 0), tp(M, i, 1), tp(M, i, 2), tp(M, i, 3)); VP_CHECK(v > 0, "tetrahedron %u has volume %g", i, v); V += v; }
  VP_NEAR(V, vol, 1e-9 * vol);
  for (auto &f: faces) { VP_CHECK(f.second.size() <= 2, "face of three tetrahedra"); auto [i, k] = f.second[0]; if (f.second.size() == 1) VP_CHECK(M.t[i].s[k] == UINT_MAX, "outer face %d of tetrahedron %u has neighbour %u", k, i, M.t[i].s[k]); else { auto [j, l] = f.second[1]; VP_CHECK(M.t[i].s[k] == j && M.t[j].s[l] == i, "tetrahedra %u and %u share a face but store %u and %u", i, j, M.t[i].s[k], M.t[j].s[l]); } }
  for (uint p = 0; p < np; ++p) { bool in = false; for (uint q: ins) in |= q == p; VP_CHECK((bool) used[p] == in, "point %u %s used", p, used[p] ? "is" : "is not"); if (in) VP_CHECK(M.po[p].e < M.t.size() && M.po[p].poel < 4 && M.t[M.po[p].e].v[M.po[p].poel] == p, "point %u stores tetrahedron %u", p, M.po[p].e); }
}
static void start(vp::Case &c, DT &M) {
  double L = c.pick({3.0, 1.0, 10.0}); vector<D3> s; if (c.flip()) s = {{-L, L, -L}, {L, -L, -L}, {L, L, L}, {-L, -L, L}}; else { for (int i = 0; i < 4; ++i) s.push_back(rnd3(c, 1.5 * L)); double v = tetvol(s[0], s[1], s[2], s[3]); c.assume(std::abs(v) > 0.05 * L * L * L); if (v < 0) std::swap(s[0], s[1]); }
  if (tetvol(s[0], s[1], s[2], s[3]) < 0) std::swap(s[0], s[1]); for (int i = 0; i < 4; ++i) { M.po.push_back({s[i][0], s[i][1], s[i][2]}); M.po[i].e = 0; M.po[i].poel = i; }
  M.t.resize(1); for (int k = 0; k < 4; ++k) { M.t[0].v[k] = k; M.t[0].s[k] = UINT_MAX; } M.cent.push_back(d::CircumCenter(M.po[0].p, M.po[1].p, M.po[2].p, M.po[3].p));
}
VP_PROP(insertion, 4000, 40000, "up to 30 points (uniform, clustered, near a plane or a line) inserted one by one in a tetrahedron: after each insertion adjacency, volume and stored elements are right and at the end all circumspheres are empty; element rings around edges and points equal exhaustive search; insertions closer than 1e-6 to a circumsphere or making slivers are skipped; non-trivial: at least 6 points inserted") {
  DT M; start(c, M); vector<uint> ins{0, 1, 2, 3}; double vol = tetvol(pt(M, 0), pt(M, 1), pt(M, 2), pt(M, 3)), L = std::cbrt(vol); int n = c.range(1, 30), kind = c.range(0, 3); D3 o = rnd3(c, 0.3 * L), ax = unit(rnd3(c, 1) + D3{0, 0, 1.8}); bool fresh = c.flip();
  for (int k = 0; k < n; ++k) {
    double r[4], s = 0; for (double &x: r) s += x = c.uni(0.01, 1); D3 p{0, 0, 0}; for (int i = 0; i < 4; ++i) p = p + (r[i] / s) * pt(M, i); if (kind == 1) p = o + 0.05 * p; if (kind == 2) p = p - 0.98 * dot(p - o, ax) * ax; if (kind == 3) p = o + dot(p, ax) * ax + 0.02 * p;
    uint it = UINT_MAX;
    {
      for (uint i = 0; i < M.t.size() && it == UINT_MAX; ++i) if (M.t[i].isActive()) { double v = tetvol(tp(M, i, 0), tp(M, i, 1), tp(M, i, 2), tp(M, i, 3)); bool in = true; for (int f = 0; f < 4; ++f) { D3 q[4]; for (int x = 0; x < 4; ++x) q[x] = x == f ? p : tp(M, i, x); in &= tetvol(q[0], q[1], q[2], q[3]) > 1e-6 * v; } if (in) it = i; } }
    if (it == UINT_MAX) continue;
    // the cavity the point must open, by exhaustive search, and its margins
    vector<char> cav(M.t.size(), 0); bool ok = true; for (uint i = 0; i < M.t.size() && ok; ++i) if (M.t[i].isActive()) { D3 ce; double rr; sphere(tp(M, i, 0), tp(M, i, 1), tp(M, i, 2), tp(M, i, 3), ce, rr); double q = dist(ce, p); if (rr < 0 || std::abs(q - rr) < 1e-6 * (rr + L)) ok = false; cav[i] = q < rr; }
    for (uint i = 0; i < M.t.size() && ok; ++i) if (cav[i]) for (int f = 0; f < 4; ++f) { uint j = M.t[i].s[f]; if (j != UINT_MAX && cav[j]) continue; D3 q[4]; for (int x = 0; x < 4; ++x) q[x] = x == f ? p : tp(M, i, x); if (tetvol(q[0], q[1], q[2], q[3]) < 1e-7 * vol || tetvol(q[0], q[1], q[2], q[3]) < 1e-8) ok = false; }
    if (!ok) { c.label("degenerate insertion skipped"); continue; }
    std::set<vector<uint>> kept; for (uint i = 0; i < M.t.size(); ++i) if (M.t[i].isActive() && !cav[i]) { vector<uint> v(M.t[i].v, M.t[i].v + 4); std::sort(v.begin(), v.end()); kept.insert(v); }
    uint ip = (uint) M.po.size(); M.po.emplace_back(p[0], p[1], p[2]); if (fresh) M.buf.clear(); d::AddPointTetDelaunay(ip, it, M.po, M.t, M.cent, M.buf); ins.push_back(ip); VP_CHECK(M.cent.size() == M.t.size(), "sizes");
    consistent(c, M, vol, (uint) M.po.size(), ins); size_t nk = 0, na = 0; for (uint i = 0; i < M.t.size(); ++i) if (M.t[i].isActive()) { ++na; bool has = false; for (uint v: M.t[i].v) has |= v == ip; vector<uint> v(M.t[i].v, M.t[i].v + 4); std::sort(v.begin(), v.end()); if (!has) { VP_CHECK(kept.count(v), "a tetrahedron without the new point appeared"); ++nk; } D3 ce; double rr; sphere(tp(M, i, 0), tp(M, i, 1), tp(M, i, 2), tp(M, i, 3), ce, rr); VP_CHECK(dist(ce, q3(M.cent[i])) < 1e-6 * (rr + L) * (1 + rr / L), "circumcentre of tetrahedron %u", i); } VP_CHECK(nk == kept.size(), "%zu of %zu tetrahedra away from the point were kept", nk, kept.size());
  }
  if (ins.size() >= 10) c.nontrivial(); c.label("kind %d", kind);
  for (uint i = 0; i < M.t.size(); ++i) if (M.t[i].isActive()) { D3 ce; double rr; sphere(tp(M, i, 0), tp(M, i, 1), tp(M, i, 2), tp(M, i, 3), ce, rr); for (uint p: ins) VP_CHECK(dist(ce, pt(M, p)) > rr * (1 - 1e-6) - 1e-7 * L, "point %u inside the circumsphere of tetrahedron %u", p, i); }
  auto po = M.po; for (auto &p: po) p.e = 12345; d::MakeOneTetSurNo(M.t, po); for (uint p: ins) VP_CHECK(po[p].e < M.t.size() && po[p].poel < 4 && M.t[po[p].e].v[po[p].poel] == p, "MakeOneTetSurNo: point %u", p);
  for (int k = 0; k < 6; ++k) { // rings
    uint i = (uint) c.below(M.t.size()); if (!M.t[i].isActive()) continue; auto &T = M.t[i]; int de = c.range(0, 11); uint a = T.v[d::dEdge2Noel[de][0]], b = T.v[d::dEdge2Noel[de][1]]; std::set<uint> around; bool inner = true;
    for (uint j = 0; j < M.t.size(); ++j) if (M.t[j].isActive()) { bool ha = false, hb = false; for (uint v: M.t[j].v) { ha |= v == a; hb |= v == b; } if (ha && hb) { around.insert(j); for (int f = 0; f < 4; ++f) if (M.t[j].v[f] != a && M.t[j].v[f] != b && M.t[j].s[f] == UINT_MAX) inner = false; } }
    d::ElemAroundEdge ee; ee.e.push_back({7, 7}); VP_CHECK(d::MakeElemAroundEdge(ee, (int) i, de, M.t), "MakeElemAroundEdge"); VP_CHECK(ee.is_inner == inner, "edge %u-%u is_inner", a, b);
    if (inner) { VP_CHECK(ee.nod == a && ee.nou == b && ee.size() == (int) around.size() && ee.n.size() == around.size() + 1 && ee.n.front() == ee.n.back() && ee.e[0].first == i, "ring of edge %u-%u: %d of %zu tetrahedra", a, b, ee.size(), around.size()); std::set<uint> got; for (size_t x = 0; x < ee.e.size(); ++x) { uint j = ee.e[x].first, rl = ee.e[x].second; got.insert(j); VP_CHECK(rl < 12 && M.t[j].v[d::tetRel[rl][0]] == a && M.t[j].v[d::tetRel[rl][1]] == b && M.t[j].v[d::tetRel[rl][3]] == ee.n[x] && M.t[j].v[d::tetRel[rl][2]] == ee.n[x + 1], "ring of edge %u-%u at %zu", a, b, x); } VP_CHECK(got == around, "ring of edge %u-%u visits other tetrahedra", a, b); }
    int nk = c.range(0, 3); uint p = T.v[nk]; std::set<int> ap; bool in = true; for (uint j = 0; j < M.t.size(); ++j) if (M.t[j].isActive()) for (int f = 0; f < 4; ++f) if (M.t[j].v[f] == p) { ap.insert((int) j); for (int g = 0; g < 4; ++g) if (g != f && M.t[j].s[g] == UINT_MAX) in = false; }
    d::ElemAroundPoint ep; d::MakeElemAroundPoint(ep, i, nk, M.t); VP_CHECK(ep.size() == (int) ap.size() && ep.is_inner == in, "point %u: %d of %zu tetrahedra, is_inner %d", p, ep.size(), ap.size(), (int) ep.is_inner); for (auto &x: ep.e) VP_CHECK(ap.count(x.first) && M.t[x.first].v[x.second] == p, "star of point %u", p);
  }
}
VP_PROP(tet_geometry, 20000, 300000, "random tetrahedra of any scale, shape and orientation: circumcentre equidistant, circumradius, in-sphere determinant sign, volume, area, height, longest and shortest edge, aspect ratio, barycentric coordinates, deformation gradient and its derivative; non-trivial: scale not 1 or a flat tetrahedron") {
  double s = c.pick({1.0, 0.03, 50.0}); D3 o = rnd3(c, c.pick({0.0, 3 * s})), p[4], q[4]; bool flat = c.chance(1, 3); for (auto &x: p) { x = rnd3(c, s); if (flat) x[2] *= 0.05; } if (flat) { auto R = rotation(c); for (auto &x: p) x = mul(R, x); } for (auto &x: p) x = x + o; for (auto &x: q) x = rnd3(c, s); if (s != 1 || flat) c.nontrivial();
  double v = tetvol(p[0], p[1], p[2], p[3]); c.assume(std::abs(v) > 1e-3 * s * s * s); vector<d::CDynPointTet> po; for (auto &x: p) po.push_back({x[0], x[1], x[2]}); d::CVec3d P[4], Q[4]; for (int i = 0; i < 4; ++i) { P[i] = v3(p[i]); Q[i] = v3(q[i]); }
  double e3 = 1e-12 * s * s * s * (1 + 30); VP_NEAR(d::Volume_Tet(P[0], P[1], P[2], P[3]), v, e3); VP_NEAR(d::TetVolume(0, 1, 2, 3, po), v, e3); d::CDynTet T; for (int k = 0; k < 4; ++k) T.v[k] = k; VP_NEAR(d::TetVolume(T, po), v, e3); VP_NEAR(d::Volume_OrgTet(v3(p[1] - p[0]), v3(p[2] - p[0]), v3(p[3] - p[0])), v, e3); VP_NEAR(d::Volume_Tet(p[0].data(), p[1].data(), p[2].data(), p[3].data()), v, e3);
  double lo = 1e99, hi = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) { double l = dist(p[i], p[j]); lo = std::min(lo, l); hi = std::max(hi, l); } vector<d::CDynTet> tt{T}; VP_NEAR(d::LongestEdgeLength(0, po, tt), hi, 1e-12 * s); VP_NEAR(d::ShortestEdgeLength(0, po, tt), lo, 1e-12 * s); VP_NEAR(d::SquareLongestEdgeLength(0, po, tt), hi * hi, 1e-10 * s * s); VP_NEAR(d::SquareShortestEdgeLength(0, po, tt), lo * lo, 1e-10 * s * s);
  double S = 0; for (int f = 0; f < 4; ++f) { D3 n = cross(p[F[f][1]] - p[F[f][0]], p[F[f][2]] - p[F[f][0]]); VP_NEAR(d::TriArea(T, f, po), 0.5 * norm(n), 1e-10 * s * s); S += 0.5 * norm(n); if (norm(n) > 1e-3 * s * s) { d::CVec3d un; d::UnitNormal(un, 0, f, tt, po); VP_CHECK(dist(q3(un), unit(n)) < 1e-9, "UnitNormal of face %d", f); d::CVec3d nn; d::Normal(nn, 0, f, tt, po); VP_CHECK(dist(q3(nn), n) < 1e-10 * s * s, "Normal of face %d", f); VP_NEAR(d::Height_Tet(P[F[f][0]], P[F[f][1]], P[F[f][2]], P[f]), dot(unit(n), p[f] - p[F[f][0]]), 1e-9 * s); } }
  D3 ce; double r; sphere(p[0], p[1], p[2], p[3], ce, r); if (v < 0) { std::swap(p[0], p[1]); std::swap(P[0], P[1]); std::swap(po[0], po[1]); v = -v; }
  if (6 * v > 1e-12) { double k = r / s; VP_CHECK(dist(q3(d::CircumCenter(P[0], P[1], P[2], P[3])), ce) < 1e-9 * s * (1 + k * k * k), "circumcentre"); VP_NEAR(d::Circumradius(P[0], P[1], P[2], P[3]), r, 1e-9 * s * (1 + k * k * k)); VP_NEAR(d::SquareCircumradius(P[0], P[1], P[2], P[3]), r * r, 1e-8 * s * s * (1 + k * k * k * k)); VP_NEAR(d::Criterion_Asp(T, po), r * S / (3 * v), 1e-7 * (1 + r * S / v) * (1 + k * k)); VP_NEAR(d::Circumradius(0, po, tt), r, 1e-9 * s * (1 + k * k * k));
    D3 x = c.flip() ? q[0] : ce + (r * c.uni(0.5, 1.5)) * unit(rnd3(c, 1) + D3{0, 0, 1.9}); double m = (dist(x, ce) - r) / r; if (std::abs(m) > 1e-6) { VP_CHECK(d::IsInsideCircumSphere(v3(x), T, v3(ce), po) == (m < 0), "IsInsideCircumSphere at %g", m); double dd = d::DetDelaunay3D(P[0], P[1], P[2], P[3], v3(x)), want = 6 * v * (dot(x - ce, x - ce) - r * r); VP_CHECK(std::abs(std::abs(dd) - std::abs(want)) < 1e-6 * std::abs(want) + 1e-9 * std::pow(s, 5) * (1 + std::pow(r / s, 3)), "DetDelaunay3D %g, expected %g", dd, want); double in = d::DetDelaunay3D(P[0], P[1], P[2], P[3], v3(ce)); if (std::abs(m) > 1e-3) VP_CHECK((dd * in > 0) == (m < 0), "DetDelaunay3D sign"); } }
  // origin in barycentric coordinates; deformation gradient
  { double b[4] = {c.uni(-1, 2), c.uni(-1, 2), c.uni(-1, 2), 0}; b[3] = 1 - b[0] - b[1] - b[2]; D3 x{0, 0, 0}; for (int i = 0; i < 4; ++i) x = x + b[i] * p[i]; double g0, g1, g2; d::barycentricCoord_Origin_Tet(g0, g1, g2, v3(p[0] - x), v3(p[1] - x), v3(p[2] - x), v3(p[3] - x)); double tol = 1e-9 * s * s * s / v; VP_CHECK(std::abs(g0 - b[0]) < tol && std::abs(g1 - b[1]) < tol && std::abs(g2 - b[2]) < tol, "barycentric (%g %g %g), expected (%g %g %g)", g0, g1, g2, b[0], b[1], b[2]); }
  auto Fg = d::DeformationGradientOfTet(P[0], P[1], P[2], P[3], Q[0], Q[1], Q[2], Q[3]); double dF[4][3]; d::DiffDeformationGradientOfTet(dF, P[0], P[1], P[2], P[3]); double tol = 1e-9 * std::pow(s, 4) / v; 
  for (int i = 1; i < 4; ++i) { D3 x = mul(Fg, p[i] - p[0]); VP_CHECK(dist(x, q[i] - q[0]) < tol, "deformation gradient does not map edge %d", i); }
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { double y = 0; for (int i = 0; i < 4; ++i) y += q[i][a] * dF[i][b]; VP_NEAR(y, Fg[a * 3 + b], tol / s); }
}
VP_PROP(tables, 3000, 20000, "the relation tables of tetrahedra sharing a face: GetRelationshipTet finds the relation of every pair of tetrahedra sharing three vertices with opposite orientation and none otherwise, inverse relations and edge tables are consistent; non-trivial: the pair shares a face") {
  uint a[4], b[4]; vector<uint> id{0, 1, 2, 3, 4, 5, 6, 7}; c.shuffle(id.begin(), id.end()); for (int k = 0; k < 4; ++k) a[k] = id[k]; int share = c.range(0, 3); vector<uint> w(a, a + 4); c.shuffle(w.begin(), w.end()); for (int k = 0; k < 4; ++k) b[k] = k < share ? w[k] : id[k + 4]; c.shuffle(b, b + 4);
  int r = d::GetRelationshipTet(a, b); if (share < 3) VP_CHECK(r == -1, "relation %d of tetrahedra sharing %d vertices", r, share); else {
    c.nontrivial(); int oa = -1, ob = -1; for (int k = 0; k < 4; ++k) { bool f = false, g = false; for (int l = 0; l < 4; ++l) { f |= a[k] == b[l]; g |= b[k] == a[l]; } if (!f) oa = k; if (!g) ob = k; }
    // orientation of the common face seen from each
    auto par = [](array<uint, 3> x, array<uint, 3> y) { for (int s = 0; s < 3; ++s) if (x[0] == y[s] && x[1] == y[(s + 1) % 3] && x[2] == y[(s + 2) % 3]) return true; return false; }; array<uint, 3> fa{a[F[oa][0]], a[F[oa][1]], a[F[oa][2]]}, fb{b[F[ob][2]], b[F[ob][1]], b[F[ob][0]]}; bool opp = par(fa, fb);
    VP_CHECK((r >= 0) == opp, "relation %d, opposite %d", r, (int) opp); if (r >= 0) { for (int k = 0; k < 4; ++k) VP_CHECK(k == oa ? (int) d::tetRel[r][k] == ob : a[k] == b[d::tetRel[r][k]], "relation %d", r); int q = d::GetRelationshipTet(b, a); VP_CHECK(q == (int) d::invTetRel[r], "inverse of relation %d", r); } }
  for (int i = 0; i < 16; ++i) { int rl = d::noel2Rel[i], de = d::noel2DEdge[i]; if (i / 4 == i % 4) { VP_CHECK(rl == -1 && de == -1, "noel2Rel"); continue; } VP_CHECK((int) d::tetRel[rl][0] == i / 4 && (int) d::tetRel[rl][1] == i % 4, "noel2Rel[%d]", i); VP_CHECK((int) d::dEdge2Noel[de][0] == i / 4 && (int) d::dEdge2Noel[de][1] == i % 4, "noel2DEdge[%d]", i); }
  for (int e = 0; e < 6; ++e) { uint x = d::sEdge2Noel[e][0], y = d::sEdge2Noel[e][1]; uint g = d::sEdge2FaTet[e][0], h = d::sEdge2FaTet[e][1]; VP_CHECK(x != y && g != h && g != x && g != y && h != x && h != y, "sEdge2FaTet[%d]", e); VP_CHECK(d::dEdge2Noel[d::sEdge2DEdge[e]][0] == x && d::dEdge2Noel[d::sEdge2DEdge[e]][1] == y, "sEdge2DEdge[%d]", e); }
}
