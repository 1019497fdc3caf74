// SCALE: 3 8
#include "poly2.hpp"
#include "delfem2/cad2.h"
#include "delfem2/cad2_mesher.h"
#include "delfem2/cagedef.h"
#include "delfem2/cad2_mesh_deformation.h"
using namespace ref;
namespace d = delfem2;
using EG = d::CCad2D_EdgeGeo;
static D2 q2(const d::CVec2d &p) { return {p.x, p.y}; }
// ---- the reference shape
struct ME { uint v0, v1; int type; vector<double> par; };       // type as in EDGE_TYPE, par relative to the end points
struct ML { uint iv; vector<uint> e; };
struct MC { vector<D2> v; vector<ME> e; vector<ML> l; vector<vector<uint>> f; };
static D2 curve(int type, D2 a, D2 b, const vector<double> &p, double t) {
  double s = 1 - t; if (type == EG::LINE) return s * a + t * b; D2 q = a + D2{p[0], p[1]};
  if (type == EG::BEZIER_QUADRATIC) return s * s * a + (2 * s * t) * q + t * t * b;
  D2 r = b + D2{p[2], p[3]}; return s * s * s * a + (3 * s * s * t) * q + (3 * s * t * t) * r + t * t * t * b;
}
static D2 curve(const EG &e, double t) { return curve(e.type_edge, q2(e.p0), q2(e.p1), e.param, t); }
static D2 curve(const MC &m, const ME &e, double t) { return curve(e.type, m.v[e.v0], m.v[e.v1], e.par, t); }
static vector<double> rndpar(vp::Case &c, int type, D2 a, D2 b, double amp) { // control points near the chord
  D2 ch = b - a, nr{-ch[1], ch[0]}; auto at = [&](double t) { return t * ch + c.sym(amp) * nr; };
  if (type == EG::BEZIER_QUADRATIC) { D2 p = at(c.uni(0.3, 0.7)); return {p[0], p[1]}; }
  if (type == EG::BEZIER_CUBIC) { D2 p = at(c.uni(0.2, 0.4)), q = at(c.uni(0.6, 0.8)) - ch; return {p[0], p[1], q[0], q[1]}; }
  return {};
}
static void same(vp::Case &c, const d::CCad2D &C, const MC &m, const char *op) {
  VP_CHECK(C.Check(), "%s: Check() fails", op);
  VP_CHECK(C.nVtx() == m.v.size() && C.nEdge() == m.e.size() && C.topo.num_vertex == m.v.size() && C.topo.edges.size() == m.e.size(), "%s: %zu vertices %zu edges, expected %zu %zu", op, C.nVtx(), C.nEdge(), m.v.size(), m.e.size());
  for (uint i = 0; i < m.v.size(); ++i) VP_CHECK(dist(q2(C.aVtx[i].pos), m.v[i]) < 1e-12, "%s: vertex %u at (%g %g), expected (%g %g)", op, i, C.aVtx[i].pos.x, C.aVtx[i].pos.y, m.v[i][0], m.v[i][1]);
  for (uint i = 0; i < m.e.size(); ++i) {
    const auto &e = m.e[i]; VP_CHECK(C.topo.edges[i].iv0 == e.v0 && C.topo.edges[i].iv1 == e.v1, "%s: edge %u joins %u-%u, expected %u-%u", op, i, C.topo.edges[i].iv0, C.topo.edges[i].iv1, e.v0, e.v1);
    auto ep = C.topo.VertexIndexs_EdgeEndPoints(i); VP_CHECK(ep.first == e.v0 && ep.second == e.v1 && C.topo.edges[i].IndexVertex(true) == e.v0 && C.topo.edges[i].IndexVertex(false) == e.v1, "%s: end points of edge %u", op, i);
    VP_CHECK(dist(q2(C.aEdge[i].p0), m.v[e.v0]) < 1e-12 && dist(q2(C.aEdge[i].p1), m.v[e.v1]) < 1e-12, "%s: edge %u is not at its vertices", op, i);
    VP_CHECK((int) C.aEdge[i].type_edge == e.type && C.aEdge[i].param.size() == e.par.size(), "%s: type of edge %u", op, i);
    for (size_t k = 0; k < e.par.size(); ++k) VP_CHECK(vp::close(C.aEdge[i].param[k], e.par[k], 1e-10, 1e-10), "%s: control point of edge %u", op, i);
  }
  VP_CHECK(C.topo.faces.size() == m.f.size() && C.topo.loops.size() == m.l.size(), "%s: %zu faces %zu loops", op, C.topo.faces.size(), C.topo.loops.size());
  vector<vector<uint>> vf(m.v.size()), ef(m.e.size());
  for (uint f = 0; f < m.f.size(); ++f) {
    VP_CHECK(C.topo.faces[f].aIL == m.f[f], "%s: loops of face %u", op, f); vector<uint> wv; vector<std::pair<uint, bool>> we;
    for (uint l: m.f[f]) { const ML &L = m.l[l]; VP_CHECK(C.topo.loops[l].iv == L.iv && C.topo.loops[l].aIE.size() == L.e.size(), "%s: loop %u", op, l); if (L.iv != UINT_MAX) wv.push_back(L.iv); for (size_t k = 0; k < L.e.size(); ++k) { auto p = std::make_pair(L.e[k], true); VP_CHECK(C.topo.loops[l].aIE[k] == p, "%s: edge %zu of loop %u", op, k, l); we.push_back(p); wv.push_back(m.e[L.e[k]].v0); ef[L.e[k]].push_back(f); } }
    auto gv = C.topo.VertexIndexs_Face(f); std::sort(gv.begin(), gv.end()); for (uint v: wv) vf[v].push_back(f); std::sort(wv.begin(), wv.end()); VP_CHECK(gv == wv, "%s: vertices of face %u: %s expected %s", op, f, vp::str(gv).c_str(), vp::str(wv).c_str());
    VP_CHECK(C.topo.EdgeIndexes_Face(f) == we, "%s: edges of face %u", op, f);
  }
  for (uint v = 0; v < m.v.size(); ++v) VP_CHECK(C.topo.FindFaceIndexes_IncludeVeretx(v) == vf[v], "%s: faces around vertex %u", op, v);
  for (uint e = 0; e < m.e.size(); ++e) VP_CHECK(C.topo.FindFaceIndexes_IncludeEdge(e) == ef[e], "%s: faces around edge %u", op, e);
  bool lines = !m.e.empty(); for (auto &e: m.e) lines &= e.type == 0;
  if (lines) { D2 lo{1e9, 1e9}, hi{-1e9, -1e9}; for (auto &e: m.e) for (uint v: {e.v0, e.v1}) for (int k = 0; k < 2; ++k) { lo[k] = std::min(lo[k], m.v[v][k]); hi[k] = std::max(hi[k], m.v[v][k]); } auto b = C.BB(); VP_CHECK(std::abs(b.x_min - lo[0]) + std::abs(b.x_max - hi[0]) + std::abs(b.y_min - lo[1]) + std::abs(b.y_max - hi[1]) < 1e-12, "%s: bounding box", op); }
}
static void m_polygon(MC &m, const vector<double> &xy, const vector<int> &ty, const vector<vector<double>> &par) {
  uint n = (uint) xy.size() / 2, v0 = (uint) m.v.size(), e0 = (uint) m.e.size(); ML L{UINT_MAX, {}};
  for (uint i = 0; i < n; ++i) { m.v.push_back(P2(xy, i)); m.e.push_back({v0 + i, v0 + (i + 1) % n, ty[i], par[i]}); L.e.push_back(e0 + i); }
  m.l.push_back(L); m.f.push_back({(uint) m.l.size() - 1});
}
static void m_vtxedge(MC &m, uint ie, D2 p) {
  uint vn = (uint) m.v.size(), en = (uint) m.e.size(); m.v.push_back(p); m.e.push_back({vn, m.e[ie].v1, 0, {}}); m.e[ie].v1 = vn;
  for (auto &L: m.l) for (size_t k = 0; k < L.e.size(); ++k) if (L.e[k] == ie) { L.e.insert(L.e.begin() + k + 1, en); break; }
}
static void add_polygon(vp::Case &c, d::CCad2D &C, MC &m, vector<double> xy, bool curved, double amp) {
  uint n = (uint) xy.size() / 2; vector<int> ty(n, 0); vector<vector<double>> par(n); vector<EG> aE(n); uint shift = c.flip() ? (uint) c.below(n) : 0; std::rotate(xy.begin(), xy.begin() + 2 * shift, xy.end());
  for (uint i = 0; i < n; ++i) { D2 a = P2(xy, i), b = P2(xy, (i + 1) % n); if (curved) ty[i] = c.range(0, 2); par[i] = rndpar(c, ty[i], a, b, amp); aE[i].p0 = d::CVec2d(a[0], a[1]); aE[i].p1 = d::CVec2d(b[0], b[1]); aE[i].type_edge = (EG::EDGE_TYPE) ty[i]; aE[i].param = par[i]; }
  if (curved) C.AddFace(aE); else C.AddPolygon(xy); m_polygon(m, xy, ty, par);
}
VP_PROP(history, 3000, 30000, "random sequences of up to 25 edits (add polygon or curved face, vertex on an edge or in a face, drag vertex/edge/face/handle, change the curve type, edits with an invalid index, copy, clear) against a reference shape compared in full after each edit; non-trivial: at least 8 effective edits on a shape with 2 faces") {
  d::CCad2D C; MC m; int n = c.range(1, 25), eff = 0; same(c, C, m, "new");
  for (int k = 0; k < n; ++k) {
    int op = m.f.empty() ? 0 : c.range(0, 12); ++eff;
    if (op <= 1) { vector<double> xy = c.flip() ? polyloop(c) : starloop(c, c.range(3, 6), {c.sym(3), c.sym(3)}, 0.3, 1); add_polygon(c, C, m, xy, c.flip(), 0.3); same(c, C, m, "AddPolygon/AddFace"); }
    else if (op == 2) { uint e = (uint) c.below(m.e.size()); D2 p = curve(m, m.e[e], c.uni(0.1, 0.9)) + rnd2(c, c.flip() ? 0.0 : 0.2); C.AddVtxEdge(p[0], p[1], e); m_vtxedge(m, e, p); same(c, C, m, "AddVtxEdge"); }
    else if (op == 3) { uint f = (uint) c.below(m.f.size()); D2 p = rnd2(c, 1); C.AddVtxFace(p[0], p[1], f); m.v.push_back(p); m.l.push_back({(uint) m.v.size() - 1, {}}); m.f[f].push_back((uint) m.l.size() - 1); same(c, C, m, "AddVtxFace"); }
    else if (op == 4) { d::Cad2_Ui u; u.ivtx_picked = (uint) c.below(m.v.size()); D2 p = rnd2(c, 2); u.DragPicked(C, p[0], p[1], 0.3, 0.4); m.v[u.ivtx_picked] = p; same(c, C, m, "drag vertex"); }
    else if (op == 5) { d::Cad2_Ui u; u.iedge_picked = (uint) c.below(m.e.size()); D2 p = rnd2(c, 1), q = rnd2(c, 1); u.DragPicked(C, p[0], p[1], q[0], q[1]); auto &e = m.e[u.iedge_picked]; m.v[e.v0] = m.v[e.v0] + (p - q); m.v[e.v1] = m.v[e.v1] + (p - q); same(c, C, m, "drag edge"); }
    else if (op == 6) { d::Cad2_Ui u; uint f = (uint) c.below(m.f.size()); u.iface_picked = f; D2 p = rnd2(c, 1), q = rnd2(c, 1); u.DragPicked(C, p[0], p[1], q[0], q[1]); for (uint l: m.f[f]) { if (m.l[l].iv != UINT_MAX) m.v[m.l[l].iv] = m.v[m.l[l].iv] + (p - q); for (uint e: m.l[l].e) m.v[m.e[e].v0] = m.v[m.e[e].v0] + (p - q); } same(c, C, m, "drag face"); }
    else if (op == 7) { // drag a handle of a cubic edge after picking the edge
      vector<uint> cu; for (uint e = 0; e < m.e.size(); ++e) if (m.e[e].type == EG::BEZIER_CUBIC) cu.push_back(e); if (cu.empty()) { --eff; continue; }
      d::Cad2_Ui u; uint e = cu[c.below(cu.size())]; u.iedge_picked = e; int h = c.range(1, 2); auto &E = m.e[e]; D2 a = m.v[E.v0], b = m.v[E.v1], q0 = a + D2{E.par[0], E.par[1]}, q1 = b + D2{E.par[2], E.par[3]}; double vh = c.pick({0.1, 2.0}); if (dist(q0, q1) < vh * 0.1) { --eff; continue; }
      D2 at = (h == 1 ? q0 : q1) + rnd2(c, vh * 0.03), to = rnd2(c, 2); u.Pick(at[0], at[1], vh, C); VP_CHECK(u.ipicked_elem == h && u.iedge_picked == e, "handle %d not picked", h); u.DragPicked(C, to[0], to[1], at[0], at[1]); D2 r = to - (h == 1 ? a : b); E.par[h * 2 - 2] = r[0]; E.par[h * 2 - 1] = r[1]; same(c, C, m, "drag handle"); }
    else if (op == 8) { uint e = (uint) c.below(m.e.size()); int ty = c.range(0, 2); auto &E = m.e[e]; D2 a = m.v[E.v0], b = m.v[E.v1]; auto p = rndpar(c, ty, a, b, 0.5); E.type = ty; E.par = p; 
      if (ty == EG::LINE) C.aEdge[e].SetLine(); else if (ty == EG::BEZIER_QUADRATIC) C.aEdge[e].SetQuadraticBezierCurve({a[0] + p[0], a[1] + p[1]}); else C.aEdge[e].SetCubicBezierCurve({a[0] + p[0], a[1] + p[1]}, {b[0] + p[2], b[1] + p[3]}); same(c, C, m, "Set...Curve"); }
    else if (op == 9) { --eff; uint bad = c.flip() ? UINT_MAX : 1000000; int w = c.range(0, 3); if (w == 0) C.AddVtxEdge(0, 0, c.flip() ? bad : (uint) m.e.size()); else if (w == 1) C.AddVtxFace(0, 0, c.flip() ? bad : (uint) m.f.size()); else if (w == 2) C.AddFace({}); else { d::Cad2_Ui u; u.DragPicked(C, 1, 1, 0, 0); } same(c, C, m, "invalid edit"); }
    else if (op == 10) { d::CCad2D D = C; if (c.flip()) { D.AddVtxEdge(0, 0, 0); same(c, C, m, "editing a copy"); D = C; } std::swap(C, D); D.Clear(); same(c, C, m, "copy"); }
    else if (op == 11 && c.chance(1, 4)) { C.Clear(); m = MC(); same(c, C, m, "Clear"); }
    else { d::Cad2_Ui u; double vh = c.pick({0.2, 1.0}); D2 p = c.flip() && !m.v.empty() ? m.v[c.below(m.v.size())] + rnd2(c, vh * 0.06) : curve(m, m.e[c.below(m.e.size())], c.uni(0, 1)) + rnd2(c, vh * 0.06); u.Pick(p[0], p[1], vh, C); --eff; double r = vh * 0.05; uint clear_v = 0, amb_v = 0; for (auto &q: m.v) { double s = dist(q, p); clear_v += s < r * (1 - 1e-9); amb_v += std::abs(s - r) <= 1e-9 * r; } if (amb_v) continue;
      if (clear_v) { VP_CHECK(u.ivtx_picked < m.v.size() && dist(m.v[u.ivtx_picked], p) < r && u.iedge_picked == UINT_MAX, "vertex not picked"); VP_CHECK(std::abs(u.picked_pos[0] - m.v[u.ivtx_picked][0]) < 1e-5 && std::abs(u.picked_pos[1] - m.v[u.ivtx_picked][1]) < 1e-5, "picked position"); continue; }
      VP_CHECK(u.ivtx_picked == UINT_MAX, "vertex %u picked from afar", u.ivtx_picked); bool must = false, may = u.iedge_picked == UINT_MAX;
      for (uint e = 0; e < m.e.size(); ++e) { if (m.e[e].type) { if (e == u.iedge_picked) may = true; continue; } double s = dist(p, near_seg(p, m.v[m.e[e].v0], m.v[m.e[e].v1])); must |= s < r * (1 - 1e-9); if (e == u.iedge_picked) may = s < r * (1 + 1e-9); }
      VP_CHECK(may && (!must || u.iedge_picked != UINT_MAX), "edge picked: %u", u.iedge_picked); same(c, C, m, "pick"); }
  }
  if (eff >= 8 && m.f.size() >= 2) c.nontrivial(); c.label("%d faces", (int) std::min<size_t>(m.f.size(), 4));
}
static double polyarea(const vector<D2> &p) { double a = 0; for (size_t i = 0; i < p.size(); ++i) a += 0.5 * cross(p[i], p[(i + 1) % p.size()]); return a; }
VP_PROP(edge_geometry, 6000, 80000, "closed loops of line, quadratic and cubic edges anywhere in the plane: enclosed area, arc length, distance, inverted loop, linear transformation and subdivision points agree with fine sampling of the curves; non-trivial: a curved edge") {
  int n = c.range(2, 7); D2 o = rnd2(c, c.pick({0.0, 3.0})); vector<EG> L(n); vector<double> xy = starloop(c, n, o, 0.3, 1.5); bool cw = c.chance(1, 3); if (cw) xy = reversed(xy); double amp = c.pick({0.2, 0.6});
  for (int i = 0; i < n; ++i) { D2 a = P2(xy, i), b = P2(xy, (i + 1) % n); int ty = n == 2 ? c.range(1, 2) : c.range(0, 2); if (ty) c.nontrivial(); L[i].p0 = {a[0], a[1]}; L[i].p1 = {b[0], b[1]}; auto p = rndpar(c, ty, a, b, amp); if (ty == 1) L[i].SetCubicBezierCurve({a[0] + p[0], a[1] + p[1]}, {b[0] + p[2], b[1] + p[3]}); else if (ty == 2) L[i].SetQuadraticBezierCurve({a[0] + p[0], a[1] + p[1]}); else L[i].SetLine(); VP_CHECK((int) L[i].type_edge == ty, "type"); }
  // Green's theorem with Gauss quadrature exact for the polynomial: use fine Simpson instead
  auto area = [&](const vector<EG> &E) { double A = 0; const int N = 60; for (auto &e: E) for (int i = 0; i < N; ++i) A += 0.5 * cross(curve(e, i / (double) N), curve(e, (i + 1) / (double) N)); return A; };
  double A = area(L); VP_NEAR(d::AreaLoop(L), A, 2e-3 * (1 + std::abs(A)));
  { const int N = 4; double s = 0; const double gx[4] = {0.06943184420297371, 0.33000947820757187, 0.6699905217924281, 0.9305681557970263}, gw[4] = {0.17392742256872693, 0.32607257743127307, 0.32607257743127307, 0.17392742256872693}; // exact to degree 7
    for (auto &e: L) for (int i = 0; i < N; ++i) { double h = 1e-4; D2 p = curve(e, gx[i]), v = (1 / (2 * h)) * (curve(e, gx[i] + h) - curve(e, gx[i] - h)); s += 0.5 * gw[i] * cross(p, v); } VP_NEAR(d::AreaLoop(L), s, 1e-6 * (1 + std::abs(s))); }
  for (auto &e: L) {
    const int N = 400; double len = 0; for (int i = 0; i < N; ++i) len += dist(curve(e, i / (double) N), curve(e, (i + 1) / (double) N)); double got = e.ArcLength(); VP_CHECK(std::abs(got - len) < (e.type_edge == EG::BEZIER_CUBIC ? 0.03 : 1e-4) * (len + 1e-9), "arc length %g, sampled %g (type %d)", got, len, (int) e.type_edge);
    D2 p = o + rnd2(c, 2); double best = 1e9; for (int i = 0; i <= N; ++i) best = std::min(best, dist(p, curve(e, i / (double) N))); double D = e.Distance(p[0], p[1]); VP_CHECK(D > best - 1e-2 * len, "distance %g below the true one %g", D, best); VP_CHECK(D < best + (e.type_edge == EG::LINE ? 1e-2 * len : 0.2 * len), "distance %g above the true one %g", D, best); if (e.type_edge == EG::LINE) VP_NEAR(D, dist(p, near_seg(p, q2(e.p0), q2(e.p1))), 1e-10);
    uint nd = (uint) c.range(1, 9); auto g = e.GenMesh(nd); VP_CHECK(g.size() == 3 * (nd - 1), "GenMesh(%u) gives %zu points", nd, g.size() / 3); for (uint i = 1; i < nd; ++i) { double t = (double) i / nd; VP_NEAR(g[i * 3 - 1], t, 1e-12); VP_CHECK(dist(D2{g[i * 3 - 3], g[i * 3 - 2]}, curve(e, t)) < 1e-9, "GenMesh point %u", i); }
    auto b = e.BB(); VP_CHECK(b.x_min == std::min(e.p0.x, e.p1.x) && b.x_max == std::max(e.p0.x, e.p1.x) && b.y_min == std::min(e.p0.y, e.p1.y) && b.y_max == std::max(e.p0.y, e.p1.y), "bounding box of the end points");
  }
  auto R = d::InvertLoop(L); VP_CHECK((int) R.size() == n, "size"); for (int i = 0; i < n; ++i) for (double t: {0.0, 0.2, 0.5, 0.9, 1.0}) VP_CHECK(dist(curve(R[i], t), curve(L[n - 1 - i], 1 - t)) < 1e-9, "inverted loop: edge %d (type %d)", i, (int) R[i].type_edge); VP_NEAR(d::AreaLoop(R), -d::AreaLoop(L), 1e-9 * (1 + std::abs(A)));
  double T[4] = {c.sym(2), c.sym(2), c.sym(2), c.sym(2)}; auto M = L; for (auto &e: M) e.Transform(T); for (int i = 0; i < n; ++i) for (double t: {0.0, 0.3, 0.7, 1.0}) { D2 p = curve(L[i], t); VP_CHECK(dist(curve(M[i], t), D2{T[0] * p[0] + T[1] * p[1], T[2] * p[0] + T[3] * p[1]}) < 1e-9, "transformed edge %d", i); } VP_NEAR(d::AreaLoop(M), (T[0] * T[3] - T[1] * T[2]) * d::AreaLoop(L), 1e-7 * (1 + 10 * std::abs(A)));
  // edges of zero length are dropped, all others kept in order
  vector<EG> Z; vector<int> keep; for (int i = 0; i < n; ++i) { while (c.chance(1, 4)) { EG z; z.p0 = z.p1 = L[i].p0; Z.push_back(z); } Z.push_back(L[i]); } auto K = d::RemoveEdgeWithZeroLength(Z); VP_CHECK((int) K.size() == n, "%zu edges kept of %d", K.size(), n); for (int i = 0; i < n; ++i) VP_CHECK(dist(curve(K[i], 0.4), curve(L[i], 0.4)) == 0, "kept edge %d", i);
}
// a shape that can be meshed: faces whose discretised loops are simple
static void meshable(vp::Case &c, d::CCad2D &C, MC &m, double el, int maxface, bool curves, bool isolated, double minfeat, const std::map<uint, uint> *ndiv = nullptr) {
  int nf = c.range(1, maxface);
  for (int f = 0; f < nf; ++f) {
    auto xy = polyloop(c); if (loop_area(xy) < 0) xy = reversed(xy); D2 o{c.chance(1, 6) ? 0.0 : 5.0 * f, 0.0}; for (size_t i = 0; i < xy.size(); i += 2) { xy[i] += o[0]; xy[i + 1] += o[1]; } c.assume(feature({xy}) > minfeat);
    add_polygon(c, C, m, xy, curves && c.flip(), 0.4); int nv = c.range(0, 3); 
    for (int k = 0; k < nv; ++k) { auto &L = m.l[m.f[f][0]]; uint e = L.e[c.below(L.e.size())]; if (m.e[e].type) continue; D2 p = curve(m, m.e[e], c.pick({0.5, 0.3, 0.7})); C.AddVtxEdge(p[0], p[1], e); m_vtxedge(m, e, p); }
  }
  for (uint f = 0; f < m.f.size(); ++f) {
    vector<double> P; for (uint e: m.l[m.f[f][0]].e) { double len = 0; for (int i = 0; i < 200; ++i) len += dist(curve(m, m.e[e], i / 200.0), curve(m, m.e[e], (i + 1) / 200.0)); int nd = el > 0 ? (int) (len / el + 1) : 20; for (int i = 0; i < nd; ++i) { D2 p = curve(m, m.e[e], i / (double) nd); P.push_back(p[0]); P.push_back(p[1]); } }
    c.assume(P.size() < 800); // a collinear vertex is as far from its neighbours as the edges are long
    c.assume(feature({P}) > std::min(minfeat, el > 0 ? el * 0.3 : 0.004) && loop_area(P) > 0);
    if (isolated) for (int k = c.range(0, 2); k-- > 0;) { D2 p = P2(P, 0) + rnd2(c, 1.5); double near = 1e9; for (uint i = 0; i < P.size() / 2; ++i) near = std::min(near, dist(p, near_seg(p, P2(P, i), P2(P, (uint) ((i + 1) % (P.size() / 2)))))); for (auto &q: m.v) near = std::min(near, dist(p, q)); if (near < 0.03 || !inside(P, p)) continue; C.AddVtxFace(p[0], p[1], f); m.v.push_back(p); m.l.push_back({(uint) m.v.size() - 1, {}}); m.f[f].push_back((uint) m.l.size() - 1); c.label("vertex in a face"); }
  }
}
static vector<uint> sorted(vector<uint> v) { std::sort(v.begin(), v.end()); return v; }
VP_PROP(mesh, 2500, 30000, "meshes of shapes with 1 to 3 faces (lines and curves, vertices on edges and in faces, refined or not): vertices first and in place, edge points on the curve in equal parameter steps, triangles positive, each face covered exactly, flags and the point lists of edges and faces right, element size respected; non-trivial: curved, several faces or refined") {
  double el = c.pick({-1.0, 0.15, 0.3, 0.6, 1.5}); d::CCad2D C; MC m; meshable(c, C, m, el, 3, true, true, 0.05); same(c, C, m, "build"); bool curved = false; for (auto &e: m.e) curved |= e.type != 0; if (curved || m.f.size() > 1 || el > 0) c.nontrivial(); c.label(el < 0 ? "unrefined" : curved ? "curved" : "straight");
  d::CMesher_Cad2D ms; ms.edge_length = el; d::CMeshDynTri2D dm; if (c.flip()) ms.Meshing(dm, C); // reused
  if (el > 0 && c.flip()) { for (uint e = 0; e < m.e.size(); ++e) if (m.e[e].type == 0 && c.chance(1, 3)) ms.mapIdEd_NDiv[e] = (uint) c.range(1, 8); c.label("given subdivision"); }
  ms.Meshing(dm, C); dm.Check(); size_t nV = m.v.size(), nE = m.e.size(), nF = m.f.size(); VP_CHECK(ms.nvtx == nV && ms.nedge == nE && ms.nface == nF && ms.edge_point.size() == nE, "counts"); VP_CHECK(ms.aFlgPnt.size() == dm.aVec2.size() && ms.aFlgTri.size() == dm.aETri.size() && dm.aEPo.size() == dm.aVec2.size(), "sizes of flags");
  vector<char> isE(dm.aVec2.size(), 0); vector<vector<uint>> ep(nE);
  for (uint i = 0; i < nV; ++i) VP_CHECK(dist(q2(dm.aVec2[i]), m.v[i]) < 1e-12 && ms.aFlgPnt[i] == i, "vertex %u of the mesh", i);
  uint k = (uint) nV; for (uint e = 0; e < nE; ++e) { size_t np = ms.edge_point[e].size(); if (el < 0) VP_CHECK(np == 19, "edge %u has %zu points", e, np); else if (ms.mapIdEd_NDiv.count(e)) VP_CHECK(np + 1 == ms.mapIdEd_NDiv[e], "edge %u has %zu points, asked %u divisions", e, np, ms.mapIdEd_NDiv[e]); else { double len = 0; for (int i = 0; i < 400; ++i) len += dist(curve(m, m.e[e], i / 400.0), curve(m, m.e[e], (i + 1) / 400.0)); VP_CHECK(len / (np + 1) < el * 1.05 && (np == 0 || len / np > el * 0.95), "edge %u of length %g has %zu points for size %g", e, len, np, el); }
    for (size_t i = 0; i < np; ++i, ++k) { auto pr = ms.edge_point[e][i]; double t = (i + 1.0) / (np + 1); VP_CHECK(pr.first == k && std::abs(pr.second - t) < 1e-12 && ms.aFlgPnt[k] == nV + e, "point %zu of edge %u", i, e); VP_CHECK(dist(q2(dm.aVec2[k]), curve(m, m.e[e], t)) < 1e-9, "point %zu of edge %u is off the curve", i, e); ep[e].push_back(k); } }
  vector<double> FA(nF, 0.0); vector<std::set<uint>> FP(nF); size_t nin = 0;
  for (uint i = 0; i < dm.aETri.size(); ++i) { auto &t = dm.aETri[i]; uint f = ms.aFlgTri[i]; VP_CHECK(f < nF, "flag of triangle %u", i); double a = area2(q2(dm.aVec2[t.v[0]]), q2(dm.aVec2[t.v[1]]), q2(dm.aVec2[t.v[2]])); VP_CHECK(a > -1e-9, "triangle %u of area %g", i, a); FA[f] += a; for (uint v: t.v) FP[f].insert(v); for (uint s: t.s2) VP_CHECK(s == UINT_MAX || (s < dm.aETri.size() && ms.aFlgTri[s] == f), "triangle %u is connected to another face", i); }
  for (uint p = k; p < dm.aVec2.size(); ++p, ++nin) VP_CHECK(ms.aFlgPnt[p] >= nV + nE && ms.aFlgPnt[p] < nV + nE + nF, "flag of inner point %u", p); if (el < 0) VP_CHECK(nin == 0, "%zu inner points without refinement", nin);
  std::set<array<uint, 2>> B; for (auto &t: dm.aETri) for (int q = 0; q < 3; ++q) if (t.s2[q] == UINT_MAX) { array<uint, 2> b{t.v[(q + 1) % 3], t.v[(q + 2) % 3]}; B.insert(b); } size_t nb = 0;
  for (uint f = 0; f < nF; ++f) {
    vector<D2> P; vector<uint> I; std::set<uint> S; for (uint l: m.f[f]) { if (m.l[l].iv != UINT_MAX) { S.insert(m.l[l].iv); continue; } for (uint e: m.l[l].e) { I.push_back(m.e[e].v0); for (uint p: ep[e]) I.push_back(p); } } for (uint p: I) P.push_back(q2(dm.aVec2[p])), S.insert(p); 
    double A = polyarea(P); VP_CHECK(std::abs(FA[f] - A) < 1e-7 * (1 + A), "face %u: triangles cover %g, region is %g", f, FA[f], A);
    for (size_t i = 0; i < I.size(); ++i, ++nb) { array<uint, 2> b{I[i], I[(i + 1) % I.size()]}; VP_CHECK(B.count(b), "boundary edge %u-%u of face %u missing", b[0], b[1], f); }
    for (uint p = k; p < dm.aVec2.size(); ++p) if (ms.aFlgPnt[p] == nV + nE + f) S.insert(p);
    VP_CHECK(FP[f] == S, "face %u uses %zu points, expected %zu", f, FP[f].size(), S.size()); auto g = ms.IndPoint_IndFaceArray({(int) f}, C); VP_CHECK(std::set<uint>(g.begin(), g.end()) == S && g.size() == S.size(), "IndPoint_IndFaceArray of face %u", f);
    if (el > 0 && ms.mapIdEd_NDiv.empty()) { double n = 0; for (uint x: ms.aFlgTri) n += x == f; VP_CHECK(A / n < 2 * el * el, "face %u: mean triangle %g for size %g", f, A / n, el); }
  }
  VP_CHECK(B.size() == nb, "%zu boundary edges, expected %zu", B.size(), nb);
  vector<int> es; std::set<uint> want; for (uint e = 0; e < nE; ++e) { vector<uint> w{m.e[e].v0}; w.insert(w.end(), ep[e].begin(), ep[e].end()); w.push_back(m.e[e].v1); VP_CHECK(ms.IndPoint_IndEdge(e, true, C) == w, "IndPoint_IndEdge of edge %u", e); VP_CHECK(ms.IndPoint_IndEdge(e, false, C) == ep[e], "IndPoint_IndEdge of edge %u without ends", e); if (c.chance(1, 3)) { es.push_back((int) e); want.insert(w.begin(), w.end()); } }
  VP_CHECK(ms.IndPoint_IndEdge((uint) nE, true, C).empty(), "points of a missing edge"); auto g = ms.IndPoint_IndEdgeArray(es, C); VP_CHECK(std::set<uint>(g.begin(), g.end()) == want && g.size() == want.size(), "IndPoint_IndEdgeArray");
}
VP_PROP(weights, 1200, 12000, "deformation weights of the vertices and edges of meshed shapes: one at the own vertex, zero at the others and on other faces, sum to one over the face, an edge weighs the sum of its two ends, and straight faces reproduce positions; non-trivial: inner points") {
  double el = c.pick({0.2, 0.4, 1.0}); d::CCad2D C; MC m; bool curves = c.chance(1, 3); meshable(c, C, m, el, 2, curves, false, 0.08); d::CMesher_Cad2D ms; ms.edge_length = el; d::CMeshDynTri2D dm; ms.Meshing(dm, C);
  vector<double> xy; for (auto &p: dm.aVec2) { xy.push_back(p.x); xy.push_back(p.y); } size_t n = dm.aVec2.size(), nV = m.v.size(), nE = m.e.size(); if (ms.aFlgPnt.back() >= nV + nE) c.nontrivial(); bool lines = true; for (auto &e: m.e) lines &= e.type == 0; vector<int> pf(n, -1); for (uint i = 0; i < dm.aETri.size(); ++i) for (uint v: dm.aETri[i].v) pf[v] = (int) ms.aFlgTri[i];
  vector<vector<double>> W(nV); for (uint v = 0; v < nV; ++v) { SetCadMeshDeformationWeightVtx(W[v], v, C, ms, xy); VP_CHECK(W[v].size() == n, "size"); for (uint u = 0; u < nV; ++u) VP_CHECK(W[v][u] == (u == v ? 1.0 : 0.0), "weight of vertex %u at vertex %u is %g", v, u, W[v][u]); for (uint p = 0; p < n; ++p) if (pf[p] != pf[v]) VP_CHECK(W[v][p] == 0, "weight on another face"); }
  for (uint p = 0; p < n; ++p) { double s = 0; D2 x{0, 0}; for (uint v = 0; v < nV; ++v) { s += W[v][p]; x = x + W[v][p] * m.v[v]; } VP_CHECK(std::abs(s - 1) < 1e-6, "weights at point %u (flag %u) sum to %.12g", p, ms.aFlgPnt[p], s); if (lines) VP_CHECK(dist(x, q2(dm.aVec2[p])) < 3e-5, "weights at point %u (flag %u) reproduce (%g %g), not (%g %g)", p, ms.aFlgPnt[p], x[0], x[1], dm.aVec2[p].x, dm.aVec2[p].y); }
  for (uint e = 0; e < nE; ++e) { vector<double> w; SetCadMeshDeformationWeightEdge(w, e, C, ms, xy); VP_CHECK(w.size() == n, "size"); for (uint p = 0; p < n; ++p) VP_CHECK(std::abs(w[p] - W[m.e[e].v0][p] - W[m.e[e].v1][p]) < 1e-5, "edge %u at point %u (flag %u): %g, ends weigh %g + %g", e, p, ms.aFlgPnt[p], w[p], W[m.e[e].v0][p], W[m.e[e].v1][p]); }
  vector<double> z; SetCadMeshDeformationWeightVtx(z, (uint) nV, C, ms, xy); for (double x: z) VP_CHECK(x == 0, "weight of a missing vertex"); SetCadMeshDeformationWeightEdge(z, (uint) nE, C, ms, xy); for (double x: z) VP_CHECK(x == 0, "weight of a missing edge");
}
