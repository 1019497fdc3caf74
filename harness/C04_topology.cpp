// SCALE: 1 2
#include "common.hpp"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/msh_topology_mix.h"
#include "delfem2/jagarray.h"
#include "delfem2/mshelm.h"
using namespace ref;
namespace d = delfem2;
using V = vector<uint>;
static array<uint, 2> k2(uint a, uint b) { return {a, b}; }
static array<uint, 2> ks(uint a, uint b) { return {std::min(a, b), std::max(a, b)}; }
// faces and edges of every element type, written down independently: node lists (binary order for VOX)
static const vector<vector<vector<int>>> FACES = {
  {{1, 2}, {2, 0}, {0, 1}}, {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}},
  {{0, 4, 7, 3}, {1, 2, 6, 5}, {0, 1, 5, 4}, {3, 7, 6, 2}, {0, 3, 2, 1}, {4, 5, 6, 7}},
  {{0, 3, 2, 1}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}, {{0, 2, 5, 3}, {1, 0, 3, 4}, {2, 1, 4, 5}, {0, 1, 2}, {3, 5, 4}},
  {{0, 4, 6, 2}, {1, 3, 7, 5}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 2, 3, 1}, {4, 5, 7, 6}}, {{0}, {1}}};
static const vector<vector<array<int, 2>>> EDGES = {{{0, 1}, {1, 2}, {2, 0}}, {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}},
  {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}}};
static const int NN[8] = {3, 4, 4, 8, 5, 6, 8, 2};
struct Mix { V ind{0}, el; vector<d::MESHELEM_TYPE> type; size_t nv; size_t n() const { return type.size(); } };
static void add(Mix &m, int t, V v) { m.el.insert(m.el.end(), v.begin(), v.end()); m.ind.push_back((uint) m.el.size()); m.type.push_back((d::MESHELEM_TYPE) t); }
// cells of a structured grid, some dropped, each split into elements of the wanted types; labels permuted, unused points kept
static Mix grid(vp::Case &c, int uniform) {  // uniform: element type, or -1 for 3D mix, -2 for 2D mix
  Mix m; int n[3] = {c.range(1, 3), c.range(1, 3), c.range(1, 2)}; bool flat = uniform == 0 || uniform == 2 || uniform == -2 || uniform == 7; if (flat) { n[0] = c.range(1, 4); n[2] = 0; }
  if (uniform == 7) n[1] = 0;
  auto id = [&](int i, int j, int k) { return (uint) (i + (n[0] + 1) * (j + (n[1] + 1) * k)); };
  m.nv = (n[0] + 1) * (n[1] + 1) * (n[2] + 1); unsigned keep = c.range(1, 4);
  for (int k = 0; k < std::max(1, n[2]); ++k) for (int j = 0; j < std::max(1, n[1]); ++j) for (int i = 0; i < n[0]; ++i) {
    if (keep == 1 && c.flip()) continue;
    uint v[8];
    if (uniform == 7) { add(m, 7, c.flip() ? V{id(i, 0, 0), id(i + 1, 0, 0)} : V{id(i + 1, 0, 0), id(i, 0, 0)}); continue; }
    if (flat) {
      uint a = id(i, j, 0), b = id(i + 1, j, 0), e = id(i + 1, j + 1, 0), f = id(i, j + 1, 0); bool tri = uniform == 0 || (uniform == -2 && c.flip());
      if (!tri) { V q{a, b, e, f}; std::rotate(q.begin(), q.begin() + c.below(4), q.end()); add(m, 2, q); }
      else if (c.flip()) { add(m, 0, {a, b, e}); add(m, 0, {e, f, a}); }
      else { add(m, 0, {a, b, f}); if (keep != 2 || c.flip()) add(m, 0, {b, e, f}); }
      continue;
    }
    for (int z = 0; z < 8; ++z) v[z] = id(i + (z & 1), j + (z >> 1 & 1), k + (z >> 2));
    uint h[8] = {v[0], v[1], v[3], v[2], v[4], v[5], v[7], v[6]};
    int t = uniform >= 0 ? uniform : c.pick({1, 3, 4, 5, 6});
    if (t == 3) add(m, 3, V(h, h + 8));
    if (t == 6) add(m, 6, V(v, v + 8));
    if (t == 5) { add(m, 5, {h[0], h[1], h[2], h[4], h[5], h[6]}); add(m, 5, {h[0], h[2], h[3], h[4], h[6], h[7]}); }
    if (t == 4) { uint g = (uint) m.nv++; for (auto &f: FACES[3]) add(m, 4, {h[f[0]], h[f[1]], h[f[2]], h[f[3]], g}); }
    if (t == 1) { int p[3] = {0, 1, 2}; do { uint s = 0, q[4] = {v[0], 0, 0, 0}; for (int z = 0; z < 3; ++z) { s |= 1u << p[z]; q[z + 1] = v[s]; } add(m, 1, V(q, q + 4)); } while (std::next_permutation(p, p + 3)); }
  }
  m.nv += c.range(0, 2); V p(m.nv); for (uint i = 0; i < p.size(); ++i) p[i] = i; if (c.flip()) c.shuffle(p.begin(), p.end()); for (auto &v: m.el) v = p[v];
  return m;
}
static V sorted(V v) { std::sort(v.begin(), v.end()); return v; }
static V face(const Mix &m, size_t e, size_t f) { V r; for (int i: FACES[m.type[e]][f]) r.push_back(m.el[m.ind[e] + i]); return r; }
static std::map<V, vector<array<uint, 2>>> facemap(const Mix &m) { std::map<V, vector<array<uint, 2>>> r; for (uint e = 0; e < m.n(); ++e) for (uint f = 0; f < FACES[m.type[e]].size(); ++f) r[sorted(face(m, e, f))].push_back({e, f}); return r; }
static V groups(const Mix &m) { // connected across faces, by union-find
  V g(m.n()); for (uint i = 0; i < g.size(); ++i) g[i] = i; std::function<uint(uint)> F = [&](uint i) { return g[i] == i ? i : g[i] = F(g[i]); };
  for (auto &kv: facemap(m)) for (auto &a: kv.second) g[F(a[0])] = F(kv.second[0][0]);
  for (uint i = 0; i < g.size(); ++i) g[i] = F(i); return g;
}
static void check_elsup(vp::Case &c, const Mix &m, const V &ind, const V &arr) {
  VP_CHECK(ind.size() == m.nv + 1 && ind[0] == 0 && ind.back() == arr.size() && arr.size() == m.el.size(), "sizes %zu %zu", ind.size(), arr.size());
  vector<V> R(m.nv); for (uint e = 0; e < m.n(); ++e) for (uint i = m.ind[e]; i < m.ind[e + 1]; ++i) R[m.el[i]].push_back(e);
  for (uint v = 0; v < m.nv; ++v) { VP_CHECK(ind[v] <= ind[v + 1] && ind[v + 1] <= arr.size(), "index order at %u", v); VP_CHECK(sorted(V(arr.begin() + ind[v], arr.begin() + ind[v + 1])) == sorted(R[v]), "elements around point %u", v); }
}
static void check_rows(vp::Case &c, const char *what, const vector<std::set<uint>> &R, const V &ind, const V &arr) {
  VP_CHECK(ind.size() == R.size() + 1 && ind[0] == 0 && ind.back() == arr.size(), "%s: sizes %zu %zu %zu", what, ind.size(), R.size(), arr.size());
  for (uint v = 0; v < R.size(); ++v) { VP_CHECK(ind[v] <= ind[v + 1] && ind[v + 1] <= arr.size(), "%s index order at %u", what, v); VP_CHECK(sorted(V(arr.begin() + ind[v], arr.begin() + ind[v + 1])) == V(R[v].begin(), R[v].end()), "%s: row %u", what, v); }
}
VP_PROP(uniform, 20000, 400000, "random sub-meshes of structured grids of one element type (all eight), relabelled: elements around point, points around point, extended and diagonal patterns, sorting, edges, face neighbours and connected groups vs definitions by sets; non-trivial: two elements share a face") {
  int t = c.range(0, 7); Mix m = grid(c, t); c.assume(m.n() > 0); c.label("type %d", t); int nn = NN[t];
  V ei{7, 7}, es{3}; d::JArray_ElSuP_MeshElem(ei, es, m.el.data(), m.n(), nn, m.nv); check_elsup(c, m, ei, es);
  if (t == 0) { V a, b; d::JArray_ElSuP_MeshTri(a, b, m.el, m.nv); VP_CHECK(a == ei && b == es, "MeshTri variant"); }
  vector<std::set<uint>> P(m.nv); for (uint e = 0; e < m.n(); ++e) for (int i = 0; i < nn; ++i) for (int j = 0; j < nn; ++j) if (i != j) P[m.el[e * nn + i]].insert(m.el[e * nn + j]);
  V pi{1}, ps{5}; d::JArray_PSuP_MeshElem(pi, ps, m.el.data(), m.n(), nn, m.nv); check_rows(c, "points around point", P, pi, ps);
  { V a, b; d::JArrayPointSurPoint_MeshOneRingNeighborhood(a, b, m.el.data(), ei, es, nn, m.nv); check_rows(c, "one ring", P, a, b); }
  { vector<std::set<uint>> D = P; for (uint v = 0; v < m.nv; ++v) D[v].insert(v); V a{9, 9, 9}, b{1}; d::JArray_AddDiagonal(a, b, pi.data(), pi.size(), ps.data(), ps.size()); check_rows(c, "with diagonal", D, a, b); V a2, b2; d::JArray_AddDiagonal(a2, b2, a.data(), a.size(), b.data(), b.size()); check_rows(c, "diagonal twice", D, a2, b2); }
  { vector<std::set<uint>> X(m.nv); for (uint v = 0; v < m.nv; ++v) for (uint w: P[v]) for (uint x: P[w]) if (x != v) X[v].insert(x); V a, b; d::JArray_Extend(a, b, pi.data(), pi.size(), ps.data()); check_rows(c, "extended", X, a, b); }
  { vector<std::set<uint>> U(m.nv); for (uint v = 0; v < m.nv; ++v) for (uint w: P[v]) if (w > v) U[v].insert(w); V a, b{4}; if (c.flip()) a = {2, 3, 4, 5}; d::JArrayEdgeUnidir_PointSurPoint(a, b, pi, ps); check_rows(c, "one-directional", U, a, b); }
  { V s = ps, u = ps; d::JArray_Sort(pi, s); d::JArray_Sort(pi.data(), (uint) m.nv, u.data()); check_rows(c, "sorted", P, pi, s); VP_CHECK(s == u, "two sorts differ"); for (uint v = 0; v < m.nv; ++v) VP_CHECK(std::is_sorted(s.begin() + pi[v], s.begin() + pi[v + 1]), "row %u not sorted", v); }
  if (t < 4) {
    vector<std::set<uint>> B(m.nv), U(m.nv); size_t ne = 0; for (uint e = 0; e < m.n(); ++e) for (auto &x: EDGES[t]) { uint a = m.el[e * nn + x[0]], b = m.el[e * nn + x[1]]; B[a].insert(b); B[b].insert(a); U[std::min(a, b)].insert(std::max(a, b)); }
    for (auto &r: U) ne += r.size();
    for (int bi = 0; bi < 2; ++bi) { V a, b; d::JArrayEdge_MeshElem(a, b, m.el.data(), (d::MESHELEM_TYPE) t, ei, es, bi); check_rows(c, bi ? "edges both ways" : "edges", bi ? B : U, a, b); }
    V L; d::MeshLine_MeshElem(L, m.el.data(), m.n(), (d::MESHELEM_TYPE) t, m.nv); VP_CHECK(L.size() == 2 * ne, "%zu line ends for %zu edges", L.size(), ne);
    std::set<array<uint, 2>> S; for (size_t i = 0; i + 1 < L.size(); i += 2) { VP_CHECK(U[std::min(L[i], L[i + 1])].count(std::max(L[i], L[i + 1])), "line %u %u is no edge", L[i], L[i + 1]); VP_CHECK(S.insert(ks(L[i], L[i + 1])).second, "edge twice"); }
  }
  auto FM = facemap(m); size_t nf = FACES[t].size(); V ee{1, 2, 3}; d::ElSuEl_MeshElem(ee, m.el.data(), m.n(), (d::MESHELEM_TYPE) t, m.nv);
  VP_CHECK(ee.size() == nf * m.n(), "neighbour table size %zu", ee.size());
  for (uint e = 0; e < m.n(); ++e) for (uint f = 0; f < nf; ++f) {
    auto &S = FM[sorted(face(m, e, f))]; uint got = ee[e * nf + f];
    if (S.size() == 1) VP_CHECK(got == UINT_MAX, "element %u face %u has no neighbour, reported %u", e, f, got);
    else { c.nontrivial(); bool ok = false; for (auto &s: S) ok |= s[0] != e && s[0] == got; VP_CHECK(ok, "neighbour of element %u across face %u: %u", e, f, got); }
  }
  int ng = -1; V fl; d::MakeGroupElem(ng, fl, m.el, ee, (int) nf, nn); V G = groups(m); VP_CHECK(fl.size() == m.n() && ng == (int) std::set<uint>(G.begin(), G.end()).size(), "%d groups", ng);
  for (uint i = 0; i < m.n(); ++i) { VP_CHECK((int) fl[i] >= 0 && (int) fl[i] < ng, "group number"); for (uint j = 0; j < i; ++j) VP_CHECK((fl[i] == fl[j]) == (G[i] == G[j]), "groups of %u and %u", i, j); }
  uint ker = (uint) c.below(m.n()); V f2(m.n(), 0); d::MarkConnectedElements(f2, ker, 5, ee); for (uint i = 0; i < m.n(); ++i) VP_CHECK((f2[i] == 5) == (G[i] == G[ker]), "marking from %u at %u", ker, i);
}
VP_PROP(mixed, 15000, 300000, "mixed meshes of hexahedra, voxels, tetrahedra, wedges and pyramids, or of triangles and quads, built element by element: elements around point, face neighbours with face number, boundary elements (once each, oriented as the face), groups and clipping, conversion to triangles, flipping; non-trivial: two elements share a face") {
  bool flat = c.chance(1, 3); Mix m = grid(c, flat ? -2 : -1); c.assume(m.n() > 0);
  d::CElemMixed E; for (uint e = 0; e < m.n();) { uint k = e; vector<int> v; while (k < m.n() && m.type[k] == m.type[e] && (k == e || c.flip())) { for (uint i = m.ind[k]; i < m.ind[k + 1]; ++i) v.push_back(m.el[i]); ++k; } E.AddElement(m.type[e], v); e = k; }
  VP_CHECK(E.aElemInd == m.ind && E.aElem == m.el && E.aElemType == m.type && E.nElem() == (int) m.n(), "element list");
  V ei, es; E.MakeElemSurroundingPoint(ei, es, (int) m.nv); check_elsup(c, m, ei, es);
  vector<int> fi, fr, fi2, fr2; E.MakeSurroundingRelationship(fi, fr, ei, es); E.MakeSurroundingRelationship(fi2, fr2, (int) m.nv); VP_CHECK(fi == fi2 && fr == fr2, "two ways");
  auto FM = facemap(m); size_t nb = 0, pos = 0; VP_CHECK(fi.size() == m.n() + 1, "face index size");
  for (uint e = 0; e < m.n(); ++e) { VP_CHECK(fi[e] == (int) pos, "face index of %u", e); for (uint f = 0; f < FACES[m.type[e]].size(); ++f, ++pos) {
    auto &S = FM[sorted(face(m, e, f))]; int ge = fr[pos * 2], gf = fr[pos * 2 + 1];
    if (S.size() == 1) { ++nb; VP_CHECK(ge == -1, "element %u face %u reported neighbour %d", e, f, ge); }
    else { c.nontrivial(); bool ok = false; for (auto &s: S) ok |= s[0] != e && (int) s[0] == ge && (int) s[1] == gf; VP_CHECK(ok, "neighbour of %u across %u: %d face %d", e, f, ge, gf); }
  } }
  VP_CHECK(fr.size() == 2 * pos, "relation size");
  d::CElemMixed B, B2; E.makeBoundary(B, fi, fr); E.makeBoundary(B2, (int) m.nv); VP_CHECK(B.aElem == B2.aElem && B.aElemInd == B2.aElemInd && B.aElemType == B2.aElemType, "two ways");
  VP_CHECK(B.nElem() == (int) nb && B.aElemType.size() == nb, "%d boundary elements, %zu types, %zu free faces", B.nElem(), B.aElemType.size(), nb);
  std::set<V> seen;
  for (size_t b = 0; b < nb; ++b) {
    V q(B.aElem.begin() + B.aElemInd[b], B.aElem.begin() + B.aElemInd[b + 1]); auto it = FM.find(sorted(q)); VP_CHECK(it != FM.end() && it->second.size() == 1, "boundary element %zu is no free face", b); VP_CHECK(seen.insert(sorted(q)).second, "twice");
    VP_CHECK(NN[B.aElemType[b]] == (int) q.size(), "type of boundary element %zu", b);
    V w = face(m, it->second[0][0], it->second[0][1]); bool rot = false; for (size_t k = 0; k < w.size(); ++k) { rot |= w == q; std::rotate(w.begin(), w.begin() + 1, w.end()); } VP_CHECK(rot, "orientation of boundary element %zu", b);
  }
  int ng; vector<int> g, g2; E.MakeGroupElem(ng, g, fi, fr); int ng2; E.MakeGroupElem(ng2, g2, (int) m.nv); VP_CHECK(ng == ng2 && g == g2, "two ways");
  V G = groups(m); VP_CHECK(ng == (int) std::set<uint>(G.begin(), G.end()).size() && g.size() == m.n(), "%d groups", ng);
  for (uint i = 0; i < m.n(); ++i) { VP_CHECK(g[i] >= 0 && g[i] < ng, "group number"); for (uint j = 0; j < i; ++j) VP_CHECK((g[i] == g[j]) == (G[i] == G[j]), "groups of %u and %u", i, j); }
  int k = c.range(0, ng - 1); d::CElemMixed C; E.ClipGroup(C, k, g); Mix r; r.nv = m.nv; for (uint e = 0; e < m.n(); ++e) if (g[e] == k) add(r, m.type[e], V(m.el.begin() + m.ind[e], m.el.begin() + m.ind[e + 1]));
  VP_CHECK(C.aElem == r.el && C.aElemInd == r.ind && C.aElemType == r.type, "clipped group %d", k);
  if (flat) {
    V T; E.getTriElement(T); std::map<V, int> edges; size_t nt = 0; for (auto t: m.type) nt += t == d::MESHELEM_TRI ? 1 : 2; VP_CHECK(T.size() == 3 * nt, "triangles %zu", T.size() / 3);
    // the oriented boundary chain is the same
    std::map<array<uint, 2>, int> a, b; auto ac = [](std::map<array<uint, 2>, int> &q, uint x, uint y) { if (x < y) q[{x, y}]++; else q[{y, x}]--; };
    for (size_t i = 0; i < nt; ++i) for (int j = 0; j < 3; ++j) ac(a, T[i * 3 + j], T[i * 3 + (j + 1) % 3]);
    for (uint e = 0; e < m.n(); ++e) { uint n = m.ind[e + 1] - m.ind[e]; for (uint j = 0; j < n; ++j) ac(b, m.el[m.ind[e] + j], m.el[m.ind[e] + (j + 1) % n]); }
    for (auto &x: a) VP_CHECK(x.second == (b.count(x.first) ? b[x.first] : 0), "boundary of triangles"); for (auto &x: b) VP_CHECK(x.second == 0 || a.count(x.first), "boundary of elements");
    vector<int> F; E.FlipElement(F); VP_CHECK(F.size() == m.el.size(), "flip size");
    for (uint e = 0; e < m.n(); ++e) { V q(F.begin() + m.ind[e], F.begin() + m.ind[e + 1]), w(m.el.begin() + m.ind[e], m.el.begin() + m.ind[e + 1]); std::reverse(w.begin(), w.end()); bool rot = false; for (size_t z = 0; z < w.size(); ++z) { rot |= w == q; std::rotate(w.begin(), w.begin() + 1, w.end()); } VP_CHECK(rot, "element %u flipped", e); }
  }
}
VP_PROP(triangles, 20000, 400000, "oriented triangle meshes (grids, closed surfaces): quads around interior edges, index of the shared edge, ordered one-ring of closed meshes, flipping; quads to triangles; non-trivial: an interior edge exists") {
  Mesh m = anymesh(c, true); V q; d::ElemQuad_DihedralTri(q, m.tri.data(), m.nt(), m.nv());
  std::map<array<uint, 2>, uint> he; for (uint t = 0; t < m.nt(); ++t) for (int i = 0; i < 3; ++i) he[{m.tri[t * 3 + (i + 1) % 3], m.tri[t * 3 + (i + 2) % 3]}] = t * 3 + i;
  size_t ni = 0; bool closed = true; for (auto &h: he) { if (he.count({h.first[1], h.first[0]})) ++ni; else closed = false; }
  VP_CHECK(q.size() == 2 * ni, "%zu quads, %zu interior edges", q.size() / 4, ni / 2); c.nontrivial(ni > 0); std::set<array<uint, 2>> seen;
  for (size_t i = 0; i < q.size() / 4; ++i) { uint a = q[i * 4], b = q[i * 4 + 1], e = q[i * 4 + 2], f = q[i * 4 + 3]; VP_CHECK(he.count(k2(e, f)) && m.tri[he[k2(e, f)]] == a && he.count(k2(f, e)) && m.tri[he[k2(f, e)]] == b, "quad %zu: %u %u %u %u", i, a, b, e, f); VP_CHECK(seen.insert(ks(e, f)).second, "edge twice"); }
  V ee; d::ElSuEl_MeshElem(ee, m.tri.data(), m.nt(), d::MESHELEM_TRI, m.nv());
  for (uint t = 0; t < m.nt(); ++t) for (uint i = 0; i < 3; ++i) { uint u = ee[t * 3 + i]; if (u == UINT_MAX) continue; uint k = d::FindAdjEdgeIndex(t, i, u, m.tri.data()); VP_CHECK(k < 3 && ee[u * 3 + k] == t && m.tri[u * 3 + (k + 1) % 3] == m.tri[t * 3 + (i + 2) % 3] && m.tri[u * 3 + (k + 2) % 3] == m.tri[t * 3 + (i + 1) % 3], "shared edge of %u and %u", t, u); }
  V fl = m.tri; d::FlipElement_Tri(fl); for (uint t = 0; t < m.nt(); ++t) for (int i = 0; i < 3; ++i) { bool ok = false; for (int j = 0; j < 3; ++j) ok |= m.tri[t * 3 + j] == fl[t * 3 + (i + 1) % 3] && m.tri[t * 3 + (j + 1) % 3] == fl[t * 3 + i]; VP_CHECK(ok, "flipped triangle %u", t); }
  if (closed) {
    vector<int> tri(m.tri.begin(), m.tri.end()), rel(m.nt() * 6), ei, es, pi, ps; V a, b; d::JArray_ElSuP_MeshTri(a, b, m.tri, m.nv()); ei.assign(a.begin(), a.end()); es.assign(b.begin(), b.end());
    for (uint t = 0; t < m.nt(); ++t) for (uint i = 0; i < 3; ++i) { rel[t * 6 + i * 2] = (int) ee[t * 3 + i]; rel[t * 6 + i * 2 + 1] = (int) d::FindAdjEdgeIndex(t, i, ee[t * 3 + i], m.tri.data()); }
    d::makeOneRingNeighborhood_TriFan(pi, ps, tri, rel, ei, es, (int) m.nv());
    for (uint v = 0; v < m.nv(); ++v) { int n = pi[v + 1] - pi[v]; VP_CHECK(n == ei[v + 1] - ei[v], "ring of %u has %d", v, n); std::set<int> s(ps.begin() + pi[v], ps.begin() + pi[v + 1]); VP_CHECK((int) s.size() == n, "ring repeats"); bool f = true, g = true; for (int k = 0; k < n; ++k) { uint x = ps[pi[v] + k], y = ps[pi[v] + (k + 1) % n]; auto has = [&](uint p, uint q2) { auto it = he.find({p, q2}); return it != he.end() && m.tri[it->second] == v; }; f &= has(x, y); g &= has(y, x); } VP_CHECK(f || g, "ring of %u not in order", v); }
  }
  Mix z = grid(c, 2); V T; d::convert2Tri_Quad(T, z.el); VP_CHECK(T.size() == z.el.size() / 4 * 6, "triangles of quads");
  for (size_t i = 0; i < z.n(); ++i) { std::map<array<uint, 2>, int> e; for (int t = 0; t < 2; ++t) for (int j = 0; j < 3; ++j) { uint x = T[i * 6 + t * 3 + j], y = T[i * 6 + t * 3 + (j + 1) % 3]; if (e.count({y, x})) e.erase({y, x}); else e[{x, y}] = 1; } VP_CHECK(e.size() == 4, "outline of quad %zu", i); for (int j = 0; j < 4; ++j) VP_CHECK(e.count(k2(z.el[i * 4 + j], z.el[i * 4 + (j + 1) % 4])), "outline of quad %zu", i); }
}
VP_PROP(postex, 20000, 400000, "triangle meshes with separate position and texture indices (shared, split, tiled): every corner keeps its position and texture coordinate and each pair appears once; non-trivial: a position has several texture coordinates") {
  Mesh m = anymesh(c, false); int k = c.range(0, 2); V et(m.tri.size()); uint nt = k == 0 ? (uint) m.nv() : k == 1 ? (uint) c.range(3, 6) : (uint) m.tri.size();
  for (uint t = 0; t < m.nt(); ++t) { V pool; for (uint i = 0; i < nt; ++i) pool.push_back(i); if (k == 1) c.shuffle(pool.begin(), pool.end()); for (int i = 0; i < 3; ++i) et[t * 3 + i] = k == 0 ? m.tri[t * 3 + i] : k == 1 ? pool[i] : t * 3 + i; }
  if (k == 0 && c.flip()) for (auto &x: et) if (c.chance(1, 4)) { x += nt; } if (k == 0) nt *= 2;
  vector<double> tex; for (uint i = 0; i < nt * 2; ++i) tex.push_back(i); vector<double> ux, ut; V tu, ix, it; d::UnifySeparateIndexing_PosTex(ux, ut, tu, ix, it, m.xyz, tex, m.tri, et);
  std::set<array<uint, 2>> pr; for (size_t i = 0; i < et.size(); ++i) pr.insert({m.tri[i], et[i]}); { std::map<uint, int> n; for (auto &p: pr) if (++n[p[0]] > 1) c.nontrivial(); }
  VP_CHECK(tu.size() == et.size() && ix.size() == pr.size() && it.size() == pr.size() && ux.size() == 3 * pr.size() && ut.size() == 2 * pr.size(), "%zu unified vertices, %zu pairs", ix.size(), pr.size());
  for (size_t i = 0; i < et.size(); ++i) { VP_CHECK(tu[i] < ix.size() && ix[tu[i]] == m.tri[i] && it[tu[i]] == et[i], "corner %zu", i); }
  for (size_t i = 0; i < ix.size(); ++i) { for (int q = 0; q < 3; ++q) VP_CHECK(ux[i * 3 + q] == m.xyz[ix[i] * 3 + q], "position %zu", i); for (int q = 0; q < 2; ++q) VP_CHECK(ut[i * 2 + q] == tex[it[i] * 2 + q], "texture %zu", i); }
}
VP_PROP(hair, 5000, 100000, "strands of two or more points: point neighbourhood through triples of consecutive points; non-trivial: a strand has three points") {
  V root{0}; int n = c.range(1, 6); for (int i = 0; i < n; ++i) { int k = c.range(2, 7); c.nontrivial(k > 2); root.push_back(root.back() + k); }
  V a, b; d::JArray_PSuP_Hair(a, b, root); vector<std::set<uint>> R(root.back());
  for (int h = 0; h < n; ++h) for (uint i = root[h]; i + 2 < root[h + 1]; ++i) for (uint x = i; x < i + 3; ++x) for (uint y = i; y < i + 3; ++y) if (x != y) R[x].insert(y);
  check_rows(c, "hair", R, a, b);
}
