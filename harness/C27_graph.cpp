// C27: distances over graphs and meshes, clustering, exponential maps, parallel loops
// SCALE: 10 200
#include "common.hpp"
#include <iostream>
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <climits>
#include <cmath>
#include <functional>
#include <future>
#include <queue>
#include <random>
#include <stdexcept>
#include <thread>
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/geo_tri.h"
#include "delfem2/mshmisc.h"
#include "delfem2/dijkstra.h"
#include "delfem2/clusterpoints.h"
#include "delfem2/msh_normal.h"
#include "delfem2/msh_center_of_gravity.h"
#include "delfem2/msh_unindexed.h"
#include "delfem2/expmap_geo3dijk.h"
#include "delfem2/thread.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string;
namespace {
typedef unsigned int U;
const double INF = 1e300;
D3 at(const vector<double> &x, size_t i) { return {x[3 * i], x[3 * i + 1], x[3 * i + 2]}; }
struct Quiet { std::ostringstream s; std::streambuf *o; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };
typedef vector<vector<U>> Adj;
// shortest distances by relaxation until nothing changes
vector<double> relax(const Adj &g, const vector<U> &from, const std::function<double(U, U)> &len) {
  vector<double> r(g.size(), INF); for (U s: from) r[s] = 0;
  for (bool ch = true; ch;) { ch = false; for (U i = 0; i < g.size(); ++i) if (r[i] < INF) for (U j: g[i]) { double q = r[i] + len(i, j); if (q < r[j]) { r[j] = q; ch = true; } } }
  return r; }
Adj graph(vp::Case &c, int n, bool connected) {
  std::set<std::pair<U, U>> e; auto add = [&](int a, int b) { if (a != b) e.insert({(U) std::min(a, b), (U) std::max(a, b)}); };
  if (connected) { int kind = c.range(0, 2); for (int i = 1; i < n; ++i) add(i, kind == 0 ? i - 1 : kind == 1 ? (int) c.below(i) : i / 2); }
  int ex = c.range(0, n); for (int i = 0; i < ex; ++i) add((int) c.below(n), (int) c.below(n));
  vector<U> p(n); for (int i = 0; i < n; ++i) p[i] = i; c.shuffle(p.begin(), p.end());
  Adj g(n); for (auto &q: e) { g[p[q.first]].push_back(p[q.second]); g[p[q.second]].push_back(p[q.first]); }
  for (auto &v: g) c.shuffle(v.begin(), v.end()); return g; }
void flatten(const Adj &g, vector<U> &ind, vector<U> &a) { ind.assign(1, 0); a.clear(); for (auto &v: g) { a.insert(a.end(), v.begin(), v.end()); ind.push_back((U) a.size()); } }
vector<U> table(vp::Case &c, const Adj &g, size_t deg) { vector<U> r; for (auto v: g) { v.resize(deg, UINT_MAX); c.shuffle(v.begin(), v.end()); r.insert(r.end(), v.begin(), v.end()); } return r; }
// triangles across the three edges
vector<U> tritri(const Mesh &m) {
  std::map<std::pair<U, U>, U> h; for (U t = 0; t < m.nt(); ++t) for (int k = 0; k < 3; ++k) h[{m.tri[3 * t + (k + 1) % 3], m.tri[3 * t + (k + 2) % 3]}] = t;
  vector<U> r(m.tri.size(), UINT_MAX); for (U t = 0; t < m.nt(); ++t) for (int k = 0; k < 3; ++k) { auto i = h.find({m.tri[3 * t + (k + 2) % 3], m.tri[3 * t + (k + 1) % 3]}); if (i != h.end()) r[3 * t + k] = i->second; } return r; }
Adj adjof(const vector<U> &t, size_t deg) { Adj g(t.size() / deg); for (size_t i = 0; i < t.size(); ++i) if (t[i] != UINT_MAX) g[i / deg].push_back(t[i]); return g; }
Adj edgesof(const Mesh &m) { vector<std::set<U>> s(m.nv()); for (U t = 0; t < m.nt(); ++t) for (int k = 0; k < 3; ++k) { U a = m.tri[3 * t + k], b = m.tri[3 * t + (k + 1) % 3]; s[a].insert(b); s[b].insert(a); } Adj g; for (auto &q: s) g.emplace_back(q.begin(), q.end()); return g; }
struct Visit { vector<U> seq; bool ok = true; const vector<U> *flag = nullptr; U f = 0;
  void add(U i, const vector<U> &o) { if (o[i] != seq.size()) ok = false; seq.push_back(i); }
  void AddElem(U i, vector<U> &o) { add(i, o); } void AddPoint(U i, vector<U> &o) { add(i, o); } bool IsIncludeElem(U i) { return !flag || (*flag)[i] == f; } };
// the order visits what can be reached, once each, never farther before nearer
void order(vp::Case &c, const char *what, const vector<U> &ord, const vector<double> &ref, double tol, const Visit *v) {
  VP_CHECK(ord.size() == ref.size(), "%s: order size", what); vector<U> inv(ref.size(), UINT_MAX); size_t n = 0;
  for (U i = 0; i < ref.size(); ++i) { VP_CHECK((ord[i] != UINT_MAX) == (ref[i] < INF), "%s: %u visited %u, distance %g", what, i, ord[i], ref[i]); if (ord[i] == UINT_MAX) continue; VP_CHECK(ord[i] < ref.size() && inv[ord[i]] == UINT_MAX, "%s: order %u of %u", what, ord[i], i); inv[ord[i]] = i; ++n; }
  for (size_t k = 0; k < n; ++k) { VP_CHECK(inv[k] != UINT_MAX, "%s: nothing visited at %zu", what, k); if (k) VP_CHECK(ref[inv[k - 1]] <= ref[inv[k]] + tol, "%s: %u at distance %g before %u at %g", what, inv[k - 1], ref[inv[k - 1]], inv[k], ref[inv[k]]); }
  if (v) { VP_CHECK(v->ok && v->seq.size() == n, "%s: %zu callbacks for %zu", what, v->seq.size(), n); for (size_t k = 0; k < n; ++k) VP_CHECK(v->seq[k] == inv[k], "%s: callback %zu", what, k); } }
bool same(const std::array<double, 2> &a, const std::array<double, 2> &b, double t) { return std::abs(a[0] - b[0]) < t && std::abs(a[1] - b[1]) < t; }
D3 turn(D3 a, D3 b, D3 v) { D3 w = cross(a, b); double co = dot(a, b); return co * v + cross(w, v) + (dot(w, v) / (1 + co)) * w; }
}
VP_PROP(distances, 12000, 60000, "Dijkstra over element adjacency, element centres, points and from patch boundaries against relaxation, unreachable parts included where allowed; callbacks in order; non-trivial: more than three nodes") {
  int n = c.range(1, 16); Adj g = graph(c, n, true); size_t deg = 1; for (auto &v: g) deg = std::max(deg, v.size()); auto t = table(c, g, deg); U k = (U) c.below(n); if (n > 3) c.nontrivial();
  { vector<U> di(c.below(3), 7), o(c.below(3), 9); d::DijkstraElem_MeshElemTopo(di, o, k, t, n); auto r = relax(g, {k}, [](U, U) { return 1.; }); for (int i = 0; i < n; ++i) VP_CHECK(di[i] == (U) r[i], "hops to %d: %u, should be %g", i, di[i], r[i]); order(c, "hops", o, r, 0, nullptr); }
  vector<double> x; double S = c.logreal(1e-3, 1e3); bool lat = c.chance(1, 3); for (int i = 0; i < n; ++i) { D3 p; for (auto &q: p) q = S * (lat ? c.range(-2, 2) : c.sym(2)); push(x, p); }
  { vector<U> ind, ps; flatten(g, ind, ps); vector<double> di; vector<U> o; Visit v; d::DijkstraPoint_MeshTri3D(di, o, v, k, x, ind, ps); auto r = relax(g, {k}, [&](U a, U b) { return dist(at(x, a), at(x, b)); }); for (int i = 0; i < n; ++i) VP_CHECK(std::abs(di[i] - r[i]) <= 1e-12 * S * n, "distance of point %d: %g, should be %g", i, di[i], r[i]); order(c, "points", o, r, 1e-12 * S * n, &v); }
  { int nn = c.range(1, 4); vector<U> el; for (int i = 0; i < n * nn; ++i) el.push_back((U) c.below(n)); Adj h = graph(c, n, c.flip()); size_t dg = 1; for (auto &v: h) dg = std::max(dg, v.size()); auto tt = table(c, h, dg); vector<U> fl(n); for (auto &f: fl) f = (U) c.below(4) ? 0 : 1;
    vector<D3> ce(n, D3{0, 0, 0}); for (int i = 0; i < n; ++i) for (int j = 0; j < nn; ++j) ce[i] = ce[i] + (1. / nn) * at(x, el[i * nn + j]);
    bool usef = c.flip(); Visit v; if (usef) { v.flag = &fl; v.f = fl[k]; } Adj hf = h; for (int i = 0; i < n; ++i) { vector<U> w; for (U j: h[i]) if (!usef || fl[j] == fl[k]) w.push_back(j); hf[i] = w; }
    vector<double> di; vector<U> o; d::DijkstraElem_MeshElemGeo3(di, o, v, k, el, n, x, tt); auto r = relax(hf, {k}, [&](U a, U b) { return dist(ce[a], ce[b]); }); for (int i = 0; i < n; ++i) if (r[i] < INF) VP_CHECK(std::abs(di[i] - r[i]) <= 1e-12 * S * n, "distance of element %d: %g, should be %g", i, di[i], r[i]); order(c, "elements", o, r, 1e-12 * S * n, &v);
    vector<U> src; for (int i = 0; i < n; ++i) if (fl[i] == fl[k]) { bool b = h[i].size() < dg; for (U j: h[i]) if (fl[j] != fl[k]) b = true; if (b) src.push_back(i); } Adj hb = h; for (int i = 0; i < n; ++i) { vector<U> w; if (fl[i] == fl[k]) for (U j: h[i]) if (fl[j] == fl[k]) w.push_back(j); hb[i] = w; }
    Visit v2; vector<U> db, ob; { Quiet q; d::Dijkstra_FillFromBoundary(ob, db, v2, fl[k], fl, tt); } auto rb = relax(hb, src, [](U, U) { return 1.; }); for (int i = 0; i < n; ++i) VP_CHECK(db[i] == (rb[i] < INF ? (U) rb[i] : UINT_MAX), "depth of element %d: %u, should be %g", i, db[i], rb[i]); order(c, "fill", ob, rb, 0, &v2); }
}
VP_PROP(clusters, 12000, 60000, "clusters of a connected mesh are non-empty, connected and as many as asked; binary clustering of points is a maximal pairing of neighbours with summed areas and averaged positions and normals, equal areas included; the coarse adjacency is the quotient; repeated to a fixed point; non-trivial: more than three nodes") {
  int n = c.range(1, 20); Adj g = graph(c, n, true); size_t deg = 1; for (auto &v: g) deg = std::max(deg, v.size()); if (n > 3) c.nontrivial();
  { auto t = table(c, g, deg); U nc = (U) c.range(1, n); vector<U> f; d::MeshClustering(f, nc, t, n); VP_CHECK(f.size() == (size_t) n, "clustering size"); vector<vector<U>> of(nc); for (int i = 0; i < n; ++i) { VP_CHECK(f[i] < nc, "cluster %u of %u", f[i], nc); of[f[i]].push_back(i); }
    for (U k = 0; k < nc; ++k) { VP_CHECK(!of[k].empty(), "cluster %u of %u is empty", k, nc); std::set<U> s{of[k][0]}; vector<U> st{of[k][0]}; while (!st.empty()) { U i = st.back(); st.pop_back(); for (U j: g[i]) if (f[j] == k && s.insert(j).second) st.push_back(j); } VP_CHECK(s.size() == of[k].size(), "cluster %u is not connected", k); } }
  Adj h = c.flip() ? g : graph(c, n, false); vector<double> x, a, nr; int ka = c.range(0, 2); for (int i = 0; i < n; ++i) { push(x, rnd3(c, 2)); a.push_back(ka == 0 ? 1. : ka == 1 ? (double) c.range(1, 3) : c.logreal(1e-2, 1e2)); D3 u = D3{c.sym(0.5), c.sym(0.5), 1}; push(nr, unit(u)); }
  for (int lv = 0; lv < 6; ++lv) {
    size_t n0 = x.size() / 3; vector<U> ind, ps; flatten(h, ind, ps); vector<double> x1{5}, a1{7}, nr1{9}; vector<U> map{3}; d::BinaryClustering_Points3d(x1, a1, nr1, map, x, a, nr, ind, ps);
    size_t n1 = a1.size(); VP_CHECK(x1.size() == 3 * n1 && nr1.size() == 3 * n1 && map.size() == n0, "binary clustering sizes"); vector<U> m2(n0, 12345); U n2 = d::BinaryClustering_Points2d(m2.data(), (U) n0, a.data(), ind.data(), ps.data());
    for (int w = 0; w < 2; ++w) { auto &mp = w ? m2 : map; size_t nn = w ? n2 : n1; vector<vector<U>> of(nn); for (U i = 0; i < n0; ++i) { VP_CHECK(mp[i] < nn, "point %u in cluster %u of %zu", i, mp[i], nn); of[mp[i]].push_back(i); }
      for (U k = 0; k < nn; ++k) { VP_CHECK(of[k].size() == 1 || of[k].size() == 2, "cluster %u has %zu points", k, of[k].size()); if (of[k].size() == 2) VP_CHECK(std::count(h[of[k][0]].begin(), h[of[k][0]].end(), of[k][1]) == 1, "cluster %u joins points that are not neighbours", k); }
      for (U i = 0; i < n0; ++i) if (of[mp[i]].size() == 1) for (U j: h[i]) VP_CHECK(of[mp[j]].size() == 2, "neighbours %u and %u are both left alone", i, j);
      if (!w) for (U k = 0; k < nn; ++k) { double s = 0; D3 p{0, 0, 0}, q{0, 0, 0}; for (U i: of[k]) { s += a[i]; p = p + a[i] * at(x, i); q = q + a[i] * at(nr, i); } VP_CHECK(std::abs(s - a1[k]) < 1e-10 * s && dist(at(x1, k), (1 / s) * p) < 1e-10 && dist(at(nr1, k), unit(q)) < 1e-10, "cluster %u: area %g, should be %g", k, a1[k], s); } }
    vector<U> i1{4}, p1{4}; d::Clustering_Psup(i1, p1, n1, n0, map.data(), ind.data(), ps.data()); vector<std::set<U>> q(n1); for (U i = 0; i < n0; ++i) for (U j: h[i]) if (map[i] != map[j]) q[map[i]].insert(map[j]);
    VP_CHECK(i1.size() == n1 + 1 && i1[0] == 0 && i1[n1] == p1.size(), "coarse adjacency sizes"); Adj h1(n1); for (size_t i = 0; i < n1; ++i) { VP_CHECK(i1[i] <= i1[i + 1], "coarse adjacency index"); h1[i].assign(p1.begin() + i1[i], p1.begin() + i1[i + 1]); std::set<U> s(h1[i].begin(), h1[i].end()); VP_CHECK(s.size() == h1[i].size() && s == q[i], "coarse neighbours of %zu: %zu, should be %zu", i, h1[i].size(), q[i].size()); }
    bool done = n1 == n0; h = h1; x = x1; a = a1; nr = nr1; if (done) break; }
}
VP_PROP(expmap, 8000, 40000, "exponential maps over points and over triangles (also of one patch) against the weighted parallel transport formula in the order of visit, exact on planar meshes; output vectors reused; non-trivial: curved mesh") {
  Mesh m; bool flat = c.chance(1, 3); auto R = rotation(c); double S = c.logreal(1e-2, 1e2);
  if (flat || c.flip()) { m = gridmesh(c.range(1, 5), c.range(1, 5)); for (size_t i = 0; i < m.nv(); ++i) { m.xyz[3 * i] += c.sym(0.2); m.xyz[3 * i + 1] += c.sym(0.2); m.xyz[3 * i + 2] = flat ? 0 : c.sym(0.3); } } else m = star(c, 3, 0.1);
  for (size_t i = 0; i < m.nv(); ++i) { D3 p = S * mul(R, at(m.xyz, i)); for (int k = 0; k < 3; ++k) m.xyz[3 * i + k] = p[k]; } if (!flat) c.nontrivial();
  size_t nv = m.nv(), nt = m.nt(); auto nrmt = [&](U t) { D3 A = at(m.xyz, m.tri[3 * t]); return unit(cross(at(m.xyz, m.tri[3 * t + 1]) - A, at(m.xyz, m.tri[3 * t + 2]) - A)); };
  vector<D3> nt_(nt), ct(nt), nv_(nv, D3{0, 0, 0}); for (U t = 0; t < nt; ++t) { nt_[t] = nrmt(t); ct[t] = (1. / 3) * (at(m.xyz, m.tri[3 * t]) + at(m.xyz, m.tri[3 * t + 1]) + at(m.xyz, m.tri[3 * t + 2])); for (int k = 0; k < 3; ++k) nv_[m.tri[3 * t + k]] = nv_[m.tri[3 * t + k]] + nt_[t]; } for (auto &q: nv_) q = unit(q);
  // gathers over the neighbours visited before
  auto reference = [&](const vector<U> &ord, const Adj &g, const vector<D3> &P, const vector<D3> &N, D3 ax, const std::function<bool(U)> &in, vector<std::array<double, 2>> &tex, vector<D3> &X) {
    size_t n = P.size(); tex.assign(n, {0, 0}); X.assign(n, D3{0, 0, 0}); vector<U> inv; for (size_t k = 0; k < n; ++k) for (U i = 0; i < n; ++i) if (ord[i] == k) inv.push_back(i); bool good = true;
    for (size_t k = 0; k < inv.size(); ++k) { U i = inv[k]; if (!k) { X[i] = ax; continue; } double w = 0; for (U j: g[i]) if (in(j) && ord[j] < k) { D3 dd = P[i] - P[j]; double l = norm(dd), q = 1 / l; D3 pr = dd - dot(dd, N[j]) * N[j]; if (norm(pr) < 0.05 * l || dot(N[i], N[j]) < -0.9) good = false; D3 e = l * unit(pr), y = cross(N[j], X[j]); X[i] = X[i] + q * turn(N[j], N[i], X[j]); tex[i][0] += q * (tex[j][0] + dot(e, X[j])); tex[i][1] += q * (tex[j][1] + dot(e, y)); w += q; } if (norm(X[i]) < 0.05 * w) good = false; X[i] = unit(X[i]); tex[i][0] /= w; tex[i][1] /= w; }
    return good; };
  vector<std::array<double, 2>> rt; vector<D3> RX; vector<double> tex(c.below(2) ? 2 * (nv + nt) : 0, 3.5); double tol = 1e-7 * S * 10;
  { Adj g = edgesof(m); vector<U> ind, ps; flatten(g, ind, ps); U k = (U) c.below(nv); vector<double> nn; for (auto &q: nv_) push(nn, q); vector<D3> P(nv); for (size_t i = 0; i < nv; ++i) P[i] = at(m.xyz, i);
    d::CExpMap_DijkstraPoint e(k, m.xyz, nn, m.tri, tex, ind, ps); vector<double> di; vector<U> o; d::DijkstraPoint_MeshTri3D(di, o, e, k, m.xyz, ind, ps); VP_CHECK(tex.size() == 2 * nv, "texture size"); D3 ax{e.aAxisX[k].x, e.aAxisX[k].y, e.aAxisX[k].z}; VP_CHECK(std::abs(norm(ax) - 1) < 1e-9 && std::abs(dot(ax, nv_[k])) < 1e-9, "axis at the kernel");
    if (reference(o, g, P, nv_, ax, [](U) { return true; }, rt, RX)) for (U i = 0; i < nv; ++i) { std::array<double, 2> t{tex[2 * i], tex[2 * i + 1]}; VP_CHECK(same(t, rt[i], tol), "point %u: texture (%g %g), should be (%g %g)", i, t[0], t[1], rt[i][0], rt[i][1]); D3 xx{e.aAxisX[i].x, e.aAxisX[i].y, e.aAxisX[i].z}; VP_CHECK(dist(xx, RX[i]) < 1e-7, "point %u: axis", i); if (flat) { D3 q = P[i] - P[k]; VP_CHECK(std::abs(t[0] - dot(q, ax)) < tol && std::abs(t[1] - dot(q, cross(nv_[k], ax))) < tol, "planar mesh, point %u: texture (%g %g)", i, t[0], t[1]); } } else c.label("steep"); }
  { auto tt = tritri(m); Adj g = adjof(tt, 3); U k = (U) c.below(nt); vector<U> fl(nt, 0); bool usef = c.flip(); if (usef) for (auto &f: fl) f = (U) c.below(4) ? 0 : 1; U f0 = fl[k]; vector<double> tx(c.below(2) ? 2 * nt : 0, -2.5), di; vector<U> o; D3 ax; vector<D3> AX(nt);
    auto run = [&](auto &e) { d::DijkstraElem_MeshElemGeo3(di, o, e, k, m.tri, nt, m.xyz, tt); for (size_t i = 0; i < nt; ++i) AX[i] = D3{e.aAxisX[i].x, e.aAxisX[i].y, e.aAxisX[i].z}; ax = AX[k]; };
    if (usef) { d::CExpMap_DijkstraElemFlag e(tx, k, m.xyz, m.tri, tt, fl); run(e); } else { d::CExpMap_DijkstraElem e(tx, k, m.xyz, m.tri, tt); run(e); }
    auto check = [&](U ker) { if (!reference(o, g, ct, nt_, ax, [&](U j) { return fl[j] == f0; }, rt, RX)) { c.label("steep"); return false; } for (U i = 0; i < nt; ++i) if (o[i] != UINT_MAX) { std::array<double, 2> t{tx[2 * i], tx[2 * i + 1]}; VP_CHECK(same(t, rt[i], tol), "triangle %u: texture (%g %g), should be (%g %g)", i, t[0], t[1], rt[i][0], rt[i][1]); VP_CHECK(dist(AX[i], RX[i]) < 1e-7, "triangle %u: axis", i); if (flat) { D3 q = ct[i] - ct[ker]; VP_CHECK(std::abs(t[0] - dot(q, ax)) < tol && std::abs(t[1] - dot(q, cross(nt_[ker], ax))) < tol, "planar mesh, triangle %u", i); } } return true; };
    bool good = check(k);
    if (good && (usef || flat)) { // patch with a boundary: pattern of the patch and texture of its points
      U ker = UINT_MAX; d::CVec3d L[4]; vector<double> tp; vector<U> ei(nv + 1, 0), es; for (U i = 0; i < nv; ++i) { for (U t = 0; t < nt; ++t) for (int q = 0; q < 3; ++q) if (m.tri[3 * t + q] == i) es.push_back(t); ei[i + 1] = (U) es.size(); }
      bool other = flat; for (U t = 0; t < nt; ++t) if (fl[t] != f0) other = true; vector<U> db, ob; Visit v; if (other) { { Quiet q; d::Dijkstra_FillFromBoundary(ob, db, v, f0, fl, tt); } U mx = 0; for (U t = 0; t < nt; ++t) if (db[t] != UINT_MAX) mx = std::max(mx, db[t]);
        { Quiet q; d::FlatteringPattern(ker, L, tp, m.xyz, m.tri, tt, f0, fl, ei, es); } VP_CHECK(ker < nt && fl[ker] == f0 && db[ker] == mx, "pattern: kernel %u at depth %u, should be %u", ker, ker < nt ? db[ker] : 0, mx); D3 l[4]; for (int q = 0; q < 4; ++q) l[q] = D3{L[q].x, L[q].y, L[q].z}; VP_CHECK(dist(l[2], nt_[ker]) < 1e-9 && dist(cross(l[2], l[0]), l[1]) < 1e-9 && dist(l[3], ct[ker]) < 1e-9 * S * 10, "pattern: frame");
        d::CExpMap_DijkstraElemFlag e(tx, ker, m.xyz, m.tri, tt, fl); k = ker; run(e); if (check(ker)) for (U i = 0; i < nv; ++i) { double w = 0, a = 0, b = 0; for (U q = ei[i]; q < ei[i + 1]; ++q) if (fl[es[q]] == f0 && o[es[q]] != UINT_MAX) { double l1 = 1 / dist(at(m.xyz, i), ct[es[q]]); w += l1; a += l1 * tx[2 * es[q]]; b += l1 * tx[2 * es[q] + 1]; } bool reach = w > 0; for (U q = ei[i]; q < ei[i + 1]; ++q) if (fl[es[q]] == f0 && o[es[q]] == UINT_MAX) reach = false; if (reach) VP_CHECK(std::abs(tp[2 * i] - a / w) < tol && std::abs(tp[2 * i + 1] - b / w) < tol, "pattern: point %u (%g %g), should be (%g %g)", i, tp[2 * i], tp[2 * i + 1], a / w, b / w); } } } }
}
VP_PROP(parallel, 600, 3000, "parallel loops over one and two indices of several types call every index exactly once for any number of threads, all calls are over on return, an exception reaches the caller and no index is called twice; non-trivial: more than one index") {
  auto one = [&](auto zero) { typedef decltype(zero) T; int n = c.pick({0, 1, 2, c.range(3, 300)}); unsigned nt = (unsigned) c.pick({0, 1, 2, 3, c.range(1, 12)}); if (n > 1) c.nontrivial();
    vector<std::atomic<int>> cnt(n + 1); for (auto &q: cnt) q = 0; std::atomic<bool> over(false), late(false), out(false); bool slow = c.chance(1, 4);
    auto f = [&](T i) { if (over) late = true; if (!((long long) i >= 0 && (long long) i < n)) { out = true; return; } if (slow && i % 3 == 0) std::this_thread::yield(); ++cnt[i]; };
    if (nt) d::parallel_for((T) n, f, nt); else d::parallel_for((T) n, f); over = true; VP_CHECK(!out, "index outside the range"); for (int i = 0; i < n; ++i) VP_CHECK(cnt[i] == 1, "index %d of %d called %d times with %u threads", i, n, (int) cnt[i], nt);
    int n1 = c.pick({0, 1, c.range(2, 20)}), n2 = c.pick({0, 1, c.range(2, 20)}); vector<std::atomic<int>> c2(n1 * n2 + 1); for (auto &q: c2) q = 0; std::atomic<bool> out2(false); auto g = [&](T i, T j) { if (i < (T) n1 && j < (T) n2 && !(i < 0) && !(j < 0)) ++c2[(int) i * n2 + (int) j]; else out2 = true; }; d::parallel_for((T) n1, (T) n2, g, nt); VP_CHECK(!out2, "indices outside the range"); for (int i = 0; i < n1 * n2; ++i) VP_CHECK(c2[i] == 1, "pair %d of %d x %d called %d times", i, n1, n2, (int) c2[i]);
    if (n > 1) { int bad = (int) c.below(n); for (auto &q: cnt) q = 0; over = false; int got = 0; auto h = [&](T i) { if (over) late = true; ++cnt[i]; if ((int) i == bad) throw std::runtime_error("x"); if (slow) std::this_thread::yield(); }; try { d::parallel_for((T) n, h, nt); } catch (std::runtime_error &) { got = 1; } over = true; VP_CHECK(got == 1, "the exception did not reach the caller"); for (int i = 0; i < n; ++i) VP_CHECK(cnt[i] <= 1, "index %d called twice", i); VP_CHECK(cnt[bad] == 1, "failing index"); }
    if (n1 > 0 && n2 > 1) { int bad = (int) c.below(n2); int got = 0; try { d::parallel_for((T) n1, (T) n2, [&](T, T j) { if ((int) j == bad) throw std::runtime_error("y"); }, nt); } catch (std::runtime_error &) { got = 1; } VP_CHECK(got == 1, "the exception did not reach the caller (two indices)"); }
    std::this_thread::yield(); VP_CHECK(!late, "a call after the return"); };
  int k = c.range(0, 3); if (k == 0) one(0); else if (k == 1) one(0u); else if (k == 2) one((size_t) 0); else one((short) 0);
}
