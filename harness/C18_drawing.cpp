// SCALE: 2 12
#include "common.hpp"
#include <iostream>
#include <fstream>
#include <sstream>
#include <set>
#include <filesystem>
#include <unistd.h>
#include "delfem2/cad2.h"
#include "delfem2/cad2_io_svg.h"
#include "delfem2/cad2_io_dxf.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string; namespace fs = std::filesystem; typedef d::CCad2D_EdgeGeo Edge;
struct Dir { fs::path p; Dir() { p = fs::temp_directory_path() / ("vp_drawing_" + std::to_string(getpid())); fs::create_directories(p); } ~Dir() { std::error_code e; fs::remove_all(p, e); } string at(const string &n) const { return (p / n).string(); } };
struct Quiet { std::streambuf *o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
struct M { int n; D2 p[4]; }; // a Bezier curve with n + 1 points
static D2 at(const M &m, double t) { D2 q[4]; for (int i = 0; i <= m.n; ++i) q[i] = m.p[i]; for (int k = m.n; k > 0; --k) for (int i = 0; i < k; ++i) q[i] = (1 - t) * q[i] + t * q[i + 1]; return q[0]; }
static M model(const Edge &e) { M m; D2 a{e.p0.x, e.p0.y}, b{e.p1.x, e.p1.y}; m.p[0] = a; if (e.type_edge == Edge::LINE) { m.n = 1; m.p[1] = b; } else if (e.type_edge == Edge::BEZIER_QUADRATIC) { m.n = 2; m.p[1] = a + D2{e.param[0], e.param[1]}; m.p[2] = b; } else { m.n = 3; m.p[1] = a + D2{e.param[0], e.param[1]}; m.p[2] = b + D2{e.param[2], e.param[3]}; m.p[3] = b; } return m; }
static double length(const M &m) { double l = 0; for (int i = 0; i < m.n; ++i) l += dist(m.p[i], m.p[i + 1]); return l; }
static void compare(vp::Case &c, const Edge &e, const M &w, double tol, size_t i, const char *what) { size_t np = e.type_edge == Edge::LINE ? 0 : e.type_edge == Edge::BEZIER_QUADRATIC ? 2 : 4; VP_CHECK(e.param.size() == np, "%s: edge %zu of type %d has %zu parameters", what, i, (int) e.type_edge, e.param.size()); M m = model(e); VP_CHECK(m.n == w.n, "%s: edge %zu has degree %d, not %d", what, i, m.n, w.n); for (int k = 0; k <= m.n; ++k) VP_CHECK(dist(m.p[k], w.p[k]) <= tol, "%s: point %d of edge %zu (degree %d) is (%.12g %.12g), not (%.12g %.12g)", what, k, i, m.n, m.p[k][0], m.p[k][1], w.p[k][0], w.p[k][1]); }
// ---- text of a path and the loop it describes
struct Writer { vp::Case &c; string o; bool tight = false; // tight: as few separators as the grammar allows
  void num(double v, bool first) { char b[64]; int k = c.range(0, 5); snprintf(b, 64, k == 0 ? "%.17e" : k == 1 ? "%.17g" : "%.12g", v); string s = b; if (k == 2 && std::fabs(v) < 1 && v != 0 && s.find('e') == string::npos) s.erase(s.find('0'), 1); if (k == 3 && v >= 0) s = "+" + s; bool sep = true; if (first) sep = c.chance(1, 3); else if (s[0] == '-' || s[0] == '+') sep = c.flip(); else if (s[0] == '.' && hasdot()) sep = c.flip(); if (sep) o += first ? string(c.range(1, 2), ' ') : c.pick({" ", ",", ", ", " , ", "  ", "\n", "\t", " \r\n"}); o += s; }
  bool hasdot() { size_t k = o.find_last_of(" ,\n\t"); string t = k == string::npos ? o : o.substr(k + 1); size_t j = t.find_last_of("-+MmLlHhVvCcSsQqZz"); if (j != string::npos) t = t.substr(j + 1); return t.find('.') != string::npos; }
  void cmd(char x) { if (!o.empty() && c.chance(1, 3)) o += c.pick({" ", "\n", "\t"}); o += x; } };
static double coord(vp::Case &c) { switch (c.range(0, 4)) { case 0: return c.range(-20, 20); case 1: return c.range(-2000, 2000) * 0.01; case 2: return c.range(-99, 99) * 0.01; case 3: return c.uni(-20, 20); default: return c.uni(-1, 1) * 1e-3; } }
static string path_text(vp::Case &c, vector<M> &L, int nmin) {
  Writer w{c}; D2 cur{0, 0}, ctl{0, 0}; bool cubic = false; bool rel0 = c.flip(); auto point = [&](bool rel, bool first) { D2 p{coord(c), coord(c)}; w.num(p[0], first); w.num(p[1], false); return rel ? cur + p : p; }; auto line = [&](D2 p) { M m; m.n = 1; m.p[0] = cur; m.p[1] = p; L.push_back(m); cur = p; cubic = false; };
  w.cmd(rel0 ? 'm' : 'M'); cur = point(false, true); D2 start = cur; if (c.chance(1, 4)) for (int k = c.range(1, 3); k > 0; --k) line(point(rel0, false));
  int n = c.range(1, 8); for (int i = 0; i < n || (int) L.size() < nmin; ++i) { bool rel = c.flip(); int rep = c.chance(1, 3) ? c.range(2, 4) : 1; switch (c.range(0, 5)) {
    case 0: w.cmd(rel ? 'l' : 'L'); for (int k = 0; k < rep; ++k) line(point(rel, k == 0)); break;
    case 1: w.cmd(rel ? 'h' : 'H'); for (int k = 0; k < rep; ++k) { double v = coord(c); w.num(v, k == 0); line(D2{rel ? cur[0] + v : v, cur[1]}); } break;
    case 2: w.cmd(rel ? 'v' : 'V'); for (int k = 0; k < rep; ++k) { double v = coord(c); w.num(v, k == 0); line(D2{cur[0], rel ? cur[1] + v : v}); } break;
    case 3: w.cmd(rel ? 'c' : 'C'); for (int k = 0; k < rep; ++k) { M m; m.n = 3; m.p[0] = cur; m.p[1] = point(rel, k == 0); m.p[2] = point(rel, false); m.p[3] = point(rel, false); L.push_back(m); cur = m.p[3]; ctl = m.p[2]; cubic = true; } break;
    case 4: w.cmd(rel ? 's' : 'S'); for (int k = 0; k < rep; ++k) { M m; m.n = 3; m.p[0] = cur; m.p[1] = cubic ? 2. * cur - ctl : cur; m.p[2] = point(rel, k == 0); m.p[3] = point(rel, false); L.push_back(m); cur = m.p[3]; ctl = m.p[2]; cubic = true; } break;
    default: w.cmd(rel ? 'q' : 'Q'); for (int k = 0; k < rep; ++k) { M m; m.n = 2; m.p[0] = cur; m.p[1] = point(rel, k == 0); m.p[2] = point(rel, false); L.push_back(m); cur = m.p[2]; cubic = false; } } }
  if (c.chance(1, 5)) { w.cmd('L'); double sx = start[0], sy = start[1]; char b[64]; snprintf(b, 64, "%.17g %.17g", sx, sy); w.o += string(" ") + b; line(start); }
  w.cmd(c.flip() ? 'z' : 'Z'); if (dist(cur, start) > 1e-9) line(start); return w.o; }
static string polygon_text(vp::Case &c, vector<M> &L) { Writer w{c}; int n = c.range(3, 9); vector<D2> P; for (int i = 0; i < n; ++i) P.push_back(D2{coord(c), coord(c)}); string o; for (int i = 0; i < n; ++i) { char b[99]; snprintf(b, 99, "%.17g%s%.17g", P[i][0], c.pick({",", " ", ", "}), P[i][1]); o += b; if (i + 1 < n || c.flip()) o += c.pick({" ", "\n", "\t", ", "}); M m; m.n = 1; m.p[0] = P[i]; m.p[1] = P[(i + 1) % n]; L.push_back(m); } return o; }
static string svg(vp::Case &c, vector<vector<M>> &W, int nmin, int nl0 = 0) { // paths come before polygons in W
  vector<vector<M>> A, B; string nl = c.flip() ? "\n" : c.flip() ? "\r\n" : ""; string t = "<?xml version=\"1.0\"?>" + nl + "<svg xmlns=\"http://www.w3.org/2000/svg\" viewBox=\"0 0 9 9\">" + nl + "<style>.a{fill:#fff;}</style>" + nl; int n = c.chance(2, 3) ? c.range(nl0, 2) : c.range(nl0, 4); for (int i = 0; i < n; ++i) { if (c.chance(1, 4)) t += string("<") + c.pick({"g id=\"a\"", "rect width=\"3\" height=\"4\"/", "pathology d=\"M0,0z\"/", "circle d=\"M 1\"/"}) + ">" + c.pick({"", "text", "path d=", "\n"}); bool poly = c.chance(1, 3); vector<M> L; string d = poly ? polygon_text(c, L) : path_text(c, L, nmin); (poly ? B : A).push_back(L); string at[3] = {string(poly ? "points" : "d") + "=\"" + d + "\"", "class=\"a b\"", "style=\"fill:none;a=b\""}; if (c.flip()) c.shuffle(at, at + 3); t += poly ? "<polygon" : "<path"; for (auto &s: at) t += string(c.pick({" ", "\n", "\r\n ", "\t", "  "})) + s; t += c.pick({"/>", " />", "></path>", "\n/>"}) + nl; }
  t += "</svg>" + nl; W = A; W.insert(W.end(), B.begin(), B.end()); return t; }
VP_PROP(svg_loops, 6000, 60000, "SVG files of paths (M L H V C S Q Z in both cases, repeated arguments, all separators and number styles) and polygons, attributes in any order and layout: every edge has the type and the points of a model interpreter; non-trivial: five edges or more") {
  Dir D; Quiet q; vector<vector<M>> W; string t = svg(c, W, 1); string f = D.at("a.svg"); { std::ofstream o(f, std::ios::binary); o << t; } vector<vector<Edge>> G(1); d::ReadSVG_LoopEdgeCCad2D(G, f); VP_CHECK(G.size() == W.size(), "%zu loops, not %zu: %s", G.size(), W.size(), t.c_str()); size_t n = 0; bool s = false; for (size_t i = 0; i < W.size(); ++i) { VP_CHECK(G[i].size() == W[i].size(), "loop %zu has %zu edges, not %zu: %s", i, G[i].size(), W[i].size(), t.c_str()); for (size_t k = 0; k < W[i].size(); ++k) { s |= W[i][k].n == 3; compare(c, G[i][k], W[i][k], 1e-9, k, t.c_str()); } n += W[i].size(); } if (n > 4) c.nontrivial(); c.label("%zu loops%s", W.size(), s ? ", cubic" : ""); }
static D2 tr(D2 p, double s) { return D2{s * p[0], -s * p[1]}; }
VP_PROP(svg_cad, 4000, 30000, "drawings read as CAD shapes: one face for each loop, mirrored in y and scaled, counter-clockwise, without edges of zero length, geometry unchanged; then written to DXF: the lines follow every edge of every face, curves included, and the header holds their extent; non-trivial: a face with a curve") {
  Dir D; Quiet q; vector<vector<M>> W; string t = svg(c, W, 3, c.chance(19, 20)); string f = D.at("a.svg"); { std::ofstream o(f, std::ios::binary); o << t; } c.note("%s", t.c_str()); double s = c.logreal(1e-1, 1e1); vector<vector<M>> X; double size = 0; bool curve = false;
  for (auto &L: W) { vector<M> R; double area = 0, len = 0; for (auto &m: L) { M r = m; for (int k = 0; k <= m.n; ++k) r.p[k] = tr(m.p[k], s); double l = length(r); size = std::max(size, l); len += l; if (l > 0) c.assume(l > 1e-7); int nd = 400; for (int i = 0; i < nd; ++i) { D2 a = at(r, double(i) / nd), b = at(r, double(i + 1) / nd); area += 0.5 * (a[0] * b[1] - a[1] * b[0]); } curve |= m.n > 1; if (l > 0) R.push_back(r); } c.assume(std::fabs(area) > 1e-4 * len * len); c.assume(R.size() > 2); if (area < 0) { std::reverse(R.begin(), R.end()); for (auto &m: R) std::reverse(m.p, m.p + m.n + 1); } X.push_back(R); }
  d::CCad2D cad; if (c.flip()) cad.AddPolygon({0, 0, 1, 0, 1, 1}); d::ReadSVG_Cad2D(cad, f, s); VP_CHECK(cad.topo.faces.size() == X.size(), "%zu faces, not %zu", cad.topo.faces.size(), X.size()); size_t ie = 0; double tol = 1e-9 * (1 + size); for (size_t i = 0; i < X.size(); ++i) { auto &il = cad.topo.faces[i].aIL; VP_CHECK(il.size() == 1, "loops of face %zu", i); auto &E = cad.topo.loops[il[0]].aIE; VP_CHECK(E.size() == X[i].size(), "face %zu has %zu edges, not %zu", i, E.size(), X[i].size()); for (size_t k = 0; k < E.size(); ++k) { VP_CHECK(E[k].second, "direction of edge %zu", k); compare(c, cad.aEdge[E[k].first], X[i][k], tol, k, "face"); uint v0 = cad.topo.edges[E[k].first].iv0, v1 = cad.topo.edges[E[k].first].iv1; VP_CHECK(dist(D2{cad.aVtx[v0].pos.x, cad.aVtx[v0].pos.y}, X[i][k].p[0]) < tol && dist(D2{cad.aVtx[v1].pos.x, cad.aVtx[v1].pos.y}, X[i][k].p[X[i][k].n]) < tol, "vertices of edge %zu", k); ++ie; } } VP_CHECK(cad.aEdge.size() == ie, "%zu edges", cad.aEdge.size()); if (curve) c.nontrivial(); c.label("%zu faces", X.size()); if (X.empty()) return;
  double sd = c.logreal(1e-1, 1e1); string g = D.at("a.dxf"); VP_CHECK(d::WriteCAD_DXF(g, cad, sd), "not written"); std::ifstream in(g); string code, val; vector<std::array<double, 4>> seg; string ent; D2 mn{0, 0}, mx{0, 0}; string var; while (std::getline(in, code) && std::getline(in, val)) { int k = atoi(code.c_str()); double v = atof(val.c_str()); if (k == 9) var = val; if (k == 0) { ent = val; if (val == "LINE") seg.push_back({NAN, NAN, NAN, NAN}); } if (ent == "LINE") { if (k == 10) seg.back()[0] = v; if (k == 20) seg.back()[1] = v; if (k == 11) seg.back()[2] = v; if (k == 21) seg.back()[3] = v; } else if (var == "$EXTMIN") { if (k == 10) mn[0] = v; if (k == 20) mn[1] = v; } else if (var == "$EXTMAX") { if (k == 10) mx[0] = v; if (k == 20) mx[1] = v; } } VP_CHECK(ent == "EOF", "the last entity is %s", ent.c_str());
  std::set<size_t> at0{0}; double eps = 2e-6; D2 lo{1e30, 1e30}, hi{-1e30, -1e30}; double slack = 0; for (size_t i = 0; i < X.size(); ++i) for (size_t k = 0; k < X[i].size(); ++k) { M m = X[i][k]; for (auto &p: m.p) p = sd * p; double l = length(m), lt = m.n == 1 ? eps : l / 40 + eps; slack = std::max(slack, lt); vector<D2> dense; for (int j = 0; j <= 200; ++j) { D2 p = at(m, j / 200.); dense.push_back(p); for (int a = 0; a < 2; ++a) { lo[a] = std::min(lo[a], p[a]); hi[a] = std::max(hi[a], p[a]); } }
    std::set<size_t> at1; string why = "no more lines"; for (size_t s: at0) { vector<D2> chain{m.p[0]}; for (size_t is = s; is < seg.size() && is < s + 500; ++is) { D2 a{seg[is][0], seg[is][1]}, b{seg[is][2], seg[is][3]}; if (!(dist(a, chain.back()) < eps)) { why = "line " + std::to_string(is) + " does not start at the end of the previous one"; break; } chain.push_back(b); double best = 1e30; for (auto &p: dense) best = std::min(best, dist(p, b)); if (m.n > 1 && best > l / 100 + eps) { why = "line " + std::to_string(is) + " ends " + std::to_string(best) + " away"; break; } if (dist(chain.back(), m.p[m.n]) > eps) { if (m.n == 1) { why = "line " + std::to_string(is) + " ends elsewhere"; break; } continue; }
      double worst = 0; for (auto &p: dense) { best = 1e30; for (size_t j = 0; j + 1 < chain.size(); ++j) { D2 a = chain[j], u = chain[j + 1] - a; double uu = dot(u, u), r = uu > 0 ? std::min(1., std::max(0., dot(p - a, u) / uu)) : 0; best = std::min(best, dist(p, a + r * u)); } worst = std::max(worst, best); } if (worst <= lt) at1.insert(is + 1); else why = "the lines leave it by " + std::to_string(worst); if (m.n == 1) break; } }
    VP_CHECK(!at1.empty(), "edge %zu (degree %d, length %g) of face %zu is not drawn: %s", k, m.n, l, i, why.c_str()); at0 = at1; }
  VP_CHECK(at0.count(seg.size()), "%zu lines, only %zu of them belong to edges", seg.size(), *at0.rbegin()); for (int a = 0; a < 2; ++a) VP_CHECK(std::fabs(mn[a] - lo[a]) <= slack && std::fabs(mx[a] - hi[a]) <= slack, "extent [%g %g] in direction %d, not [%g %g]", mn[a], mx[a], a, lo[a], hi[a]); }
