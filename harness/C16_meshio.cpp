// SCALE: 1 6
#include "common.hpp"
#include <iostream>
#include <fstream>
#include <sstream>
#include <filesystem>
#include <unistd.h>
#include "delfem2/msh_io_obj.h"
#include "delfem2/msh_io_ply.h"
#include "delfem2/msh_io_misc.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string; namespace fs = std::filesystem;
typedef vector<double> V; typedef vector<uint> U;
// a scratch directory of this process; files are removed after each case
struct Dir { fs::path p; Dir() { p = fs::temp_directory_path() / ("vp_meshio_" + std::to_string(getpid())); fs::create_directories(p); } ~Dir() { std::error_code e; fs::remove_all(p, e); } string at(const char *n) const { return (p / n).string(); } };
struct Quiet { std::streambuf *o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
static double value(vp::Case &c) { switch (c.range(0, 5)) { case 0: return 0; case 1: return c.range(-1000, 1000); case 2: return c.sym(1); case 3: return c.logreal(1e-30, 1e30) * (c.flip() ? 1 : -1); case 4: return c.range(-99999, 99999) * 0.001; default: return c.uni(-1e3, 1e3); } }
static V values(vp::Case &c, int n) { V v(n); for (double &x: v) x = value(c); return v; }
static U indices(vp::Case &c, int n, int np) { U v(n); for (uint &x: v) x = (uint) c.range(0, np - 1); return v; }
template<class A, class B> static void same(vp::Case &c, const A &a, const B &b, double rel, const char *what) { VP_CHECK(a.size() == b.size(), "%s: %zu values, not %zu", what, a.size(), b.size()); for (size_t i = 0; i < a.size(); ++i) VP_CHECK(std::fabs((double) a[i] - (double) b[i]) <= rel * std::fabs((double) b[i]), "%s: value %zu is %.12g, not %.12g", what, i, (double) a[i], (double) b[i]); }
static const double P6 = 6e-6; // the writers print six significant digits
static string slurp(const string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spill(const string &f, const string &t) { std::ofstream o(f, std::ios::binary); o << t; }
static void read_tri(vp::Case &c, const string &f, const V &X, const U &T, double rel) { // every reader of triangle meshes, into containers that hold something
  V x{1, 2}; U t{3}; int k = c.range(0, 4); const char *nm[] = {"Read_Obj", "Read_Obj2", "Read_Obj3", "Read_Obj3<float>", "mixed reader"}; vector<float> xf{1};
  if (k == 0) d::Read_Obj(x, t, f); else if (k == 1) d::Read_Obj2(f, x, t); else if (k == 2) d::Read_Obj3(x, t, fs::path(f)); else if (k == 3) { d::Read_Obj3(xf, t, fs::path(f)); same(c, xf, X, rel + 1e-6, nm[k]); same(c, t, T, 0, nm[k]); return; } else { string m; V vt, vn; U ei, et, en, gi; vector<string> gn; VP_CHECK(d::Read_WavefrontObjWithMaterialMixedElem(m, x, vt, vn, ei, t, et, en, gn, gi, f), "not opened"); VP_CHECK(ei.size() == T.size() / 3 + 1, "%zu elements", ei.size() - 1); for (size_t i = 0; i < ei.size(); ++i) VP_CHECK(ei[i] == 3 * i, "element %zu starts at %u", i, ei[i]); VP_CHECK(vt.empty() && vn.empty() && et.size() == T.size() && en.size() == T.size(), "texture or normals"); for (uint q: et) VP_CHECK(q == UINT_MAX, "texture index"); }
  same(c, x, X, rel, nm[k]); same(c, t, T, 0, nm[k]); c.label("%s", nm[k]); }
VP_PROP(obj_roundtrip, 3000, 40000, "writers of uniform, mixed, flagged and several meshes in one OBJ file, read back by every reader: coordinates to the printed precision, indices, order, groups; non-trivial: at least two elements") {
  Dir D; Quiet q; string f = D.at("a.obj"); int np = c.range(1, 30), ne = c.range(0, 20), kind = c.range(0, 5); V X = values(c, 3 * np); if (ne > 1) c.nontrivial();
  if (kind <= 1) { U T = indices(c, ne * 3, np); if (kind == 0) d::Write_Obj_UniformMesh(f, X.data(), np, T.data(), ne, 3); else { vector<float> xf(X.begin(), X.end()); vector<int> ti(T.begin(), T.end()); d::Write_Obj_UniformMesh(f, xf.data(), np, ti.data(), ne, 3); } read_tri(c, f, X, T, P6); }
  else if (kind == 2) { U Q = indices(c, ne * 4, np); d::Write_Obj_UniformMesh(f, X.data(), np, Q.data(), ne, 4); V x{5}; U t{1}; if (c.flip()) { d::Read_Obj_MeshQuad3(x, t, f); same(c, t, Q, 0, "quads"); } else { d::Read_Obj3(x, t, fs::path(f)); U w; for (int e = 0; e < ne; ++e) w.insert(w.end(), {Q[e * 4], Q[e * 4 + 1], Q[e * 4 + 2], Q[e * 4], Q[e * 4 + 2], Q[e * 4 + 3]}); same(c, t, w, 0, "split quads"); } same(c, x, X, P6, "points"); c.label("quads"); }
  else if (kind == 3) { vector<int> ind{0}, el; U w; for (int e = 0; e < ne; ++e) { int n = c.range(3, 4); U a = indices(c, n, np); el.insert(el.end(), a.begin(), a.end()); ind.push_back((int) el.size()); w.insert(w.end(), {a[0], a[1], a[2]}); if (n == 4) w.insert(w.end(), {a[0], a[2], a[3]}); } d::Write_Obj_ElemJArray(f, X, ind, el); V x; U t; d::Read_Obj3(x, t, fs::path(f)); same(c, x, X, P6, "points"); same(c, t, w, 0, "mixed"); string m; V vt, vn; U ei, ev, et, en, gi; vector<string> gn; d::Read_WavefrontObjWithMaterialMixedElem(m, x, vt, vn, ei, ev, et, en, gn, gi, f); same(c, ei, ind, 0, "element starts"); same(c, ev, el, 0, "elements"); c.label("mixed"); }
  else if (kind == 4) { U T = indices(c, ne * 3, np), fl(ne); int mf = c.range(0, 4); for (uint &x: fl) x = (uint) c.range(0, mf); U T0 = T, w; uint mx = 0; for (uint x: fl) mx = std::max(mx, x); for (uint g = 0; g <= mx; ++g) for (int e = 0; e < ne; ++e) if (fl[e] == g) w.insert(w.end(), &T0[e * 3], &T0[e * 3] + 3); d::Write_Obj_TriFlag(f, X, T, fl); VP_CHECK(T == T0, "input changed"); read_tri(c, f, X, w, P6);
    string m; V x, vt, vn; U ei, ev, et, en, gi; vector<string> gn; d::Read_WavefrontObjWithMaterialMixedElem(m, x, vt, vn, ei, ev, et, en, gn, gi, f); VP_CHECK(gn.size() == mx + 2 && gi.size() == mx + 3, "%zu groups", gn.size()); VP_CHECK(gi[0] == 0 && gi[1] == 0 && gi[mx + 2] == (uint) ne, "group starts"); for (uint g = 0; g <= mx; ++g) { VP_CHECK(gn[g + 1] == "flag" + std::to_string(g), "group %s", gn[g + 1].c_str()); uint k = 0; for (uint x: fl) k += x == g; VP_CHECK(gi[g + 2] - gi[g + 1] == k, "group %u has %u elements", g, gi[g + 2] - gi[g + 1]); } c.label("flags"); }
  else { vector<std::pair<V, U>> M; V X2; U T2; int nm = c.range(0, 4); for (int m = 0; m < nm; ++m) { int n = c.range(1, 6), e = c.range(0, 5); V x = values(c, 3 * n); U t = indices(c, 3 * e, n); for (uint i: t) T2.push_back(i + (uint) X2.size() / 3); X2.insert(X2.end(), x.begin(), x.end()); M.push_back({x, t}); } d::Write_Obj(f, M); read_tri(c, f, X2, T2, P6); c.label("several meshes"); }
}
VP_PROP(wavefront, 3000, 40000, "triangle meshes with texture coordinates, normals and named groups: written, read, written and read again; positions, textures, unit normals, all three index lists, group names and extents survive; non-trivial: two groups or more") {
  Dir D; string f = D.at("a.obj"), f2 = D.at("b.obj"); int np = c.range(1, 12), nt = c.range(1, 12), nn = c.range(1, 12), ne = c.range(0, 15), ng = c.range(1, 4); V X = values(c, 3 * np), T = values(c, 2 * nt), N(3 * nn), N1; for (int i = 0; i < nn; ++i) { D3 n = unit(rnd3(c, 1) + D3{0, 0, 1.001}); for (int k = 0; k < 3; ++k) N[i * 3 + k] = n[k]; } U tx = indices(c, ne * 3, np), tt = indices(c, ne * 3, nt), tn = indices(c, ne * 3, nn), gi{0}; vector<string> gn{"default"}; for (int g = 1; g < ng; ++g) { gi.push_back((uint) c.range((int) gi.back(), ne)); gn.push_back("g" + std::to_string(c.range(0, 99)) + (c.flip() ? "_x" : "")); } gi.push_back((uint) ne);
  if (c.chance(1, 4)) for (uint &x: tt) x = UINT_MAX; if (c.chance(1, 4)) for (uint &x: tn) x = UINT_MAX; // absent
  d::Write_WavefrontObj(f, X, T, N, tx, tt, tn, gn, gi); string m = "x"; V x{1}, t{1}, n{1}; U ei{1}, ex{1}, et{1}, en{1}, g2{1}; vector<string> n2{"z"}; VP_CHECK(d::Read_WavefrontObjWithMaterialMixedElem(m, x, t, n, ei, ex, et, en, n2, g2, f), "not opened"); VP_CHECK(m.empty(), "material file"); same(c, x, X, P6, "positions"); same(c, t, T, P6, "texture"); VP_CHECK(n.size() == N.size(), "normals"); for (size_t i = 0; i < n.size(); ++i) VP_NEAR(n[i], N[i], 1e-5);
  same(c, ex, tx, 0, "position indices"); same(c, et, tt, 0, "texture indices"); same(c, en, tn, 0, "normal indices"); same(c, g2, gi, 0, "group starts"); VP_CHECK(n2.size() == gn.size(), "%zu names", n2.size()); for (size_t i = 0; i < gn.size(); ++i) VP_CHECK(n2[i] == gn[i], "group %zu is named %s, not %s", i, n2[i].c_str(), gn[i].c_str()); VP_CHECK(ei.size() == (size_t) ne + 1, "elements"); for (int i = 0; i <= ne; ++i) VP_CHECK(ei[i] == 3u * i, "start %d", i);
  string text = slurp(f); d::Write_WavefrontObj(f2, x, t, n, ex, et, en, n2, g2); V x3, t3, n3; d::Read_WavefrontObjWithMaterialMixedElem(m, x3, t3, n3, ei, ex, et, en, n2, g2, f2); same(c, x3, x, 0, "positions (second)"); same(c, t3, t, 0, "texture (second)"); same(c, g2, gi, 0, "groups (second)"); if (ng > 1) c.nontrivial(); VP_CHECK(!d::Read_WavefrontObjWithMaterialMixedElem(m, x3, t3, n3, ei, ex, et, en, n2, g2, D.at("none.obj")), "a file that does not exist was read");
}
VP_PROP(obj_text, 6000, 80000, "OBJ texts in every supported style: index forms v, v/t, v//n, v/t/n, polygons of 3-60 corners, comments, blank and unknown lines, groups, materials, extra coordinates, number styles, repeated spaces, Windows line ends, lines longer than 255 characters: what each reader returns equals a line-by-line model; non-trivial: two faces or more") {
  Dir D; string f = D.at("a.obj"), o; int np = c.range(1, 20), nt = c.range(1, 9), nn = c.range(1, 9), nl = c.range(0, 60), style = c.range(0, 3), shape = c.range(0, 3) /* 0 tri 1 tri+quad 2 any 3 quads */; bool plain = style == 0, crlf = c.chance(1, 5); string eol = crlf ? "\r\n" : "\n"; V X, T, N; U ei{0}, ev, et, en, gi{0}, t3; vector<string> gn{"default"}; string mtl; int nf = 0;
  auto num = [&](double v) { char b[64]; switch (c.range(0, 3)) { case 0: snprintf(b, 64, "%.17g", v); break; case 1: snprintf(b, 64, "%.17e", v); break; case 2: snprintf(b, 64, "%.17E", v); break; default: snprintf(b, 64, v >= 0 ? "+%.17g" : "%.17g", v); } return string(b); }; auto sp = [&]() { return c.chance(1, 6) ? string(c.range(2, 4), ' ') : c.chance(1, 12) ? string("\t") : string(" "); };
  auto vec = [&](const char *k, V &out, int n) { o += k; o += string(" ") + (c.chance(1, 8) ? "  " : ""); for (int i = 0; i < n; ++i) { double v = value(c); out.push_back(v); o += num(v) + (i + 1 < n ? sp() : ""); } if (k[1] == 0 && c.chance(1, 8)) o += " 1.0"; if (c.chance(1, 8)) o += " "; o += eol; };
  for (int i = 0; i < np; ++i) vec("v", X, 3); for (int i = 0; i < nt; ++i) vec("vt", T, 2); for (int i = 0; i < nn; ++i) { vec("vn", N, 3); double *q = &N[N.size() - 3]; if (q[0] == 0 && q[1] == 0 && q[2] == 0) { o.erase(o.rfind("vn")); N.resize(N.size() - 3); --i; } }
  for (int l = 0; l < nl; ++l) switch (c.range(0, 9)) {
    case 0: o += "#" + string(c.chance(1, 4) ? c.range(250, 700) : c.range(0, 20), c.flip() ? 'v' : ' ') + eol; break; case 1: o += crlf ? "\n" : eol; break; case 2: o += string(c.pick({"s off", "s 1", "o thing", "l 1 1", "p 1"})) + eol; break; case 3: o += "usemtl m" + std::to_string(c.range(0, 9)) + eol; break;
    case 4: { string g = "grp" + std::to_string(c.range(0, 99)); o += "g " + g + eol; gn.push_back(g); gi.push_back((uint) ei.size() - 1); break; } case 5: mtl = "file" + std::to_string(c.range(0, 9)) + ".mtl"; o += "mtllib " + mtl + eol; break; case 6: if (c.chance(1, 3)) vec("v", X, 3); break;
    default: { int n = shape == 0 ? 3 : shape == 1 ? c.range(3, 4) : shape == 3 ? 4 : c.chance(1, 10) ? c.range(5, 60) : c.range(3, 6); o += "f"; U w; for (int i = 0; i < n; ++i) { uint a = (uint) c.range(0, (int) X.size() / 3 - 1), b = UINT_MAX, e = UINT_MAX; o += sp() + std::to_string(a + 1); if (style == 1 || style == 3) { b = (uint) c.range(0, nt - 1); o += "/" + std::to_string(b + 1); } if (style == 2) o += "/"; if (style >= 2) { e = (uint) c.range(0, nn - 1); o += "/" + std::to_string(e + 1); } w.push_back(a); ev.push_back(a); et.push_back(b); en.push_back(e); } ei.push_back((uint) ev.size()); if (n == 3) t3.insert(t3.end(), {w[0], w[1], w[2]}); if (n == 4) t3.insert(t3.end(), {w[0], w[1], w[2], w[0], w[2], w[3]}); if (c.chance(1, 4)) o += " "; o += eol; ++nf; } }
  if (c.chance(1, 4) && !o.empty() && !crlf) o.pop_back(); gi.push_back((uint) ei.size() - 1); spill(f, o); if (nf > 1) c.nontrivial(); c.label("%s, %s", plain ? "v" : style == 1 ? "v/t" : style == 2 ? "v//n" : "v/t/n", shape == 0 ? "triangles" : shape == 1 ? "triangles and quads" : shape == 2 ? "polygons" : "quads");
  { V x, t, n; U a, b, e, g, s; vector<string> names; string m; VP_CHECK(d::Read_WavefrontObjWithMaterialMixedElem(m, x, t, n, s, a, b, e, names, g, f), "not opened"); same(c, x, X, 0, "positions"); same(c, t, T, 0, "texture"); VP_CHECK(n.size() == N.size(), "normals"); for (size_t i = 0; i + 2 < N.size(); i += 3) { D3 w{N[i], N[i + 1], N[i + 2]}; double s = std::max({std::fabs(w[0]), std::fabs(w[1]), std::fabs(w[2])}); if (s < 1e-100) continue; w = unit((1 / s) * w); for (int k = 0; k < 3; ++k) VP_NEAR(n[i + k], w[k], 1e-12); }
    same(c, s, ei, 0, "element starts"); same(c, a, ev, 0, "position indices"); same(c, b, et, 0, "texture indices"); same(c, e, en, 0, "normal indices"); same(c, g, gi, 0, "group starts"); VP_CHECK(names == gn, "group names"); VP_CHECK(m == mtl, "material file %s, not %s", m.c_str(), mtl.c_str()); }
  if (shape == 0) { V x; U t; if (plain && c.flip()) d::Read_Obj(x, t, f); else d::Read_Obj2(f, x, t); same(c, x, X, 0, "positions"); same(c, t, ev, 0, "triangles"); } if (shape <= 1 || shape == 3) { V x; U t; d::Read_Obj3(x, t, fs::path(f)); same(c, x, X, 0, "positions"); same(c, t, t3, 0, "triangles of Read_Obj3"); } if (shape == 3 && plain) { V x; U t; d::Read_Obj_MeshQuad3(x, t, f); same(c, t, ev, 0, "quads"); }
}
VP_PROP(mtl, 4000, 50000, "MTL texts with comments, blank lines, unknown keys and any order: every material gets exactly its own properties, others keep defaults; non-trivial: two materials or more") {
  Dir D; string f = D.at("a.mtl"), o; vector<d::MaterialWavefrontObj> W, M(1); int n = c.range(0, 5); bool crlf = c.chance(1, 5); string eol = crlf ? "\r\n" : "\n"; auto junk = [&]() { if (c.chance(1, 4)) o += string(c.pick({"# newmtl no", "", "Ni 1.45", "d 1.0", "Tr 0", "# Kd 1 2 3"})) + eol; if (c.chance(1, 20)) o += "#" + string(400, 'x') + eol; }; junk(); if (c.chance(1, 6)) o += "Kd 1 1 1" + eol;
  for (int m = 0; m < n; ++m) { d::MaterialWavefrontObj w; w.name_mtl = "m" + std::to_string(c.range(0, 99)); o += "newmtl " + w.name_mtl + eol; for (int l = c.range(0, 9); l > 0; --l) { junk(); int k = c.range(0, 6); char b[200]; if (k < 4) { float v[3]; for (float &x: v) x = (float) (c.range(0, 1000) * 0.001); const char *nm[] = {"Kd", "Ka", "Ks", "Ke"}; float *t[] = {w.Kd, w.Ka, w.Ks, w.Ke}; for (int i = 0; i < 3; ++i) t[k][i] = v[i]; t[k][3] = 1; snprintf(b, 200, "%s %.9g %.9g %.9g", nm[k], v[0], v[1], v[2]); } else if (k == 4) { w.Ns = (float) c.range(0, 900); snprintf(b, 200, "Ns %.9g", w.Ns); } else if (k == 5) { w.illum = c.range(0, 9); snprintf(b, 200, "illum %d", w.illum); } else { w.map_Kd = "tex" + std::to_string(c.range(0, 9)) + ".png"; snprintf(b, 200, "map_Kd %s", w.map_Kd.c_str()); } o += (c.chance(1, 5) ? "  " : c.chance(1, 5) ? "\t" : "") + string(b) + eol; } W.push_back(w); }
  spill(f, o); d::Read_WavefrontMaterial(f, M); VP_CHECK(M.size() == W.size(), "%zu materials, not %zu", M.size(), W.size()); for (int m = 0; m < n; ++m) { VP_CHECK(M[m].name_mtl == W[m].name_mtl && M[m].map_Kd == W[m].map_Kd && M[m].illum == W[m].illum && M[m].Ns == W[m].Ns, "material %d", m); for (int k = 0; k < 4; ++k) VP_CHECK(M[m].Kd[k] == W[m].Kd[k] && M[m].Ka[k] == W[m].Ka[k] && M[m].Ks[k] == W[m].Ks[k] && M[m].Ke[k] == W[m].Ke[k], "colour %d of material %d: Kd %g %g Ka %g %g Ks %g %g Ke %g %g", k, m, M[m].Kd[k], W[m].Kd[k], M[m].Ka[k], W[m].Ka[k], M[m].Ks[k], W[m].Ks[k], M[m].Ke[k], W[m].Ke[k]); } if (n > 1) c.nontrivial();
}
VP_PROP(ply, 3000, 40000, "PLY by both writers, with comment lines inserted into the header, by both readers; STL: every facet lists its triangle with the unit normal of its orientation; non-trivial: two triangles or more") {
  Dir D; Quiet q; string f = D.at("a.ply"); int np = c.range(3, 30), ne = c.range(0, 20); V X = values(c, 3 * np); U T = indices(c, ne * 3, np); vector<int> Ti(T.begin(), T.end()); if (c.flip()) d::Write_Ply(f, X, Ti); else d::Write_Ply(f, (uint) np, X.data(), (uint) ne, T.data()); string t = slurp(f), h = "ply\nformat ascii 1.0\nelement vertex " + std::to_string(np) + "\n"; VP_CHECK(t.rfind(h, 0) == 0, "header"); if (c.flip()) { size_t p = t.find("element vertex"); string ins; for (int i = c.range(1, 3); i > 0; --i) ins += "comment written by a test " + std::to_string(i) + "\n"; t.insert(p, ins); spill(f, t); }
  if (c.flip()) { V x{1}; U a{1}; d::Read_Ply(x, a, fs::path(f)); same(c, x, X, P6, "points"); same(c, a, T, 0, "triangles"); } else { int n = -1, m = -1; double *x = nullptr; uint *a = nullptr; d::Read_Ply(f, n, x, m, a); VP_CHECK(n == np && m == ne && x && a, "sizes %d %d", n, m); same(c, V(x, x + 3 * n), X, P6, "points"); same(c, U(a, a + 3 * m), T, 0, "triangles"); delete[] x; delete[] a; } if (ne > 1) c.nontrivial();
  V Y(3 * np); for (double &v: Y) v = c.uni(-5, 5); vector<int> S; for (int e = 0; e < ne; ++e) { D3 a = P3(Y, T[e * 3]), b = P3(Y, T[e * 3 + 1]), g = P3(Y, T[e * 3 + 2]); if (norm(cross(b - a, g - a)) > 0.05) for (int k = 0; k < 3; ++k) S.push_back(Ti[e * 3 + k]); } string fs_ = D.at("a.stl"); d::Write_STL(fs_, Y, S); std::ifstream in(fs_); string w; std::getline(in, w); VP_CHECK(w.rfind("solid", 0) == 0, "first line %s", w.c_str());
  for (size_t e = 0; e < S.size() / 3; ++e) { string k[7]; D3 n; in >> k[0] >> k[1] >> n[0] >> n[1] >> n[2] >> k[2] >> k[3]; VP_CHECK(k[0] == "facet" && k[1] == "normal" && k[2] == "outer" && k[3] == "loop", "facet %zu", e); D3 p[3]; for (int i = 0; i < 3; ++i) { in >> w >> p[i][0] >> p[i][1] >> p[i][2]; VP_CHECK(w == "vertex", "vertex"); D3 s = P3(Y, (uint) S[e * 3 + i]); VP_CHECK(dist(s, p[i]) <= 1e-4, "vertex %d of facet %zu", i, e); } in >> k[4] >> k[5]; VP_CHECK(k[4] == "endloop" && k[5] == "endfacet", "end of facet"); D3 s[3]; for (int i = 0; i < 3; ++i) s[i] = P3(Y, (uint) S[e * 3 + i]); VP_CHECK(dist(n, unit(cross(s[1] - s[0], s[2] - s[0]))) <= 1e-4, "normal of facet %zu", e); } in >> w; VP_CHECK(w == "endsolid", "last line %s", w.c_str());
}
VP_PROP(misc, 3000, 40000, "plain triangle streams (several in one file), TetGen files with and without attributes and markers, Nastran bulk files with sparse numbering, VTK files of each cell type with vectors, scalars or no data and at any stride, mapped scalars: read or parsed back equal; non-trivial always") {
  Dir D; Quiet q; c.nontrivial(); int np = c.range(1, 20), ne = c.range(1, 12), kind = c.range(0, 4); V X = values(c, 3 * np);
  if (kind == 0) { int n = c.range(1, 3); string f = D.at("a"); vector<V> Xs; vector<vector<int>> Ts; { std::ofstream o(f); for (int i = 0; i < n; ++i) { int p = c.range(1, 9); Xs.push_back(values(c, 3 * p)); U t = indices(c, 3 * c.range(0, 6), p); Ts.emplace_back(t.begin(), t.end()); d::Write_MeshTri3D(o, Xs[i], Ts[i]); } } std::ifstream in(f); for (int i = 0; i < n; ++i) { V x{1}; vector<int> t{1}; d::Read_MeshTri3D(in, x, t); same(c, x, Xs[i], P6, "points"); same(c, t, Ts[i], 0, "triangles"); } { std::ofstream o(f); V x2 = values(c, 2 * np); vector<int> t{0, 0, 0}; d::Write_MeshTri3D(o, x2, t, 2); o.close(); std::ifstream i2(f); int a, b; i2 >> a >> b; VP_CHECK(a == np && b == 1, "planar header"); V y(2 * np); for (double &v: y) i2 >> v; same(c, y, x2, P6, "planar points"); } c.label("plain"); }
  else if (kind == 1) { string f = D.at("t"); int na = c.range(0, 2), nm = c.range(0, 1), ea = c.range(0, 1), fm = c.range(0, 1); vector<int> E, F; U e = indices(c, 4 * ne, np), t = indices(c, 3 * ne, np); auto tail = [&](int n) { string s; for (int i = 0; i < n; ++i) s += "  " + std::to_string(c.range(-5, 5)); return s + "\n"; }; char b[300]; string o = std::to_string(np) + " 3 " + std::to_string(na) + " " + std::to_string(nm) + "\n"; for (int i = 0; i < np; ++i) { snprintf(b, 300, "  %d   %.17g %.17g %.17g", i, X[i * 3], X[i * 3 + 1], X[i * 3 + 2]); o += b + tail(na + nm); } o += "# Generated by a test\n"; spill(f + ".node", o); o = std::to_string(ne) + "  4  " + std::to_string(ea) + "\n"; for (int i = 0; i < ne; ++i) { snprintf(b, 300, "%d %u %u %u %u", i, e[i * 4], e[i * 4 + 1], e[i * 4 + 2], e[i * 4 + 3]); o += b + tail(ea); } spill(f + ".ele", o); o = std::to_string(ne) + "  " + std::to_string(fm) + "\n"; for (int i = 0; i < ne; ++i) { snprintf(b, 300, "%d %u %u %u", i, t[i * 3], t[i * 3 + 1], t[i * 3 + 2]); o += b + tail(fm); } spill(f + ".face", o);
    V x; d::Read_MeshTet3D_TetGen(f, x, E, F); same(c, x, X, 0, "nodes"); same(c, E, e, 0, "tetrahedra"); for (int i = 0; i < ne; ++i) std::swap(t[i * 3 + 1], t[i * 3 + 2]); same(c, F, t, 0, "faces"); c.label("TetGen"); }
  else if (kind == 2) { string f = D.at("a.nas"), o = "$ comment\nBEGIN BULK\n"; vector<int> num; int k = c.range(1, 5); for (int i = 0; i < np; ++i) { num.push_back(k); k += c.range(1, 4); } c.shuffle(num.begin(), num.end()); V Y(3 * np); U T = indices(c, 3 * ne, np); char b[200]; vector<string> rows, r2; for (int i = 0; i < np; ++i) { for (int j = 0; j < 3; ++j) Y[i * 3 + j] = c.range(-99999, 99999) * 0.001; snprintf(b, 200, "GRID    %8d%8d%8.3f%8.3f%8.3f", num[i], 0, Y[i * 3], Y[i * 3 + 1], Y[i * 3 + 2]); o += string(b) + "\n"; if (c.chance(1, 5)) o += "$ note\n"; } for (int i = 0; i < ne; ++i) { snprintf(b, 200, "CTRIA3  %8d%8d%8d%8d%8d", i + 1, 1, num[T[i * 3]], num[T[i * 3 + 1]], num[T[i * 3 + 2]]); o += string(b) + "\n"; if (c.chance(1, 5)) o += "PSHELL  1       1       0.1\n"; } o += "ENDDATA\n"; spill(f, o); V x{1}; U t{1}; d::Read_MeshTri3D_Nas(x, t, f.c_str()); VP_CHECK(x.size() == Y.size(), "%zu coordinates", x.size()); for (size_t i = 0; i < x.size(); ++i) VP_NEAR(x[i], Y[i], 1e-9); same(c, t, T, 0, "triangles"); spill(f, "ENDDATA\n"); d::Read_MeshTri3D_Nas(x, t, f.c_str()); VP_CHECK(x.empty() && t.empty(), "empty file"); c.label("Nastran"); }
  else if (kind == 3) { string f = D.at("a.vtk"); int ty = c.pick({5, 9, 10, 12}), nn = ty == 5 ? 3 : ty == 12 ? 8 : 4, nd = c.range(2, 3), st = c.range(3, 5), dat = c.range(0, 3); V P = values(c, nd * np), A = values(c, st * np); U e = indices(c, nn * ne, np); vector<int> E(e.begin(), e.end()); { std::ofstream o(f); d::WriteVTK_Points(o, "name of it", P.data(), np, nd); d::WriteVTK_Cells(o, ty, E.data(), ne); if (dat) o << "POINT_DATA " << np << "\n"; if (dat == 1) d::WriteVTK_Data_PointScalar(o, A.data(), np, st); if (dat > 1) d::WriteVTK_Data_PointVec(o, A.data(), np, st, dat); } V x{1}, v{1}; int t2 = 0; vector<int> E2; d::ReadVTK(x, t2, E2, v, f); V X3, W; for (int i = 0; i < np; ++i) { for (int k = 0; k < 3; ++k) X3.push_back(k < nd ? P[i * nd + k] : 0); if (dat == 1) W.push_back(A[i * st]); if (dat > 1) for (int k = 0; k < 3; ++k) W.push_back(k < dat ? A[i * st + k] : 0); } same(c, x, X3, P6, "points"); VP_CHECK(t2 == ty, "cell type %d", t2); same(c, E2, e, 0, "cells"); same(c, v, W, P6, "point data"); c.label("VTK %d", ty); }
  else { string f = D.at("b.vtk"); U a = indices(c, 4 * c.range(0, 4), np), b = indices(c, 5 * c.range(0, 4), np), e = indices(c, 6 * c.range(0, 4), np); { std::ofstream o(f); d::WriteVTK_Cells(o, vector<int>(a.begin(), a.end()), vector<int>(b.begin(), b.end()), vector<int>(e.begin(), e.end())); } std::ifstream in(f); string w; size_t n, m, na = a.size() / 4, nb = b.size() / 5, nc = e.size() / 6; in >> w >> n >> m; VP_CHECK(w == "CELLS" && n == na + nb + nc && m == n + a.size() + b.size() + e.size(), "cell header %zu %zu", n, m); U all; for (size_t i = 0; i < n; ++i) { uint k, want = i < na ? 4 : i < na + nb ? 5 : 6; in >> k; VP_CHECK(k == want, "cell %zu has %u corners", i, k); for (uint j = 0; j < k; ++j) { uint p; in >> p; all.push_back(p); } } U ref = a; ref.insert(ref.end(), b.begin(), b.end()); ref.insert(ref.end(), e.begin(), e.end()); same(c, all, ref, 0, "cells"); in >> w >> n; VP_CHECK(w == "CELL_TYPES" && n == na + nb + nc, "types"); for (size_t i = 0; i < n; ++i) { int t; in >> t; VP_CHECK(t == (i < na ? 10 : i < na + nb ? 14 : 13), "type %d of cell %zu", t, i); }
    // mapped scalars
    int nm = c.range(1, 9), st = c.range(1, 4), of = c.range(0, st - 1); U mu = indices(c, nm, np), t = indices(c, 3 * ne, nm); V A = values(c, st * np); d::WriteVTK_MapTriScalar(f, "mapped", X, vector<int>(mu.begin(), mu.end()), vector<int>(t.begin(), t.end()), A, st, of); V x, v; int ty; vector<int> E; d::ReadVTK(x, ty, E, v, f); V X3, W; for (uint i: mu) { X3.insert(X3.end(), &X[i * 3], &X[i * 3] + 3); W.push_back(A[i * st + of]); } same(c, x, X3, P6, "mapped points"); VP_CHECK(ty == 5, "type"); same(c, E, t, 0, "mapped triangles"); same(c, v, W, P6, "mapped scalars"); c.label("VTK mixed and mapped"); }
}
