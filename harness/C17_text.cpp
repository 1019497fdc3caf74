// SCALE: 2 8
#include "common.hpp"
#include <iostream>
#include <fstream>
#include <sstream>
#include <cstring>
#include <map>
#include <filesystem>
#include <unistd.h>
#include "delfem2/str.h"
#include "delfem2/file.h"
#include "delfem2/filenpy_str.h"
#include "delfem2/img_ioppm.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string; namespace fs = std::filesystem; typedef vector<string> S;
struct Dir { fs::path p; Dir() { p = fs::temp_directory_path() / ("vp_text_" + std::to_string(getpid())); fs::create_directories(p); } ~Dir() { std::error_code e; fs::remove_all(p, e); } string at(const string &n) const { return (p / n).string(); } };
struct Quiet { std::streambuf *o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
static void spill(const string &f, const string &t) { std::ofstream o(f, std::ios::binary); o << t; }
static string show(const S &a) { string r = "["; for (auto &s: a) r += "{" + s + "}"; return r + "]"; }
static string word(vp::Case &c, const char *alpha, int lo, int hi) { string s; int n = c.range(lo, hi), k = (int) strlen(alpha); for (int i = 0; i < n; ++i) s += alpha[c.range(0, k - 1)]; return s; }
static bool in(char x, const string &s) { return s.find(x) != string::npos; }
static void equal(vp::Case &c, const S &got, const S &want, const char *what, const string &src) { VP_CHECK(got == want, "%s of {%s}: %s, not %s", what, src.c_str(), show(got).c_str(), show(want).c_str()); }
VP_PROP(split, 30000, 300000, "random texts over a small alphabet of letters, delimiters, quotes and parentheses: every splitting and removing function equals its definition; non-trivial: two tokens or more") {
  string s = word(c, "ab,; ()\"", 0, 14); c.note("{%s}", s.c_str());
  { char del = c.pick({',', ';', ' '}); S w; string t; for (char x: s + string(1, del)) if (x == del) { if (!t.empty()) w.push_back(t); t.clear(); } else t += x; equal(c, d::Split(s, del), w, "Split", s); S a{"old"}; d::Split(a, s, del); equal(c, a, w, "Split into a vector", s); if (w.size() > 1) c.nontrivial(); }
  { string del = c.pick({",", ", ", ",; ", " ;", ""}); S w; string t; for (char x: s) if (in(x, del)) { if (!t.empty()) w.push_back(t); t.clear(); } else t += x; if (!t.empty()) w.push_back(t); equal(c, d::Split(s, del), w, "Split at a set", s); string r; for (char x: s) if (!in(x, del)) r += x; VP_CHECK(d::Remove(s, del) == r, "Remove {%s} from {%s}: {%s}", del.c_str(), s.c_str(), d::Remove(s, del).c_str()); size_t k = 0; while (k < s.size() && in(s[k], del)) ++k; VP_CHECK(d::RemoveBeginning(s, del) == s.substr(k), "RemoveBeginning {%s} of {%s}: {%s}", del.c_str(), s.c_str(), d::RemoveBeginning(s, del).c_str()); }
  { S w; string t; bool q = false; for (char x: s) { if (x == '"') q = !q; if (x == ',' && !q) { if (!t.empty()) w.push_back(t); t.clear(); } else t += x; } if (!t.empty()) w.push_back(t); equal(c, d::Split_Quote(s, ',', '"'), w, "Split_Quote", s); }
  { S w; string t; int l = 0; for (char x: s) { if (x == '(') ++l; if (x == ')') --l; if (x == ',' && l == 0) { w.push_back(t); t.clear(); } else t += x; } if (!s.empty()) w.push_back(t); equal(c, d::Split_Parentheses(s, ',', "()"), w, "Split_Parentheses", s); size_t a = s.find('('), b = s.rfind(')'); string g = a != string::npos && b != string::npos && b > a ? s.substr(a + 1, b - a - 1) : ""; VP_CHECK(d::Get_Parentheses(s, "()") == g, "Get_Parentheses of {%s}: {%s}", s.c_str(), d::Get_Parentheses(s, "()").c_str()); }
  { string r = s; for (char &x: r) if (x == ' ') x = 'z'; VP_CHECK(d::Replace(s, ' ', 'z') == r, "Replace of {%s}", s.c_str()); string q; for (char x: s) if (x != ' ') q += x; VP_CHECK(d::RemoveSpace(s) == q, "RemoveSpace of {%s}", s.c_str()); }
  int ch = c.range(0, 127); VP_CHECK(d::isAlphabet((char) ch) == (bool) isalpha(ch) && d::isAlphabetUpper(ch) == (bool) isupper(ch) && d::isNumeric(ch) == (bool) isdigit(ch), "classes of the character %d", ch);
}
VP_PROP(structured, 15000, 150000, "generated dictionaries, attribute lists, tag trees, number lists and command lines are recovered from their text in every layout; non-trivial: two entries or more") {
  int n = c.range(0, 6); const char *al = "abXY019_-", *txt = "ab c,:=;1.#(){}/"; if (n > 1) c.nontrivial();
  std::map<string, string> M; S keys; for (int i = 0; i < n; ++i) { string k = word(c, al, 1, 6); if (M.count(k)) continue; M[k] = ""; keys.push_back(k); }
  auto sp = [&]() { return string(c.chance(1, 3) ? c.range(1, 3) : 0, ' '); }; auto check = [&](const std::map<string, string> &g, const string &t) { VP_CHECK(g.size() == M.size(), "%zu entries, not %zu, in %s", g.size(), M.size(), t.c_str()); for (auto &e: M) { auto i = g.find(e.first); VP_CHECK(i != g.end(), "no {%s} in %s", e.first.c_str(), t.c_str()); VP_CHECK(i->second == e.second, "{%s} is {%s}, not {%s}, in %s", e.first.c_str(), i->second.c_str(), e.second.c_str(), t.c_str()); } };
  switch (c.range(0, 5)) {
    case 0: { string t = "{" + sp(); for (size_t i = 0; i < keys.size(); ++i) { M[keys[i]] = word(c, txt, 0, 10); t += (i ? "," + sp() : "") + "\"" + keys[i] + "\"" + sp() + ":" + sp() + "\"" + M[keys[i]] + "\"" + sp(); } t += "}" + sp(); check(d::ReadDictionary_Json(t), t); c.label("json"); break; }
    case 1: { string t = "{"; std::map<string, string> W; for (size_t i = 0; i < keys.size(); ++i) { string v = c.flip() ? "'" + word(c, al, 0, c.chance(1, 10) ? 400 : 8) + "'" : c.flip() ? string(c.pick({"True", "False", "12", "-3.5"})) : "(" + word(c, "12,", 0, 8) + ")"; W["'" + keys[i] + "'"] = v; t += "'" + keys[i] + "':" + sp() + v + (i + 1 < keys.size() || c.flip() ? "," + sp() : ""); } t += "}" + sp() + (c.flip() ? "\n" : ""); M = W; check(d::ReadDictionary_Python(t), t); c.label("python"); break; }
    case 2: { string t = sp(); for (auto &k: keys) { bool q = c.chance(2, 3); M[k] = q ? word(c, txt, 0, 10) : word(c, "abc019.=", 1, 6); t += k + "=" + (q ? "\"" + M[k] + "\"" : M[k]) + " " + sp(); } if (c.flip()) t += "/"; std::map<string, string> g; d::ParseAttributes(g, t); check(g, t); c.label("attributes"); break; }
    case 3: { string t; S w; auto text = [&]() { string x = word(c, "ab c\n\t,>", 0, 8); t += x; w.push_back(x); }; text(); for (int i = 0; i < n; ++i) { string x = word(c, "ab =\"/?", 0, 9); t += "<" + x + ">"; w.push_back(x); text(); } if (w.back().empty()) w.pop_back(); for (auto &x: w) x = x.substr(std::min(x.size(), x.find_first_not_of(' '))); vector<char> in(t.begin(), t.end()); in.push_back(0); vector<char> in0 = in; S g{"old"}; d::XML_SeparateTagContent(g, in); w.insert(w.begin(), "old"); equal(c, g, w, "XML_SeparateTagContent", t); VP_CHECK(in == in0, "input changed"); c.label("xml"); break; }
    case 4: { string t; vector<double> w, g{7}; for (int i = 0; i < n; ++i) { double v = c.logreal(1e-20, 1e20) * (c.flip() ? 1 : -1); char b[64]; snprintf(b, 64, c.flip() ? "%.17g" : "%.17e", v); t += sp() + b + (i + 1 < n || c.flip() ? "," : ""); w.push_back(v); } d::ReadVector_CSV(g, t); VP_CHECK(g.size() == w.size() + 1 && g[0] == 7, "%zu numbers in %s", g.size(), t.c_str()); for (int i = 0; i < n; ++i) VP_CHECK(g[i + 1] == w[i], "number %d of %s is %g", i, t.c_str(), g[i + 1]); c.label("csv"); break; }
    default: { S a{"prog"}; for (auto &k: keys) { M[k] = c.flip() ? std::to_string(c.range(-999, 999)) : word(c, "abc", 1, 5); a.push_back("-o" + k); a.push_back(M[k]); } bool last = c.chance(1, 4); if (last) a.push_back("-zz"); vector<char *> p; for (auto &x: a) p.push_back(&x[0]); char **b = p.data(), **e = b + p.size(); double df = c.sym(9); for (auto &k: keys) { string o = "-o" + k; VP_CHECK(d::cmdOptionExists(b, e, o) && d::getCmdOptionStr(b, e, o) == M[k], "option %s", o.c_str()); if (isdigit(M[k].back())) VP_CHECK(d::getCmdOptionInt(b, e, o, 5) == atoi(M[k].c_str()) && d::getCmdOptionDouble(b, e, o, 5) == atof(M[k].c_str()), "number of %s", o.c_str()); } VP_CHECK(d::cmdOptionExists(b, e, "-zz") == last && !d::cmdOptionExists(b, e, "-none"), "existence"); VP_CHECK(d::getCmdOptionStr(b, e, "-zz").empty() && d::getCmdOptionInt(b, e, "-zz", 7) == 7 && d::getCmdOptionDouble(b, e, "-none", df) == df, "default value: %g, not %g", d::getCmdOptionDouble(b, e, "-none", df), df); c.label("options"); } }
}
VP_PROP(svg_text, 5000, 50000, "the SVG text of a polygon, taken apart by the XML and attribute readers, has its points mirrored in y, scaled, to six digits; non-trivial: three points or more") {
  int n = c.range(0, 12); vector<double> X(2 * n); for (double &x: X) x = c.chance(1, 5) ? 0 : c.logreal(1e-4, 1e5) * (c.flip() ? 1 : -1); double s = c.logreal(1e-2, 1e2); string t = d::Str_SVGPolygon(X, s); vector<char> v(t.begin(), t.end()); v.push_back(0); S a; d::XML_SeparateTagContent(a, v); bool found = false; if (n > 2) c.nontrivial();
  for (auto &g: a) if (g.compare(0, 8, "polygon ") == 0) { found = true; std::map<string, string> M; d::ParseAttributes(M, g.substr(8)); S p = d::Split(M["points"], " ,"); VP_CHECK(p.size() == X.size(), "%zu coordinates, not %zu", p.size(), X.size()); for (int i = 0; i < 2 * n; ++i) { double w = X[i] * s * (i % 2 ? -1 : 1); VP_CHECK(std::fabs(d::myStod(p[i]) - w) <= 6e-6 * std::fabs(w), "coordinate %d is %s, not %.9g", i, p[i].c_str(), w); } VP_CHECK(M["fill"] == "blue", "fill"); } VP_CHECK(found, "no polygon"); }
VP_PROP(files, 6000, 60000, "file names are taken apart at the last slash and the last dot of the file name; texts and bytes written are what is loaded; parameter files in every layout; missing files are reported; non-trivial: a directory and an extension") {
  Quiet q; string stem = word(c, "ab_.-1", 1, 8), ext = word(c, "objply", 0, 4), dir; int nd = c.range(0, 3); for (int i = 0; i < nd; ++i) dir += (i ? "/" : c.chance(1, 3) ? "/" : "") + string(c.chance(1, 5) ? ".." : c.chance(1, 5) ? "." : word(c, "ab.x", 1, 4)); string p = dir + (nd ? "/" : "") + stem; bool has = stem.find('.') != string::npos || !ext.empty(); string full = ext.empty() ? p : p + "." + ext;
  { string base = full.substr(full.rfind('/') == string::npos ? 0 : full.rfind('/') + 1); size_t k = base.rfind('.'); string we = k == string::npos ? "" : base.substr(k + 1), wr = k == string::npos ? full : full.substr(0, full.size() - (base.size() - k)); if (has && nd) c.nontrivial(); VP_CHECK(d::pathGetExtension(full) == we, "extension of %s is {%s}, not {%s}", full.c_str(), d::pathGetExtension(full).c_str(), we.c_str()); VP_CHECK(d::pathRemoveExtension(full) == wr, "%s without extension is {%s}, not {%s}", full.c_str(), d::pathRemoveExtension(full).c_str(), wr.c_str()); VP_CHECK(d::getPathDir(full) == (nd ? dir : ""), "directory of %s is {%s}, not {%s}", full.c_str(), d::getPathDir(full).c_str(), dir.c_str()); }
  Dir D; string f = D.at("f" + word(c, "ab", 0, 3)), t; if (c.chance(1, 10)) { vector<char> v; vector<float> a; VP_CHECK(!d::isFileExists(f) && !d::GetFileContents(v, f) && !d::ReadParam(a, f) && d::LoadFile(f).empty(), "a missing file"); c.label("missing"); return; }
  if (c.flip()) { int n = c.range(0, 300); for (int i = 0; i < n; ++i) t += (char) c.range(0, 255); spill(f, t); vector<char> v{'x'}; VP_CHECK(d::GetFileContents(v, f) && v.size() == t.size() + 1 && v.back() == 0 && memcmp(v.data(), t.data(), t.size()) == 0, "contents of %zu bytes", t.size()); VP_CHECK(d::isFileExists(f) && d::LoadFile(f) == t, "loaded text of %zu bytes", t.size()); c.label("bytes"); }
  else { int n = c.range(0, 9); vector<float> w, g{1, 2}; for (int i = 0; i < n; ++i) { float v = (float) (c.logreal(1e-6, 1e6) * (c.flip() ? 1 : -1)); char b[64]; snprintf(b, 64, c.flip() ? "%.9g" : "%.9e", v); t += string(i ? c.range(1, 2) : c.range(0, 2), c.pick({' ', '\n', '\t'})) + b; w.push_back(v); } if (c.flip()) t += "\n"; bool bad = c.chance(1, 6); if (bad) t += string(n ? " " : "") + "xyz 3"; spill(f, t); VP_CHECK(d::ReadParam(g, f), "not read"); VP_CHECK(g.size() == w.size(), "%zu parameters, not %zu, in {%s}", g.size(), w.size(), t.c_str()); for (int i = 0; i < n; ++i) VP_CHECK(g[i] == w[i], "parameter %d", i); c.label("parameters"); } }
template<class T> static void npy_case(vp::Case &c, bool two) {
  Dir D; string f = D.at("a.npy"); int n0 = c.range(0, 9), n1 = two ? c.range(0, 9) : 1; vector<T> X(n0 * n1); for (T &x: X) x = (T) (c.logreal(1e-20, 1e20) * (c.flip() ? 1 : -1)); int fault = c.chance(1, 2) ? 0 : c.range(1, 8); string descr = sizeof(T) == 4 ? "<f4" : "<f8", order = "False", shape = two ? std::to_string(n0) + ", " + std::to_string(n1) : std::to_string(n0) + ","; if (fault == 1) descr = c.pick({"<i4", ">f4", "<i8", ">f8", "<c8"}); if (fault == 2) order = "True"; if (fault == 3) shape = two ? std::to_string(n0) + "," : std::to_string(n0) + ", 2"; if (fault == 4) shape = "2, 3, 4"; if (fault == 8) descr = sizeof(T) == 4 ? "<f8" : "<f4";
  string e[3] = {"'descr': '" + descr + "'", "'fortran_order': " + order, "'shape': (" + shape + ")"}; if (c.chance(1, 4)) c.shuffle(e, e + 3); string h = "{" + e[0] + ", " + e[1] + ", " + e[2] + (c.flip() ? ", }" : "}"); size_t len = c.chance(1, 5) ? (size_t) c.range(110, 3000) : ((h.size() + 11 + 63) / 64 * 64 - 10); h.resize(std::max(len, h.size() + 1), ' '); h.back() = '\n';
  string t = "\x93NUMPY"; t += (char) (fault == 5 ? 2 : 1); t += (char) 0; t += (char) (h.size() & 255); t += (char) (h.size() >> 8); t += h; t += string((const char *) X.data(), X.size() * sizeof(T)); if (fault == 6) t[c.range(0, 5)] ^= (char) c.range(1, 255); if (fault == 7) { t.resize((size_t) c.range(0, (int) t.size() - 1)); } spill(f, t); int a = -5, b = -5; vector<T> G{1}; bool r; if constexpr (sizeof(T) == 4) r = two ? d::LoadNumpy_2Dim(a, b, G, f) : d::LoadNumpy_1DimF(a, G, f); else r = d::LoadNumpy_2Dim(a, b, G, f);
  c.label("%s, fault %d", two ? "2D" : "1D", fault); if (fault) { VP_CHECK(!r, "a file with fault %d was accepted: %s", fault, h.c_str()); c.nontrivial(); return; } VP_CHECK(r, "not read: %s", h.c_str()); VP_CHECK(a == n0 && (!two || b == n1), "shape %d %d, not %d %d", a, b, n0, n1); VP_CHECK(G.size() == X.size(), "%zu values", G.size()); for (size_t i = 0; i < X.size(); ++i) VP_CHECK(G[i] == X[i], "value %zu", i); if (X.size() > 1) c.nontrivial(); }
VP_PROP(npy, 8000, 80000, "NumPy files of float and double arrays with headers of every length, entry order and padding are read exactly; wrong type, order, dimension, version, signature and truncated files are refused; non-trivial: two values or a fault") { switch (c.range(0, 2)) { case 0: npy_case<float>(c, false); break; case 1: npy_case<float>(c, true); break; default: npy_case<double>(c, true); } }
VP_PROP(ppm, 8000, 80000, "PPM images, binary and ASCII, with comments and line breaks anywhere in the header, and any separators in ASCII data, are read exactly with rows from the bottom up; other and truncated files are refused; non-trivial: two rows or a fault") {
  Dir D; string f = D.at("a.ppm"); bool bin = c.flip(); int w = c.range(1, 9), h = c.range(1, 9), n = 3 * w * h; vector<unsigned char> X(n), G{1, 2, 3}; for (auto &x: X) x = (unsigned char) (c.chance(1, 4) ? c.pick({0, 10, 13, 32, 35, 255}) : c.range(0, 255)); int fault = c.chance(1, 4) ? c.range(1, 2) : 0; bool com = c.flip(); auto sep = [&]() { string s; for (;;) { s += c.pick({" ", "\n", "\t", "\r\n"}); if (com && c.chance(1, 4)) s += "#" + word(c, "ab 12#", 0, 9) + "\n"; if (c.chance(3, 4)) return s; } };
  string t = bin ? "P6" : "P3"; if (fault == 1) t = bin ? c.pick({"P3", "P5", "X6", "BM"}) : c.pick({"P6", "P2", "X3", "BM"}); if (c.chance(1, 3)) t += "\n" + string(com ? "# comment\n" : "") + std::to_string(w) + " " + std::to_string(h) + "\n255"; else t += sep() + std::to_string(w) + sep() + std::to_string(h) + sep() + "255"; size_t head = t.size(); if (bin) { t += c.pick({"\n", " "}); head = t.size(); t += string(X.begin(), X.end()); } else { for (int i = 0; i < n; ++i) t += sep() + std::to_string(X[i]); head += 1; if (c.flip()) t += "\n"; } if (fault == 2) { size_t e = t.size(); if (!bin) { e = t.find_last_of("0123456789"); while (isdigit(t[e])) --e; } else e = t.size() - 1; size_t k = c.chance(1, 3) ? (size_t) c.range(0, (int) head - 1) : (size_t) c.range((int) head, (int) e); t.resize(std::min(k, e)); }
  spill(f, t); unsigned int uw = 99, uh = 99; int iw = 99, ih = 99; bool r = bin ? d::LoadImage_PPMBinary(f, G, iw, ih) : d::LoadImage_PPMAscii(uw, uh, G, f) == 0; c.label("%s, fault %d", bin ? "binary" : "ascii", fault); if (fault) { VP_CHECK(!r, "a file with fault %d was accepted", fault); c.nontrivial(); return; } VP_CHECK(r, "not read"); if (!bin) { iw = (int) uw; ih = (int) uh; } VP_CHECK(iw == w && ih == h, "%d x %d, not %d x %d", iw, ih, w, h); VP_CHECK((int) G.size() == n, "%zu bytes, not %d", G.size(), n); for (int y = 0; y < h; ++y) for (int x = 0; x < 3 * w; ++x) VP_CHECK(G[(h - 1 - y) * 3 * w + x] == X[y * 3 * w + x], "byte %d of row %d", x, y); if (h > 1) c.nontrivial(); VP_CHECK(!d::LoadImage_PPMBinary(D.at("none"), G, iw, ih) && d::LoadImage_PPMAscii(uw, uh, G, D.at("none")) == 1, "a missing file"); }
