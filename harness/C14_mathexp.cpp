// SCALE: 3 8
#include "common.hpp"
#include "delfem2/parse_math_expression.h"
namespace d = delfem2;
using std::string; using std::vector;
typedef long double LD;
struct Val { LD v = 0, e = 0; bool ok = true; }; // value, error bound, inside the supported domain
static const LD EPS = 4e-16L;
struct Env { std::map<string, double> key; };
// reference reader: sum := term {(+|-) term}; term := fact {(*|/) fact}; fact := sign fact | prim [^ fact]
struct Ref {
  const string &s; const Env &env; size_t p = 0; bool bad = false; int nop = 0, nfun = 0, nsign = 0, depth = 0; string undefined;
  Ref(const string &t, const Env &g) : s(t), env(g) {}
  char at() const { return p < s.size() ? s[p] : 0; }
  static Val fin(LD v, LD e, bool ok) { Val r; r.v = v; r.e = e + EPS * std::fabs(v); r.ok = ok && std::isfinite((double) v) && r.e < 1e-3L * (1 + std::fabs(v)) && std::fabs(v) < 1e60L && (v == 0 || std::fabs(v) > 1e-60L); return r; }
  Val sum() { Val a = term(); while (!bad && (at() == '+' || at() == '-')) { bool m = at() == '-'; ++p; ++nop; Val b = term(); a = fin(m ? a.v - b.v : a.v + b.v, a.e + b.e, a.ok && b.ok); } return a; }
  Val term() { Val a = fact(); while (!bad && (at() == '*' || at() == '/')) { bool q = at() == '/'; ++p; ++nop; Val b = fact(); if (q) { bool ok = std::fabs(b.v) > 1e-9L && b.e < 0.1L * std::fabs(b.v); a = ok ? fin(a.v / b.v, a.e / std::fabs(b.v) + 1.2L * b.e * std::fabs(a.v) / (b.v * b.v), a.ok && b.ok) : fin(0, 0, false); } else a = fin(a.v * b.v, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e, a.ok && b.ok); } return a; }
  Val fact() {
    if (at() == '+' || at() == '-') { bool m = at() == '-'; ++p; ++nsign; Val a = fact(); if (m) a.v = -a.v; return a; }
    Val a = prim(); if (bad || at() != '^') return a; ++p; ++nop; Val b = fact();
    LD v = std::pow(a.v, b.v); bool integer = b.e < 1e-18L && b.v == std::floor(b.v) && std::fabs(b.v) < 20, ok = integer || (a.v > 1e-6L && a.e < 0.1L * a.v); if (integer && b.v < 0 && std::fabs(a.v) < 1e-6L) ok = false;
    LD e = 0; if (ok && v != 0 && a.v != 0) e = std::fabs(v) * (1.3L * a.e / std::fabs(a.v) * std::fabs(b.v) + (integer ? 0 : b.e * std::fabs(std::log(std::fabs(a.v)))) + 8 * EPS); else if (ok) e = a.e;
    return fin(ok ? v : 0, e, ok && a.ok && b.ok && (a.v == 0 || integer == false || a.e < 0.01L * std::fabs(a.v))); }
  Val prim() {
    if (at() == '(') { ++p; ++depth; Val a = sum(); if (bad || at() != ')') { bad = true; return {}; } ++p; return a; }
    string w; while (at() && !strchr("+-*/^()", at())) w += s[p++];
    if (w.empty()) { bad = true; return {}; }
    bool num = true; int dot = 0, dig = 0; for (char ch: w) { if (ch == '.') ++dot; else if (ch >= '0' && ch <= '9') ++dig; else num = false; }
    if (num) { if (dot > 1 || !dig || at() == '(') { bad = true; return {}; } LD v = strtold(w.c_str(), nullptr); if (v > 1e308L) { bad = true; return {}; } return fin(v, 0, true); }
    if (at() == '(') {
      static const vector<string> f{"abs", "floor", "exp", "sin", "cos", "sqrt", "log"}; auto i = std::find(f.begin(), f.end(), w) - f.begin(); if (i == 7) { bad = true; return {}; }
      ++p; ++nfun; ++depth; Val a = sum(); if (bad || at() != ')') { bad = true; return {}; } ++p;
      switch (i) {
        case 0: return fin(std::fabs(a.v), a.e, a.ok);
        case 1: { LD r = a.v - std::floor(a.v); bool exact = a.e <= 2 * EPS * std::fabs(a.v) && r == 0; return fin(std::floor(a.v), 0, a.ok && (exact ? a.e == 0 || std::fabs(a.v) < 1 : r > 2 * a.e + 1e-15L && 1 - r > 2 * a.e + 1e-15L)); }
        case 2: return a.v < 100 ? fin(std::exp(a.v), std::exp(a.v) * (a.e * 1.1L + 2 * EPS), a.ok) : fin(0, 0, false);
        case 3: return fin(std::sin(a.v), a.e + EPS, a.ok); case 4: return fin(std::cos(a.v), a.e + EPS, a.ok);
        case 5: return a.v > 1e-12L && a.e < 0.1L * a.v ? fin(std::sqrt(a.v), a.e / std::sqrt(a.v), a.ok) : fin(0, 0, false);
        default: return a.v > 1e-12L && a.e < 0.1L * a.v ? fin(std::log(a.v), 1.2L * a.e / a.v + EPS, a.ok) : fin(0, 0, false); } }
    if (w == "PI") return fin(3.14159265358979323846L, 4e-15L, true);
    auto k = env.key.find(w); if (k == env.key.end()) { bad = true; undefined = w; return {}; } return fin(k->second, 0, true); }
  Val run() { Val v = sum(); if (p != s.size()) bad = true; return v; }
};
static const vector<string> KEYS{"x", "y", "x2", "alpha", "PIx", "sinx", "ab_s", "t", "e"};
static string fm(const char *f, int a, int b = 0) { char w[64]; snprintf(w, sizeof w, f, a, b); return w; }
static string number(vp::Case &c) {
  switch (c.range(0, 5)) { case 0: return std::to_string(c.range(0, 9)); case 1: return std::to_string(c.range(1, 3)); case 2: return fm("%d.%d", c.range(0, 20), c.range(0, 999)); case 3: return fm(".%d", c.range(1, 99)); case 4: return fm("%d.", c.range(0, 99)); default: return fm("0%d.0%d0", c.range(0, 30), c.range(1, 9)); } }
static string sp(vp::Case &c) { static const char *w[] = {" ", "\n", "\r\n", "  "}; return c.chance(1, 8) ? w[c.below(4)] : ""; }
static string expr(vp::Case &c, int depth, int lvl, const vector<string> &keys); // lvl 0 sum, 1 term, 2 factor, 3 primary
static string expr(vp::Case &c, int depth, int lvl, const vector<string> &keys) {
  string r;
  if (lvl == 0) { int n = depth > 0 ? (int) c.pick({1, 1, 2, 2, 3, 4}) : 1; for (int i = 0; i < n; ++i) { if (i) r += sp(c) + (c.flip() ? "-" : "+") + sp(c); r += expr(c, depth, 1, keys); } return r; }
  if (lvl == 1) { int n = depth > 0 ? (int) c.pick({1, 1, 1, 2, 2, 3, 4}) : 1; for (int i = 0; i < n; ++i) { if (i) r += sp(c) + (c.flip() ? "*" : "/") + sp(c); r += expr(c, depth, 2, keys); } return r; }
  if (lvl == 2) { if (c.chance(1, 6)) return (c.chance(1, 4) ? "+" : "-") + sp(c) + expr(c, depth, 2, keys); r = expr(c, depth, 3, keys); if (depth > 0 && c.chance(1, 5)) r += sp(c) + "^" + sp(c) + (c.chance(2, 3) ? std::to_string(c.range(0, 3)) : expr(c, depth - 1, 2, keys)); return r; }
  int k = depth > 0 ? c.range(0, 5) : c.range(0, 2);
  if (k == 0) return number(c); if (k == 1) return keys.empty() ? number(c) : keys[c.below(keys.size())]; if (k == 2) return c.chance(1, 3) ? "PI" : number(c);
  if (k == 3) { static const char *f[] = {"abs", "floor", "exp", "sin", "cos", "sqrt", "log"}; return f[c.below(7)] + sp(c) + "(" + expr(c, depth - 1, 0, keys) + sp(c) + ")"; }
  return "(" + sp(c) + expr(c, depth - 1, 0, keys) + ")";
}
static string strip(const string &s) { string r; for (char ch: s) if (ch != ' ' && ch != '\n' && ch != '\r') r += ch; return r; }
static void same(vp::Case &c, double got, const Val &w, const string &s) { if (w.ok) VP_CHECK(std::fabs((LD) got - w.v) <= 4 * w.e + 1e-14L * std::fabs(w.v) + 1e-300L, "%s gave %.17g, expected %.17Lg +- %.3Lg", s.c_str(), got, w.v, w.e); }
VP_PROP(value, 30000, 400000, "well-formed text from a random syntax tree, with redundant parentheses, signs, blanks and up to 9 keys: Eval returns the value of an independent recursive-descent evaluator in long double within its propagated error bound, again after each change of a key; IsKeyUsed tells whether the text names the key; non-trivial: at least 3 binary operators or functions and value inside the domain (no division by ~0, no root or logarithm of a non-positive number)") {
  Env env; d::CMathExpressionEvaluator e; vector<string> keys; for (auto &k: KEYS) if (c.flip()) { keys.push_back(k); double v = c.flip() ? c.uni(-3, 3) : (double) c.range(-3, 3); env.key[k] = v; e.SetKey(k, v); }
  string s = expr(c, c.range(0, 4), 0, keys), t = strip(s); c.note("expression: %s", s.substr(0, 400).c_str());
  VP_CHECK(e.SetExp(s), "refused: %s", s.c_str()); Ref r(t, env); Val w = r.run(); VP_CHECK(!r.bad, "reference refused %s", s.c_str());
  same(c, e.Eval(), w, s); if (w.ok && r.nop + r.nfun >= 3) c.nontrivial(); c.label("ops %d", std::min(9, r.nop)); if (r.nsign) c.label("signed"); if (!w.ok) c.label("outside domain");
  for (int k = 0; k < 3 && !keys.empty(); ++k) { const string &n = keys[c.below(keys.size())]; double v = c.uni(-4, 4); env.key[n] = v; e.SetKey(n, v); Ref q(t, env); same(c, e.Eval(), q.run(), s); }
  for (auto &k: KEYS) { bool used = false; string w2; for (size_t i = 0; i <= t.size(); ++i) { if (i < t.size() && !strchr("+-*/^()", t[i])) w2 += t[i]; else { if (w2 == k) used = true; w2.clear(); } } VP_CHECK(e.IsKeyUsed(k) == used, "IsKeyUsed(%s) for %s", k.c_str(), s.c_str()); }
}
static string mutate(vp::Case &c, string s) {
  static const char *tok[] = {"+", "-", "*", "/", "^", "(", ")", "()", "x", "PI", "sin", "sin(", "exp(", "1", ".", "1.2.3", "2e3", "tan(1)", "#", ")(", "--", "**", "y y", "abs", "\t", "1)", ",", "log()", "99999999999999999999999999999999", "_"};
  int n = c.range(1, 3); for (int k = 0; k < n; ++k) { size_t p = c.below(s.size() + 1); int op = c.range(0, 3); if (op == 0) s.insert(p, tok[c.below(30)]); else if (op == 1 && !s.empty()) s.erase(std::min(p, s.size() - 1), 1 + c.below(3)); else if (op == 2 && !s.empty()) s.replace(std::min(p, s.size() - 1), 1, tok[c.below(30)]); else if (!s.empty()) { size_t q = c.below(s.size()); std::swap(s[std::min(p, s.size() - 1)], s[q]); } }
  return s; }
VP_PROP(history, 15000, 200000, "one evaluator used for up to 10 texts in a row, some of them well formed, others damaged by inserted, deleted, replaced or swapped tokens or random bytes, keys added or changed in between: SetExp accepts exactly the texts the reference reader accepts, never crashes, and the value is right afterwards whatever came before; non-trivial: at least one text accepted and one refused") {
  Env env; d::CMathExpressionEvaluator e; int n = c.range(2, 10), acc = 0, rej = 0; bool valid = false; string cur; std::streambuf *o1 = std::cout.rdbuf(nullptr), *o2 = std::cerr.rdbuf(nullptr); struct R { std::streambuf *a, *b; ~R() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } } restore{o1, o2};
  for (int i = 0; i < n; ++i) {
    if (c.flip()) { const string &k = KEYS[c.below(KEYS.size())]; double v = c.uni(-3, 3); e.SetKey(k, v); env.key[k] = v; if (valid) { Ref r(cur, env); same(c, e.Eval(), r.run(), cur); } }
    string s; int kind = c.range(0, 9); if (kind == 9) { int l = c.range(0, 8); static const char *al = "+-*/^()x1.sinPI y"; for (int k = 0; k < l; ++k) s += al[c.below(17)]; } else { s = expr(c, c.range(0, 2), 0, KEYS); if (kind >= 3) s = mutate(c, s); }
    c.note("text %d: %s", i, s.substr(0, 200).c_str()); cur = strip(s); Ref r(cur, env); Val w = r.run(); bool want = !r.bad; valid = e.SetExp(s); VP_CHECK(valid == want, "%s was %s", s.c_str(), valid ? "accepted" : "refused"); if (valid) { same(c, e.Eval(), w, s); ++acc; } else ++rej; }
  if (acc && rej) c.nontrivial(); c.label("accepted %d of %d", acc, n);
}
