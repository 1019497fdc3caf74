// C20: real roots of polynomials: Sturm sequences, isolation, bisection, quadratic formula
// SCALE: 10 200
#include "common.hpp"
#include <iostream>
#include <functional>
#include <memory>
#include <stack>
#include <tuple>
#include <cassert>
#include "delfem2/polynomial_root.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string;
namespace {
using LD = long double;
struct Poly { vector<double> a; vector<double> roots; vector<int> mult; bool separated = true; };  // distinct real roots, ascending
// polynomial of degree n from real roots (some in (0,1], some outside, some multiple) and complex pairs
Poly make(vp::Case &c, int n, bool multiple) {
  Poly p; vector<LD> a{1}; int deg = n; LD lead = (c.flip() ? 1 : -1);
  auto mulr = [&](LD r) { vector<LD> b(a.size() + 1, 0); for (size_t i = 0; i < a.size(); ++i) { b[i + 1] += a[i]; b[i] -= r * a[i]; } a = b; };
  vector<std::pair<double, int>> rs; bool grid = c.chance(1, 2);  // on the grid all coefficients are exact
  if (!grid && c.flip()) lead *= c.logreal(1e-6, 1e6); else if (grid) lead *= std::pow(2., (int) c.range(-10, 10));
  auto root = [&]() { for (;;) { double r = grid ? (double) (int) c.range(-8, 16) / 8 : c.chance(2, 3) ? c.real(0, 1) : c.real(-3, 4); bool ok = true; for (auto &x: rs) if (std::fabs(x.first - r) < 0.03) ok = false; if (!grid && (std::fabs(r) < 0.01 || std::fabs(r - 1) < 0.01)) ok = false; if (ok) return r; if (c.chance(1, 20)) return 10. + (double) rs.size(); } };
  while (deg > 0) {
    if (deg >= 2 && c.chance(1, 4)) { LD re = grid ? (double) (int) c.range(-8, 16) / 8 : c.real(-1, 2), im = grid ? (double) (int) c.range(2, 16) / 8 : c.real(0.3, 2); vector<LD> b(a.size() + 2, 0); for (size_t i = 0; i < a.size(); ++i) { b[i + 2] += a[i]; b[i + 1] -= 2 * re * a[i]; b[i] += (re * re + im * im) * a[i]; } a = b; deg -= 2; continue; }
    if (multiple && deg >= 2 && c.chance(1, 2)) { int m = std::min(deg, (int) c.range(2, 3)); double r = root(); for (int k = 0; k < m; ++k) mulr(r); rs.push_back({r, m}); deg -= m; continue; }
    if (c.chance(1, 8)) { deg -= 1; a.push_back(0); continue; }  // lower degree than declared
    double r = root(); mulr(r); rs.push_back({r, 1}); --deg;
  }
  // a has n+1 entries, zero leading coefficients moved to the end
  vector<LD> low; size_t z = 0; (void) z;
  for (LD v: a) p.a.push_back((double) (lead * v));
  while ((int) p.a.size() < n + 1) p.a.push_back(0);
  std::sort(rs.begin(), rs.end()); for (auto &x: rs) { p.roots.push_back(x.first); p.mult.push_back(x.second); }
  return p;
}
double evalref(const vector<double> &a, double x) { LD v = 0; for (size_t i = a.size(); i-- > 0;) v = v * x + a[i]; return (double) v; }

template<int N> void roots_case(vp::Case &c, bool multiple) {
  Poly p = make(c, N - 1, multiple); c.note("coefficients %s roots %s", vp::str(p.a).c_str(), vp::str(p.roots).c_str());
  double x = c.sym(2); double m = 0; for (int i = 0; i < N; ++i) m += std::fabs(p.a[i]) * std::pow(std::fabs(x), i);
  VP_NEAR(d::Eval_Polynomial(x, p.a.data(), N), evalref(p.a, x), 1e-14 * m);
  bool zero = true; for (double v: p.a) if (v != 0) zero = false; if (zero) return;
  int nb = (int) c.range(20, 45); double tol = std::max(2e-7, std::pow(0.5, nb) * 4);
  auto got = d::RootsOfPolynomial<N>(p.a.data(), nb); std::sort(got.begin(), got.end());
  c.note("found %s", vp::str(got).c_str());
  bool edge = false, mult = false; int in = 0;
  for (size_t i = 0; i < p.roots.size(); ++i) { if (p.roots[i] == 0 || p.roots[i] == 1) edge = true; if (p.mult[i] > 1) mult = true; if (p.roots[i] > 0 && p.roots[i] <= 1) ++in; }
  if (in >= 2 || edge || mult) c.nontrivial();
  c.label("%d roots inside%s", in, mult ? ", a multiple root" : edge ? ", root at an end of the range" : "");
  double loose = mult ? 2e-3 : tol;
  for (double g: got) { double e = 1e9; for (double r: p.roots) e = std::min(e, std::fabs(r - g)); VP_CHECK(e <= loose && g >= -1e-12 && g <= 1 + 1e-12, "%.17g is returned, nearest root at distance %g", g, e); }
  for (size_t i = 0; i < p.roots.size(); ++i) {
    double r = p.roots[i]; if (!(r > 0 && r <= 1)) continue;
    if (mult) continue;  // with a multiple root the number of roots is decided by rounding
    int k = 0; for (double g: got) if (std::fabs(g - r) <= loose) ++k;
    if (r == 1) { VP_CHECK(k <= p.mult[i], "root at the end of the range found %d times", k); continue; }
    VP_CHECK(k == 1, "simple root %.17g found %d times", r, k);
  }
}
}
VP_PROP(roots_in_unit_range, 4000, 40000, "polynomials of degree 2 to 5 made from their roots; non-trivial: two or more roots inside, multiple roots or a root at an end of the range") {
  bool multiple = c.chance(1, 4);
  switch (c.below(4)) { case 0: roots_case<3>(c, multiple); break; case 1: roots_case<4>(c, multiple); break; case 2: roots_case<5>(c, multiple); break; default: roots_case<6>(c, multiple); }
}
VP_PROP(arbitrary_coefficients, 4000, 40000, "polynomials with arbitrary (small integer, huge range, nearly multiple roots) coefficients always give finite answers where the sign changes; non-trivial: the polynomial changes sign on the range") {
  double a[6]; int kind = (int) c.below(4); for (double &v: a) v = kind == 0 ? (double) (int) c.range(-3, 3) : kind == 1 ? (c.chance(1, 4) ? 0. : (c.flip() ? 1 : -1) * c.logreal(1e-2, 1)) : kind == 2 ? c.sym(1) * c.logreal(1e-8, 1e8) : 0;
  if (kind == 3) { double r = c.real(0, 1), e = c.logreal(1e-12, 1e-3), s = c.real(0, 1); double rt[5] = {r, r + e, s, c.flip() ? r - e : s + e, c.real(-1, 2)}; vector<LD> b{1}; for (double q: rt) { vector<LD> n(b.size() + 1, 0); for (size_t i = 0; i < b.size(); ++i) { n[i + 1] += b[i]; n[i] -= q * b[i]; } b = n; } for (int i = 0; i < 6; ++i) a[i] = (double) b[i]; }
  bool zero = true; for (double v: a) if (v != 0) zero = false; if (zero) return;
  vector<double> av(a, a + 6); c.note("coefficients %s", vp::str(av).c_str());
  auto got = d::RootsOfPolynomial<6>(a, 50); if (kind >= 2) { for (double g: got) VP_CHECK(g >= -1e-12 && g <= 1 + 1e-12, "root %g is not in the range", g); c.label("only termination and range"); return; }
  VP_CHECK(got.size() <= 5, "%zu roots of a polynomial of degree five", got.size());
  double sc = 0; for (double v: a) sc += std::fabs(v);
  for (double g: got) { VP_CHECK(g >= -1e-12 && g <= 1 + 1e-12, "root %g is not in the range", g); VP_NEAR(evalref(av, g), 0, 1e-9 * sc); }
  // wherever the sign clearly changes between two grid points there is a root
  {
    const int n = 64; double tiny = 1e-9 * sc;
    for (int i = 0; i < n; ++i) {
      double x0 = (double) i / n, x1 = (double) (i + 1) / n, f0 = evalref(av, x0), f1 = evalref(av, x1);
      if (f0 * f1 < 0 && std::fabs(f0) > tiny && std::fabs(f1) > tiny) {
        c.nontrivial(); bool any = false; for (double g: got) if (g >= x0 - 1e-7 && g <= x1 + 1e-7) any = true;
        VP_CHECK(any, "the sign changes between %g and %g but no root is found there", x0, x1);
      }
    }
  }
}
VP_PROP(sturm_numbers, 4000, 40000, "the difference of Sturm numbers counts the distinct roots in any interval, specialised sequences agree; non-trivial: at least one root in the interval") {
  Poly p = make(c, 3, false); double lo = c.real(-4, 5), hi = c.real(-4, 5); if (lo > hi) std::swap(lo, hi);
  for (double r: p.roots) if (std::fabs(r - lo) < 1e-3 || std::fabs(r - hi) < 1e-3) return;
  bool zero = true; for (double v: p.a) if (v != 0) zero = false; if (zero) return;
  int want = 0; for (double r: p.roots) if (r > lo && r <= hi) ++want; if (want) c.nontrivial();
  c.note("coefficients %s roots %s range %g %g", vp::str(p.a).c_str(), vp::str(p.roots).c_str(), lo, hi);
  double s[4][4]; d::SturmSequenceOfPolynomial<4>(s, p.a.data());
  VP_CHECK(d::SturmNumber<4>(lo, s) - d::SturmNumber<4>(hi, s) == want, "generic sequence counts %d roots, there are %d", d::SturmNumber<4>(lo, s) - d::SturmNumber<4>(hi, s), want);
  auto iv = d::RootInterval_SturmSequence<4>(lo, hi, s); VP_CHECK((int) iv.size() == want, "%zu intervals for %d roots", iv.size(), want);
  for (auto &v: iv) { int k = 0; for (double r: p.roots) if (r > v.first - 1e-12 && r <= v.second + 1e-12) ++k; VP_CHECK(k >= 1 && k <= 1 + (int) std::count_if(p.roots.begin(), p.roots.end(), [&](double r) { return std::fabs(r - v.first) < 1e-12 || std::fabs(r - v.second) < 1e-12; }) && v.first >= lo && v.second <= hi, "interval %.17g %.17g holds %d roots", v.first, v.second, k); }
  if (p.a[3] != 0) {
    double s3[4][4] = {}; d::SturmSequenceOfPolynomial_Cubic(s3, p.a.data());
    VP_CHECK(d::SturmNumber<4>(lo, s3) - d::SturmNumber<4>(hi, s3) == want, "cubic sequence counts %d roots, there are %d", d::SturmNumber<4>(lo, s3) - d::SturmNumber<4>(hi, s3), want);
  }
  // quadratics: sequence, formula and bracketing
  Poly q = make(c, 2, false); if (q.a[2] == 0 && q.a[1] == 0) return;
  int wq = 0; for (double r: q.roots) { if (std::fabs(r - lo) < 1e-3 || std::fabs(r - hi) < 1e-3) return; if (r > lo && r <= hi) ++wq; }
  c.note("quadratic %s roots %s", vp::str(q.a).c_str(), vp::str(q.roots).c_str());
  if (q.a[2] != 0) { double s2[3][3] = {}; d::SturmSequenceOfPolynomial_Quadratic(s2, q.a.data()); VP_CHECK(d::SturmNumber<3>(lo, s2) - d::SturmNumber<3>(hi, s2) == wq, "quadratic sequence counts %d roots, there are %d", d::SturmNumber<3>(lo, s2) - d::SturmNumber<3>(hi, s2), wq); }
  auto rr = d::RootsInRange_QuadraticPolynomial(lo, hi, q.a[2], q.a[1], q.a[0]); std::sort(rr.begin(), rr.end());
  VP_CHECK((int) rr.size() == wq, "%zu roots of the quadratic in the range, there are %d", rr.size(), wq);
  for (double r: rr) { double e = 1e9; for (double t: q.roots) e = std::min(e, std::fabs(t - r)); VP_NEAR(e, 0, 1e-12); }
  // nearly linear quadratic: root close to -c/b, accurate
  double A = c.sym(1) * c.logreal(1e-16, 1e-6), B = c.flip() ? 1 : -1, r0 = c.real(0.05, 0.95); double C = -(A * r0 * r0 + B * r0);
  auto nl = d::RootsInRange_QuadraticPolynomial(0., 1., A, B, C); VP_CHECK(nl.size() == 1, "%zu roots of a nearly linear quadratic", nl.size()); VP_NEAR(nl[0], r0, 1e-12);
  for (size_t i = 0; i < p.roots.size(); ++i) {
    double r = p.roots[i], l = i ? (r + p.roots[i - 1]) / 2 : r - 1, h = i + 1 < p.roots.size() ? (r + p.roots[i + 1]) / 2 : r + 1;
    if (c.chance(1, 4)) { if (c.flip()) l = r; else h = r; c.label("bracket ends at the root"); }
    if (evalref(p.a, l) * evalref(p.a, h) > 0 || d::Eval_Polynomial(l, p.a.data(), 4) * d::Eval_Polynomial(h, p.a.data(), 4) > 0) continue;
    VP_NEAR(d::RootInInterval_Bisection(l, h, p.a.data(), 4, 45), r, 1e-9);
  }
}
