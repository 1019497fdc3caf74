// SCALE: 2 8
#include "common.hpp"
#include <functional>
#include <iostream>
#include "delfem2/lp.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string;
typedef long double LD;
struct Row { vector<double> a; double b; int t; }; // t: 0 <=, 1 >=, 2 ==
struct Prog { int n = 0; vector<Row> r; };
// exhaustive reference: every vertex of { x >= 0, rows } is the solution of n tight independent constraints
struct Best { bool feasible = false; LD best = -1e300L; bool sharp = true; };
static bool solven(vector<LD> A, vector<LD> y, int n, vector<LD> &x, LD tiny) {
  for (int k = 0; k < n; ++k) { int p = k; for (int i = k + 1; i < n; ++i) if (std::fabs(A[i * n + k]) > std::fabs(A[p * n + k])) p = i; if (std::fabs(A[p * n + k]) < tiny) return false; for (int j = 0; j < n; ++j) std::swap(A[k * n + j], A[p * n + j]); std::swap(y[k], y[p]); for (int i = 0; i < n; ++i) if (i != k) { LD f = A[i * n + k] / A[k * n + k]; for (int j = k; j < n; ++j) A[i * n + j] -= f * A[k * n + j]; y[i] -= f * y[k]; } }
  x.resize(n); for (int k = 0; k < n; ++k) x[k] = y[k] / A[k * n + k]; return true; }
static Best exhaustive(const Prog &P, const vector<double> &w, LD tol) {
  int n = P.n, m = (int) P.r.size(); Best o; vector<int> pick; vector<int> eq; for (int i = 0; i < m; ++i) if (P.r[i].t == 2) eq.push_back(i);
  vector<int> sel(n); std::function<void(int, int)> rec = [&](int k, int from) {
    if (k == n) { vector<LD> A(n * n, 0), y(n, 0), x; for (int i = 0; i < n; ++i) if (sel[i] < m) { for (int j = 0; j < n; ++j) A[i * n + j] = P.r[sel[i]].a[j]; y[i] = P.r[sel[i]].b; } else A[i * n + sel[i] - m] = 1;
      if (!solven(A, y, n, x, 1e-9L)) return; bool ok = true, near = false; for (LD v: x) { ok &= v >= -tol; near |= std::fabs(v) > tol / 100 && std::fabs(v) < 100 * tol; }
      for (auto &r: P.r) { LD s = -(LD) r.b; for (int j = 0; j < n; ++j) s += r.a[j] * x[j]; ok &= r.t == 0 ? s <= tol : r.t == 1 ? s >= -tol : std::fabs(s) <= tol; near |= std::fabs(s) > tol / 100 && std::fabs(s) < 100 * tol; }
      if (near) o.sharp = false; if (!ok) return; o.feasible = true; LD v = 0; for (int j = 0; j < n; ++j) v += w[j] * x[j]; o.best = std::max(o.best, v); return; }
    for (int i = from; i < m + n; ++i) { sel[k] = i; rec(k + 1, i + 1); } };
  rec(0, 0); return o;
}
static Prog gen(vp::Case &c) {
  Prog P; P.n = c.range(1, 4); int m = c.range(1, 5), kind = c.range(0, 3), R = (int) c.pick({1, 2, 5, 9}); double zero = c.pick({0.0, 0.2, 0.5});
  for (int i = 0; i < m; ++i) { Row r; bool any = false; for (int j = 0; j < P.n; ++j) { double v = c.chance((int) (zero * 10), 10) ? 0 : kind == 3 ? c.uni(-R, R) : c.range(-R, R); if (kind == 2) v = std::fabs(v); any |= v != 0; r.a.push_back(v); } if (!any) r.a[c.below(P.n)] = 1; r.b = kind == 3 ? c.uni(-R, 2 * R) : c.range(-R, 2 * R); if (c.chance(1, 8)) r.b = 0; r.t = (int) c.pick({0, 0, 1, 1, 2});
    if (i && c.chance(1, 6)) { int k = c.below(i); double s = c.pick({1, 2, -1, -2}); r = P.r[k]; for (double &v: r.a) v *= s; r.b *= s; if (s < 0 && r.t < 2) r.t = 1 - r.t; if (c.chance(1, 3)) r.b += c.pick({-1, 1}); } // parallel, redundant or contradictory
    P.r.push_back(r); }
  return P;
}
static d::CLinPro::EQ_TYPE ty(int t) { return t == 0 ? d::CLinPro::LE : t == 1 ? d::CLinPro::GE : d::CLinPro::EQ; }
static void add(d::CLinPro &lp, const Row &r, bool trim) { vector<double> a = r.a; if (trim) while (a.size() > 1 && a.back() == 0) a.pop_back(); lp.AddEqn(a, r.b, ty(r.t)); }
static void satisfied(vp::Case &c, const Prog &P, const vector<double> &x, const char *what) {
  VP_CHECK((int) x.size() >= P.n, "%s has %zu values", what, x.size()); LD X = 1; for (double v: x) X = std::max<LD>(X, std::fabs(v));
  for (double v: x) VP_CHECK(v >= -1e-8 * X, "%s: a variable is %.17g", what, v);
  for (auto &r: P.r) { LD s = -(LD) r.b, z = 1; for (int j = 0; j < P.n; ++j) { s += r.a[j] * x[j]; z += std::fabs(r.a[j] * x[j]); } bool ok = r.t == 0 ? s < 1e-8L * z : r.t == 1 ? s > -1e-8L * z : std::fabs(s) < 1e-8L * z; VP_CHECK(ok, "%s violates a constraint by %Lg", what, s); }
}
static string show(const Prog &P) { string o; char w[64]; for (auto &r: P.r) { o += " ["; for (double v: r.a) { snprintf(w, sizeof w, "%.17g ", v); o += w; } snprintf(w, sizeof w, "%s %.17g]", r.t == 0 ? "<=" : r.t == 1 ? ">=" : "=", r.b); o += w; } return o; }
static void check(vp::Case &c, d::CLinPro &lp, const Prog &P, int nobj) {
  c.note("program:%s", show(P).substr(0, 600).c_str()); vector<double> zero(P.n, 0); Best any = exhaustive(P, zero, 1e-9L); c.assume(any.sharp); int lim = 200, it = lim, res = lp.Precomp(it);
  VP_CHECK(res == (any.feasible ? 0 : 3), "Precomp returned %d for %s program%s", res, any.feasible ? "a feasible" : "an infeasible", show(P).c_str()); VP_CHECK(it >= 0 && it < lim, "%d iterations", it); c.label(any.feasible ? "feasible" : "infeasible"); if (!any.feasible) { c.nontrivial(); return; }
  satisfied(c, P, lp.GetValid(), "valid point");
  for (int q = 0; q < nobj; ++q) {
    vector<double> w; for (int j = 0; j < P.n; ++j) w.push_back(c.flip() ? (double) c.range(-5, 5) : c.uni(-5, 5)); Best b = exhaustive(P, w, 1e-9L); if (!b.sharp) continue;
    Prog C = P; for (auto &r: C.r) r.b = 0; C.r.push_back({vector<double>(P.n, 1.0), 1.0, 2}); Best ray = exhaustive(C, w, 1e-9L); bool unb = ray.feasible && ray.best > 1e-9L; if (!ray.sharp || (ray.feasible && std::fabs(ray.best) > 1e-12L && std::fabs(ray.best) < 1e-6L)) continue;
    vector<double> x; double val = 0; it = lim; res = lp.Solve(x, val, it, w); c.note("objective %s result %d value %.17g expected %s %.17Lg", vp::str(w).c_str(), res, val, unb ? "unbounded" : "optimal", b.best); VP_CHECK(it >= 0 && it < lim, "%d iterations", it);
    VP_CHECK(res == (unb ? 2 : 0), "Solve returned %d for %s objective", res, unb ? "an unbounded" : "a bounded"); c.label(unb ? "unbounded" : "optimal"); if (unb) continue; c.nontrivial();
    satisfied(c, P, x, "solution"); LD s = 0; for (int j = 0; j < P.n; ++j) s += w[j] * x[j]; LD z = 1 + std::fabs(b.best); VP_NEAR(val, (double) s, (double) (1e-8L * z)); VP_CHECK(std::fabs(s - b.best) < 1e-7L * z, "objective %.17Lg, best vertex %.17Lg", s, b.best); }
}
VP_PROP(optimum, 30000, 200000, "programs of 1-4 non-negative variables and 1-5 rows (integer or real, sparse, parallel, redundant, contradictory, degenerate) against enumeration of all vertices and of the recession cone: Precomp tells feasibility and its point is valid, Solve tells unbounded or returns a feasible point of the best value, several objectives per program; programs whose feasibility hinges on 1e-7 are skipped; non-trivial: an optimum compared or infeasibility established") {
  Prog P = gen(c); d::CLinPro lp; bool trim = c.chance(1, 4); for (auto &r: P.r) add(lp, r, trim && &r != &P.r[0]); check(c, lp, P, 3);
}
VP_PROP(history, 8000, 60000, "constraints added to a program already prepared and solved, which is then prepared and solved again, two to four times: each answer is that of a program built at once; a limit of iterations that is too small is reported and not taken for an answer; non-trivial as above") {
  Prog P = gen(c), Q = gen(c); d::CLinPro lp; for (auto &r: P.r) add(lp, r, false); check(c, lp, P, 1); int k = c.range(1, 3);
  for (int i = 0; i < k && i < (int) Q.r.size() && P.r.size() < 6; ++i) { Row r = Q.r[i]; r.a.resize(P.n, 0.0); bool any = false; for (double v: r.a) any |= v != 0; if (!any) r.a[0] = 1; P.r.push_back(r); add(lp, r, false); check(c, lp, P, 1); }
  int it = c.range(0, 1), lim = it, res = lp.Precomp(it); VP_CHECK(it <= lim, "%d of %d iterations", it, lim); if (res == 0) { satisfied(c, P, lp.GetValid(), "valid point"); vector<double> x, w; double v; for (int j = 0; j < P.n; ++j) w.push_back(c.range(-3, 3)); it = lim = c.range(0, 2); res = lp.Solve(x, v, it, w); if (res == 0) { Best b = exhaustive(P, w, 1e-9L); if (b.sharp) VP_CHECK(std::fabs(v - b.best) < 1e-7L * (1 + std::fabs(b.best)), "limited iterations: value %.17g, best %.17Lg", v, b.best); } else c.label("limit reported"); }
}
