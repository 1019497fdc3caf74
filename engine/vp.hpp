// Small property-based-testing engine: choice-sequence generators (every random decision is a recorded,
// replayable, shrinkable integer), forked workers (a crash, sanitizer report or hang of the code under test is a
// failing case, not a lost run), integrated shrinking, labels, samples.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <functional>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <array>

namespace vp {

struct Discard {};
struct Fail { std::string msg; };

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

class Case {
 public:
  // ---- choice stream
  uint64_t below(uint64_t n) {  // uniform in [0,n); shrinks to 0
    if (n <= 1) return 0;
    uint64_t v;
    if (replay) {
      v = pos < nreplay ? replay[pos] : 0;
      if (v >= n) v = v % n;
    } else {
      s += 0x9e3779b97f4a7c15ull;
      uint64_t z = mix64(s);
      v = (uint64_t)(((unsigned __int128) z * n) >> 64);
    }
    ++pos;
    if (rec && nrec < maxrec) { rec[nrec++] = v; if (mirror) *mirror = nrec; }
    hash = mix64(hash ^ v) + n;
    return v;
  }
  int range(int lo, int hi) { return lo + (int) below((uint64_t) ((int64_t) hi - lo + 1)); }
  bool flip() { return below(2) != 0; }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }  // shrinks to false
  template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template<class T, size_t N> const T &pick(const T (&v)[N]) { return v[below(N)]; }
  // uniform real in [lo,hi], 2^40 steps
  double uni(double lo, double hi) {
    const uint64_t N = 1ull << 40;
    return lo + (hi - lo) * ((double) below(N + 1) / (double) N);
  }
  // symmetric around zero: magnitude first, so that it shrinks to 0
  double sym(double a) {
    double m = uni(0, a);
    return flip() ? -m : m;
  }
  // lattice value lo + k*step, k in [0,n]
  double lattice(double lo, double step, unsigned n) { return lo + step * (double) below(n + 1); }
  // mixture of lattice and uniform values in [lo,hi]: exact ties and degeneracies do occur
  double real(double lo, double hi) {
    if (below(4) == 0) return lo + (hi - lo) * ((double) below(9) / 8.0);
    return uni(lo, hi);
  }
  double logreal(double lo, double hi) { return std::exp(uni(std::log(lo), std::log(hi))); }
  double gauss() {  // approx normal
    double x = 0;
    for (int i = 0; i < 6; ++i) x += uni(-1, 1);
    return x * 0.7071;
  }
  template<class It> void shuffle(It b, It e) {
    auto n = e - b;
    for (auto i = n - 1; i > 0; --i) { auto j = (decltype(i)) below((uint64_t) i + 1); std::swap(b[i], b[j]); }
  }
  uint64_t bits64() { return below(1ull << 32) << 32 | below(1ull << 32); }
  // ---- bookkeeping
  void nontrivial(bool b = true) { if (b) is_nontrivial = true; }
  void label(const char *fmt, ...);
  [[noreturn]] void discard() { throw Discard{}; }
  void assume(bool b) { if (!b) throw Discard{}; }
  bool verbose = false;
  std::string notes;
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  // ---- internals
  const uint64_t *replay = nullptr;
  size_t nreplay = 0, pos = 0;
  uint64_t *rec = nullptr;
  size_t nrec = 0, maxrec = 0;
  size_t *mirror = nullptr;  // survives a crash of the case
  uint64_t s = 0, hash = 0x1234567;
  bool is_nontrivial = false;
};

struct Prop {
  const char *name;
  long quick, thorough;
  void (*fn)(Case &);
  const char *desc;   // what is generated, compared and what counts as non-trivial
  double cpu_limit;   // CPU seconds per case before it counts as non-terminating
};
std::vector<Prop> &registry();
struct Reg { Reg(const Prop &p) { registry().push_back(p); } };

#define VP_PROP(NAME, QUICK, THOROUGH, DESC) VP_PROP_T(NAME, QUICK, THOROUGH, 20.0, DESC)
#define VP_PROP_T(NAME, QUICK, THOROUGH, CPU, DESC) \
  static void vp_fn_##NAME(vp::Case &); \
  static vp::Reg vp_reg_##NAME(vp::Prop{#NAME, QUICK, THOROUGH, vp_fn_##NAME, DESC, CPU}); \
  static void vp_fn_##NAME(vp::Case &c)

#define VP_CHECK(COND, ...) do { if (!(COND)) c.fail(#COND " | " __VA_ARGS__); } while (0)

inline bool finite(double x) { return std::isfinite(x); }
inline bool close(double a, double b, double abs, double rel) {
  if (!std::isfinite(a) || !std::isfinite(b)) return false;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
#define VP_NEAR(A, B, TOL) do { double vp_a = (A), vp_b = (B), vp_t = (TOL); \
  if (!(std::fabs(vp_a - vp_b) <= vp_t)) c.fail("%s = %.17g vs %s = %.17g, |diff| %.3g > tol %.3g (line %d)", #A, vp_a, #B, vp_b, std::fabs(vp_a - vp_b), vp_t, __LINE__); } while (0)

template<class T> std::string str(const std::vector<T> &v, size_t maxn = 200) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t i = 0; i < v.size() && i < maxn; ++i) o << (i ? "," : "") << v[i];
  if (v.size() > maxn) o << ",...";
  o << "]";
  return o.str();
}
}  // namespace vp
