// Planar polygons with holes: generators and reference predicates.
#pragma once
#include "common.hpp"
namespace ref {
using Loops = vector<vector<double>>;
inline double loop_area(const vector<double> &l) { double a = 0; size_t n = l.size() / 2; for (size_t i = 0; i < n; ++i) a += 0.5 * cross(P2(l, (uint) i), P2(l, (uint) ((i + 1) % n))); return a; }
inline double segdist(D2 a, D2 b, D2 e, D2 f) {
  double s0 = area2(a, b, e), s1 = area2(a, b, f), t0 = area2(e, f, a), t1 = area2(e, f, b); if (s0 * s1 < 0 && t0 * t1 < 0) return 0;
  return std::min(std::min(dist(e, near_seg(e, a, b)), dist(f, near_seg(f, a, b))), std::min(dist(a, near_seg(a, e, f)), dist(b, near_seg(b, e, f))));
}
// smallest distance between two features of the loops that are not incident
inline double feature(const Loops &L) {
  double m = 1e9; struct S { D2 a, b; size_t l, i, n; }; vector<S> s;
  for (size_t l = 0; l < L.size(); ++l) { size_t n = L[l].size() / 2; for (size_t i = 0; i < n; ++i) s.push_back({P2(L[l], (uint) i), P2(L[l], (uint) ((i + 1) % n)), l, i, n}); }
  for (size_t x = 0; x < s.size(); ++x) { m = std::min(m, dist(s[x].a, s[x].b)); for (size_t y = x + 1; y < s.size(); ++y) {
    bool adj = s[x].l == s[y].l && ((s[x].i + 1) % s[x].n == s[y].i || (s[y].i + 1) % s[y].n == s[x].i);
    if (!adj) m = std::min(m, segdist(s[x].a, s[x].b, s[y].a, s[y].b));
    else { bool fwd = (s[x].i + 1) % s[x].n == s[y].i; const S &p = fwd ? s[x] : s[y], &q = fwd ? s[y] : s[x]; m = std::min(m, dist(p.a, near_seg(p.a, q.a, q.b))); m = std::min(m, dist(q.b, near_seg(q.b, p.a, p.b))); }
  } }
  return m;
}
inline bool inside(const vector<double> &l, D2 p) { double w = 0; size_t n = l.size() / 2; for (size_t i = 0; i < n; ++i) { D2 a = P2(l, (uint) i) - p, b = P2(l, (uint) ((i + 1) % n)) - p; w += std::atan2(cross(a, b), dot(a, b)); } return std::abs(w) > M_PI; }
inline vector<double> starloop(vp::Case &c, int n, D2 o, double rmin, double rmax) { vector<double> l; for (int i = 0; i < n; ++i) { double t = 2 * M_PI * (i + c.uni(0, 0.8)) / n, r = c.uni(rmin, rmax); l.push_back(o[0] + r * cos(t)); l.push_back(o[1] + r * sin(t)); } return l; }
inline vector<double> polyloop(vp::Case &c) {
  int k = c.range(0, 3);
  if (k == 0) return starloop(c, c.range(3, 12), {0, 0}, 0.3, 1.5);
  if (k == 1) { double w = c.uni(0.5, 2), h = c.uni(0.5, 2); return {-w, -h, w, -h, w, h, -w, h}; }
  if (k == 2) { // comb: teeth of different depth
    int n = c.range(1, 4); vector<double> l{-1.5, -1, 1.5, -1}; double dx = 3.0 / (2 * n + 1); for (int i = 2 * n + 1; i-- > 0;) { double y = i % 2 ? c.uni(-0.8, 0.6) : c.uni(0.7, 1.2); l.push_back(-1.5 + dx * (i + 1)); l.push_back(y); l.push_back(-1.5 + dx * i); l.push_back(y); } return l; }
  // untangled random polygon: 2-opt on a random order of points
  int n = c.range(4, 11); vector<D2> p; for (int i = 0; i < n; ++i) p.push_back({c.sym(1.5), c.sym(1.5)});
  for (int it = 0; it < 200; ++it) { bool ch = false; for (int i = 0; i < n && !ch; ++i) for (int j = i + 1; j < n && !ch; ++j) { double o = dist(p[i], p[(i + 1) % n]) + dist(p[j], p[(j + 1) % n]), e = dist(p[i], p[j]) + dist(p[(i + 1) % n], p[(j + 1) % n]); if (e < o - 1e-9) { std::reverse(p.begin() + i + 1, p.begin() + j + 1); ch = true; } } if (!ch) break; }
  vector<double> l; for (auto &q: p) { l.push_back(q[0]); l.push_back(q[1]); } return l;
}
inline vector<double> reversed(const vector<double> &l) { vector<double> r; for (size_t i = l.size() / 2; i-- > 0;) { r.push_back(l[i * 2]); r.push_back(l[i * 2 + 1]); } return r; }
inline Loops region(vp::Case &c, double minfeat) {
  Loops L{polyloop(c)}; int nh = c.range(0, 3);
  for (int h = 0; h < nh; ++h) { D2 o{c.sym(1.2), c.sym(1.2)}; double r = c.uni(0.08, 0.5); Loops T = L; T.push_back(c.flip() ? starloop(c, c.range(3, 6), o, r * 0.4, r) : vector<double>{o[0] - r, o[1] - r, o[0] + r, o[1] - r, o[0] + r, o[1] + r, o[0] - r, o[1] + r});
    bool ok = feature(T) > minfeat && inside(L[0], P2(T.back(), 0)); for (size_t k = 1; k < L.size(); ++k) if (inside(L[k], P2(T.back(), 0)) || inside(T.back(), P2(L[k], 0))) ok = false; if (ok) L = T; }
  c.assume(feature(L) > minfeat); for (auto &l: L) if (c.flip()) l = reversed(l); return L;
}
}  // namespace ref
