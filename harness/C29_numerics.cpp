// C29: quadrature tables, special functions, random sampling, noise, colours, image filters
// FLAGS: -fsanitize=signed-integer-overflow
// SCALE: 20 400
#include "common.hpp"
#include <iostream>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <array>
#include <cassert>
#include <climits>
#include <cmath>
#include <complex>
#include <cstdlib>
#include <functional>
#include <random>
#include <tuple>
#include <unistd.h>
#include <unordered_map>
#include "delfem2/quadrature.h"
#include "delfem2/specialfuncs.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_tri.h"
#include "delfem2/sampling.h"
#include "delfem2/sampler_lloyd2.h"
#include "delfem2/sampler_trimesh.h"
#include "delfem2/noise.h"
#include "delfem2/color.h"
#include "delfem2/grid3hash.h"
#include "delfem2/img_interpolation.h"
#include "delfem2/cvimggraygrad.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string; using std::array;
namespace {
typedef unsigned int U;
D3 at(const vector<double> &x, size_t i) { return {x[3 * i], x[3 * i + 1], x[3 * i + 2]}; }
double fact(int n) { double r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
// largest deviation allowed for hit counts: eight standard deviations
bool rare(double n, double p, double k) { return std::abs(k - n * p) > 8 * std::sqrt(n * p * (1 - p)) + 8; }
}
VP_PROP(tables, 40000, 200000, "Gauss rules with up to seven points, the Gauss-Kronrod rule and the rules of triangles and tetrahedra integrate every polynomial up to their degree exactly; grid weights are a partition of unity with the right slope; non-trivial: degree above one") {
  { int n = c.range(1, 7); const U *idx = d::kNumIntegrationPoint_GaussianQuadrature; int i0 = (int) idx[n - 1], i1 = (int) idx[n]; VP_CHECK(i1 - i0 == n, "rule of %d points has %d", n, i1 - i0); double co[14], ex = 0, s = 0, mg = 0; int deg = c.range(0, 2 * n - 1); if (deg > 1) c.nontrivial(); for (int k = 0; k <= deg; ++k) { co[k] = c.sym(1); if (k % 2 == 0) ex += 2 * co[k] / (k + 1); mg += std::abs(co[k]); } std::set<double> xs; for (int i = i0; i < i1; ++i) { double x = d::kPositionWeight_GaussianQuadrature<double>[i][0], w = d::kPositionWeight_GaussianQuadrature<double>[i][1], p = 0; xs.insert(x); VP_CHECK(std::abs(x) < 1 && w > 0, "point %d", i); for (int k = deg; k >= 0; --k) p = p * x + co[k]; s += w * p; float xf = d::kPositionWeight_GaussianQuadrature<float>[i][0]; VP_CHECK(std::abs(xf - x) < 1e-7, "float point"); } VP_CHECK((int) xs.size() == n, "repeated points"); VP_CHECK(std::abs(s - ex) < 1e-13 * (1 + 20 * mg), "%d Gauss points, degree %d: %.16g, should be %.16g", n, deg, s, ex); }
  { double co[23], ex = 0, s = 0, mg = 0; int deg = c.range(0, 22); for (int k = 0; k <= deg; ++k) { co[k] = c.sym(1); if (k % 2 == 0) ex += 2 * co[k] / (k + 1); mg += std::abs(co[k]); } for (int i = 0; i < 15; ++i) { double x = d::kPositionWeight_GaussKronrodQuadrature<double>[i][0], w = d::kPositionWeight_GaussKronrodQuadrature<double>[i][1], p = 0; for (int k = deg; k >= 0; --k) p = p * x + co[k]; s += w * p; if (i < 7) VP_CHECK(x == d::kPositionWeight_GaussianQuadrature<double>[21 + i][0], "Kronrod point %d is not the Gauss point", i); } VP_CHECK(std::abs(s - ex) < 1e-13 * (1 + 20 * mg), "Gauss-Kronrod, degree %d: %.16g, should be %.16g", deg, s, ex); }
  { int r = c.range(0, 2), mx[3] = {1, 2, 5}; int n = (int) d::NIntTriGauss[r]; double s = 0, ex = 0, mg = 0; for (int a = 0; a <= mx[r]; ++a) for (int b = 0; a + b <= mx[r]; ++b) { double q = c.sym(1); mg += std::abs(q); ex += q * 2 * fact(a) * fact(b) / fact(a + b + 2); for (int i = 0; i < n; ++i) { auto &p = d::TriGauss<double>[r][i]; s += p[2] * q * std::pow(p[0], a) * std::pow(p[1], b); } } VP_CHECK(std::abs(s - ex) < 3e-9 * (1 + mg), "triangle rule %d: %.12g, should be %.12g", r, s, ex); }
  { int r = c.range(0, 3), mx[4] = {1, 2, 3, 4}; int n = (int) d::NIntTetGauss[r]; double s = 0, ex = 0, mg = 0; for (int a = 0; a <= mx[r]; ++a) for (int b = 0; a + b <= mx[r]; ++b) for (int e = 0; a + b + e <= mx[r]; ++e) { double q = c.sym(1); mg += std::abs(q); ex += q * 6 * fact(a) * fact(b) * fact(e) / fact(a + b + e + 3); for (int i = 0; i < n; ++i) { auto &p = d::TetGauss<double>[r][i]; s += p[3] * q * std::pow(p[0], a) * std::pow(p[1], b) * std::pow(p[2], e); } } VP_CHECK(std::abs(s - ex) < 1e-12 * (1 + mg), "tetrahedron rule %d: %.14g, should be %.14g", r, s, ex); }
  { double x = c.pick({c.sym(3), c.sym(1), 0., 1., -1., 2., c.range(-2, 2) + c.sym(1e-9)}), s = 0, e = 1e-6; for (int i = -8; i <= 8; ++i) s += d::WGrid1Cubic(x - i); VP_CHECK(std::abs(s - 1) < 1e-12, "weights at %g sum to %g", x, s); double a = std::abs(x), v = a < 1 ? a * a * a / 2 - a * a + 2. / 3 : a < 2 ? (2 - a) * (2 - a) * (2 - a) / 6 : 0; VP_CHECK(std::abs(d::WGrid1Cubic(x) - v) < 1e-12, "weight at %g", x); VP_CHECK(std::abs(d::dWGrid1Cubic(x) - (d::WGrid1Cubic(x + e) - d::WGrid1Cubic(x - e)) / (2 * e)) < 1e-5, "slope at %g", x); double h = c.uni(0.5, 3), y = c.sym(1), z = c.sym(1); VP_CHECK(std::abs(d::WGrid3Cubic(h, x, y, z) - d::WGrid1Cubic(h * x) * d::WGrid1Cubic(h * y) * d::WGrid1Cubic(h * z)) < 1e-12, "weight in 3D"); VP_CHECK(std::abs(d::dWGrid3Cubic(h, x, y, z) - (d::WGrid3Cubic(h, x + e, y, z) - d::WGrid3Cubic(h, x - e, y, z)) / (2 * e)) < 1e-4, "slope in 3D"); }
  { std::unordered_map<d::GridCoordinate3, int> m; std::map<array<int, 3>, int> r; int n = c.range(0, 30); for (int i = 0; i < n; ++i) { int p[3]; for (auto &q: p) q = c.chance(1, 4) ? c.range(-1000000000, 1000000000) : c.range(-2, 2); m[d::GridCoordinate3(p[0], p[1], p[2])] = i; r[{p[0], p[1], p[2]}] = i; } VP_CHECK(m.size() == r.size(), "hash map has %zu entries, should have %zu", m.size(), r.size()); for (auto &q: r) { auto f = m.find(d::GridCoordinate3(q.first[0], q.first[1], q.first[2])); VP_CHECK(f != m.end() && f->second == q.second, "hash map entry"); } }
}
VP_PROP(special, 40000, 200000, "spherical harmonics to order nine, spherical Hankel functions to order eight, Legendre polynomials to order eight and associated ones to order three against the standard library; nothing written past the order asked; non-trivial: order above one") {
  int n = c.range(0, 9); if (n > 1) c.nontrivial(); double th = c.chance(1, 6) ? c.pick({0., M_PI, M_PI / 2}) : c.uni(0, M_PI), ph = c.chance(1, 6) ? c.pick({0., M_PI / 2, -M_PI / 4}) : c.uni(-M_PI, M_PI);
  vector<double> Y((n + 1) * (n + 1), 1e9); d::makeArray_SphericalHarmonics(Y.data(), n, std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)); bool cs = std::sph_legendre(1, 1, 0.5) < 0; for (int l = 0; l <= n; ++l) for (int m = 0; m <= l; ++m) { double v = std::sph_legendre(l, m, th) * ((m % 2) && !cs ? -1 : 1), re = v * std::cos(m * ph), im = v * std::sin(m * ph); VP_CHECK(std::abs(Y[l * l + l + m] - re) < 1e-8, "Y(%d,%d) at (%g %g): %.12g, should be %.12g", l, m, th, ph, Y[l * l + l + m], re); if (m) VP_CHECK(std::abs(Y[l * l + l - m] - im) < 1e-8, "Y(%d,%d) at (%g %g): %.12g, should be %.12g", l, -m, th, ph, Y[l * l + l - m], im); }
  int k = std::min(n, 8); double x = c.logreal(0.3, 30); vector<std::complex<double>> h(k + 1); d::makeArray_SphericalHankelFirst(k, h.data(), x); for (int i = 0; i <= k; ++i) { std::complex<double> e(std::sph_bessel(i, x), std::sph_neumann(i, x)); double big = std::abs(std::sph_neumann(k, std::min(x, 1.))) * 1e-9; (void) big; VP_CHECK(std::abs(h[i] - e) < 1e-9 * std::abs(e) + 1e-11 / std::pow(std::min(x, 1.), i + 1) * fact(i), "h%d(%g) = %.10g%+.10gi, should be %.10g%+.10gi", i, x, h[i].real(), h[i].imag(), e.real(), e.imag()); }
  double t = c.pick({0., 1., -1., c.sym(1)}); vector<double> P(k + 1, 1e9); d::makeArray_Legendre(k, P.data(), t); for (int i = 0; i <= k; ++i) VP_CHECK(std::abs(P[i] - std::legendre(i, t)) < 1e-12, "P%d(%g) = %.14g, should be %.14g", i, t, P[i], std::legendre(i, t));
  int q = std::min(n, 3); vector<double> A((q + 1) * (q + 1), 1e9); d::makeArrayAssociatedLegendre(q, A.data(), t); bool acs = std::assoc_legendre(1, 1, 0.5) < 0; for (int l = 0; l <= q; ++l) for (int m = 0; m <= l; ++m) { double v = std::assoc_legendre(l, m, t) * ((m % 2) && !acs ? -1 : 1); VP_CHECK(std::abs(A[l * l + l + m] - v) < 1e-11, "P(%d,%d)(%g) = %g, should be %g", l, m, t, A[l * l + l + m], v); VP_CHECK(std::abs(A[l * l + l - m] - (m % 2 ? -v : v)) < 1e-11, "P(%d,%d)(%g)", l, -m, t); }
}
VP_PROP(samples, 4000, 20000, "the 48 bit generator equals erand48; tent, hemisphere and surface samples are in range, follow their maps and hit every part in proportion; Lloyd iteration moves every point to the weighted centre of the pixels nearest to it, for boxes of any size; non-trivial: all") {
  c.nontrivial(); array<unsigned short, 3> s; for (auto &q: s) q = (unsigned short) c.pick({(int) c.below(65536), 0, 65535}); unsigned short r[3] = {s[0], s[1], s[2]}; for (int i = 0; i < 20; ++i) { double a = d::MyERand48<double>(s), b = erand48(r); VP_CHECK(a == b && s[0] == r[0] && s[1] == r[1] && s[2] == r[2], "generator: %.17g, should be %.17g", a, b); VP_CHECK(a >= 0 && a < 1, "generator: %g", a); }
  { auto t = s; double u = 2 * d::MyERand48<double>(t), v = d::SampleTent<double>(s), e = u < 1 ? std::sqrt(u) - 1 : 1 - std::sqrt(2 - u); VP_CHECK(s == t && std::abs(v - e) < 1e-12, "tent sample %g, should be %g", v, e); auto w = d::RandomVec2<double>(s); VP_CHECK(w[0] == d::MyERand48<double>(t) && w[1] == d::MyERand48<double>(t), "random vector"); }
  array<double, 2> v{c.pick({0., 1., c.uni(0, 1)}), c.uni(0, 1)}; auto hu = d::SampleHemisphereZupUniform<double>(v); D3 eu{std::sqrt(std::max(0., 1 - v[0] * v[0])) * std::cos(2 * M_PI * v[1]), std::sqrt(std::max(0., 1 - v[0] * v[0])) * std::sin(2 * M_PI * v[1]), v[0]}, gu{hu[0], hu[1], hu[2]}; VP_CHECK(dist(gu, eu) < 1e-12, "uniform hemisphere"); auto hc = d::SampleHemisphereZupCos<double>(v); D3 ec{std::sqrt(1 - v[0]) * std::cos(2 * M_PI * v[1]), std::sqrt(1 - v[0]) * std::sin(2 * M_PI * v[1]), std::sqrt(v[0])}, gc{hc[0], hc[1], hc[2]}; VP_CHECK(dist(gc, ec) < 1e-7, "cosine hemisphere");
  D3 n = rnd3(c, 1); if (norm(n) < 0.1) n = {0, 0, 1}; if (c.chance(1, 4)) { n = D3{0, 0, 0}; n[c.below(3)] = c.flip() ? 1 : -1; } n = unit(n); auto hn = d::SampleHemisphereNormalCos<d::CVec3d>(d::CVec3d(n.data()), v); D3 gn{hn.x, hn.y, hn.z}; VP_CHECK(std::abs(norm(gn) - 1) < 1e-12 && std::abs(dot(gn, n) - std::sqrt(v[0])) < 1e-7, "hemisphere about a normal");
  { auto v2 = v; v2[1] = v[1] + 0.5 < 1 ? v[1] + 0.5 : v[1] - 0.5; auto ho = d::SampleHemisphereNormalCos<d::CVec3d>(d::CVec3d(n.data()), v2); D3 go{ho.x, ho.y, ho.z}; D3 sum = gn + go, e = 2 * std::sqrt(v[0]) * n; VP_CHECK(dist(sum, e) < 1e-7, "opposite azimuth"); }
  // points on a mesh
  if (c.chance(1, 10)) { Mesh m = anymesh(c, false); vector<double> ar; double tot = 0; bool sel = c.flip(); vector<int> fl(m.nt(), 1); if (sel) { for (auto &f: fl) f = c.flip(); fl[c.below(m.nt())] = 1; } for (U t = 0; t < m.nt(); ++t) { D3 A = at(m.xyz, m.tri[3 * t]); double a = fl[t] ? 0.5 * norm(cross(at(m.xyz, m.tri[3 * t + 1]) - A, at(m.xyz, m.tri[3 * t + 2]) - A)) : 0; ar.push_back(a); tot += a; } if (tot > 1e-6) { vector<double> hit(m.nt(), 0); double m0 = 0, m1 = 0; int N = 2000; unsigned seed = (unsigned) c.bits64();
      auto take = [&](auto &sm) { sm.rndeng.seed(seed); for (int i = 0; i < N; ++i) { auto [t, a, b] = sm.Sample(); VP_CHECK(t < m.nt() && fl[t], "sample on triangle %u", t); VP_CHECK(a >= 0 && b >= 0 && a + b <= 1 + 1e-12, "sample at (%g %g)", a, b); ++hit[t]; m0 += a; m1 += b; } };
      if (sel) { d::RandomSamplingOnMeshTri3Selective sm(m.xyz, m.tri, [&](U t) { return fl[t] != 0; }); take(sm); } else { d::RandomSamplingOnMeshTri3 sm(m.xyz, m.tri); take(sm); }
      for (U t = 0; t < m.nt(); ++t) VP_CHECK(!rare(N, ar[t] / tot, hit[t]), "triangle %u with %g of the area has %g of %d samples", t, ar[t] / tot, hit[t], N); double sd = std::sqrt(N / 18.); VP_CHECK(std::abs(m0 - N / 3.) < 8 * sd && std::abs(m1 - N / 3.) < 8 * sd, "mean coordinates (%g %g), should be a third", m0 / N, m1 / N); } }
  // Lloyd
  { U nd = (U) c.range(1, 12); int np = c.range(1, 8); double S = c.logreal(1e-2, 1e3), lo[2], hi[2]; for (int k = 0; k < 2; ++k) { lo[k] = S * c.sym(2); hi[k] = lo[k] + S * c.uni(0.1, 3); } vector<double> x, D; for (int i = 0; i < np; ++i) for (int k = 0; k < 2; ++k) x.push_back(lo[k] + (hi[k] - lo[k]) * c.uni(0, 1)); bool zero = c.chance(1, 5); for (U i = 0; i < nd * nd; ++i) D.push_back(zero && c.flip() ? 0 : c.uni(0.1, 2)); vector<double> y = x; d::Step_Lloyd2(y, nd, D, lo, hi); vector<double> w(3 * np, 0); bool tie = false; for (U a = 0; a < nd; ++a) for (U b = 0; b < nd; ++b) { double px = lo[0] + (hi[0] - lo[0]) * (b + 0.5) / nd, py = lo[1] + (hi[1] - lo[1]) * (1 - (a + 0.5) / nd); int bi = -1; double b1 = 1e300, b2 = 1e300; for (int i = 0; i < np; ++i) { double q = std::hypot(px - x[2 * i], py - x[2 * i + 1]); if (q < b1) { b2 = b1; b1 = q; bi = i; } else b2 = std::min(b2, q); } if (b2 - b1 < 1e-9 * S) tie = true; double q = D[a * nd + b]; w[3 * bi] += q * px; w[3 * bi + 1] += q * py; w[3 * bi + 2] += q; }
    if (!tie) for (int i = 0; i < np; ++i) { double ex = w[3 * i + 2] > 0 ? w[3 * i] / w[3 * i + 2] : x[2 * i], ey = w[3 * i + 2] > 0 ? w[3 * i + 1] / w[3 * i + 2] : x[2 * i + 1]; VP_CHECK(std::abs(y[2 * i] - ex) < 1e-7 * (S + 1) && std::abs(y[2 * i + 1] - ey) < 1e-7 * (S + 1), "point %d goes to (%g %g), should go to (%g %g)", i, y[2 * i], y[2 * i + 1], ex, ey); } }
}
VP_PROP(noise, 20000, 100000, "gradient noise vanishes at the lattice, is periodic, has no jump and no crease across cells, has the lattice gradient as slope, is bounded; octaves add up; the noise image is made of it; non-trivial: all") {
  c.nontrivial(); int np = c.range(1, 12); vector<int> P(64), Q; for (int i = 0; i < 64; ++i) P[i] = i; c.shuffle(P.begin(), P.end()); Q = P; Q.insert(Q.end(), P.begin(), P.end()); int ng = c.range(1, 8); vector<double> g2, g3; double gm = 0; for (int i = 0; i < ng; ++i) { D3 g = rnd3(c, 1); g2.push_back(g[0]); g2.push_back(g[1]); push(g3, g); gm = std::max(gm, std::abs(g[0]) + std::abs(g[1]) + std::abs(g[2])); }
  auto f2 = [&](double x, double y) { return d::noise_perlin_2d(x, y, np, g2, Q); }; auto f3 = [&](double x, double y, double z) { return d::noise_perlin_3d(x, y, z, np, g3, Q); };
  int I[3]; for (auto &q: I) q = c.range(1, np); double p[3]; for (int k = 0; k < 3; ++k) p[k] = I[k] + c.uni(0, 1); VP_CHECK(std::abs(f2(I[0], I[1])) < 1e-12 && std::abs(f3(I[0], I[1], I[2])) < 1e-12, "noise at a lattice point"); VP_CHECK(std::abs(f2(p[0], p[1]) - f2(p[0] + np, p[1])) < 1e-9 && std::abs(f2(p[0], p[1]) - f2(p[0], p[1] + 2 * np)) < 1e-9 && std::abs(f3(p[0], p[1], p[2]) - f3(p[0], p[1] + np, p[2] + np)) < 1e-9, "noise is not periodic"); VP_CHECK(std::abs(f2(p[0], p[1])) <= 2 * gm && std::abs(f3(p[0], p[1], p[2])) <= 2 * gm, "noise bound");
  // value and slope across the faces of the cells
  double e = 1e-6; for (int k = 0; k < 3; ++k) { auto F = [&](double t) { double q[3] = {p[0], p[1], p[2]}; q[k] = t; return f3(q[0], q[1], q[2]); }; double t = I[k]; VP_CHECK(std::abs(F(t - e) - F(t + e)) < 1e-4 * (1 + gm), "jump of the noise"); double sl = (F(t - e) - F(t - 2 * e)) / e, sr = (F(t + 2 * e) - F(t + e)) / e; VP_CHECK(std::abs(sl - sr) < 1e-3 * (1 + gm), "crease of the 3D noise at %g along %d: slopes %g %g", t, k, sl, sr); }
  for (int k = 0; k < 2; ++k) { auto F = [&](double t) { double q[2] = {p[0], p[1]}; q[k] = t; return f2(q[0], q[1]); }; double t = I[k], sl = (F(t - e) - F(t - 2 * e)) / e, sr = (F(t + 2 * e) - F(t + e)) / e; VP_CHECK(std::abs(sl - sr) < 1e-3 * (1 + gm), "crease of the 2D noise at %g along %d: slopes %g %g", t, k, sl, sr); }
  { int i0 = I[0] % np, j0 = I[1] % np; int ig = Q[Q[i0] + j0] % ng; double gx = (f2(I[0] + e, I[1]) - f2(I[0], I[1])) / e, gy = (f2(I[0], I[1] + e) - f2(I[0], I[1])) / e; VP_CHECK(std::abs(gx - g2[2 * ig]) < 1e-3 && std::abs(gy - g2[2 * ig + 1]) < 1e-3, "slope at the lattice (%g %g), should be (%g %g)", gx, gy, g2[2 * ig], g2[2 * ig + 1]); }
  int oc = c.range(0, 3); double per = c.uni(0.2, 1); double s2 = 0, s3 = 0, mg = 1; for (int o = 0; o < oc; ++o) { double f = 1 << o; s2 += mg * d::noise_perlin_2d(p[0] * f, p[1] * f, (int) (np / 2 + 1) * (1 << o), g2, Q); s3 += mg * d::noise_perlin_3d(p[0] * f, p[1] * f, p[2] * f, (int) (np / 2 + 1) * (1 << o), g3, Q); mg *= per; } VP_CHECK(std::abs(d::noise_perlin_2d_oct(p[0], p[1], np / 2 + 1, oc, per, g2, Q) - s2) < 1e-9 && std::abs(d::noise_perlin_3d_oct(p[0], p[1], p[2], np / 2 + 1, oc, per, g3, Q) - s3) < 1e-9, "octaves");
  if (c.chance(1, 20)) { srand((unsigned) c.below(1000)); U w = (U) c.range(1, 12), h = (U) c.range(1, 12); int rep = c.range(1, 8), no = c.range(1, 3); vector<double> V(3, 9.); d::ComputePerlin(V, w, h, rep, no, 0.5); VP_CHECK(V.size() == w * h, "noise image size"); for (U j = 0; j < h; ++j) for (U i = 0; i < w; ++i) { if ((i * rep) % w == 0 && (j * rep) % h == 0) VP_CHECK(std::abs(V[j * w + i]) < 1e-9, "noise image at a lattice point"); VP_CHECK(std::abs(V[j * w + i]) <= 4, "noise image bound"); } }
}
VP_PROP(images, 20000, 100000, "colours from hue and from maps are the piecewise linear ones, also for equal keys; heat map; bilinear lookup, grey levels and their gradients on images of any size down to one pixel; non-trivial: more than one pixel") {
  { double h = c.pick({0., 1., c.uni(0, 1), c.range(0, 6) / 6.}), s = c.pick({0., 1., c.uni(0, 1)}), v = c.pick({0., 1., c.uni(0, 1)}); double r, g, b; d::GetRGB_HSV(r, g, b, h, s, v); auto k = [&](double n) { double t = std::fmod(n + 6 * h, 6); return v - v * s * std::max(0., std::min({t, 4 - t, 1.})); }; VP_CHECK(std::abs(r - k(5)) < 1e-9 && std::abs(g - k(3)) < 1e-9 && std::abs(b - k(1)) < 1e-9, "hue %g saturation %g value %g: (%g %g %g), should be (%g %g %g)", h, s, v, r, g, b, k(5), k(3), k(1)); float rf, gf, bf; d::GetRGB_HSV(rf, gf, bf, (float) h, (float) s, (float) v); VP_CHECK(std::abs(rf - r) < 1e-5 && std::abs(gf - g) < 1e-5 && std::abs(bf - b) < 1e-5, "float colour"); }
  { double x = c.pick({c.uni(-0.5, 1.5), 0., 0.25, 0.5, 0.75, 1.}), q[3]; d::heatmap(x, q); double t = std::max(0., std::min(1., x)) * 4; static const double ky[5][3] = {{0, 0, 1}, {0, 1, 1}, {0, 1, 0}, {1, 1, 0}, {1, 0, 0}}; int i = std::min(3, (int) t); for (int k = 0; k < 3; ++k) VP_CHECK(std::abs(q[k] - ((1 - t + i) * ky[i][k] + (t - i) * ky[i + 1][k])) < 1e-9, "heat map at %g", x); }
  { vector<std::pair<double, d::CColor>> m; int kind = c.range(0, 4); float mn = (float) c.sym(2), mx = c.chance(1, 4) ? mn : mn + (float) c.uni(0.1, 3); if (kind == 0) d::ColorMap_BlueGrayRed(m, mn, mx); else if (kind == 1) d::ColorMap_BlueCyanGreenYellowRed(m, mn, mx); else if (kind == 2) d::ColorMap_RedYellowGreenCyanBlue(m, mn, mx); else { int n = c.range(0, 5); double t = c.sym(1); for (int i = 0; i < n; ++i) { m.emplace_back(t, d::CColor((float) c.uni(0, 1), (float) c.uni(0, 1), (float) c.uni(0, 1), 1.f)); if (!c.chance(1, 4)) t += c.uni(0.1, 1); } } double x = c.pick({(double) mn, (double) mx, c.sym(4), m.empty() ? 0. : m[c.below(m.size())].first}); auto g = d::getColor(x, m); float got[3] = {g.r, g.g, g.b};
    if (m.empty()) VP_CHECK(g.r == 0 && g.g == 0 && g.b == 0, "empty map"); else { bool step = false; for (size_t i = 1; i < m.size(); ++i) if (m[i].first == m[i - 1].first && x == m[i].first) step = true; float lo[3] = {9, 9, 9}, hi[3] = {-9, -9, -9}; auto put = [&](double r, double gg, double b) { double q[3] = {r, gg, b}; for (int k = 0; k < 3; ++k) { lo[k] = std::min(lo[k], (float) q[k]); hi[k] = std::max(hi[k], (float) q[k]); } }; if (step) { for (auto &q: m) if (q.first == x) put(q.second.r, q.second.g, q.second.b); } else if (x <= m[0].first) put(m[0].second.r, m[0].second.g, m[0].second.b); else if (x >= m.back().first) put(m.back().second.r, m.back().second.g, m.back().second.b); else for (size_t i = 1; i < m.size(); ++i) if (m[i - 1].first <= x && x < m[i].first) { double t = (x - m[i - 1].first) / (m[i].first - m[i - 1].first); auto &a = m[i - 1].second, &b = m[i].second; put((1 - t) * a.r + t * b.r, (1 - t) * a.g + t * b.g, (1 - t) * a.b + t * b.b); } for (int k = 0; k < 3; ++k) VP_CHECK(got[k] >= lo[k] - 1e-5 && got[k] <= hi[k] + 1e-5, "colour %d at %g is %g, should be in %g .. %g", k, x, got[k], lo[k], hi[k]); } }
  { int w = c.range(1, 6), h = c.range(1, 6); vector<unsigned char> im(3 * w * h); for (auto &q: im) q = (unsigned char) c.below(256); if (w * h > 1) c.nontrivial(); double x = c.flip() ? c.range(0, w - 1) : std::min((double) w - 1e-9, c.uni(0, w)), y = c.flip() ? c.range(0, h - 1) : std::min((double) h - 1e-9, c.uni(0, h)), col[3]; d::ImageInterpolation_Bilinear(col, w, h, im.data(), x, y); int i = (int) x, j = (int) y; double a = x - i, b = y - j; for (int k = 0; k < 3; ++k) { auto P = [&](int u, int v) { return im[3 * (std::min(u, w - 1) + w * std::min(v, h - 1)) + k] / 255.; }; double e = (1 - a) * (1 - b) * P(i, j) + a * (1 - b) * P(i + 1, j) + (1 - a) * b * P(i, j + 1) + a * b * P(i + 1, j + 1); VP_CHECK(std::abs(col[k] - e) < 1e-9, "bilinear (%g %g) of %d x %d: %g, should be %g", x, y, w, h, col[k], e); } }
  { int nv = c.range(1, 2), ny = c.range(1, 5), nx = c.range(1, 5); vector<float> im(3 * nv * ny * nx), gr(nv * ny * nx, 9.f), g1(2 * nv * ny * nx, 9.f), g2(2 * nv * ny * nx, 9.f); for (auto &q: im) q = (float) c.uni(0, 1); float co[3] = {(float) c.uni(0, 1), (float) c.uni(0, 1), (float) c.uni(0, 1)}; d::Grayscale(gr.data(), nv, ny, nx, im.data(), co); d::GrayscaleGradientCenter(g1.data(), nv, ny, nx, im.data(), co); d::GrayscaleGradientSobel(g2.data(), nv, ny, nx, im.data(), co);
    for (int v = 0; v < nv; ++v) { auto G = [&](int y, int x) { const float *q = &im[3 * ((v * ny + y) * nx + x)]; return (double) q[0] * co[0] + q[1] * co[1] + q[2] * co[2]; }; auto cl = [](int i, int n) { return std::max(0, std::min(n - 1, i)); }; auto rf = [](int i, int n) { if (n == 1) return 0; return i < 0 ? -i : i >= n ? 2 * n - 2 - i : i; }; auto R = [&](int y, int x) { return G(rf(y, ny), rf(x, nx)); };
      for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) { int id = (v * ny + y) * nx + x; VP_CHECK(std::abs(gr[id] - G(y, x)) < 1e-5, "grey level"); double dx = 0.5 * (G(y, cl(x + 1, nx)) - G(y, cl(x - 1, nx))), dy = 0.5 * (G(cl(y + 1, ny), x) - G(cl(y - 1, ny), x)); VP_CHECK(std::abs(g1[2 * id] - dx) < 1e-5 && std::abs(g1[2 * id + 1] - dy) < 1e-5, "central gradient at %d %d: (%g %g), should be (%g %g)", y, x, g1[2 * id], g1[2 * id + 1], dx, dy);
        double sx = 0, sy = 0; for (int k = -1; k <= 1; ++k) { double q = k ? 1 : 2; sx += q * (R(y + k, x + 1) - R(y + k, x - 1)) / 8; sy += q * (R(y + 1, x + k) - R(y - 1, x + k)) / 8; } VP_CHECK(std::abs(g2[2 * id] - sx) < 1e-5 && std::abs(g2[2 * id + 1] - sy) < 1e-5, "Sobel gradient at %d %d of %d x %d: (%g %g), should be (%g %g)", y, x, ny, nx, g2[2 * id], g2[2 * id + 1], sx, sy); } } }
}
