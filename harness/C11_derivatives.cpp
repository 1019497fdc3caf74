// SCALE: 0.6 0.4
#include "elements.hpp"
using namespace elm;
static void check(vp::Case &c, const El &e) {
  int n = (int) e.x.size(); c.label("%s", e.name.c_str()); Out o = e.eval(e.x); VP_CHECK(std::isfinite(o.W) && (int) o.g.size() == n, "%s: energy %g", e.name.c_str(), o.W);
  double h = 3e-4 * (n == 11 ? std::min(1.0, e.L) : e.L), G = mx(o.g), H = mx(o.H); bool ex = !e.exact || e.exact(e.x); V D(n * n);
  for (int j = 0; j < n; ++j) { double s = h; V w = fd([&](const V &x) { return V{e.eval(x).W}; }, e.x, j, s); double tol = 2e-6 * G + 1e-9 * std::fabs(o.W) / s * 1e-3 + 1e-12; VP_CHECK(std::fabs(w[0] - o.g[j]) <= tol, "%s: gradient %d is %.12g, difference quotient of the energy %.12g (tolerance %.3g)", e.name.c_str(), j, o.g[j], w[0], tol);
    if (!e.hessian || e.residual) continue; V q = fd([&](const V &x) { return e.eval(x).g; }, e.x, j, s); double t2 = 2e-6 * H + 1e-12 * G / s + 1e-12; for (int i = 0; i < n; ++i) D[i * n + j] = o.H[i * n + j] - q[i]; if (ex) for (int i = 0; i < n; ++i) VP_CHECK(std::fabs(q[i] - o.H[i * n + j]) <= t2, "%s: Hessian (%d,%d) is %.12g, difference quotient of the gradient %.12g (tolerance %.3g)", e.name.c_str(), i, j, o.H[i * n + j], q[i], t2); }
  if (e.residual) { vector<V> J; for (int j = 0; j < n; ++j) J.push_back(fd(e.residual, e.x, j, h)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double t = 0; for (size_t k = 0; k < e.gn.size(); ++k) t += e.gn[k] * J[i][k] * J[j][k]; VP_CHECK(std::fabs(t - o.H[i * n + j]) <= 2e-6 * H, "%s: Hessian (%d,%d) is %.12g, that of the squared residuals %.12g", e.name.c_str(), i, j, o.H[i * n + j], t); } }
  if (!ex) { c.label("projected"); VP_CHECK(psd(o.H, n, 1e-9 * H), "%s: projected Hessian is not positive semi-definite", e.name.c_str()); VP_CHECK(psd(D, n, 1e-5 * H), "%s: projected Hessian is below the exact one", e.name.c_str()); }
  c.nontrivial();
}
VP_PROP(elements, 6000, 100000, "spring, planar rod, MIPS, St.Venant-Kirchhoff triangle, quadratic bending hinge, MITC3 and DKT plates, straight-rod hinge, Mooney-Rivlin and compressible hexahedra at each quadrature order, invertible tetrahedron (also inverted), beam, rods and hairs with frames, contact, random shape, state and material: fourth-order difference quotients of energy and gradient equal gradient and Hessian; every instance is non-trivial") { check(c, make(c, c.range(0, NEL - 1))); }
VP_PROP(accumulate, 600, 6000, "functions that add to their outputs (hexahedra, plate): calling them on outputs that hold values adds exactly what they write into zeroed outputs; non-trivial always") {
  c.nontrivial(); double L = 1; V P = hexrest(c, L), U = rpts(c, 24, 0.1); double u[8][3], p[8][3]; fill(u, U); fill(p, P); double c1 = c.uni(0.1, 3), c2 = c.uni(0.1, 3), v[2]; int ig = c.range(0, 3), kind = c.range(0, 1); vector<double> g[2], H[2]; double W[2];
  for (int k = 0; k < 2; ++k) { double off = k ? 1.5 : 0; W[k] = off; v[k] = off; g[k].assign(24, off); H[k].assign(576, off); auto gg = reinterpret_cast<double (*)[3]>(g[k].data()); auto HH = reinterpret_cast<double (*)[8][3][3]>(H[k].data()); if (kind) d::AddWdWddW_Solid3Compression_Hex(W[k], gg, HH, v[k], c1, p, u, ig); else d::AddWdWddW_Solid3HyperMooneyrivlin2Reduced_Hex(W[k], gg, HH, v[k], c1, c2, p, u, ig); }
  VP_NEAR(W[1] - 1.5, W[0], 1e-11 * (1 + std::fabs(W[0]))); VP_NEAR(v[1], v[0], 1e-12 * (1 + v[0])); for (int i = 0; i < 24; ++i) VP_NEAR(g[1][i] - 1.5, g[0][i], 1e-10 * (1 + mx(g[0]))); for (int i = 0; i < 576; ++i) VP_NEAR(H[1][i] - 1.5, H[0][i], 1e-10 * (1 + mx(H[0])));
}
VP_PROP(gauss_newton, 3000, 50000, "rod and hair energies with approximate Hessian, at a shape of zero energy where the approximation is exact: the Hessian equals the difference quotient of the gradient, and away from it the Hessian of the energy with residual removed; frames of a rod: DiffFrameRod and DifDifFrameRod against difference quotients of RodFrameTrans; non-trivial always") {
  c.nontrivial(); double L = c.logreal(1e-1, 1e1), h = 3e-4 * std::min(1.0, L); RodCfg cfg = rodcfg(c, L); double st[3] = {c.uni(0.2, 3), c.uni(0.2, 3), c.uni(0.2, 3)}; V z(11, 0.0); d::CVec3d P[3], S[2]; rodmove(cfg, z, P, S); d::CVec3d rest = d::Darboux_Rod(P, S);
  auto run = [&](const V &x, V *H, V *H2) { d::CVec3d Q[3], T[2], gP[3], HtP[2][3]; double gt[2], Htt[2][2]; d::CMat3d HPP[3][3]; rodmove(cfg, x, Q, T); double w = d::WdWddW_Rod3Approx(gP, gt, HPP, HtP, Htt, st, Q, T, rest); V g{w}; for (int i = 0; i < 9; ++i) g.push_back(gP[i / 3][i % 3]); g.push_back(gt[0]); g.push_back(gt[1]);
    if (H) { H->resize(121); for (int i = 0; i < 11; ++i) for (int j = 0; j < 11; ++j) (*H)[i * 11 + j] = i < 9 && j < 9 ? HPP[i / 3][j / 3](i % 3, j % 3) : i < 9 ? HtP[j - 9][i / 3][i % 3] : j < 9 ? HtP[i - 9][j / 3][j % 3] : Htt[i - 9][j - 9]; }
    if (H2) { double hg[3][4], hH[3][3][4][4]; d::WdWddW_HairApprox(hg, hH, st, Q, T, rest); auto id = [](int k) { return k < 9 ? std::make_pair(k / 3, k % 3) : std::make_pair(k - 9, 3); }; H2->resize(121); for (int i = 0; i < 11; ++i) for (int j = 0; j < 11; ++j) (*H2)[i * 11 + j] = hH[id(i).first][id(j).first][id(i).second][id(j).second]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 4; ++k) VP_CHECK(hH[2][i][3][k] == 0 && hH[i][2][k][3] == 0, "stiffness of the missing third angle"); }
    return g; };
  V H, H2, g = run(z, &H, &H2); VP_CHECK(std::fabs(g[0]) < 1e-20 && mx(g) < 1e-9 / std::min(1.0, L), "energy at rest %g, gradient %g", g[0], mx(g)); double M = mx(H); for (int i = 0; i < 121; ++i) VP_NEAR(H[i], H2[i], 1e-10 * M);
  for (int j = 0; j < 11; ++j) { V q = fd([&](const V &x) { return run(x, nullptr, nullptr); }, z, j, h); for (int i = 0; i < 11; ++i) VP_NEAR(q[i + 1], H[i * 11 + j], 3e-6 * M); }
  D3 S0 = cfg.S[0], v0 = tri_pt(cfg.P, 1) - tri_pt(cfg.P, 0), q3 = rv(c, 1); double l = norm(v0); d::CVec3d Q(q3[0], q3[1], q3[2]), s0(S0[0], S0[1], S0[2]), w0(v0[0], v0[1], v0[2]);
  auto frame = [&](const V &x, d::CVec3d f[3]) { d::RodFrameTrans(f, s0, w0, d::CVec3d(x[0], x[1], x[2]), x[3]); return (w0 + d::CVec3d(x[0], x[1], x[2])).norm(); };
  d::CVec3d F[3]; V x4(4, 0.0); frame(x4, F); for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) VP_NEAR(F[i].dot(F[k]), i == k ? 1.0 : 0.0, 1e-12); VP_NEAR(F[2].dot(F[0].cross(F[1])), 1.0, 1e-12); VP_NEAR((F[0] - s0).norm(), 0.0, 1e-12);
  V far{c.uni(-0.4, 0.4) * l, c.uni(-0.4, 0.4) * l, c.uni(-0.4, 0.4) * l, c.uni(-3, 3)}; d::CVec3d G[3]; frame(far, G); for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) VP_NEAR(G[i].dot(G[k]), i == k ? 1.0 : 0.0, 1e-10);
  auto W = [&](const V &x) { d::CVec3d f[3]; frame(x, f); return V{Q.dot(f[0]), Q.dot(f[1]), Q.dot(f[2])}; };
  auto dW = [&](const V &x) { d::CVec3d f[3], ft[3]; d::CMat3d fv[3]; double len = frame(x, f); d::DiffFrameRod(fv, ft, len, f); V r; for (int k = 0; k < 3; ++k) { d::CVec3d t = Q * fv[k]; for (int m = 0; m < 3; ++m) r.push_back(t[m]); r.push_back(Q.dot(ft[k])); } return r; };
  V D = dW(x4); for (int j = 0; j < 4; ++j) { double s = j < 3 ? 3e-4 * l : 3e-4; V q = fd(W, x4, j, s), r = fd(dW, x4, j, s); for (int k = 0; k < 3; ++k) { VP_NEAR(q[k], D[k * 4 + j], 1e-7 * (1 + 1 / l)); d::CMat3d vv; d::CVec3d vt; double tt; d::DifDifFrameRod(vv, vt, tt, k, l, Q, F); for (int i = 0; i < 4; ++i) { double want = i < 3 ? (j < 3 ? vv(i, j) : vt[i]) : (j < 3 ? vt[j] : tt); VP_NEAR(r[k * 4 + i], want, 1e-6 * (1 + 1 / (l * l))); } } }
}
VP_PROP(sensitivity, 1500, 20000, "St.Venant-Kirchhoff triangle and quadratic bending: the sensitivity versions return the same residual and stiffness as the plain ones and the derivative of the residual with respect to the rest shape; stress and tangent of the planar hyperelastic law are derivatives; non-trivial always") {
  c.nontrivial(); double L = c.logreal(1e-1, 1e1); int kind = c.range(0, 2);
  if (kind == 0) { V C, X; two_tri(c, L, C, X); double la = c.uni(0, 5), mu = c.uni(0.1, 5), p[3][3]; fill(p, X); auto run = [&](const V &R, V *D, V *K) { double P[3][3], H[3][3][3][3], g[3][3], dR[3][3][3][3]; fill(P, R); d::WdWddW_CST_Sensitivity(H, g, dR, la, mu, P, p); if (D) { Out o; pack4<3, 3>(o, &g[0][0], dR); *D = o.H; } if (K) { Out o; pack4<3, 3>(o, &g[0][0], H); *K = o.H; } return V(&g[0][0], &g[0][0] + 9); };
    V D, K, g = run(C, &D, &K); double P[3][3], g2[3][3], H2[3][3][3][3], W; fill(P, C); d::WdWddW_CST(W, g2, H2, P, p, la, mu); Out o; pack4<3, 3>(o, &g2[0][0], H2); double sg = 1; if (dot(D3{g[0], g[1], g[2]}, D3{o.g[0], o.g[1], o.g[2]}) < 0) sg = -1; for (int i = 0; i < 9; ++i) VP_NEAR(sg * g[i], o.g[i], 1e-9 * (mx(o.g) + mx(o.H) * L * 1e-3)); for (int i = 0; i < 81; ++i) VP_NEAR(K[i], o.H[i], 1e-9 * mx(o.H));
    for (int j = 0; j < 9; ++j) { V q = fd([&](const V &R) { return run(R, nullptr, nullptr); }, C, j, 2e-4 * L); for (int i = 0; i < 9; ++i) VP_NEAR(q[i], D[i * 9 + j], 3e-6 * mx(D)); } }
  else if (kind == 1) { V C = hinge(c, L), X = rpts(c, 12, L); double k = c.uni(0.1, 5), p[4][3]; fill(p, X); auto run = [&](const V &R, V *D, V *K) { double P[4][3], H[4][4][3][3], g[4][3], dR[4][4][3][3]; fill(P, R); d::WdWddW_QuadraticBending_Sensitivity(H, g, dR, P, p, k); if (D) { Out o; pack4<4, 3>(o, &g[0][0], dR); *D = o.H; } if (K) { Out o; pack4<4, 3>(o, &g[0][0], H); *K = o.H; } return V(&g[0][0], &g[0][0] + 12); };
    V D, K, g = run(C, &D, &K); double P[4][3], g2[4][3], H2[4][4][3][3], W; fill(P, C); d::WdWddW_Bend(W, g2, H2, P, p, k); Out o; pack4<4, 3>(o, &g2[0][0], H2); for (int i = 0; i < 12; ++i) VP_NEAR(g[i], o.g[i], 1e-9 * (mx(o.g) + mx(o.H) * L)); for (int i = 0; i < 144; ++i) VP_NEAR(K[i], o.H[i], 1e-9 * mx(o.H));
    for (int j = 0; j < 12; ++j) { V q = fd([&](const V &R) { return run(R, nullptr, nullptr); }, C, j, 1e-4 * L); for (int i = 0; i < 12; ++i) VP_NEAR(q[i], D[i * 12 + j], 1e-5 * mx(D)); } }
  else { double c1 = c.uni(0.1, 3), c2 = c.uni(0.1, 3), pr = c.uni(-1, 1), F[2][2]; V x(4); do { for (double &v: x) v = c.uni(-0.35, 0.35); } while ((1 + x[0]) * (1 + x[3]) - x[1] * x[2] < 0.3);
    auto run = [&](const V &y, V *T, double *W) { double u[2][2] = {{y[0], y[1]}, {y[2], y[3]}}, S[2][2], K[2][2][2][2], i1, i2, i3, inv[2][2]; MakeStressConstitute_Hyper2D(c1, c2, u, pr, S, K, i1, i2, i3, inv); if (T) T->assign(&K[0][0][0][0], &K[0][0][0][0] + 16); if (W) *W = c1 * (i1 * std::pow(i3, -1. / 3) - 3) + c2 * (i2 * std::pow(i3, -2. / 3) - 3) + pr * (i3 - 1); return V(&S[0][0], &S[0][0] + 4); };
    V T, S = run(x, &T, nullptr); F[0][0] = 1 + x[0]; F[0][1] = x[1]; F[1][0] = x[2]; F[1][1] = 1 + x[3];
    for (int j = 0; j < 4; ++j) { double dF[2][2] = {}, dE[2][2]; dF[j / 2][j % 2] = 1; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { dE[a][b] = 0; for (int k = 0; k < 2; ++k) dE[a][b] += 0.5 * (dF[k][a] * F[k][b] + F[k][a] * dF[k][b]); }
      V w = fd([&](const V &y) { double e; run(y, nullptr, &e); return V{e}; }, x, j, 1e-4), q = fd([&](const V &y) { return run(y, nullptr, nullptr); }, x, j, 1e-4); double want = 0; for (int a = 0; a < 4; ++a) want += S[a] * dE[a / 2][a % 2]; VP_NEAR(w[0], want, 1e-6 * (1 + mx(S)));
      for (int a = 0; a < 4; ++a) { double t = 0; for (int b = 0; b < 4; ++b) t += T[a * 4 + b] * dE[b / 2][b % 2]; VP_NEAR(q[a], t, 2e-6 * (1 + mx(T))); } } }
  c.label("kind %d", kind);
}
