// C31: skeletons, skinning, pose sensitivities, motion capture files, cage coordinates
// SCALE: 4 60
#include "common.hpp"
#include <iostream>
#include <fstream>
#include <sstream>
#include <filesystem>
#include <algorithm>
#include <functional>
#include <climits>
#include <array>
#include <cassert>
#include <cmath>
#include <unistd.h>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat3.h"
#include "delfem2/mat4.h"
#include "delfem2/quat.h"
#include "delfem2/rig_geo3.h"
#include "delfem2/rig_bvh.h"
#include "delfem2/msh_arrow.h"
#include "delfem2/rig_msh.h"
#include "delfem2/view_vectorx.h"
#include "delfem2/lsitrsol.h"
#include "delfem2/rigopt.h"
#include "delfem2/cagedef.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string; using std::array; namespace fs = std::filesystem;
typedef vector<double> V; typedef unsigned int U;
namespace {
typedef array<double, 16> M4;
M4 eye() { M4 m{}; for (int i = 0; i < 4; ++i) m[5 * i] = 1; return m; }
M4 mm(const M4 &a, const M4 &b) { M4 r{}; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) r[4 * i + j] += a[4 * i + k] * b[4 * k + j]; return r; }
D3 mp(const M4 &a, D3 p) { D3 r; for (int i = 0; i < 3; ++i) r[i] = a[4 * i] * p[0] + a[4 * i + 1] * p[1] + a[4 * i + 2] * p[2] + a[4 * i + 3]; return r; }
M4 tr(D3 t) { M4 m = eye(); for (int i = 0; i < 3; ++i) m[4 * i + 3] = t[i]; return m; }
M4 axang(D3 u, double a) { M4 m = eye(); double s = std::sin(a), k = std::cos(a); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[4 * i + j] = u[i] * u[j] * (1 - k) + (i == j ? k : 0); m[1] -= s * u[2]; m[2] += s * u[1]; m[4] += s * u[2]; m[6] -= s * u[0]; m[8] -= s * u[1]; m[9] += s * u[0]; return m; }
D3 at(const V &x, size_t i) { return {x[3 * i], x[3 * i + 1], x[3 * i + 2]}; }
D3 rp(vp::Case &c, double a) { return {c.sym(a), c.sym(a), c.sym(a)}; }
struct Bone { int p; M4 L; D3 t; D3 u; double a, s; };
D3 dirn(vp::Case &c) { D3 u = rp(c, 1); double n = norm(u); return n < 0.1 ? D3{0, 0, 1} : (1 / n) * u; }
struct Dir { fs::path p; Dir() { p = fs::temp_directory_path() / ("vp_rig_" + std::to_string(getpid())); fs::create_directories(p); } ~Dir() { std::error_code e; fs::remove_all(p, e); } string at(const char *n) const { return (p / n).string(); } };
struct Quiet { std::streambuf *o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
// a random tree of bones at rest, with the joints it was made from
struct Rig { int n; vector<U> par; V J; vector<d::CRigBone> b; Rig(vp::Case &c, int lo = 1) { n = c.range(lo, 9); for (int i = 0; i < n; ++i) { par.push_back(i == 0 ? UINT_MAX : c.chance(1, 12) && lo == 1 ? UINT_MAX : (U) c.range(0, i - 1)); D3 p = rp(c, 2); J.insert(J.end(), p.begin(), p.end()); } d::InitBones_JointPosition(b, n, par.data(), J.data()); }
  vector<M4> pose(vp::Case &c, double big, bool scl) { vector<M4> g; for (int i = 0; i < n; ++i) { D3 u = dirn(c); double a = c.chance(1, 5) ? 0 : c.sym(big); if (a != 0) { double q[4] = {u[0] * std::sin(a / 2), u[1] * std::sin(a / 2), u[2] * std::sin(a / 2), std::cos(a / 2)}; for (int k = 0; k < 4; ++k) b[i].quatRelativeRot[k] = q[k]; } if (scl && c.chance(1, 3)) b[i].scale = c.uni(0.3, 2); if (c.chance(1, 3)) { D3 t = rp(c, 2); b[i].SetTranslation(t[0], t[1], t[2]); } const double *t = b[i].transRelative; M4 S = eye(); for (int k = 0; k < 3; ++k) S[5 * k] = b[i].scale; M4 l = mm(mm(tr({t[0], t[1], t[2]}), axang(u, a)), S); g.push_back(par[i] == UINT_MAX ? l : mm(g[par[i]], l)); } return g; } };
V pts(vp::Case &c, int n, double a) { V x; for (int i = 0; i < n; ++i) { D3 p = rp(c, a); x.insert(x.end(), p.begin(), p.end()); } return x; }
}
VP_PROP(skinning, 30000, 150000, "random bone trees and poses: global matrices vs products of translation, rotation and scale along the chain; blended skin with dense, sparse and four local weights vs its definition; rest pose and rigid motion of the root; making a pose the default keeps joints and skin; joint-centred affine maps; sparsified and transposed weights, weighted points; non-trivial: at least three bones") {
  Rig r(c); int n = r.n; if (n > 2) c.nontrivial(); int np = c.range(1, 8); V X = pts(c, np, 3), W(np * n), Y{7}; for (int i = 0; i < np; ++i) { double s = 0; for (int j = 0; j < n; ++j) s += (W[i * n + j] = c.chance(1, 3) ? 0 : c.uni(0.05, 1)); if (s == 0) s = W[i * n + c.below(n)] = 1; for (int j = 0; j < n; ++j) W[i * n + j] /= s; }
  for (int i = 0; i < n; ++i) { auto p = r.b[i].RootPosition(); VP_CHECK((norm(D3{p[0], p[1], p[2]} - at(r.J, i)) < 1e-12), "rest position of bone %d", i); VP_CHECK(r.b[i].ibone_parent == (int) r.par[i], "parent"); } d::Skinning_LBS(Y, X, r.b, W); for (int i = 0; i < np; ++i) VP_CHECK(norm(at(Y, i) - at(X, i)) < 1e-12, "the rest pose moves point %d", i);
  auto g = r.pose(c, 3, c.flip()); d::UpdateBoneRotTrans(r.b); double sc = 1; for (int i = 0; i < n; ++i) for (int k = 0; k < 16; ++k) { sc = std::max(sc, std::abs(g[i][k])); } for (int i = 0; i < n; ++i) for (int k = 0; k < 16; ++k) VP_NEAR(r.b[i].affmat3Global[k], g[i][k], 1e-11 * sc);
  auto skin = [&](const V &w, int i) { D3 y{0, 0, 0}; for (int j = 0; j < n; ++j) y = y + w[i * n + j] * mp(g[j], at(X, i) - at(r.J, j)); return y; }; auto cmp = [&](const V &y, const char *what) { VP_CHECK(y.size() == X.size(), "%s: size", what); for (int i = 0; i < np; ++i) { D3 e = skin(W, i); VP_CHECK(norm(at(y, i) - e) < 1e-10 * sc * 10, "%s: point %d is (%g %g %g), should be (%g %g %g)", what, i, y[3 * i], y[3 * i + 1], y[3 * i + 2], e[0], e[1], e[2]); } };
  d::Skinning_LBS(Y, X, r.b, W); cmp(Y, "Skinning_LBS"); V sw; vector<U> si; if (c.flip()) { sw.assign(np * n, 3.); si.assign(np * n, 0u); } d::SparsifyMatrixRow(sw, si, W.data(), np, n, 1e-10); size_t ns = sw.size() / np; { size_t mx = 0; for (int i = 0; i < np; ++i) mx = std::max(mx, (size_t) std::count_if(W.begin() + i * n, W.begin() + i * n + n, [](double w) { return w > 1e-10; })); VP_CHECK(sw.size() == mx * np && si.size() == mx * np, "SparsifyMatrixRow: %zu entries per row, should be %zu", ns, mx); }
  for (int i = 0; i < np; ++i) { V w(n, 0.); for (size_t k = 0; k < ns; ++k) { VP_CHECK(si[i * ns + k] < (U) n, "SparsifyMatrixRow: column"); w[si[i * ns + k]] += sw[i * ns + k]; } for (int j = 0; j < n; ++j) VP_NEAR(w[j], W[i * n + j], 1e-14); } V Z(1, 2.); d::SkinningSparse_LBS(Z, X, r.b, sw, si); cmp(Z, "SkinningSparse_LBS");
  { V lw(np * 4, 0.); vector<U> lj(np * 4, 0u); V keep = W; for (int i = 0; i < np; ++i) { double s = 0; for (int j = 0; j < n; ++j) W[i * n + j] = 0; for (int k = 0; k < 4; ++k) if (k == 0 || c.flip()) { lw[4 * i + k] = c.uni(0.1, 2); lj[4 * i + k] = c.below(n); s += lw[4 * i + k]; W[i * n + lj[4 * i + k]] += lw[4 * i + k]; } else lj[4 * i + k] = c.chance(1, 2) ? 0u : (U) c.below(n); for (int j = 0; j < n; ++j) W[i * n + j] /= s; } V y(3 * np, 9.); d::Skinning_LBS_LocalWeight(y.data(), X.data(), np, r.b, lw.data(), lj.data()); cmp(y, "Skinning_LBS_LocalWeight"); W = keep; }
  { V rf; d::Rig_SkinReferncePositionsBoneWeighted(rf, r.b, X, W); V y(3 * np, 0.); for (int i = 0; i < np; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 4; ++l) y[3 * i + k] += g[j][4 * k + l] * rf[(i * n + j) * 4 + l]; cmp(y, "Rig_SkinReferncePositionsBoneWeighted"); }
  { V T, P, Q; d::Transpose_Mat(T, W, np, n); for (int i = 0; i < np; ++i) for (int j = 0; j < n; ++j) VP_CHECK(T[j * np + i] == W[i * n + j], "Transpose_Mat"); d::Points3_WeighttranspPosition(P, W, X); for (int j = 0; j < n; ++j) { D3 e{0, 0, 0}; for (int i = 0; i < np; ++i) e = e + W[i * n + j] * at(X, i); VP_CHECK(norm(at(P, j) - e) < 1e-12, "Points3_WeighttranspPosition"); } V s2; vector<U> i2; if (c.flip()) { s2.assign(np * n, 5.); i2.assign(np * n, 0u); } d::SparsifyMatrixRow(s2, i2, T.data(), n, np, 1e-10); if (!s2.empty()) { d::Points3_WeightsparsePosition(Q, n, s2, i2, X); for (int j = 0; j < n; ++j) VP_CHECK(norm(at(Q, j) - at(P, j)) < 1e-12, "Points3_WeightsparsePosition: point %d", j); } }
  // joint-centred maps of the same rotations, one root
  { vector<int> ip(n); V q, A(16 * n); for (int i = 0; i < n; ++i) { ip[i] = i == 0 ? -1 : r.par[i] == UINT_MAX ? 0 : (int) r.par[i]; q.insert(q.end(), r.b[i].quatRelativeRot, r.b[i].quatRelativeRot + 4); } D3 t = rp(c, 2); d::SetMat4AffineBone_FromJointRelativeRotation(A, t.data(), q, ip, r.J); vector<M4> G; auto qm = [&](int i) { const double *p = q.data() + 4 * i; double s = norm(D3{p[0], p[1], p[2]}); return s < 1e-14 ? eye() : axang((1 / s) * D3{p[0], p[1], p[2]}, 2 * std::atan2(s, p[3])); }; for (int i = 0; i < n; ++i) { D3 j = at(r.J, i); G.push_back(i == 0 ? mm(tr(t), qm(0)) : mm(G[ip[i]], mm(mm(tr(j), qm(i)), tr(-1. * j)))); for (int k = 0; k < 16; ++k) VP_NEAR(A[16 * i + k], G[i][k], 1e-11 * 30); } }
  // the current pose as the default
  bool plain = true; for (auto &b: r.b) plain = plain && b.scale == 1; if (plain) { auto old = r.b; d::SetCurrentBoneRotationAsDefault(r.b); d::Skinning_LBS(Z, X, r.b, W); cmp(Z, "skin after SetCurrentBoneRotationAsDefault"); for (int i = 0; i < n; ++i) { auto p = r.b[i].RootPosition(); VP_CHECK((norm(D3{p[0], p[1], p[2]} - mp(g[i], {0, 0, 0})) < 1e-10 * sc), "joint %d moves when the pose becomes the default", i); const double *q = r.b[i].quatRelativeRot; VP_CHECK(q[0] == 0 && q[1] == 0 && q[2] == 0 && q[3] == 1, "rotation not reset"); } }
  { // octahedra of the bones
    V ox; vector<U> ot; d::Mesh_RigBones_Octahedron(ox, ot, r.b); size_t no = 0; for (int i = 0; i < n; ++i) if (r.par[i] != UINT_MAX && norm(at(r.J, i) - at(r.J, r.par[i])) > 1e-9) no++; if (plain) return; VP_CHECK(ox.size() == no * 18 && ot.size() == no * 24, "octahedra: %zu points", ox.size() / 3); size_t k = 0; for (int i = 0; i < n; ++i) if (r.par[i] != UINT_MAX && norm(at(r.J, i) - at(r.J, r.par[i])) > 1e-9) { D3 a = at(ox, k * 6), e = at(ox, k * 6 + 1), j = mp(g[r.par[i]], {0, 0, 0}), f = mp(g[r.par[i]], at(r.J, i) - at(r.J, r.par[i])); VP_CHECK(norm(a - j) < 1e-5 * sc && norm(e - f) < 1e-5 * sc, "octahedron of bone %d", i); for (int q = 0; q < 8; ++q) for (int m = 0; m < 3; ++m) VP_CHECK(ot[k * 24 + q * 3 + m] >= k * 6 && ot[k * 24 + q * 3 + m] < k * 6 + 6, "octahedron index"); k++; } }
}
VP_PROP(sensitivity, 20000, 100000, "derivatives of bone matrices and of skin points with respect to joint rotations and the root translation vs central differences of the pose; target constraints; one step towards a near target (alone, with any other state of the skeleton) removes most of its distance; non-trivial: at least three bones") {
  Rig r(c, 2); for (int i = 1; i < r.n; ++i) if (norm(at(r.J, i) - at(r.J, r.par[i])) < 1e-3) return; r.pose(c, 2, c.flip()); for (auto &b: r.b) if (b.ibone_parent >= 0 && norm(D3{b.transRelative[0], b.transRelative[1], b.transRelative[2]}) < 1e-3) return; d::UpdateBoneRotTrans(r.b); int n = r.n, ns = 3 * n + 3; if (n > 2) c.nontrivial(); V L{1, 2}; d::Rig_Sensitivity_Skeleton(L, r.b); VP_CHECK((int) L.size() == ns * n * 12, "size");
  auto moved = [&](int is, double h) { auto b = r.b; int ib = is / 3, k = is % 3; if (ib == n) b[0].transRelative[k] += h; else { double dq[4] = {0, 0, 0, std::cos(h / 2)}, q[4]; dq[k] = std::sin(h / 2); d::QuatQuat(q, dq, b[ib].quatRelativeRot); for (int i = 0; i < 4; ++i) b[ib].quatRelativeRot[i] = q[i]; } d::UpdateBoneRotTrans(b); return b; };
  int np = c.range(1, 4), nw = c.range(1, 3); V X = pts(c, np, 3), sw; vector<U> si; for (int i = 0; i < np * nw; ++i) { sw.push_back(c.uni(0, 1)); si.push_back(c.below(n)); } int ip = c.below(np); V dP{4}; d::Sensitivity_RigSkinPoint(dP, ip, X.data() + 3 * ip, r.b, L, nw, sw, si); VP_CHECK((int) dP.size() == 3 * ns, "size");
  double sc = 1; for (auto &b: r.b) for (double v: b.affmat3Global) sc = std::max(sc, std::abs(v)); double h = 1e-4;
  for (int is = 0; is < ns; ++is) { auto a = moved(is, h), b = moved(is, -h); for (int j = 0; j < n; ++j) for (int k = 0; k < 12; ++k) { double e = (a[j].affmat3Global[k] - b[j].affmat3Global[k]) / (2 * h); VP_CHECK(std::abs(L[(is * n + j) * 12 + k] - e) < 1e-6 * sc * 10, "derivative of entry %d of bone %d by parameter %d is %g, should be %g", k, j, is, L[(is * n + j) * 12 + k], e); } D3 e{0, 0, 0}; for (int k = 0; k < nw; ++k) { D3 pa, pb; int j = si[ip * nw + k]; a[j].DeformSkin(pa.data(), X.data() + 3 * ip); b[j].DeformSkin(pb.data(), X.data() + 3 * ip); e = e + (sw[ip * nw + k] / (2 * h)) * (pa - pb); } for (int k = 0; k < 3; ++k) VP_CHECK(std::abs(dP[k * ns + is] - e[k]) < 1e-5 * sc * 10, "derivative of the skin point by parameter %d: %g, should be %g", is, dP[k * ns + is], e[k]); }
  d::CTarget t; t.ib = c.below(n); auto p0 = r.b[t.ib].RootPosition(); t.pos = d::CVec3d(p0[0] + c.sym(0.01), p0[1] + c.sym(0.01), p0[2] + c.sym(1)); V C{0.5}, dC{}; C.clear(); d::Rig_WdW_Target(C, dC, r.b, t, L); VP_CHECK(C.size() == 2 && (int) dC.size() == 2 * ns, "target sizes"); for (int k = 0; k < 2; ++k) { VP_NEAR(C[k], t.pos.p[k] - p0[k], 1e-12 * sc); for (int is = 0; is < ns; ++is) VP_NEAR(dC[k * ns + is], -L[(is * n + t.ib) * 12 + 4 * k + 3], 1e-12 * sc); }
  double before = std::hypot(C[0], C[1]); if (before < 1e-4) return; { Quiet q; d::Solve_MinRigging(r.b, {t}); } auto p1 = r.b[t.ib].RootPosition(); double after = std::hypot(t.pos.x - p1[0], t.pos.y - p1[1]); VP_CHECK(after < 0.1 * before + 1e-6, "the step towards the target leaves %g of %g", after, before); for (auto &b: r.b) { double q = 0; for (double v: b.quatRelativeRot) q += v * v; VP_NEAR(q, 1, 1e-9); }
}
VP_PROP(bvh_file, 6000, 40000, "generated motion capture files (nested joints, any channel order, tabs, blanks, CRLF, blank lines): bones, parents, offsets, channels and frames as written; poses vs own forward kinematics; frames in any order; clearing; bounding box; saving and reading back to the six printed digits; non-trivial: nested joints and rotations") {
  Dir D; Quiet q; bool crlf = c.flip(), tab = c.flip(), blank = c.chance(1, 3); string nl = crlf ? "\r\n" : "\n", s = "HIERARCHY" + nl; struct B { string name; int par; D3 off; vector<int> ch; }; vector<B> b; int depth = 0; auto ind = [&]() { return tab ? string(depth, '\t') : string(2 * depth, ' '); }; auto num = [&](double v) { char t[40]; snprintf(t, sizeof t, "%.6f", v); return std::pair<string, double>(t, std::atof(t)); }; const char *CN[] = {"Xposition", "Yposition", "Zposition", "Xrotation", "Yrotation", "Zrotation"};
  std::function<void(int)> node = [&](int par) { int me = (int) b.size(); bool leaf = par >= 0 && (depth > 4 || me > 12 || c.chance(1, 3)); b.push_back({leaf ? "Site" : "j" + std::to_string(me), par, {}, {}}); s += ind() + (par < 0 ? "ROOT " + b[me].name : leaf ? "End Site" : "JOINT " + b[me].name) + nl + ind() + "{" + nl; depth++; s += ind() + "OFFSET"; for (int k = 0; k < 3; ++k) { auto v = num(par < 0 && c.flip() ? 0 : c.sym(10)); b[me].off[k] = v.second; s += (tab && c.flip() ? "\t" : "  ") + v.first; } s += nl; if (!leaf) { vector<int> o{0, 1, 2}; c.shuffle(o.begin(), o.end()); if (par < 0 || c.chance(1, 6)) { vector<int> p{0, 1, 2}; c.shuffle(p.begin(), p.end()); for (int k: p) b[me].ch.push_back(k); } for (int k: o) b[me].ch.push_back(3 + k); if (c.flip() && b[me].ch.size() == 6) std::rotate(b[me].ch.begin(), b[me].ch.begin() + 3, b[me].ch.end()); s += ind() + "CHANNELS " + std::to_string(b[me].ch.size()); for (int k: b[me].ch) s += string(" ") + CN[k]; s += nl; if (blank && c.chance(1, 3)) s += nl; int nc = c.range(1, 3); for (int i = 0; i < nc; ++i) node(me); } depth--; s += ind() + "}" + nl; }; node(-1); if (blank) s += nl;
  size_t nch = 0; for (auto &x: b) nch += x.ch.size(); int nf = c.range(0, 5); double ft = num(c.uni(0.001, 0.1)).second; s += "MOTION" + nl + "Frames: " + std::to_string(nf) + nl + "Frame Time: " + num(ft).first + nl; V F; for (int f = 0; f < nf; ++f) { for (size_t k = 0; k < nch; ++k) { auto v = num(c.chance(1, 6) ? 0 : c.sym(180)); F.push_back(v.second); s += v.first + (tab ? "\t" : " "); } s += nl; } if (b.size() > 3 && nf) c.nontrivial();
  { std::ofstream o(D.at("a.bvh"), std::ios::binary); o << s; } d::BioVisionHierarchy m; if (c.flip()) { d::BioVisionHierarchy w(D.at("a.bvh")); w.Save(D.at("b.bvh")); m.Open(D.at("b.bvh")); } else m.Open(D.at("a.bvh")); if (c.chance(1, 4)) m.Open(D.at("a.bvh"));
  VP_CHECK(m.bones.size() == b.size() && m.channels.size() == nch && (int) m.nframe == nf && m.frame_channel.size() == F.size(), "sizes: %zu bones %zu channels %zu frames", m.bones.size(), m.channels.size(), m.nframe); VP_NEAR(m.frame_time, ft, 1e-5 * ft); vector<D3> rest; size_t k = 0; for (size_t i = 0; i < b.size(); ++i) { rest.push_back(b[i].par < 0 ? b[i].off : rest[b[i].par] + b[i].off); const auto &o = m.GetBone((U) i); VP_CHECK(o.name == b[i].name && o.ibone_parent == b[i].par, "bone %zu is %s under %d", i, o.name.c_str(), o.ibone_parent); auto p = o.RootPosition(); VP_CHECK((norm(D3{p[0], p[1], p[2]} - rest[i]) < 1e-9), "rest position of bone %zu", i); for (int t = 0; t < 3; ++t) VP_NEAR(o.invBindMat[4 * t + 3], -rest[i][t], 1e-9); for (int h: b[i].ch) { auto &w = m.channels[k++]; VP_CHECK(w.ibone == i && w.iaxis == h % 3 && w.isrot == (h >= 3), "channel %zu", k - 1); } }
  for (size_t i = 0; i < F.size(); ++i) VP_NEAR(m.frame_channel[i], F[i], 6e-6 * std::abs(F[i]));
  auto fk = [&](const double *v) { vector<M4> g; size_t k = 0; for (auto &x: b) { D3 t = x.par < 0 ? D3{0, 0, 0} : x.off; M4 R = eye(); for (int h: x.ch) { double val = v[k++]; if (h < 3) t[h] = val; else { D3 u{0, 0, 0}; u[h - 3] = 1; R = mm(R, axang(u, val * M_PI / 180)); } } M4 l = mm(tr(t), R); g.push_back(x.par < 0 ? l : mm(g[x.par], l)); } return g; };
  for (int it = 0; it < 3; ++it) { int f = nf ? c.range(0, nf) : 0; V v(nch, 0.); if (f < nf && nf) { m.SetFrame(f); for (size_t i = 0; i < nch; ++i) v[i] = m.frame_channel[f * nch + i]; } else { if (it) { auto o = m.bones; m.SetFrame(nf + c.below(3)); for (size_t i = 0; i < b.size(); ++i) for (int e = 0; e < 16; ++e) VP_CHECK(o[i].affmat3Global[e] == m.bones[i].affmat3Global[e], "a frame that does not exist moves the bones"); } m.ClearPose(); } auto g = fk(v.data()); vector<double> bb = m.MinMaxXYZ(), eb{1e300, 1e300, 1e300, -1e300, -1e300, -1e300}; for (size_t i = 0; i < b.size(); ++i) for (int e = 0; e < 16; ++e) { VP_NEAR(m.bones[i].affmat3Global[e], g[i][e], 1e-8); if (e % 4 == 3 && e < 12) { eb[e / 4] = std::min(eb[e / 4], g[i][e]); eb[e / 4 + 3] = std::max(eb[e / 4 + 3], g[i][e]); } } for (int e = 0; e < 6; ++e) VP_NEAR(bb[e], eb[e], 1e-8); }
}
VP_PROP(cage, 20000, 100000, "mean value coordinates of points inside closed triangle cages (tetrahedra, deformed boxes and octahedra, L-shapes) vs their closed form, reproducing points and affine maps of the cage; reduced matrices; planar coordinates reproduce points and linear fields, also in non-convex polygons; non-trivial: the cage is not convex") {
  int kind = c.below(4); V X; vector<U> T; if (kind == 0) { X = {-1, -1, -1, 1, -1, -1, 0, 1, -1, 0, 0, 1}; T = {0, 2, 1, 0, 1, 3, 1, 2, 3, 2, 0, 3}; } else if (kind == 1) { X = {1, 0, 0, -1, 0, 0, 0, 1, 0, 0, -1, 0, 0, 0, 1, 0, 0, -1}; T = {0, 2, 4, 2, 1, 4, 1, 3, 4, 3, 0, 4, 2, 0, 5, 1, 2, 5, 3, 1, 5, 0, 3, 5}; }
  else { vector<array<double, 2>> P = kind == 2 ? vector<array<double, 2>>{{-1, -1}, {1, -1}, {1, 1}, {-1, 1}} : vector<array<double, 2>>{{-1, -1}, {1, -1}, {1, 0}, {0, 0}, {0, 1}, {-1, 1}}; int m = (int) P.size(); for (double z: {-1., 1.}) for (auto &p: P) X.insert(X.end(), {p[0], p[1], z}); for (int i = 0; i < m; ++i) { U a = i, b = (i + 1) % m, e = a + m, f = b + m; T.insert(T.end(), {a, b, f, a, f, e}); } if (m == 4) T.insert(T.end(), {0, 2, 1, 0, 3, 2, 4, 5, 6, 4, 6, 7}); else T.insert(T.end(), {0, 3, 1, 1, 3, 2, 0, 5, 3, 3, 5, 4, 6, 7, 9, 7, 8, 9, 6, 9, 11, 9, 10, 11}); c.nontrivial(); }
  double jit = 0.15; for (double &x: X) x += c.sym(jit); double sc = c.logreal(0.2, 20); auto Rm = rotation(c); D3 o = rp(c, 3); int nv = (int) X.size() / 3, np = c.range(1, 4); auto map = [&](D3 p) { D3 q{0, 0, 0}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) q[i] += sc * Rm[3 * i + j] * p[j]; return q + o; }; V Q; for (int i = 0; i < np; ++i) { D3 p = kind == 0 ? D3{c.sym(0.2), c.uni(-0.5, 0), c.uni(-0.6, -0.2)} : kind == 1 ? rp(c, 0.2) : kind == 2 ? rp(c, 0.75) : D3{c.sym(0.7), c.uni(-0.75, -0.25), c.sym(0.7)}; p = map(p); Q.insert(Q.end(), p.begin(), p.end()); } for (int i = 0; i < nv; ++i) { D3 p = map(at(X, i)); for (int k = 0; k < 3; ++k) X[3 * i + k] = p[k]; }
  auto W = d::ComputeMeanValueCoordinate<d::CVec3d>(Q, X, T); VP_CHECK((int) W.size() == np * nv, "size"); D3 aff = rp(c, 1); double a0 = c.sym(1);
  for (int i = 0; i < np; ++i) { D3 q = at(Q, i); V w(nv, 0.); bool skip = false; for (size_t t = 0; t < T.size() / 3; ++t) { D3 v[3], u[3], nn[3], m{0, 0, 0}; for (int k = 0; k < 3; ++k) { v[k] = at(X, T[3 * t + k]) - q; u[k] = (1 / norm(v[k])) * v[k]; } if (std::abs(dot(u[0], cross(u[1], u[2]))) < 0.02 * sc / std::min(1., sc) && std::abs(dot(u[0], cross(u[1], u[2]))) < 0.05) skip = true; for (int k = 0; k < 3; ++k) { D3 x = cross(u[(k + 1) % 3], u[(k + 2) % 3]); double s = norm(x), th = std::atan2(s, dot(u[(k + 1) % 3], u[(k + 2) % 3])); nn[k] = (1 / s) * x; m = m + (0.5 * th) * nn[k]; } for (int k = 0; k < 3; ++k) w[T[3 * t + k]] += dot(nn[k], m) / dot(nn[k], v[k]); }
    if (skip) continue; double S = 0, E = 0, f = 0; D3 p{0, 0, 0}; for (int j = 0; j < nv; ++j) { S += w[j]; E += W[i * nv + j]; } VP_CHECK(E * S > 0 || std::abs(E) > 0, "weights sum to %g", E); for (int j = 0; j < nv; ++j) { VP_CHECK(std::abs(W[i * nv + j] / E - w[j] / S) < 1e-6, "coordinate %d of point %d is %.9g, should be %.9g", j, i, W[i * nv + j] / E, w[j] / S); p = p + (W[i * nv + j] / E) * at(X, j); f += W[i * nv + j] / E * (a0 + dot(aff, at(X, j))); } VP_CHECK(norm(p - q) < 1e-6 * sc, "the coordinates give (%g %g %g), not the point (%g %g %g)", p[0], p[1], p[2], q[0], q[1], q[2]); VP_NEAR(f, a0 + dot(aff, q), 1e-5 * (sc + 5)); }
  int nd = c.range(1, 4); V D(nd * nv); for (double &x: D) x = c.sym(1); auto R = d::ComputeMeanValueCoordinateReduced<d::CVec3d>(Q, X, T, nd, D); for (int i = 0; i < np; ++i) for (int k = 0; k < nd; ++k) { double e = 0, m = 0; for (int j = 0; j < nv; ++j) { e += D[k * nv + j] * W[i * nv + j]; m += std::abs(W[i * nv + j]); } VP_NEAR(R[i * nd + k], e, 1e-10 * (m + 1)); }
  // planar
  { int n = c.range(3, 8); bool star = c.flip(); V P; double ang = c.uni(0, 6.28); double pc[2] = {c.sym(3), c.sym(3)}; vector<d::CVec2d> PV; V xyw; double gx = c.sym(1), gy = c.sym(1); for (int i = 0; i < n; ++i) { double a = ang + (i + c.sym(0.2)) * 2 * M_PI / n, r = star ? c.uni(0.5, 2) : 1; double x = pc[0] + r * std::cos(a), y = pc[1] + r * std::sin(a); P.insert(P.end(), {x, y}); PV.emplace_back(x, y); xyw.insert(xyw.end(), {x, y, gx * x + gy * y + 0.3}); }
    double px = pc[0] + c.sym(0.1), py = pc[1] + c.sym(0.1); V w(n); d::MeanValueCoordinate_Polygon2<d::CVec2d>(w.data(), px, py, P.data(), n); double s = 0, x = 0, y = 0; for (int i = 0; i < n; ++i) { s += w[i]; x += w[i] * P[2 * i]; y += w[i] * P[2 * i + 1]; } VP_NEAR(s, 1, 1e-9); VP_NEAR(x, px, 1e-8); VP_NEAR(y, py, 1e-8); double f = d::MeanValueCoordinate_Polygon2<d::CVec2d>(xyw, {px, py}); VP_NEAR(f, gx * px + gy * py + 0.3, 1e-8); }
}
