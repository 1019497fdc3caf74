// C28: cameras, projections, pixel rays, manipulation handles
// SCALE: 12 250
#include "common.hpp"
#include <iostream>
#include <algorithm>
#include <array>
#include <cassert>
#include <climits>
#include <cmath>
#include <fstream>
#include <unistd.h>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/mat4.h"
#include "delfem2/quat.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/cam_modelview.h"
#include "delfem2/cam_projection.h"
#include "delfem2/cvcamera.h"
#include "delfem2/metashape_camera.h"
#include "delfem2/gizmo_geo3.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_trimesh3_class.h"
namespace d = delfem2; using namespace ref; using std::vector; using std::string; using std::array;
namespace {
typedef unsigned int U; typedef array<double, 16> M4; typedef array<double, 4> D4;
D3 at(const vector<double> &x, size_t i) { return {x[3 * i], x[3 * i + 1], x[3 * i + 2]}; }
template <class T> M4 dbl(const T *m) { M4 r; for (int i = 0; i < 16; ++i) r[i] = m[i]; return r; }
M4 mm(const M4 &a, const M4 &b) { M4 r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double s = 0; for (int k = 0; k < 4; ++k) s += a[4 * i + k] * b[4 * k + j]; r[4 * i + j] = s; } return r; }
D4 mv4(const M4 &a, D3 p) { D4 r; for (int i = 0; i < 4; ++i) r[i] = a[4 * i] * p[0] + a[4 * i + 1] * p[1] + a[4 * i + 2] * p[2] + a[4 * i + 3]; return r; }
D3 hom(const M4 &a, D3 p) { D4 q = mv4(a, p); return {q[0] / q[3], q[1] / q[3], q[2] / q[3]}; }
D3 dirn(vp::Case &c) { for (;;) { D3 p = rnd3(c, 1); if (c.chance(1, 4)) for (auto &x: p) x = std::round(x); double l = norm(p); if (l > 0.1) return (1 / l) * p; if (c.chance(1, 8)) return {0, 0, 1}; } }
// column-orthonormal, right handed, no shear
void rigid(vp::Case &c, const char *what, const M4 &m, double tol) {
  D3 r[3]; for (int i = 0; i < 3; ++i) r[i] = {m[4 * i], m[4 * i + 1], m[4 * i + 2]}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) VP_CHECK(std::abs(dot(r[i], r[j]) - (i == j)) < tol, "%s: rows %d %d: %g", what, i, j, dot(r[i], r[j]));
  VP_CHECK(dot(cross(r[0], r[1]), r[2]) > 0, "%s: mirrored", what); VP_CHECK(m[12] == 0 && m[13] == 0 && m[14] == 0 && std::abs(m[15] - 1) < tol, "%s: last row", what); }
template <class T> void lookat(vp::Case &c) {
  double eps = sizeof(T) == 4 ? 2e-5 : 1e-11; double S = c.logreal(1e-2, 1e2); D3 eye = S * rnd3(c, 3), u = dirn(c), up = c.logreal(0.1, 10) * dirn(c); double l = S * c.logreal(1e-1, 1e1); D3 ct = eye + l * u;
  T e[3], f[3], g[3]; for (int k = 0; k < 3; ++k) { e[k] = (T) eye[k]; f[k] = (T) ct[k]; g[k] = (T) up[k]; } D3 E{e[0], e[1], e[2]}, F{f[0], f[1], f[2]}, G{g[0], g[1], g[2]}; double L = dist(E, F); if (L < 0.05 * S || norm(cross(unit(F - E), unit(G))) < 0.05) return; T m_[16]; for (auto &q: m_) q = 77; d::Mat4_AffineLookAt(m_, e[0], e[1], e[2], f[0], f[1], f[2], g[0], g[1], g[2]); M4 m = dbl(m_);
  double tol = eps * (1 + (norm(E) + L) / L) * 20; rigid(c, "look at", m, tol); D3 a = hom(m, E), b = hom(m, F), q = hom(m, E + G) - a; double S2 = norm(E) + L; VP_CHECK(norm(a) < tol * S2, "look at: the eye goes to (%g %g %g)", a[0], a[1], a[2]); D3 tb{0, 0, -L}; VP_CHECK(dist(b, tb) < tol * S2, "look at: the centre goes to (%g %g %g), distance %g", b[0], b[1], b[2], L); VP_CHECK(std::abs(q[0]) < tol * (S2 + norm(G)) && q[1] > 0, "look at: up goes to (%g %g %g)", q[0], q[1], q[2]);
}
template <class T> void boxes(vp::Case &c) {
  double eps = sizeof(T) == 4 ? 1e-5 : 1e-12; double S = c.logreal(1e-2, 1e2); T lo[3], hi[3]; for (int k = 0; k < 3; ++k) { lo[k] = (T) (S * c.sym(3)); hi[k] = lo[k] + (T) (S * c.uni(0.2, 4)); } T m_[16]; for (auto &q: m_) q = 9; d::Mat4_AffineProjectionOrtho(m_, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]); M4 m = dbl(m_);
  D3 s = rnd3(c, 1.5); if (c.flip()) for (auto &q: s) q = q > 0 ? 1 : -1; D3 p; for (int k = 0; k < 3; ++k) p[k] = 0.5 * ((1 - s[k]) * lo[k] + (1 + s[k]) * (double) hi[k]); D4 q = mv4(m, p); VP_CHECK(q[3] == 1, "orthographic projection has a perspective part"); for (int k = 0; k < 3; ++k) VP_CHECK(std::abs(q[k] - s[k]) < eps * 50, "orthographic: coordinate %d is %g, should be %g", k, q[k], s[k]);
  T fov = (T) c.uni(0.1, 2.8), asp = (T) c.logreal(0.2, 5), zn = (T) (-S * c.uni(0.01, 1)), zf = zn * (T) c.uni(1.5, 50); d::Mat4_AffineProjectionFrustum(m_, fov, asp, zf, zn); m = dbl(m_); double t = c.chance(1, 3) ? c.pick({0., 1.}) : c.uni(0, 1), z = zf + t * ((double) zn - zf), h = std::tan(0.5 * fov) * -z; p = {s[0] * h * asp, s[1] * h, z}; D3 w = hom(m, p); double ez = -((double) zn * zf * 2 / z - zn - zf) / ((double) zn - zf); ez = t == 0 ? -1 : t == 1 ? 1 : ez;
  VP_CHECK(mv4(m, p)[3] > 0, "frustum: weight in front of the camera"); VP_CHECK(std::abs(w[0] - s[0]) < eps * 50 && std::abs(w[1] - s[1]) < eps * 50, "frustum: screen (%g %g), should be (%g %g)", w[0], w[1], s[0], s[1]); VP_CHECK(std::abs(w[2] - ez) < eps * 200, "frustum: depth %g, should be %g", w[2], ez);
}
}
VP_PROP(cameras, 40000, 200000, "look-at matrices are rigid, move the eye to the origin and the centre to the negative z axis, up stays up; orthographic and perspective boxes go to the unit cube; the trackball, y-up and z-up cameras and the viewer's projection follow their parameters; float and double; non-trivial: all") {
  c.nontrivial(); lookat<double>(c); lookat<float>(c); boxes<double>(c); boxes<float>(c);
  { d::ModelView_Trackball t; auto R = rotation(c); (void) R; D3 an = rnd3(c, 3); for (int k = 0; k < 3; ++k) t.anchor[k] = (float) an[k]; M4 rot{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}; int n = c.range(0, 6); for (int i = 0; i < n; ++i) { float dx = (float) c.pick({0., c.sym(1), c.sym(0.01)}), dy = (float) c.pick({0., c.sym(1), 1e-20}); t.Rot_Camera(dx, dy); double a = std::hypot(dx, dy); if (a > 0) { D3 x{-dy / a, dx / a, 0}; M4 q{}; q[15] = 1; for (int k = 0; k < 3; ++k) { D3 e{0, 0, 0}; e[k] = 1; D3 r = std::cos(a) * e + std::sin(a) * cross(x, e) + ((1 - std::cos(a)) * dot(x, e)) * x; for (int j = 0; j < 3; ++j) q[4 * j + k] = r[j]; } rot = mm(q, rot); } }
    auto m_ = t.GetMatrix(); M4 m = dbl(m_.data()); rigid(c, "trackball", m, 1e-5); D3 p = rnd3(c, 3), A{t.anchor[0], t.anchor[1], t.anchor[2]}, q = hom(m, p), e = hom(rot, p - A); VP_CHECK(dist(q, e) < 2e-4, "trackball: (%g %g %g), should be (%g %g %g)", q[0], q[1], q[2], e[0], e[1], e[2]); }
  { float th = (float) c.pick({0., c.sym(4)}), ps = (float) c.pick({0., c.sym(1.4)}); bool y = c.flip(); float dx = (float) c.sym(0.3), dy = (float) c.sym(0.1); array<float, 16> m_; double T, P; D3 eye, up; if (y) { d::ModelView_Ytop v(th, ps); v.Rot_Camera(dx, dy); m_ = v.GetMatrix(); T = th - dx; P = ps - dy; eye = {std::cos(P) * std::sin(T), std::sin(P), std::cos(P) * std::cos(T)}; up = {0, 1, 0}; } else { d::ModelView_Ztop v; v.theta = th; v.psi = ps; v.Rot_Camera(dx, dy); m_ = v.GetMatrix(); T = th + dx; P = ps - dy; eye = {std::cos(P) * std::sin(T), std::cos(P) * std::cos(T), std::sin(P)}; up = {0, 0, 1}; }
    if (std::abs(P) < 1.5) { M4 m = dbl(m_.data()); rigid(c, "turntable", m, 2e-4); D3 o = hom(m, D3{0, 0, 0}), e = hom(m, eye), u = hom(m, eye + up) - e; D3 z{0, 0, -1}; VP_CHECK(norm(e) < 2e-4 && dist(o, z) < 2e-4, "turntable %s: eye (%g %g %g)", y ? "y" : "z", e[0], e[1], e[2]); VP_CHECK(std::abs(u[0]) < 2e-4 && u[1] > 0, "turntable %s: up (%g %g %g)", y ? "y" : "z", u[0], u[1], u[2]); } }
  { float vh = (float) c.logreal(1e-2, 1e2), fovy = (float) c.uni(3, 120), asp = (float) c.logreal(0.3, 3); bool pars = c.flip(); d::Projection_LookOriginFromZplus pr(vh, pars, fovy); auto m_ = pr.GetMatrix(asp); M4 m = dbl(m_.data()); double dep = vh / std::tan(fovy * M_PI / 360); D3 s = rnd3(c, 1); D3 q = hom(m, D3{s[0] * vh * asp, s[1] * vh, 0}); VP_CHECK(std::abs(q[0] - s[0]) < 1e-4 && std::abs(q[1] - s[1]) < 1e-4, "viewer projection: (%g %g), should be (%g %g)", q[0], q[1], s[0], s[1]); D3 f = hom(m, D3{0, 0, -dep}), n = hom(m, D3{0, 0, pars ? 0.99 * dep : dep}); VP_CHECK(std::abs(f[2] + 1) < 2e-3 && std::abs(n[2] - 1) < (pars ? 2e-2 : 2e-3), "viewer projection: depth %g .. %g", f[2], n[2]); if (!pars) { D3 p{s[0], s[1], dep * s[2]}; p[0] *= vh; p[1] *= vh; D3 w = hom(m, p); VP_CHECK(std::abs(w[1] - s[1]) < 1e-4 && std::abs(w[2] - s[2]) < 1e-4, "viewer projection: parallel"); } }
}
VP_PROP(rays, 3000, 15000, "the ray of a pixel starts on the near side, runs away from the viewer and every point of it is projected onto the centre of the pixel; every pixel of an image gets the first triangle its ray hits, alone or in parallel, whatever the output held; non-trivial: some pixel hits") {
  double S = c.logreal(1e-1, 1e1); D3 eye = (S * c.uni(4, 8)) * dirn(c), up = dirn(c); if (norm(cross(unit(eye), up)) < 0.05) return; M4 mv, pj; d::Mat4_AffineLookAt(mv.data(), eye[0], eye[1], eye[2], 0., 0., 0., up[0], up[1], up[2]); double L = norm(eye); bool ortho = c.flip(); if (ortho) d::Mat4_AffineProjectionOrtho(pj.data(), -2 * S, 2 * S, -2 * S, 2 * S, -2 * L, -0.05 * L); else d::Mat4_AffineProjectionFrustum(pj.data(), c.uni(0.3, 1.2), c.logreal(0.5, 2), -2 * L, -0.05 * L);
  M4 m = mm(pj, mv); U w = (U) c.range(1, 9), h = (U) c.range(1, 9); auto mi = d::Inverse_Mat4(m.data()); { M4 id = mm(m, mi); for (int i = 0; i < 16; ++i) VP_CHECK(std::abs(id[i] - (i % 5 == 0)) < 1e-7, "inverse of the camera"); }
  Mesh ms = c.flip() ? star(c, 3, 0.2) : soup(c, 3, 12, 14); for (auto &x: ms.xyz) x *= S * 0.9; vector<d::CNodeBVH2> nodes; vector<d::CBV3_Sphere<double>> sp; d::ConstructBVHTriangleMeshMortonCode(nodes, sp, ms.xyz, ms.tri);
  typedef d::PointOnSurfaceMesh<double> PS; vector<PS> a(c.below(2) ? w * h : 0, PS(0, 0.25, 0.25)), b; bool par = c.chance(1, 4); d::Intersection_ImageRay_TriMesh3(a, h, w, m.data(), nodes, sp, ms.xyz, ms.tri, par); VP_CHECK(a.size() == w * h, "image size");
  for (U ih = 0; ih < h; ++ih) for (U iw = 0; iw < w; ++iw) {
    auto r = d::RayFromInverseMvpMatrix(mi.data(), (int) iw, (int) ih, w, h); D3 o{r.first[0], r.first[1], r.first[2]}, u{r.second[0], r.second[1], r.second[2]}; double sx = -1 + (2. * iw + 1) / w, sy = -1 + (2. * ih + 1) / h; VP_CHECK(std::abs(norm(u) - 1) < 1e-9, "ray direction"); double z0 = hom(m, o)[2]; VP_CHECK(std::abs(z0 - 1) < 1e-6, "ray of pixel %u %u starts at depth %g", iw, ih, z0); for (double t: {0., c.uni(0, 1) * L, L}) { D3 q = hom(m, o + t * u); VP_CHECK(std::abs(q[0] - sx) < 1e-6 && std::abs(q[1] - sy) < 1e-6, "point of the ray of pixel %u %u at (%g %g), should be (%g %g)", iw, ih, q[0], q[1], sx, sy); VP_CHECK(t == 0 || q[2] < z0 + 1e-9, "the ray comes towards the viewer"); }
    // all triangles in front of the near plane: the whole line may be tested
    double best = 1e300, second = 1e300; U bt = UINT_MAX; bool edge = false; for (U t = 0; t < ms.nt(); ++t) { D3 A = at(ms.xyz, ms.tri[3 * t]), B = at(ms.xyz, ms.tri[3 * t + 1]), C = at(ms.xyz, ms.tri[3 * t + 2]); double v0 = dot(cross(B - A, C - A), u); double v[3] = {tetvol(o, o + u, B, C), tetvol(o, o + u, C, A), tetvol(o, o + u, A, B)}; double s = v[0] + v[1] + v[2], mn = std::min({v[0], v[1], v[2]}), mx = std::max({v[0], v[1], v[2]}), ma = std::max(-mn, mx); if (ma == 0) { edge = true; continue; } if (std::abs(s) < 1e-6 * S * S || std::abs(v0) < 1e-6 * S * S) { if (mn > -1e-6 * ma || mx < 1e-6 * ma || std::abs(s) < 1e-3 * ma) edge = true; continue; } double q[3] = {v[0] / s, v[1] / s, v[2] / s}; double qm = std::min({q[0], q[1], q[2]}); if (std::abs(qm) < 1e-5) { edge = true; } if (qm < 0) continue; double dep = dot(q[0] * A + q[1] * B + q[2] * C - o, u); if (dep < best) { second = best; best = dep; bt = t; } else second = std::min(second, dep); }
    if (edge) { c.label("edge"); continue; } auto &g = a[ih * w + iw]; if (bt == UINT_MAX) { VP_CHECK(g.itri == UINT_MAX, "pixel %u %u hits triangle %u, should hit nothing", iw, ih, g.itri); continue; } c.nontrivial(); VP_CHECK(g.itri < ms.nt(), "pixel %u %u hits nothing, should hit %u", iw, ih, bt); auto pq = g.PositionOnMeshTri3(ms.xyz, ms.tri); D3 p{pq[0], pq[1], pq[2]}, e = o + best * u; if (second - best < 1e-6 * S) continue; VP_CHECK(g.itri == bt && dist(p, e) < 1e-6 * L, "pixel %u %u: triangle %u at depth %g, should be %u at %g", iw, ih, g.itri, dot(p - o, u), bt, best);
  }
}
VP_PROP(calibrated, 20000, 100000, "screen coordinates and their gradients, distorted projection, pinhole and image-to-screen matrices, interior matrix, camera file; model-view and projection of a calibrated camera equal the direct formula; snapping to the own camera; non-trivial: all") {
  c.nontrivial(); M4 m; for (auto &x: m) x = c.sym(1); m[15] += 4; D3 p = rnd3(c, 1); double cc[2], dc[2][3]; d::CdC_ScreenCoordinate<d::CVec3d>(cc, dc, m.data(), p.data()); D3 s = hom(m, p); if (mv4(m, p)[3] > 0.3) { VP_CHECK(std::abs(cc[0] - s[0]) < 1e-10 && std::abs(cc[1] - s[1]) < 1e-10, "screen coordinate (%g %g), should be (%g %g)", cc[0], cc[1], s[0], s[1]); for (int k = 0; k < 3; ++k) { double e = 1e-5; D3 a = p, b = p; a[k] += e; b[k] -= e; D3 A = hom(m, a), B = hom(m, b); for (int i = 0; i < 2; ++i) VP_CHECK(std::abs(dc[i][k] - (A[i] - B[i]) / (2 * e)) < 1e-5, "gradient %d %d: %g, should be %g", i, k, dc[i][k], (A[i] - B[i]) / (2 * e)); } }
  U w = (U) c.range(10, 4000), h = (U) c.range(10, 4000); double f = c.uni(500, 3000), cx = c.sym(30), cy = c.sym(30); D3 q{c.sym(2), c.sym(2), c.uni(1, 5)}; double k1 = c.pick({0., c.sym(0.2)}), k2 = c.pick({0., c.sym(0.1)}), k3 = c.pick({0., c.sym(0.1)}), p1 = c.pick({0., c.sym(0.05)}), p2 = c.pick({0., c.sym(0.05)}); double im[2]; d::ProjectionCameraWithCalibration(im, q.data(), cx, cy, f, k1, k2, k3, p1, p2, w, h);
  { double x = q[0] / q[2], y = q[1] / q[2], r = x * x + y * y, ra = 1 + k1 * r + k2 * r * r + k3 * r * r * r, X = x * ra + p1 * (r + 2 * x * x) + 2 * p2 * x * y, Y = y * ra + p2 * (r + 2 * y * y) + 2 * p1 * x * y; VP_CHECK(std::abs(im[0] - (0.5 * w + cx + f * X)) < 1e-8 * (w + f * 100) && std::abs(im[1] - (0.5 * h + cy + f * Y)) < 1e-8 * (h + f * 100), "distorted projection (%g %g)", im[0], im[1]); }
  auto pin = d::Mat4_CameraInternal_MetashapePinhole((float) f, (float) cx, (float) cy, (float) w, (float) h); auto i2s = d::Mat4_Image2Screen((float) w, (float) h, -0.1f); M4 P = dbl(pin.data()), I = dbl(i2s.data()); D3 g = hom(P, q); double ix = 0.5 * w + cx + f * q[0] / q[2], iy = 0.5 * h + cy + f * q[1] / q[2]; double tp = 1e-5 * (w + h + 3 * f); VP_CHECK(std::abs(g[0] - ix) < tp && std::abs(g[1] - iy) < tp, "pinhole: (%g %g), should be (%g %g)", g[0], g[1], ix, iy); D3 sc = hom(I, g); VP_CHECK(std::abs(sc[0] - (2 * ix / w - 1)) < 2 * tp / w + 1e-4 && std::abs(sc[1] - (1 - 2 * iy / h)) < 2 * tp / h + 1e-4, "screen (%g %g)", sc[0], sc[1]);
  float K[9]; float sw = (float) c.uni(10, 50), fl = (float) c.uni(10, 100); d::SetCameraInteriorMat(K, w, h, sw, fl); { D3 v{K[0] * q[0] + K[1] * q[1] - K[2] * q[2], K[3] * q[0] + K[4] * q[1] - K[5] * q[2], K[6] * q[0] + K[7] * q[1] - K[8] * q[2]}; double fp = fl / sw * w; VP_CHECK(std::abs(v[0] / v[2] - (0.5 * w + fp * q[0] / q[2])) < 1e-5 * (w + 3 * fp) && std::abs(v[1] / v[2] - (0.5 * h - fp * q[1] / q[2])) < 1e-5 * (h + 3 * fp), "interior matrix"); }
  d::MetashapeCamConfig cf; int ns = c.range(1, 3), nc = c.range(1, 4); for (int i = 0; i < ns; ++i) { d::MetashapeCamConfig::Sensor S; S.f = (float) c.uni(500, 2000); S.cx = (float) c.sym(20); S.cy = (float) c.sym(20); S.width = (U) c.range(100, 2000); S.height = (U) c.range(100, 2000); S.k1 = S.k2 = S.k3 = S.p1 = S.p2 = 0; cf.aSensor.push_back(S); } vector<array<double, 9>> Rs; vector<D3> ts; for (int i = 0; i < nc; ++i) { d::MetashapeCamConfig::Camera C; C.id_sensor = c.chance(1, 6) && i ? -1 : (int) c.below(ns); C.has_transform = true; auto R = rotation(c); D3 t = rnd3(c, 3); Rs.push_back(R); ts.push_back(t); for (int a = 0; a < 3; ++a) { for (int b = 0; b < 3; ++b) C.transform.mat[4 * a + b] = (float) R[3 * a + b]; C.transform.mat[4 * a + 3] = (float) t[a]; } cf.aCamera.push_back(C); }
  for (int i = 0; i < nc; ++i) if (cf.aCamera[i].id_sensor >= 0) { auto pr = d::CameraTransformationMVP(cf, (U) i); M4 full = mm(dbl(pr.second.mat), dbl(pr.first.mat)); auto &S = cf.aSensor[cf.aCamera[i].id_sensor]; D3 v{c.sym(1), c.sym(1), c.uni(1, 4)}, X = mul(Rs[i], v) + ts[i]; D3 o = hom(full, X); double x = 0.5 * S.width + S.cx + S.f * v[0] / v[2], y = 0.5 * S.height + S.cy + S.f * v[1] / v[2]; double t2 = 3e-4 * (1 + S.f / std::min(S.width, S.height)); VP_CHECK(std::abs(o[0] - (2 * x / S.width - 1)) < t2 && std::abs(o[1] - (1 - 2 * y / S.height)) < t2, "camera %d: screen (%g %g), should be (%g %g)", i, o[0], o[1], 2 * x / S.width - 1, 1 - 2 * y / S.height);
    D3 di = mul(Rs[i], D3{0, 0, -1}); if (std::abs(di[1]) < 0.95) { U b = d::SnapCamera(pr.first, cf); VP_CHECK(b < (U) nc && cf.aCamera[b].id_sensor >= 0, "snapped to camera %u", b); D3 dj = mul(Rs[b], D3{0, 0, -1}); VP_CHECK(dist(di, dj) < 1e-2, "snapped to camera %u instead of %d", b, i); } }
  if (c.chance(1, 40)) { string path = "/tmp/vp_cam_" + std::to_string(getpid()) + ".txt"; int n = c.range(0, 3); vector<float> v(21 * n); { std::ofstream o(path); o.precision(9); o << n << "\n"; for (int i = 0; i < n; ++i) { o << i << " cam" << i << "\n"; for (int k = 0; k < 21; ++k) { v[21 * i + k] = (float) c.sym(100); o << v[21 * i + k] << (k % 3 == 2 ? "\n" : " "); } } } vector<d::CCvCamera> cs(2); bool ok = d::ReadCamera(cs, path); VP_CHECK(ok && cs.size() == (size_t) n, "camera file"); for (int i = 0; i < n; ++i) { VP_CHECK(string(cs[i].name) == "cam" + std::to_string(i), "camera name"); for (int k = 0; k < 9; ++k) VP_CHECK(cs[i].K[k] == v[21 * i + k] && cs[i].R[k] == v[21 * i + 12 + k], "camera %d matrix", i); for (int k = 0; k < 3; ++k) VP_CHECK(cs[i].t[k] == v[21 * i + 9 + k], "camera %d translation", i); } unlink(path.c_str()); VP_CHECK(!d::ReadCamera(cs, path), "missing camera file"); }
}
template <class T> static void gizmos(vp::Case &c) {
  double eps = sizeof(T) == 4 ? 1e-4 : 1e-9; d::CGizmo_Transl<T> g; D3 p = rnd3(c, 2); g.pos = d::CVec3<T>((T) p[0], (T) p[1], (T) p[2]); g.size = (T) c.uni(0.3, 2); auto v3 = [](const d::CVec3<T> &v) { return D3{v.x, v.y, v.z}; }; p = v3(g.pos);
  D3 u = dirn(c), tgt = p + rnd3(c, 0.8 * g.size), s0 = tgt - c.uni(2, 5) * u; T src[3], dir[3]; for (int k = 0; k < 3; ++k) { src[k] = (T) s0[k]; dir[k] = (T) u[k]; } s0 = {src[0], src[1], src[2]}; u = unit(D3{dir[0], dir[1], dir[2]}); T tol = (T) c.uni(0.05, 0.4);
  double dm[3]; for (int k = 0; k < 3; ++k) { D3 e{0, 0, 0}; e[k] = 1; double best = 1e300; auto dl = [&](double t) { D3 w = p + t * e - s0; return norm(w - dot(w, u) * u); }; D3 eo = e - u[k] * u, w = p - s0; w = w - dot(w, u) * u; double t = norm(eo) > 1e-6 ? -dot(w, eo) / dot(eo, eo) : 0; t = std::max(-(double) g.size, std::min((double) g.size, t)); best = std::min({dl(t), dl(-g.size), dl(g.size)}); dm[k] = best; }
  g.Pick(true, src, dir, tol); int want = -1; bool amb = false; for (int k = 0; k < 3; ++k) { if (std::abs(dm[k] - tol) < 10 * eps) amb = true; if (want < 0 && dm[k] < tol) want = k; } if (!amb) VP_CHECK(g.ielem_picked == want, "translation handle: picked %d, should be %d (distances %g %g %g, tolerance %g)", g.ielem_picked, want, dm[0], dm[1], dm[2], (double) tol);
  int ax = c.range(0, 2); g.ielem_picked = ax; D3 s1 = s0 + rnd3(c, 1); T src1[3]; for (int k = 0; k < 3; ++k) src1[k] = (T) s1[k]; s1 = {src1[0], src1[1], src1[2]}; D3 e{0, 0, 0}; e[ax] = 1; D3 eo = e - u[ax] * u; if (norm(eo) > 0.1) { g.Drag(src, src1, dir); D3 sh = s1 - s0; sh = sh - dot(sh, u) * u; double t = dot(sh, eo) / dot(eo, eo); D3 q = p + t * e; VP_CHECK(dist(v3(g.pos), q) < eps * 200, "translation handle: moved by %g along axis %d, should be %g", v3(g.pos)[ax] - p[ax], ax, t); }
  g.Pick(false, src, dir, tol); VP_CHECK(g.ielem_picked == -1, "released handle"); D3 was = v3(g.pos); g.Drag(src, src1, dir); VP_CHECK(dist(was, v3(g.pos)) == 0, "released handle moved");
  // rotation handle seen from the front
  d::CGizmo_Rotation<T> r; r.pos = g.pos; p = v3(r.pos); r.size = (T) c.uni(0.3, 2); { auto R = dirn(c); double a = c.sym(3); D3 w = std::sin(a / 2) * R; for (int k = 0; k < 3; ++k) r.quat[k] = (T) w[k]; r.quat[3] = (T) std::cos(a / 2); } auto rot = [&](const T *q, D3 v) { D3 b{q[0], q[1], q[2]}; D3 t = 2. * cross(b, v); return v + (double) q[3] * t + cross(b, t); };
  r.ielem_picked = ax; D3 va = rot(r.quat, e); D3 x = unit(std::abs(va[0]) < 0.6 ? cross(va, D3{1, 0, 0}) : cross(va, D3{0, 1, 0})), y = cross(va, x); double a0 = c.uni(-3, 3), da = c.sym(2.5), l0 = c.uni(0.3, 1.5), l1 = c.uni(0.3, 1.5); D3 t0 = p + (l0 * std::cos(a0)) * x + (l0 * std::sin(a0)) * y - 3. * va, t1 = p + (l1 * std::cos(a0 + da)) * x + (l1 * std::sin(a0 + da)) * y - 3. * va; T q0[4], S0[3], S1[3], dd[3]; for (int k = 0; k < 3; ++k) { S0[k] = (T) t0[k]; S1[k] = (T) t1[k]; dd[k] = (T) va[k]; } for (int k = 0; k < 4; ++k) q0[k] = r.quat[k];
  r.Drag(S0, S1, dd); for (int k = 0; k < 3; ++k) { D3 v{0, 0, 0}; v[k] = 1; D3 w = rot(q0, v), z = std::cos(da) * w + std::sin(da) * cross(va, w) + ((1 - std::cos(da)) * dot(va, w)) * va, n = rot(r.quat, v); VP_CHECK(dist(n, z) < eps * 100, "rotation handle %d: axis %d turned to (%g %g %g), should be (%g %g %g)", ax, k, n[0], n[1], n[2], z[0], z[1], z[2]); }
}
VP_PROP(handles, 40000, 200000, "translation handle: picked axis is the first within the tolerance, dragging moves it along the axis with the ray; rotation handle turns about its own axis by the dragged angle; picking tests of points, axes, circles, quads; the affine handle composes them; non-trivial: all") {
  c.nontrivial(); gizmos<double>(c); gizmos<float>(c);
  { D3 ax = dirn(c), o = rnd3(c, 2), s = rnd3(c, 5), u = dirn(c); double rad = c.uni(0.2, 3), tol = c.uni(0.05, 0.5); if (std::abs(dot(u, ax)) > 0.05) { double t = dot(o - s, ax) / dot(u, ax), e = std::abs(dist(s + t * u, o) - rad); if (std::abs(e - tol) > 1e-6) { bool g = d::isPickCircle(d::CVec3d(ax.data()), d::CVec3d(o.data()), rad, d::CVec3d(s.data()), d::CVec3d(u.data()), tol); VP_CHECK(g == (e < tol), "circle: picked %d at distance %g, tolerance %g", g, e, tol); } } }
  { array<float, 16> mv, pj; d::Mat4_AffineLookAt(mv.data(), 0.3f, 0.2f, 5.f, 0.f, 0.1f, 0.f, 0.f, 1.f, 0.f); d::Mat4_AffineProjectionFrustum(pj.data(), 0.8f, 1.2f, -10.f, -1.f); M4 m = mm(dbl(pj.data()), dbl(mv.data())); D3 p = rnd3(c, 1); D3 s = hom(m, p); d::CVec2d sp(s[0] + c.sym(0.2), s[1] + c.sym(0.2)); double tol = c.uni(0.02, 0.2), e = std::hypot(sp.x - s[0], sp.y - s[1]); if (std::abs(e - tol) > 1e-4) VP_CHECK(d::isPickPoint(sp, d::CVec3d(p.data()), mv.data(), pj.data(), tol) == (e < tol), "point: distance %g, tolerance %g", e, tol);
    D3 ax = dirn(c); double len = c.uni(0.2, 1); D3 A = hom(m, p + len * ax), B = hom(m, p - len * ax); double ux = B[0] - A[0], uy = B[1] - A[1], l2 = ux * ux + uy * uy, t = l2 > 0 ? ((sp.x - A[0]) * ux + (sp.y - A[1]) * uy) / l2 : 0; t = std::max(0., std::min(1., t)); e = std::hypot(sp.x - A[0] - t * ux, sp.y - A[1] - t * uy); if (std::abs(e - tol) > 1e-4 && l2 > 1e-4) VP_CHECK(d::isPick_AxisHandler(sp, d::CVec3d(p.data()), d::CVec3d(ax.data()), len, mv.data(), pj.data(), tol) == (e < tol), "axis handle: distance %g, tolerance %g", e, tol);
    D3 x = unit(std::abs(ax[0]) < 0.6 ? cross(ax, D3{1, 0, 0}) : cross(ax, D3{0, 1, 0})), y = cross(ax, x); double best = 1e300; for (int i = 0; i < 720; ++i) { double a = 2 * M_PI * i / 720; D3 q = hom(m, p + (len * std::cos(a)) * x + (len * std::sin(a)) * y); best = std::min(best, std::hypot(q[0] - sp.x, q[1] - sp.y)); } if (std::abs(best - tol) > 0.015 * len + 0.005) VP_CHECK(d::isPickCircle(sp, d::CVec3d(p.data()), d::CVec3d(ax.data()), len, mv.data(), pj.data(), tol) == (best < tol), "circle on the screen: distance %g, tolerance %g", best, tol); }
  { d::CGizmo_Affine<float> a; D3 pv = rnd3(c, 2), tr = rnd3(c, 2), ax = dirn(c); double an = c.sym(3); a.SetPivot(d::CVec3f((float) pv[0], (float) pv[1], (float) pv[2])); a.gizmo_trnsl.pos = d::CVec3f((float) tr[0], (float) tr[1], (float) tr[2]); for (int k = 0; k < 3; ++k) a.gizmo_rot.quat[k] = (float) (std::sin(an / 2) * ax[k]); a.gizmo_rot.quat[3] = (float) std::cos(an / 2); D3 p = rnd3(c, 2), w = p - pv, e = std::cos(an) * w + std::sin(an) * cross(ax, w) + ((1 - std::cos(an)) * dot(ax, w)) * ax + tr; auto mt = a.Affine(); M4 m = dbl(mt.mat); VP_CHECK(dist(hom(m, p), e) < 1e-4, "affine handle"); }
}
