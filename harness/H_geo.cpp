// Triangulation and pose estimation (build with SYMI_STUBS).
#include "common.hpp"
#include <trianglation.hpp>
#include <perspective_n_point.hpp>
#include <cstdlib>

namespace {
using Vec = std::vector<Vector3>; using Vec2 = std::vector<Vector2>; using Qs = std::vector<Quaternion>;
const float GQ[6][4] = {{1, 0, 0, 0}, {0.5f, 0.5f, -0.5f, 0.5f}, {0.5f, -0.5f, -0.5f, -0.5f}, {0, 1, 0, 0}, {0.5f, 0.5f, 0.5f, -0.5f}, {0.5f, -0.5f, 0.5f, 0.5f}};
Quaternion gq(int k) { return Quaternion(GQ[k][0], GQ[k][1], GQ[k][2], GQ[k][3]); }
Vector3 toCam(const Quaternion &q, const Vector3 &p, const Vector3 &x) { Matrix33 R = rotOf(q); Vector3 r; for (int i = 0; i < 3; i++) r(i) = R(0, i) * (x(0) - p(0)) + R(1, i) * (x(1) - p(1)) + R(2, i) * (x(2) - p(2)); return r; }
Vector3 seenFrom(const Quaternion &q, const Vector3 &x, float a, float b, float d) { Matrix33 R = rotOf(q); Vector3 p; for (int i = 0; i < 3; i++) p(i) = x(i) - (R(i, 0) * a + R(i, 1) * b + R(i, 2) * d); return p; }
Matrix gX;
// the rows u R3 - R1, v R3 - R2 of the camera matrix [R' | -R' p]
Matrix rowsOf(const Qs &q, const Vec &p, const Vec2 &z) {
  Matrix O(2 * q.size(), 4);
  for (size_t i = 0; i < q.size(); i++) { Matrix33 R = rotOf(q[i]); Matrix P(3, 4); for (int r = 0; r < 3; r++) { float s = 0; for (int c = 0; c < 3; c++) { P(r, c) = R(c, r); s -= R(c, r) * p[i](c); } P(r, 3) = s; }
    for (int c = 0; c < 4; c++) { O(2 * i, c) = z[i](0) * P(2, c) - P(0, c); O(2 * i + 1, c) = z[i](1) * P(2, c) - P(1, c); } }
  return O;
}
void nullVector() { gX = Matrix::Identity(4, 4); for (int i = 0; i < 4; i++) gX(i, 3) = symi_f32(N("x", i), -100, 100); symistub::svdVFn() = [](int, const Matrix &, const Matrix &) { return gX; }; symistub::log().clear(); }
}
// the object may have been used before, with more or fewer views
static void used(Trianglator &t) {
  int n = symi_choice("used-before", 2) ? 5 : 0; if (!n) return;
  Qs q; Vec p; Vec2 z; for (int i = 0; i < n; i++) { q.push_back(gq(i)); p.push_back(Vector3(0.5f * i, 1, -0.25f * i)); z.push_back(Vector2(0.125f * i, -0.25f)); }
  Vector3 x(0, 0, 5); auto f = symistub::svdVFn(); symistub::svdVFn() = [](int, const Matrix &, const Matrix &) { Matrix V = Matrix::Identity(4, 4); V(2, 3) = 5; return V; }; t.TrianglateAnalytic(q, p, z, x); symistub::svdVFn() = f; symistub::log().clear();
}
// ---- G01
// the constraint system for n views: one pair per view, of the same least-squares form as the camera model's
static void g01sys(int n, bool exact) {
  Qs q; Vec p; Vec2 z; Vector3 x = sv3("pt", -100, 100);
  for (int i = 0; i < n; i++) {
    q.push_back(i == 0 ? squat("q") : gq(symi_choice(N("q", i), 4))); p.push_back(sv3(N("p", i), -100, 100));
    if (exact) { Vector3 c = toCam(q[i], p[i], x); symi_assume((c(2) > 0.0625f) | (c(2) < -0.0625f)); z.push_back(Vector2(c(0) / c(2), c(1) / c(2))); } else z.push_back(sv2(N("z", i), -4, 4));
  }
  nullVector(); Trianglator t; used(t); Vector3 out(7, 8, 9); Qs q0 = q; Vec p0 = p; Vec2 z0 = z;
  t.TrianglateAnalytic(q, p, z, out);
  for (auto &l : symistub::log()) if (l.kind == 2) {
    symi_check(l.A.cols() == 4, "constraints-on-the-homogeneous-point"); if (l.A.cols() != 4) return;
    if (exact) { for (int r = 0; r < l.A.rows(); r++) symi_check_eq(l.A(r, 0) * x(0) + l.A(r, 1) * x(1) + l.A(r, 2) * x(2) + l.A(r, 3), 0, 1e-3f, "true-point-satisfies-the-constraints"); }
    else { Matrix O = rowsOf(q, p, z), G = mul(Matrix(O.transpose()), O), H = mul(Matrix(l.A.transpose()), l.A); eqm(H, G, 1e-3f, "one-pair-of-constraints-per-view"); }
    symi_reach("system");
  }
  for (int i = 0; i < n; i++) { eqq(q[i], q0[i], 0, "inputs-untouched"); eqm(p[i], p0[i], 0, "inputs-untouched"); eqm(z[i], z0[i], 0, "inputs-untouched"); }
  symi_reach("end");
}
extern "C" void g01_system() { g01sys(2 + symi_choice("n", thorough() ? 3 : 2), false); }
extern "C" void g01_exact() { g01sys(2 + symi_choice("n", thorough() ? 3 : 2), true); }
// ten views: two of them with any position and observation
extern "C" void g01_long() {
  const int n = 40; Qs q; Vec p; Vec2 z; int at = symi_choice("at", 5) + 30; bool same = symi_choice("same", 2); for (int i = 0; i < n; i++) { bool s = i == at || i == at - 20; q.push_back(gq(same ? 1 : i % 6)); p.push_back(s ? sv3(N("p", i), -100, 100) : Vector3(0.5f * i, 1 - i, 0.25f)); z.push_back(s ? sv2(N("z", i), -4, 4) : Vector2(0.125f * i, -0.5f)); }
  nullVector(); Trianglator t; used(t); Vector3 out(7, 8, 9); bool ok = t.TrianglateAnalytic(q, p, z, out); float w = gX(3, 3);
  for (auto &l : symistub::log()) if (l.kind == 2) { symi_check(l.A.cols() == 4, "constraints-on-the-homogeneous-point"); if (l.A.cols() != 4) return; Matrix O = rowsOf(q, p, z); eqm(mul(Matrix(l.A.transpose()), l.A), mul(Matrix(O.transpose()), O), 1e-3f, "one-pair-of-constraints-per-view"); symi_reach("system"); }
  if (ok) { for (int i = 0; i < 3; i++) symi_check_eq(out(i) * w, gX(i, 3), 1e-3f, "returns-the-dehomogenised-solution"); for (int i = 0; i < n; i++) symi_check(toCam(q[i], p[i], out)(2) >= -1e-4f, "returned-point-is-behind-no-camera"); symi_reach("success"); }
  symi_reach("end");
}
extern "C" void g01_result() {
  int n = symi_choice("n", thorough() ? 5 : 4); Qs q; Vec p; Vec2 z; bool sym = symi_choice("sym", 2);
  for (int i = 0; i < n; i++) { q.push_back(sym && i == n - 1 ? squat("q") : gq((symi_choice("rot", 3) + i) % 4)); p.push_back(sv3(N("p", i), -100, 100)); z.push_back(Vector2(0.25f * i, -0.5f)); }
  nullVector(); Trianglator t; used(t); Vector3 out(7, 8, 9);
  bool ok = t.TrianglateAnalytic(q, p, z, out);
  if (n < 2) { symi_check(!ok, "one-view-is-refused"); symi_reach("end"); return; }
  float w = gX(3, 3); bool far = (w < 1e-6f) & (w > -1e-6f);
  if (ok) {
    symi_check(!((w < 0.9e-6f) & (w > -0.9e-6f)), "point-at-infinity-is-refused");
    for (int i = 0; i < 3; i++) symi_check_eq(out(i) * w, gX(i, 3), 1e-3f, "returns-the-dehomogenised-solution");
    for (int i = 0; i < n; i++) symi_check(toCam(q[i], p[i], out)(2) >= -1e-4f, "returned-point-is-behind-no-camera");
    symi_reach("success");
  } else if (!((w < 1.1e-6f) & (w > -1.1e-6f))) {
    Vector3 x(gX(0, 3) / w, gX(1, 3) / w, gX(2, 3) / w); bool behind = false; for (int i = 0; i < n; i++) behind = behind | (toCam(q[i], p[i], x)(2) < 1e-4f);
    symi_check(behind, "a-point-in-front-of-all-cameras-is-accepted");
  }
  (void)far; symi_reach("end");
}

// ---- G02
extern "C" void g02_residual() {
  Trianglator t; int k = symi_choice("sym", 2); Quaternion q = k ? squat("q") : gq(symi_choice("q", 6)); Vector3 p = k ? Vector3(0.5f, -1, 2) : sv3("p", -100, 100), x = sv3("x", -100, 100); Vector2 z = sv2("z", -4, 4);
  Matrix33 R = rotOf(q); Vector3 c; for (int i = 0; i < 3; i++) c(i) = R(i, 0) * x(0) + R(i, 1) * x(1) + R(i, 2) * x(2) + p(i);
  symi_assume((c(2) > 0.0625f) | (c(2) < -0.0625f));
  float a = c(0) / c(2) - z(0), b = c(1) / c(2) - z(1);
  symi_check_eq(t.ComputeResidual(q, p, x, z), a * a + b * b, 1e-3f, "cost-is-the-squared-reprojection-error");
  symi_reach("end");
}
extern "C" void g02_jacobian() {
  Trianglator t; int k = symi_choice("sym", 2); Quaternion q = k ? squat("q") : gq(symi_choice("q", 6)); Vector3 p = k ? Vector3(0.5f, -1, 2) : sv3("p", -100, 100), s = sv3("s", -4, 4); Vector2 z = sv2("z", -4, 4);
  Matrix33 R = rotOf(q); Vector3 h; for (int i = 0; i < 3; i++) h(i) = R(i, 0) * s(0) + R(i, 1) * s(1) + R(i, 2) + s(2) * p(i);
  symi_assume((h(2) > 0.0625f) | (h(2) < -0.0625f));
  Matrix23 J; Vector2 r; float w; t.CumputeJacobian(q, p, s, z, J, r, w);
  for (int i = 0; i < 2; i++) {
    symi_check_eq(r(i), h(i) / h(2) - z(i), 1e-4f, "residual-is-predicted-minus-observed");
    for (int j = 0; j < 3; j++) { float di = j < 2 ? R(i, j) : p(i), d3 = j < 2 ? R(2, j) : p(2); symi_check_eq(J(i, j), (di * h(2) - h(i) * d3) / (h(2) * h(2)), 1e-3f, "jacobian-is-the-derivative-of-the-residual"); }
  }
  symi_reach("end");
}
// residual norm e: weight one up to a threshold, decreasing beyond
extern "C" void g02_weight() {
  Trianglator t; Quaternion q(1, 0, 0, 0); Vector3 p(0, 0, 0), s(0, 0, 1); Matrix23 J; Vector2 r; float w[2], e[2];
  for (int i = 0; i < 2; i++) { int k = symi_choice(N("dir", i), 4); static const float D[4][2] = {{1, 0}, {0, -1}, {0.6f, 0.8f}, {-0.8f, 0.6f}}; e[i] = symi_f32(N("e", i), 0, 8); t.CumputeJacobian(q, p, s, Vector2(-e[i] * D[k][0], -e[i] * D[k][1]), J, r, w[i]); }
  for (int i = 0; i < 2; i++) { symi_check(w[i] > 0, "weight-is-positive"); if (e[i] < 0.00999f) symi_check(w[i] == 1, "weight-is-one-up-to-the-threshold"); if (e[i] > 0.0201f) symi_check(w[i] < 1, "weight-is-below-one-for-large-residuals"); }
  if ((e[0] > 0.01001f) & (e[1] > e[0] * 1.0009765625f)) symi_check(w[1] < w[0], "weight-decreases-beyond-the-threshold");
  symi_reach("end");
}
namespace { int gFree; }
// whatever steps the inner solver proposes, the cost does not grow
static void worse(int free, int dims) {
  static int sDims; sDims = dims;
  Trianglator t; Qs q; Vec p; Vec2 z; int views = 2; int cfg = symi_choice("cfg", 2);
  Vector3 x(1, -2, 4);
  for (int i = 0; i < views; i++) { q.push_back(cfg ? gq(4 * i) : gq(0)); p.push_back(i ? seenFrom(q[i], x, 0.5f, -1, 4) : Vector3(0, 0, 0)); z.push_back(i ? Vector2(0.25f, -0.5f) : Vector2(0.5f, 0.125f)); } gFree = free; symistub::log().clear();
  symistub::solveFn() = [](int k, const Matrix &, const Matrix &) { Matrix d = Matrix::Zero(3, 1); if (k < gFree) for (int i = 0; i < 3; i++) if (sDims >> i & 1) d(i, 0) = symi_f32(N("d", k, i), -4, 4); return d; };
  auto cost = [&](const Vector3 &y) { float s = 0; for (int i = 0; i < views; i++) { Matrix33 R = rotOf(q[i]); Vector3 c = toCam(q[i], p[i], y); float a = c(0) / c(2) - z[i](0), b = c(1) / c(2) - z[i](1); s += a * a + b * b; } return s; };
  float c0 = cost(x); Vector3 y = x;
  bool ok = t.TrianglateIterative(q, p, z, y);
  symi_check(ok, "iteration-reports-success");
  float c1 = cost(y); symi_check(c1 <= c0 * 1.0001f + 1e-5f, "returned-point-is-never-worse");
  symi_reach("end");
}
extern "C" void g02_never_worse() { worse(1, 7 - (1 << symi_choice("fixed", 3))); }
extern "C" void g02_never_worse_two() { worse(2, 1 << symi_choice("dim", 3)); }
// the normal equations the iteration solves are the damped sums over all views
extern "C" void g02_normal() {
  Trianglator t; Qs q; Vec p; Vec2 z; int n = 2 + symi_choice("n", 2); Vector3 x = Vector3(1, -2, 4); int pick = symi_choice("pick", n); symistub::log().clear();
  for (int i = 0; i < n; i++) { q.push_back(gq((i * 5) % 6)); p.push_back(seenFrom(q[i], x, 0.5f + i, -1, 4 + i)); z.push_back(i == pick ? sv2(N("z", i), -4, 4) : Vector2(0.25f * i, -0.5f)); }
  symistub::solveFn() = nullptr;
  t.TrianglateIterative(q, p, z, x);
  symi_check(!symistub::log().empty(), "a-step-is-solved-for"); if (symistub::log().empty()) return;
  auto &l = symistub::log()[0]; Matrix B = Matrix::Zero(3, 3); Vector3 b(0, 0, 0), s(0.25f, -0.5f, 0.25f);
  for (int i = 0; i < n; i++) {
    Quaternion qi(q[i].w(), -q[i].x(), -q[i].y(), -q[i].z()); Matrix33 R = rotOf(qi); Vector3 tt, h; for (int r = 0; r < 3; r++) tt(r) = -(R(r, 0) * p[i](0) + R(r, 1) * p[i](1) + R(r, 2) * p[i](2)); for (int r = 0; r < 3; r++) h(r) = R(r, 0) * s(0) + R(r, 1) * s(1) + R(r, 2) + s(2) * tt(r);
    float r[2], J[2][3]; for (int a = 0; a < 2; a++) { r[a] = h(a) / h(2) - z[i](a); for (int j = 0; j < 3; j++) { float da = j < 2 ? R(a, j) : tt(a), d3 = j < 2 ? R(2, j) : tt(2); J[a][j] = (da * h(2) - h(a) * d3) / (h(2) * h(2)); } }
    float e = std::sqrt(r[0] * r[0] + r[1] * r[1]), w2 = 1; if (!(e <= 0.01f)) w2 = 0.02f / e;
    for (int a = 0; a < 3; a++) { for (int c = 0; c < 3; c++) B(a, c) += w2 * (J[0][a] * J[0][c] + J[1][a] * J[1][c]); b(a) += w2 * (J[0][a] * r[0] + J[1][a] * r[1]); }
  }
  symi_check(l.A.rows() == 3 && l.A.cols() == 3 && l.B.rows() == 3, "normal-equations-shape"); if (l.A.rows() != 3 || l.B.rows() != 3) return;
  for (int a = 0; a < 3; a++) { symi_check_eq(l.B(a, 0), b(a), 1e-3f, "gradient-of-the-weighted-cost"); for (int c = 0; c < 3; c++) if (a != c) symi_check_eq(l.A(a, c), B(a, c), 1e-3f, "weighted-normal-matrix"); }
  for (int a = 1; a < 3; a++) symi_check_eq(l.A(a, a) - B(a, a), l.A(0, 0) - B(0, 0), 1e-3f, "damping-is-uniform");
  symi_check(l.A(0, 0) - B(0, 0) >= -1e-3f, "damping-is-not-negative");
  symi_reach("end");
}

// ---- G03
namespace {
Matrix gDx[3];
void normalEq(const Vec &pts, const Vec2 &z, const Quaternion &q, const Vector3 &p, bool robust, const bool *skip, Matrix &H, Matrix &b) {
  H = Matrix::Zero(6, 6); b = Matrix::Zero(6, 1); Matrix33 R = rotOf(q);
  for (size_t i = 0; i < pts.size(); i++) { if (skip[i]) continue;
    Vector3 c = toCam(q, p, pts[i]); float iz = 1 / c(2), r[2], J[2][6]; Matrix33 S = skewOf(c);
    for (int a = 0; a < 2; a++) { r[a] = c(a) * iz - z[i](a); for (int j = 0; j < 3; j++) { J[a][j] = -(R(j, a) * iz - c(a) * iz * iz * R(j, 2)); J[a][3 + j] = S(a, j) * iz - c(a) * iz * iz * S(2, j); } }
    float w = 1; if (robust) { float e = std::sqrt(r[0] * r[0] + r[1] * r[1]); symi_assume((e < 0.999f) | (e > 1.001f)); if (e > 1) w = 0.69314718f / e; }
    for (int x = 0; x < 6; x++) { b(x, 0) -= w * (J[0][x] * r[0] + J[1][x] * r[1]); for (int y = 0; y < 6; y++) H(x, y) += w * (J[0][x] * J[0][y] + J[1][x] * J[1][y]); } }
}
bool estimate(PnPSolver &s, bool robust, const Vec &a, const Vec2 &b, Quaternion &q, Vector3 &p) { return robust ? s.EstimatePoseKernel(a, b, q, p) : s.EstimatePose(a, b, q, p); }
}
// one iteration from any pose; mode 0: any position and points, 1: any orientation, 2: a match at zero depth among them
static void iteration(bool robust) {
  PnPSolver s; s.maxIterateTimes = 1; int mode = symi_choice("mode", 3), n = mode == 1 ? 1 : mode == 2 ? 2 : 1 + symi_choice("n", 2); bool skip[3] = {false, false, false};
  Quaternion q = mode == 1 ? squat("q") : gq(symi_choice("q", mode == 2 ? 2 : 4)); Vector3 p = mode == 1 ? Vector3(1, -0.5f, 0.25f) : sv3("p", -10, 10); Vec pts; Vec2 z;
  for (int i = 0; i < n; i++) {
    Vector3 x = mode == 1 ? Vector3(2, 1, 4) : sv3(N("x", i), -20, 20); z.push_back(mode == 1 ? Vector2(0.25f, symi_f32("z", -4, 4)) : sv2(N("z", i), -4, 4));
    if (mode == 2 && i == 0) { skip[0] = true; float u = symi_f32("u", -5, 5), v = symi_f32("v", -5, 5); Matrix33 R = rotOf(q); for (int k = 0; k < 3; k++) x(k) = p(k) + R(k, 0) * u + R(k, 1) * v; }
    else { float d = toCam(q, p, x)(2); symi_assume((d > 0.0625f) | (d < -0.0625f)); }
    pts.push_back(x);
  }
  gDx[0] = Matrix(6, 1); for (int i = 0; i < 6; i++) gDx[0](i, 0) = symi_f32(N("dx", i), -1, 1);
  symistub::log().clear(); symistub::solveFn() = [](int k, const Matrix &, const Matrix &) { return gDx[0]; };
  Quaternion q1 = q; Vector3 p1 = p;
  symi_check(estimate(s, robust, pts, z, q1, p1), "estimation-succeeds");
  symi_check(symistub::log().size() == 1, "one-step-per-iteration"); if (symistub::log().size() != 1) return;
  auto &l = symistub::log()[0]; symi_check(l.A.rows() == 6 && l.A.cols() == 6 && l.B.rows() == 6 && l.B.cols() == 1, "normal-equations-shape"); if (l.A.rows() != 6 || l.B.rows() != 6) return;
  Matrix H, b; normalEq(pts, z, q, p, robust, skip, H, b);
  eqm(l.A, H, 1e-3f, "normal-matrix-of-the-true-derivatives"); eqm(l.B, b, 1e-3f, "right-hand-side-of-the-residuals");
  for (int i = 0; i < 3; i++) symi_check_eq(p1(i), p(i) + gDx[0](i, 0), 1e-4f, "position-moves-by-the-solution");
  eqq(q1, unitOf(qmul(q, Quaternion(1, 0.5f * gDx[0](3, 0), 0.5f * gDx[0](4, 0), 0.5f * gDx[0](5, 0)))), 1e-4f, "orientation-turns-on-the-right");
  symi_reach("end");
}
extern "C" void g03_plain() { iteration(false); }
extern "C" void g03_robust() { iteration(true); }
// many matches, three of them with any observation; some at zero depth
extern "C" void g03_long() {
  PnPSolver s; s.maxIterateTimes = 1; const int n = 280; bool robust = symi_choice("robust", 2), skip[280]; int at = symi_choice("at", 2) * 270; Quaternion q = gq(symi_choice("q", 3)); Vector3 p(1, -0.5f, 0.25f); Vec pts; Vec2 z; Matrix33 R = rotOf(q);
  for (int i = 0; i < n; i++) { skip[i] = i % 9 == 4; Vector3 c((i % 5) - 2, (i % 3) - 1, skip[i] ? 0 : 4 + i % 4), x; for (int k = 0; k < 3; k++) x(k) = p(k) + R(k, 0) * c(0) + R(k, 1) * c(1) + R(k, 2) * c(2); pts.push_back(x); z.push_back(i >= at && i < at + 3 ? Vector2(symi_f32(N("z", i), -4, 4), 0.125f) : Vector2(0.25f * (i % 4), 0.125f * (i % 6) - 0.5f)); }
  gDx[0] = Matrix(6, 1); for (int i = 0; i < 6; i++) gDx[0](i, 0) = symi_f32(N("dx", i), -1, 1); symistub::log().clear(); symistub::solveFn() = [](int k, const Matrix &, const Matrix &) { return gDx[0]; };
  Quaternion q1 = q; Vector3 p1 = p; symi_check(estimate(s, robust, pts, z, q1, p1), "estimation-succeeds"); symi_check(symistub::log().size() == 1, "one-step-per-iteration"); if (symistub::log().size() != 1) return; auto &l = symistub::log()[0]; if (l.A.rows() != 6 || l.B.rows() != 6) return;
  Matrix H, b; normalEq(pts, z, q, p, robust, skip, H, b); eqm(l.A, H, 2e-3f, "normal-matrix-of-the-true-derivatives"); eqm(l.B, b, 2e-3f, "right-hand-side-of-the-residuals");
  for (int i = 0; i < 3; i++) symi_check_eq(p1(i), p(i) + gDx[0](i, 0), 1e-4f, "position-moves-by-the-solution");
  symi_reach("end");
}
// a second iteration starts from the first one's result; small steps end it; refused inputs; undefined solutions
extern "C" void g03_sequence() {
  PnPSolver s; bool robust = symi_choice("robust", 2); s.maxIterateTimes = 2 + symi_choice("limit", 2); int n = 1 + symi_choice("n", 2); Vec pts; Vec2 z; bool skip[3] = {false, false, false};
  Quaternion q = gq(symi_choice("q", 4)); Vector3 p(0.5f, 1, -1);
  for (int i = 0; i < n; i++) { Vector3 c(i - 0.5f, 1, 8 + i); Matrix33 R = rotOf(q); Vector3 x; for (int k = 0; k < 3; k++) x(k) = p(k) + R(k, 0) * c(0) + R(k, 1) * c(1) + R(k, 2) * c(2); pts.push_back(x); z.push_back(Vector2(symi_f32(N("z", i), -4, 4), 0.125f)); }
  int stop = symi_choice("stop", 4);     // which step is negligible (3: none)
  for (int k = 0; k < 3; k++) { gDx[k] = Matrix::Zero(6, 1); if (k != stop) { gDx[k](0, 0) = 0.5f; gDx[k](1, 0) = -0.25f; gDx[k](2, 0) = 0.125f; if (k == 0) gDx[k](3, 0) = symi_choice("turn", 2) ? 0 : 1.5f; } else gDx[k](0, 0) = 5e-7f; }
  symistub::log().clear(); symistub::solveFn() = [](int k, const Matrix &, const Matrix &) { return gDx[k > 2 ? 2 : k]; };
  Quaternion q1 = q; Vector3 p1 = p; symi_check(estimate(s, robust, pts, z, q1, p1), "estimation-succeeds");
  int want = (int)s.maxIterateTimes; if (stop < want) want = stop + 1;
  symi_check((int)symistub::log().size() == want, "iterates-until-negligible-or-limit"); if ((int)symistub::log().size() != want) return;
  for (int k = 0; k < want; k++) {
    Matrix H, b; normalEq(pts, z, q, p, robust, skip, H, b); eqm(symistub::log()[k].A, H, 1e-3f, "each-iteration-at-its-own-pose"); eqm(symistub::log()[k].B, b, 1e-3f, "each-iteration-at-its-own-pose");
    for (int i = 0; i < 3; i++) p(i) += gDx[k](i, 0); q = unitOf(qmul(q, Quaternion(1, 0.5f * gDx[k](3, 0), 0.5f * gDx[k](4, 0), 0.5f * gDx[k](5, 0))));
  }
  eqm(p1, p, 1e-4f, "position-moves-by-the-solution"); eqq(q1, q, 1e-4f, "orientation-turns-on-the-right");
  symi_reach("end");
}
extern "C" void g03_refused() {
  PnPSolver s; bool robust = symi_choice("robust", 2); int a = symi_choice("a", 3), b = symi_choice("b", 3); Vec pts; Vec2 z; for (int i = 0; i < a; i++) pts.push_back(Vector3(i, 1, 4)); for (int i = 0; i < b; i++) z.push_back(Vector2(0, 0.5f));
  bool nan = symi_choice("nan", 2); gDx[0] = Matrix::Zero(6, 1); if (nan) gDx[0](symi_choice("at", 6), 0) = std::nanf(""); symistub::log().clear(); symistub::solveFn() = [](int, const Matrix &, const Matrix &) { return gDx[0]; };
  Quaternion q = a == b && a ? gq(1) : squat("q"), q1 = q; Vector3 p = Vector3(0, 0, symi_f32("p", -1, 1)), p1 = p; bool ok = estimate(s, robust, pts, z, q1, p1);
  bool bad = a != b || a == 0; symi_check(ok == !(bad || nan), "unequal-empty-or-undefined-is-failure");
  if (bad) { eqm(p1, p, 0, "refused-input-changes-nothing"); eqq(q1, q, 0, "refused-input-changes-nothing"); symi_check(symistub::log().empty(), "refused-input-changes-nothing"); }
  { Quaternion q2 = q; Vector3 p2 = p; symi_check(!s.EstimatePoseP3P(pts, z, q2, p2), "fewer-than-three-matches-are-failure"); eqm(p2, p, 0, "refused-input-changes-nothing"); eqq(q2, q, 0, "refused-input-changes-nothing"); }
  symi_reach("end");
}

// ---- G04: positions 0, 1, .. along x are the models; random draws are inputs
namespace { int gDraw, gModels, gMoves[8]; int gN; }
extern "C" int rand() { int k = gDraw++; return k < 4 ? (int)symi_choice(N("rand", k), gN) + (k == 1 ? gN : 0) : k; }
namespace {
int scoreOf(const Vec &pts, const Vec2 &z, const Vector3 &p, float thr, bool *in = nullptr) {
  int s = 0; for (size_t i = 0; i < pts.size(); i++) { float u = (pts[i](0) - p(0)) / (pts[i](2) - p(2)) - z[i](0), v = (pts[i](1) - p(1)) / (pts[i](2) - p(2)) - z[i](1); bool ok = u * u + v * v < thr; if (in) in[i] = ok; if (ok) s++; } return s;
}
}
extern "C" void g04_best() {
  PnPSolver s; s.maxIterateTimes = 1; gN = 3 + symi_choice("n", 2); int iters = 1 + symi_choice("iters", thorough() ? 3 : gN == 3 ? 3 : 2); s.ransacParam.maxIterateTimes = iters; float thr = s.ransacParam.inlierThres = 0.0625f; float rate = s.ransacParam.inlierRateThres = symi_f32("rate", 0.25f, 1.25f);
  Vec pts; Vec2 z; for (int i = 0; i < gN; i++) { pts.push_back(Vector3(i, 1 - i, 4)); z.push_back(Vector2(symi_f32(N("z", i), -2, 2), 0.25f * (1 - i))); }
  gDraw = 4; gModels = 0; for (int k = 0; k < 3; k++) gMoves[k] = 0;
  symistub::log().clear(); symistub::solveFn() = [](int, const Matrix &, const Matrix &) { Matrix d = Matrix::Zero(6, 1); int k = gModels++; if (k < 3) d(0, 0) = (gMoves[k] = (int)symi_choice(N("move", k), k == 2 && !thorough() ? 2 : 3)) - 1; return d; };
  Quaternion q(1, 0, 0, 0); Vector3 p(0, 0, 0);
  int kind = gN == 4 && !thorough() ? 2 : symi_choice("flags", 3); bool flags = kind > 0; std::vector<bool> in(kind == 2 ? 6 : 0, true); bool ok;
  if (flags) ok = s.EstimatePoseRANSAC(pts, z, q, p, in); else ok = s.EstimatePoseRANSAC(pts, z, q, p);
  symi_check(ok, "estimation-succeeds");
  symi_check(gModels >= 1 && gModels <= iters, "no-more-models-than-the-limit"); if (gModels < 1 || gModels > 3) return;
  // the models tried, each started from the best one so far
  Vector3 best(0, 0, 0); int bs = 0, top = 0; float tried[3];
  for (int k = 0; k < gModels; k++) { Vector3 m = best; m(0) += gMoves[k] - 1; int sc = scoreOf(pts, z, m, thr); tried[k] = m(0); if (sc > bs) { bs = sc; best = m; } if (sc > top) top = sc;
    bool enough = float(sc) / gN > rate; symi_check(enough ? k == gModels - 1 : k < gModels - 1 || gModels == iters, "stops-at-enough-inliers-or-the-limit"); }
  float px = p(0); int ret = scoreOf(pts, z, p, thr); bool among = px == 0; for (int k = 0; k < gModels; k++) among |= px == tried[k];
  symi_check(among & (p(1) == 0) & (p(2) == 0), "returns-the-start-or-a-tried-model");
  symi_check(ret >= top, "no-tried-model-has-more-inliers");
  if (flags) { bool w[4]; scoreOf(pts, z, p, thr, w); symi_check((int)in.size() == gN, "one-flag-per-match"); if ((int)in.size() == gN) for (int i = 0; i < gN; i++) symi_check(in[i] == w[i], "flags-are-the-inliers-of-the-returned-pose"); }
  symi_reach("end");
}
// samples are three distinct matches, whatever is drawn; too few or unequal matches are refused
extern "C" void g04_sample() {
  PnPSolver s; s.maxIterateTimes = 1; int a = symi_choice("a", 6), b = symi_choice("b", 6); gN = a ? a : 1; s.ransacParam.maxIterateTimes = 1;
  Vec pts; Vec2 z; for (int i = 0; i < a; i++) pts.push_back(Vector3(i, 1 - i, 4)); for (int i = 0; i < b; i++) z.push_back(Vector2(0.25f * i, 0.25f * (1 - i)));
  gDraw = 0; symistub::log().clear(); symistub::solveFn() = nullptr; Quaternion q(1, 0, 0, 0); Vector3 p(0, 0, 0); std::vector<bool> in(2, true);
  bool ok = symi_choice("flags", 2) ? s.EstimatePoseRANSAC(pts, z, q, p, in) : s.EstimatePoseRANSAC(pts, z, q, p);
  symi_check(ok == (a == b && a >= 3), "fewer-than-three-or-unequal-matches-are-refused");
  if (ok) {
    symi_check(symistub::log().size() == 1, "one-model-per-iteration"); if (symistub::log().size() != 1) return;
    bool any = false;
    for (int i = 0; i < a; i++) for (int j = i + 1; j < a; j++) for (int k = j + 1; k < a; k++) { Vec u = {pts[i], pts[j], pts[k]}; Vec2 v = {z[i], z[j], z[k]}; bool skip[3] = {false, false, false}; Matrix H, r; normalEq(u, v, Quaternion(1, 0, 0, 0), Vector3(0, 0, 0), false, skip, H, r); bool same = true; for (int x = 0; x < 6; x++) for (int y = 0; y < 6; y++) { float d = H(x, y) - symistub::log()[0].A(x, y); same = same & (d < 1e-3f) & (d > -1e-3f); } any = any | same; }
    symi_check(any, "the-sample-is-three-distinct-matches");
  }
  symi_reach("end");
}
// many matches: three of them with any observation, each model any of three displacements
extern "C" void g04_long() {
  PnPSolver s; s.maxIterateTimes = 1; const int n = 280, iters = 4; s.ransacParam.maxIterateTimes = iters; float thr = s.ransacParam.inlierThres = 0.0625f; float rate = s.ransacParam.inlierRateThres = symi_f32("rate", 0.25f, 1.25f); Vec pts; Vec2 z; int at = symi_choice("at", 2) * 270;
  for (int i = 0; i < n; i++) { pts.push_back(Vector3(i % 5, 1 - i % 3, 4)); z.push_back(Vector2(i >= at && i < at + 2 ? symi_f32(N("z", i), -2, 2) : 0.25f * (i % 5) + (i % 4 == 3 ? 1 : i % 4 == 2 ? -0.25f : 0), 0.25f * (1 - i % 3))); }
  gN = n; gDraw = 4; gModels = 0; for (int k = 0; k < 4; k++) gMoves[k] = 1; symistub::log().clear(); symistub::solveFn() = [](int, const Matrix &, const Matrix &) { Matrix d = Matrix::Zero(6, 1); int k = gModels++; if (k < 4) d(0, 0) = (gMoves[k] = (int)symi_choice(N("move", k), 3)) - 1; return d; };
  Quaternion q(1, 0, 0, 0); Vector3 p(0, 0, 0); std::vector<bool> in; symi_check(s.EstimatePoseRANSAC(pts, z, q, p, in), "estimation-succeeds"); symi_check(gModels >= 1 && gModels <= iters, "no-more-models-than-the-limit"); if (gModels < 1 || gModels > iters) return;
  Vector3 best(0, 0, 0); int bs = 0, top = 0; float tried[4]; for (int k = 0; k < gModels; k++) { Vector3 m = best; m(0) += gMoves[k] - 1; int sc = scoreOf(pts, z, m, thr); tried[k] = m(0); if (sc > bs) { bs = sc; best = m; } if (sc > top) top = sc; bool enough = float(sc) / n > rate; symi_check(enough ? k == gModels - 1 : k < gModels - 1 || gModels == iters, "stops-at-enough-inliers-or-the-limit"); }
  bool among = p(0) == 0; for (int k = 0; k < gModels; k++) among |= p(0) == tried[k]; symi_check(among, "returns-the-start-or-a-tried-model"); symi_check(scoreOf(pts, z, p, thr) >= top, "no-tried-model-has-more-inliers");
  bool w[280]; scoreOf(pts, z, p, thr, w); symi_check((int)in.size() == n, "one-flag-per-match"); if ((int)in.size() == n) for (int i = 0; i < n; i++) symi_check(in[i] == w[i], "flags-are-the-inliers-of-the-returned-pose"); symi_reach("end");
}
#include "pollute.hpp"
#ifndef SYMI_ASAN
extern "C" void symi_prelude() { pollute::geometry(); }
#endif
