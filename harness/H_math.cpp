// Rotation helpers (build with SYMI_STUBS: the eigen decomposition is replaced).
#include "common.hpp"
#include <math_lib.hpp>
using Qd = Eigen::Quaternion<double>;
extern "C" void m01_skew() {
  Vector3 a = sv3("a", -1000, 1000), b = sv3("b", -1000, 1000);
  Vector3 c(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0));
  Matrix33 S = Utility::SkewSymmetricMatrix(a); Vector6 v; v << a(0), a(1), a(2), 1, 2, 3; Matrix33 T = Utility::SkewSymmetricMatrix(v.head<3>());
  Eigen::Vector3d ad(a(0), a(1), a(2)); Eigen::Matrix3d D = Utility::SkewSymmetricMatrix(ad);
  Vector6 w; w << 1, 2, 3, a(0), a(1), a(2); Matrix33 U = Utility::SkewSymmetricMatrix(w.tail<3>());
  eqm(mul(S, b), c, 1e-5f, "skew-times-vector-is-the-cross-product"); eqm(mul(T, b), c, 1e-5f, "skew-variants-agree"); eqm(mul(U, b), c, 1e-5f, "skew-variants-agree");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { symi_check_eq64(D(i, j), S(i, j), 1e-6, "skew-variants-agree"); symi_check_eq(S(i, j), -S(j, i), 0, "skew-is-antisymmetric"); }
  symi_reach("end");
}
static Quaternion anyq(const char *n) { float v[4]; for (int i = 0; i < 4; i++) v[i] = symi_f32(N(n, i), -8, 8); return Quaternion(v[0], v[1], v[2], v[3]); }
static void lr(const Matrix44 &L, const Matrix44 &R, const Quaternion &p, const Quaternion &q, const char *l) {
  Quaternion e = qmul(p, q); float P[4] = {p.w(), p.x(), p.y(), p.z()}, Q[4] = {q.w(), q.x(), q.y(), q.z()}, E[4] = {e.w(), e.x(), e.y(), e.z()};
  for (int i = 0; i < 4; i++) { float a = 0, b = 0; for (int j = 0; j < 4; j++) { a += L(i, j) * Q[j]; b += R(i, j) * P[j]; } symi_check_eq(a, E[i], 1e-5f, l); symi_check_eq(b, E[i], 1e-5f, l); }
}
extern "C" void m01_product() {
  Quaternion p = anyq("p"), q = anyq("q");
  lr(Utility::Qleft(p), Utility::Qright(q), p, q, "quaternion-matrices-are-the-products");
  Qd pd(p.w(), p.x(), p.y(), p.z()), qd(q.w(), q.x(), q.y(), q.z());
  Eigen::Matrix4d A = Utility::Qleft(pd), B = Utility::Qright(qd);
  lr(A.cast<float>(), B.cast<float>(), p, q, "quaternion-matrix-variants-agree");
  float d[4] = {p.x(), p.y(), p.z(), p.w()}, f[4] = {q.x(), q.y(), q.z(), q.w()};
  lr(Utility::Qleft(Eigen::Map<Quaternion>(d)), Utility::Qright(Eigen::Map<Quaternion>(f)), p, q, "quaternion-matrix-variants-agree");
  symi_reach("end");
}
extern "C" void m01_small() {
  Vector3 t = sv3("t", -10, 10); Quaternion d = Utility::DeltaQ(t);
  eqq(d, Quaternion(1, 0.5f * t(0), 0.5f * t(1), 0.5f * t(2)), 1e-6f, "small-rotation-is-one-plus-half-the-vector");
  Vector6 v; v << 1, 2, 3, t(0), t(1), t(2); eqq(Utility::DeltaQ(v.tail<3>()), d, 1e-6f, "small-rotation-variants-agree"); eqq(Utility::DeltaQ(v.segment<3>(3)), d, 1e-6f, "small-rotation-variants-agree"); eqq(Utility::DeltaQ(t * 2.0f), Quaternion(1, t(0), t(1), t(2)), 1e-6f, "small-rotation-variants-agree");
  eqm(t, sv3("t", -10, 10), 0, "argument-untouched");
  symi_reach("end");
}
extern "C" void m01_transform() {
  Quaternion q = squat("q"); Vector3 t = sv3("t", -1000, 1000), x = sv3("x", -1000, 1000); Matrix44 T = Utility::TransformMatrix(q, t); Matrix33 R = rotOf(q);
  for (int i = 0; i < 3; i++) { float e = t(i), s = T(i, 3); for (int j = 0; j < 3; j++) { e += R(i, j) * x(j); s += T(i, j) * x(j); } symi_check_eq(s, e, 1e-4f, "transform-rotates-then-translates"); }
  for (int j = 0; j < 4; j++) symi_check_eq(T(3, j), j == 3, 0, "transform-bottom-row");
  symi_check_eq(Utility::ComputeTranslationMagnitude(t), std::sqrt(t(0) * t(0) + t(1) * t(1) + t(2) * t(2)), 1e-5f, "translation-magnitude-is-the-norm");
  symi_reach("end");
}
// the angles as functions of the rotation matrix; inverse functions are symbolic
extern "C" void m01_euler() {
  Quaternion q = squat("q"); Vector3 e = Utility::QuaternionToEuler(q); Matrix33 R = rotOf(q);       // R_wb; the code uses its transpose
  const float k = 57.295779579f;
  symi_check_eq(e(0), std::atan2(R(2, 1), R(2, 2)) * k, 1e-4f, "euler-first-angle"); symi_check_eq(e(1), std::asin(-R(2, 0)) * k, 1e-4f, "euler-second-angle"); symi_check_eq(e(2), std::atan2(R(1, 0), R(0, 0)) * k, 1e-4f, "euler-third-angle");
  float c = 0.5f * (R(0, 0) + R(1, 1) + R(2, 2) - 1); float m = std::acos(c); if (m < 0) m = -m; Matrix33 Rc = R; Quaternion qc = q;
  symi_check_eq(Utility::ComputeRotationMagnitude(Rc), m, 1e-4f, "rotation-magnitude-from-the-trace"); symi_check_eq(Utility::ComputeRotationMagnitude(qc), m, 1e-4f, "rotation-magnitude-variants-agree");
  symi_reach("end");
}
extern "C" void m01_euler_axes() {      // exact reference values
  static const float H = 0.70710678f; static const float Q[7][7] = {{1, 0, 0, 0, 0, 0, 0}, {H, H, 0, 0, 90, 0, 0}, {H, 0, H, 0, 0, 90, 0}, {H, 0, 0, H, 0, 0, 90}, {0.92387953f, 0.38268343f, 0, 0, 45, 0, 0}, {0.96592583f, 0, -0.25881905f, 0, 0, -30, 0}, {0.5f, 0, 0, -0.8660254f, 0, 0, -120}};
  int k = symi_choice("k", 7); Quaternion q(Q[k][0], Q[k][1], Q[k][2], Q[k][3]); Vector3 e = Utility::QuaternionToEuler(q); float a = 0; for (int i = 0; i < 3; i++) a += Q[k][4 + i] < 0 ? -Q[k][4 + i] : Q[k][4 + i];
  if (k != 2) for (int i = 0; i < 3; i++) { float d = e(i) - Q[k][4 + i]; symi_check((d < 0.1f) & (d > -0.1f), "euler-angles-of-axis-rotations"); }
  float m = Utility::ComputeRotationMagnitude(q), d = m - a * 0.01745329252f; symi_check((d < 2e-3f) & (d > -2e-3f), "magnitude-of-axis-rotations");
  symi_reach("end");
}
// A = V L V' for every rotation V and eigenvalues >= 0: the result is V L^+ V'
static Matrix gV, gL;
extern "C" void m01_inverse() {
  int n = 2 + symi_choice("n", 2); Matrix V(n, n), L(n, 1);
  if (n == 3) { Quaternion q = squat("q"); V = rotOf(q); } else { float c = symi_f32("c", -1, 1), s = std::sqrt(1 - c * c); V << c, -s, s, c; }
  int zero = symi_choice("zeros", n + 1); bool z[3];
  for (int i = 0; i < n; i++) { z[i] = i < zero; L(i, 0) = z[i] ? (i ? 0.0f : -symi_f32("tiny", 0, 1e-12f)) : symi_f32(N("l", i), 2e-10f, 1000); }
  Matrix A = Matrix::Zero(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) A(i, j) += V(i, k) * L(k, 0) * V(j, k);
  gV = V; gL = L; symistub::log().clear(); symistub::eigVFn() = [](int, const Matrix &, const Matrix &) { return gV; }; symistub::eigLFn() = [](int, const Matrix &, const Matrix &) { return gL; };
  Matrix I = Utility::Inverse(A);
  if (symistub::log().size() == 1 && symistub::log()[0].kind == 3) { symi_check(symistub::log()[0].A.rows() == n && symistub::log()[0].A.cols() == n, "decomposes-the-given-matrix"); eqm(symistub::log()[0].A, A, 1e-4f, "decomposes-the-given-matrix"); }
  symi_check(I.rows() == n && I.cols() == n, "inverse-shape"); if (I.rows() != n || I.cols() != n) return;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { float e = 0, p = 0; for (int k = 0; k < n; k++) if (!z[k]) { e += V(i, k) * V(j, k) / L(k, 0); p += V(i, k) * V(j, k); }
    symi_check_eq(I(i, j), e, 1e-3f, "inverse-on-the-range"); (void)p; }
  symi_reach("end");
}
extern "C" void m01_inverse_one() { float a = symi_f32("a", 2e-10f, 1000); Matrix A(1, 1); A(0, 0) = a; gV = Matrix::Ones(1, 1); gL = A; symistub::log().clear(); symistub::eigVFn() = [](int, const Matrix &, const Matrix &) { return gV; }; symistub::eigLFn() = [](int, const Matrix &, const Matrix &) { return gL; }; Matrix I = Utility::Inverse(A); symi_check_eq(I(0, 0) * a, 1, 1e-5f, "inverse-of-a-number"); symi_reach("end"); }
