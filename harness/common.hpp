#pragma once
#include "symi.h"
#include <cstdio>
#include <string>
#include <vector>
#include <typedef.hpp>
constexpr double LATE = 1073741824.0;   // a time stamp a single-precision number cannot hold to better than a minute
using namespace ESKF_VIO_BACKEND;
struct N {
  char b[96];
  N(const char *p, int i = -1, int j = -1, int k = -1) {
    if (k >= 0) snprintf(b, sizeof b, "%s.%d.%d.%d", p, i, j, k);
    else if (j >= 0) snprintf(b, sizeof b, "%s.%d.%d", p, i, j);
    else if (i >= 0) snprintf(b, sizeof b, "%s.%d", p, i);
    else snprintf(b, sizeof b, "%s", p);
  }
  operator const char *() const { return b; }
};
inline double stampOf(const char *n, double lo, double hi) { return symi_choice(N((std::string(n) + "-late").c_str()), 2) ? LATE + 0.0625 : symi_f64(n, lo, hi); }
inline bool thorough() { const char *t = getenv("SYMI_TIER"); return t && t[0] == 't'; }
inline Vector3 sv3(const char *n, float lo, float hi) { Vector3 v; for (int i = 0; i < 3; i++) v(i) = symi_f32(N(n, i), lo, hi); return v; }
inline Vector2 sv2(const char *n, float lo, float hi) { Vector2 v; for (int i = 0; i < 2; i++) v(i) = symi_f32(N(n, i), lo, hi); return v; }
inline Quaternion squat(const char *n) { float q[4]; symi_unit_quat(n, q); return Quaternion(q[0], q[1], q[2], q[3]); }
inline Matrix smat(const char *n, int r, int c, float lo, float hi) { Matrix m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = symi_f32(N(n, i, j), lo, hi); return m; }
inline Matrix ssym(const char *n, int r, float lo, float hi) { Matrix m(r, r); for (int i = 0; i < r; i++) for (int j = 0; j <= i; j++) m(i, j) = m(j, i) = symi_f32(N(n, i, j), lo, hi); return m; }
template <class A, class B> inline void eqm(const A &a, const B &b, float tol, const char *label) {
  symi_check(a.rows() == b.rows() && a.cols() == b.cols(), label);
  if (a.rows() != b.rows() || a.cols() != b.cols()) return;
  for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) symi_check_eq(a(i, j), b(i, j), tol, label);
}
inline void eqq(const Quaternion &a, const Quaternion &b, float tol, const char *label) {
  symi_check_eq(a.w(), b.w(), tol, label); symi_check_eq(a.x(), b.x(), tol, label); symi_check_eq(a.y(), b.y(), tol, label); symi_check_eq(a.z(), b.z(), tol, label);
}
// oracle rotation of a unit quaternion: I + 2 w [u] + 2 [u]^2, written out
inline Matrix33 rotOf(const Quaternion &q) {
  float w = q.w(), x = q.x(), y = q.y(), z = q.z(); Matrix33 R;
  R(0, 0) = 1 - 2 * (y * y + z * z); R(0, 1) = 2 * (x * y - w * z); R(0, 2) = 2 * (x * z + w * y);
  R(1, 0) = 2 * (x * y + w * z); R(1, 1) = 1 - 2 * (x * x + z * z); R(1, 2) = 2 * (y * z - w * x);
  R(2, 0) = 2 * (x * z - w * y); R(2, 1) = 2 * (y * z + w * x); R(2, 2) = 1 - 2 * (x * x + y * y);
  return R;
}
// scalar-by-scalar products, independent of Eigen's kernels
template <class A, class B> inline Matrix mul(const A &a, const B &b) {
  Matrix r(a.rows(), b.cols());
  for (int i = 0; i < a.rows(); i++) for (int j = 0; j < b.cols(); j++) { float s = 0; for (int k = 0; k < a.cols(); k++) s += a(i, k) * b(k, j); r(i, j) = s; }
  return r;
}
inline Quaternion qmul(const Quaternion &a, const Quaternion &b) {
  return Quaternion(a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z(), a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(),
                    a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(), a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w());
}
inline Matrix33 skewOf(const Vector3 &v) { Matrix33 M; M << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return M; }
inline Quaternion unitOf(const Quaternion &q) { float n = std::sqrt(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z()); return Quaternion(q.w() / n, q.x() / n, q.y() / n, q.z() / n); }
