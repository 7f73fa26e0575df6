// Attitude estimator.
#include "common.hpp"
#include <attitude_estimate.hpp>
#include <imu_state.hpp>
#include <math_lib.hpp>

namespace {
Vector3 apply(const Quaternion &q, const Vector3 &v) { Matrix33 R = rotOf(q); Vector3 r; for (int i = 0; i < 3; i++) r(i) = R(i, 0) * v(0) + R(i, 1) * v(1) + R(i, 2) * v(2); return r; }
float len(const Vector3 &v) { return std::sqrt(v(0) * v(0) + v(1) * v(1) + v(2) * v(2)); }
bool eq3(const Vector3 &a, const Vector3 &b) { return (a(0) == b(0)) & (a(1) == b(1)) & (a(2) == b(2)); }
std::shared_ptr<AttitudeEstimateItem> item(double t, const Quaternion &q) { auto i = std::make_shared<AttitudeEstimateItem>(); i->timeStamp = t; i->q_wb = q; return i; }

void aligned(AttitudeEstimate &e, const Vector3 &a, const Vector3 &f, const Vector3 &gw, float fn, float gn) {
  Vector3 g = sv3("gyro", -10, 10); double t = symi_f64("t", 0, 1000000);
  bool ok = e.Propagate(a, g, t);
  float d = gn - fn; if (d < 0) d = -d;
  if (!ok) { symi_check(d > 0.0399f, "refused-only-outside-the-tolerance"); symi_check(e.items.empty(), "no-attitude-when-refused"); symi_reach("refused"); symi_reach("end"); return; }
  symi_check(d < 0.0401f, "accepted-only-within-the-tolerance");
  symi_check(e.items.size() == 1, "one-attitude"); if (e.items.size() != 1) return;
  auto &i = *e.items[0]; const Quaternion &q = i.q_wb;
  symi_check(eq3(i.accel, a) & eq3(i.gyro, g) & (i.timeStamp == t), "sample-recorded");
  symi_check_eq(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), 1, 1e-4f, "attitude-is-unit");
  Vector3 r = apply(q, f); for (int k = 0; k < 3; k++) symi_check_eq(r(k) / fn, gw(k) / gn, 2e-3f, "measured-gravity-is-rotated-onto-world-gravity");
  symi_reach("end");
}
}
// any magnitude: the acceptance gate
extern "C" void a01_gate() {
  AttitudeEstimate e; e.bias_a = sv3("ba", -1, 1); int axis = symi_choice("axis", 3), ga = symi_choice("gaxis", 3);
  float f = symi_f32("f", 0.5f, 40), gn = symi_f32("g", 5, 15); Vector3 gw(0, 0, 0), fv(0, 0, 0); gw(ga) = gn; fv(axis) = f; IMUFullState::gravity_w = gw;
  aligned(e, e.bias_a + fv, fv, gw, f, gn);
}
// level, and inclined by rational angles in any plane through the axis
extern "C" void a01_tilt() {
  AttitudeEstimate e; e.bias_a = sv3("ba", -1, 1); float gn = 9.75f; Vector3 gw(0, 0, gn); IMUFullState::gravity_w = gw;
  float fn = symi_f32("f", 9.72f, 9.78f); Quaternion tilt = squat("tilt");
  symi_assume(tilt.x() * tilt.x() + tilt.y() * tilt.y() <= 0.9375f);   // up to 151 degrees from level
  // f = fn * R' z
  Vector3 f; { Matrix33 R = rotOf(tilt); for (int i = 0; i < 3; i++) f(i) = fn * R(2, i); }
  aligned(e, e.bias_a + f, f, gw, fn, gn);
}
// gravity along any direction
extern "C" void a01_world() {
  AttitudeEstimate e; e.bias_a = sv3("ba", -1, 1); float gn = 9.75f; Quaternion wq = squat("world"); Vector3 gw; { Matrix33 R = rotOf(wq); for (int i = 0; i < 3; i++) gw(i) = gn * R(2, i); } IMUFullState::gravity_w = gw;
  static const float D[6][3] = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
  int k = symi_choice("dir", 6); Vector3 f(gn * D[k][0], gn * D[k][1], gn * D[k][2]);
  symi_assume(D[k][0] * gw(0) + D[k][1] * gw(1) + D[k][2] * gw(2) >= -0.875f * gn);
  aligned(e, e.bias_a + f, f, gw, gn, gn);
}
// exactly level, exactly upside down and the six axes
extern "C" void a01_axes() {
  AttitudeEstimate e; float gn = 9.75f; static const float D[6][3] = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
  int k = symi_choice("dir", 6), w = symi_choice("world", 6); Vector3 f(gn * D[k][0], gn * D[k][1], gn * D[k][2]), gw(gn * D[w][0], gn * D[w][1], gn * D[w][2]); IMUFullState::gravity_w = gw;
  aligned(e, f, f, gw, gn, gn);
}

// ---- A02
extern "C" void a02_step() {
  AttitudeEstimate e; e.bias_a = sv3("ba", -1, 1); e.bias_g = sv3("bg", -1, 1); e.errInt = sv3("ei", -0.125f, 0.125f);
  bool gains = symi_choice("gains", 2); if (gains) { e.Kp = 0.5f; e.Ki = 0.25f; }
  float Kp = e.Kp, Ki = e.Ki; Vector3 ei = e.errInt, bg = e.bias_g, ba = e.bias_a;
  Vector3 gw = symi_choice("gw", 2) ? Vector3(3, -4, 12) : Vector3(0, 0, 9.75f); float gn = gw(0) != 0 ? 13.0f : 9.75f; IMUFullState::gravity_w = gw;
  Quaternion q0 = squat("q0"); double t0 = symi_f64("t0", 0, 1000000); auto i0 = item(t0, q0); i0->accel = sv3("a0", -40, 40); i0->gyro = sv3("g0", -10, 10); e.items.push_back(i0); Vector3 g0 = i0->gyro, a0 = i0->accel;
  int an = symi_choice("norm", 3); Vector3 a = an == 0 ? Vector3(6, -2, 3) : an == 1 ? Vector3(0, 0, 9.75f) : Vector3(2, 10, -11);
  float al = an == 0 ? 7.0f : an == 1 ? 9.75f : 15.0f;
  Vector3 g = sv3("g1", -10, 10); float dt = symi_f32("dt", 0, 1); double t = t0 + (double)dt;
  symi_check(e.Propagate(a, g, t), "sample-accepted"); symi_check(e.items.size() == 2, "one-attitude-per-sample"); if (e.items.size() != 2) return;
  symi_check((e.items[0].get() == i0.get()) & eq3(i0->accel, a0) & eq3(i0->gyro, g0) & (i0->timeStamp == t0) & (i0->q_wb.w() == q0.w()) & (i0->q_wb.x() == q0.x()) & (i0->q_wb.y() == q0.y()) & (i0->q_wb.z() == q0.z()), "earlier-attitude-kept");
  auto &i1 = *e.items[1];
  symi_check(eq3(i1.accel, a) & eq3(i1.gyro, g) & (i1.timeStamp == t), "sample-recorded");
  Matrix33 R = rotOf(q0); Vector3 m, p; for (int i = 0; i < 3; i++) { m(i) = a(i) / al; p(i) = (R(0, i) * gw(0) + R(1, i) * gw(1) + R(2, i) * gw(2)) / gn; }
  Vector3 err(m(1) * p(2) - m(2) * p(1), m(2) * p(0) - m(0) * p(2), m(0) * p(1) - m(1) * p(0)), w, in;
  for (int i = 0; i < 3; i++) { in(i) = ei(i) + Ki * err(i); w(i) = (0.5f * (g0(i) + g(i)) - bg(i) + Kp * err(i) + in(i)) * dt * 0.5f; }
  eqm(e.errInt, in, 1e-5f, "integral-error-accumulates");
  eqm(e.bias_g, bg, 0, "biases-kept"); eqm(e.bias_a, ba, 0, "biases-kept");
  Quaternion x = qmul(q0, Quaternion(1, w(0), w(1), w(2))); const Quaternion &q1 = i1.q_wb;
  float n = std::sqrt(x.w() * x.w() + x.x() * x.x() + x.y() * x.y() + x.z() * x.z());
  eqq(q1, Quaternion(x.w() / n, x.x() / n, x.y() / n, x.z() / n), 1e-4f, "attitude-by-corrected-rate");
  symi_check_eq(q1.w() * q1.w() + q1.x() * q1.x() + q1.y() * q1.y() + q1.z() * q1.z(), 1, 1e-4f, "attitude-stays-unit");
  symi_reach("end");
}
// any accelerometer reading, in its norm and direction
extern "C" void a02_accel() {
  AttitudeEstimate e; float gn = 9.75f; IMUFullState::gravity_w = Vector3(0, 0, gn); e.bias_a = Vector3(0.5f, -0.25f, 1); e.Kp = 0.5f; e.Ki = 0.25f;
  static const float Q[4][4] = {{1, 0, 0, 0}, {0.5f, 0.5f, -0.5f, 0.5f}, {0.5f, -0.5f, -0.5f, -0.5f}, {0, 1, 0, 0}};
  int k = symi_choice("q", 4); Quaternion q0(Q[k][0], Q[k][1], Q[k][2], Q[k][3]); auto i0 = item(LATE, q0); i0->accel = Vector3(1, 2, 3); i0->gyro = Vector3(0.5f, 0.25f, -0.5f); e.items.push_back(i0);
  Vector3 a = sv3("a", -40, 40); symi_assume(a(0) * a(0) + a(1) * a(1) + a(2) * a(2) >= 1);
  float al = len(a); Vector3 g(0.25f, -0.75f, 1);
  symi_check(e.Propagate(a, g, LATE + 0.5), "sample-accepted"); symi_check(e.items.size() == 2, "one-attitude-per-sample"); if (e.items.size() != 2) return;
  Matrix33 R = rotOf(q0); Vector3 m, p; for (int i = 0; i < 3; i++) { m(i) = a(i) / al; p(i) = R(2, i); }
  Vector3 err(m(1) * p(2) - m(2) * p(1), m(2) * p(0) - m(0) * p(2), m(0) * p(1) - m(1) * p(0)), w;
  for (int i = 0; i < 3; i++) { w(i) = (0.5f * (i0->gyro(i) + g(i)) + 0.75f * err(i)) * 0.25f; }
  Quaternion x = qmul(q0, Quaternion(1, w(0), w(1), w(2))); const Quaternion &q1 = e.items[1]->q_wb;
  float n = std::sqrt(x.w() * x.w() + x.x() * x.x() + x.y() * x.y() + x.z() * x.z());
  eqq(q1, Quaternion(x.w() / n, x.x() / n, x.y() / n, x.z() / n), 1e-4f, "attitude-by-corrected-rate");
  // the predicted gravity direction moves towards the measured one (rates switched off)
  AttitudeEstimate f; f.Kp = 0.5f; f.Ki = 0; auto j0 = item(LATE, q0); j0->gyro.setZero(); f.items.push_back(j0); f.Propagate(a, Vector3(0, 0, 0), LATE + 0.5); if (f.items.size() != 2) return;
  eqm(f.items[1]->q_wb.coeffs(), unitOf(qmul(q0, Quaternion(1, 0.125f * err(0), 0.125f * err(1), 0.125f * err(2)))).coeffs(), 1e-4f, "turns-towards-measured-gravity");
  symi_reach("end");
}
// histories of samples with any time stamps: older ones are refused and change nothing
extern "C" void a02_order() {
  AttitudeEstimate e; e.Kp = e.Ki = 0; IMUFullState::gravity_w = Vector3(0, 0, 9.75f); int n = thorough() ? 5 : 4; double last = 0; int cnt = 0;
  for (int i = 0; i < n; i++) {
    double t = symi_f64(N("t", i), 0, 1048576); Vector3 ei = e.errInt; Vector3 a(0, i % 2 ? 3 : 0, i % 2 ? 9.25f : 9.75f), g(0, 0, 0);
    Quaternion q(1, 0, 0, 0); if (cnt) q = e.items.back()->q_wb;
    bool ok = e.Propagate(a, g, t); bool want = cnt == 0 || t >= last;
    if (cnt == 0) want = i % 2 == 0;
    symi_check(ok == want, "older-sample-refused-others-accepted");
    if (ok) { cnt++; last = t; symi_check((e.items.back()->timeStamp == t) & eq3(e.items.back()->accel, a) & eq3(e.items.back()->gyro, g), "sample-recorded"); }
    else { symi_check(eq3(e.errInt, ei), "refused-sample-changes-nothing"); if (cnt) symi_check((e.items.back()->timeStamp == last) & (e.items.back()->q_wb.w() == q.w()) & (e.items.back()->q_wb.x() == q.x()), "refused-sample-changes-nothing"); }
    symi_check((int)e.items.size() == cnt, "one-attitude-per-accepted-sample"); if ((int)e.items.size() != cnt) return;
  }
  symi_reach("end");
}

// ---- A03
static void lookup(int n, bool rounded) {
  AttitudeEstimate e; double t[6];
  for (int i = 0; i < n; i++) { t[i] = symi_f64(N("t", i), 0, 1048576); if (i) symi_assume(t[i] > t[i - 1]); e.items.push_back(item(t[i], Quaternion(i + 1, 2, 3, 4))); }
  double ts = symi_f64("ts", 0, 1048576), thr = symi_f64("thr", 0, 1000); Quaternion out(-7, 5, 6, 8);
  bool ok = e.GetAttitude(ts, thr, out);
  bool any = false; for (int i = 0; i < n; i++) { double d = t[i] > ts ? t[i] - ts : ts - t[i]; any = any | (d < thr); }
  symi_check(ok == any, "succeeds-iff-one-is-closer-than-the-tolerance");
  symi_check((int)e.items.size() == n, "history-kept");
  if (!ok) { symi_check((out.w() == -7) & (out.x() == 5) & (out.y() == 6) & (out.z() == 8), "output-untouched-on-failure"); symi_reach("end"); return; }
  int k = (int)out.w() - 1; symi_check(k >= 0 && k < n && out.x() == 2 && out.y() == 3 && out.z() == 4, "a-stored-estimate"); if (k < 0 || k >= n) return;
  double dk = t[k] > ts ? t[k] - ts : ts - t[k];
  for (int i = 0; i < n; i++) { double d = t[i] > ts ? t[i] - ts : ts - t[i]; if (i < k && !rounded) symi_check(d > dk, "the-earlier-on-a-tie"); else symi_check(d >= dk, "the-closest"); }
  symi_reach("end");
}
extern "C" void a03_lookup() { lookup(symi_choice("n", thorough() ? 6 : 5), false); }
extern "C" void a03_lookup_fp() { lookup(symi_choice("n", thorough() ? 4 : 3), true); }
// long histories: 30 samples, one of them at any time; 40 estimates, any time asked for
extern "C" void a02_long() {
  AttitudeEstimate e; e.Kp = e.Ki = 0; IMUFullState::gravity_w = Vector3(0, 0, 9.75f); int n = 140, at = 5 + 65 * symi_choice("at", 3); double last = 0; std::vector<double> acc;
  for (int i = 0; i < n; i++) {
    double t = i == at ? symi_f64("t", LATE - 1, LATE + 9) : LATE + i * 0.0625 - (i % 7 == 6 ? 0.25 : 0); Vector3 a(0.125f * i, 0, 9.75f), g(i, 0.25f, 0); bool want = acc.empty() || t >= last;
    symi_check(e.Propagate(a, g, t) == want, "older-sample-refused-others-accepted"); if (want) { acc.push_back(t); last = t; symi_check((e.items.back()->timeStamp == t) & eq3(e.items.back()->accel, a) & eq3(e.items.back()->gyro, g), "sample-recorded"); }
    symi_check(e.items.size() == acc.size(), "one-attitude-per-accepted-sample"); if (e.items.size() != acc.size()) return; }
  for (size_t i = 0; i < acc.size(); i++) symi_check_eq64(e.items[i]->timeStamp, acc[i], 0, "earlier-attitude-kept");
  symi_reach("end");
}
extern "C" void a03_long() {
  AttitudeEstimate e; const int n = 140; std::vector<double> t; for (int i = 0; i < n; i++) { t.push_back(LATE + i * 0.0625 + (i % 3) * 0.0078125 + (i > 20 ? 1 : 0)); e.items.push_back(item(t[i], Quaternion(i + 1, 2, 3, 4))); }
  double ts = symi_f64("ts", LATE - 1, LATE + 11), thr = symi_f64("thr", 0, 8); Quaternion out(-7, 5, 6, 8); bool ok = e.GetAttitude(ts, thr, out); double best = 1e9; int b = -1; for (int i = 0; i < n; i++) { double d = t[i] > ts ? t[i] - ts : ts - t[i]; if (d < best) { best = d; b = i; } }
  symi_check(ok == (best < thr), "succeeds-iff-one-is-closer-than-the-tolerance"); symi_check((int)e.items.size() == n, "history-kept"); if (ok) symi_check(out.w() == b + 1, "the-closest"); else symi_check((out.w() == -7) & (out.x() == 5), "output-untouched-on-failure");
  symi_reach("end");
}
#include "pollute.hpp"
#ifndef SYMI_ASAN
extern "C" void symi_prelude() { pollute::attitude(); }
#endif
