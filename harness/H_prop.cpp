// Inertial propagation: nominal motion, covariance, re-propagation, trimming.
#include "common.hpp"
#include <sequence_propagator.hpp>
#include <attitude_estimate.hpp>
#include <backend.hpp>

namespace {
struct Smp { Vector3 a, g; double t; };
Vector3 apply(const Quaternion &q, const Vector3 &v) { Matrix33 R = rotOf(q); Vector3 r; for (int i = 0; i < 3; i++) r(i) = R(i, 0) * v(0) + R(i, 1) * v(1) + R(i, 2) * v(2); return r; }
Quaternion unit(const Quaternion &q) { float n = std::sqrt(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z()); return Quaternion(q.w() / n, q.x() / n, q.y() / n, q.z() / n); }
void extr(FrameManager &m, int n) { for (int i = 0; i < n; i++) m.extrinsics.emplace_back(Extrinsic(Quaternion(1, 0, 0, 0), Vector3(0, 0, 0))); }
Smp sample(int k) { Smp s; s.a = sv3(N("a", k), -40, 40); s.g = sv3(N("g", k), -10, 10); s.t = symi_f64(N("t", k), 0, 1000000); return s; }
void setup(PropagateQueue &q, FrameManager &m, int nex) {
  extr(m, nex); q.propagator = &m;
  q.bias_a = sv3("ba", -1, 1); q.bias_g = sv3("bg", -1, 1);
  q.initState.p_wb = sv3("p0", -1000, 1000); q.initState.v_wb = sv3("v0", -20, 20); q.initState.q_wb = squat("q0");
  IMUFullState::gravity_w = sv3("gw", -20, 20);
}
void checkStep(const IMUPropagateQueueItem &i0, const IMUPropagateQueueItem &i1, const Smp &s0, const Smp &s1, const Vector3 &ba, const Vector3 &bg, const Vector3 &gw) {
  float dt = (float)(s1.t - s0.t);
  Vector3 w; for (int i = 0; i < 3; i++) w(i) = (0.5f * (s0.g(i) + s1.g(i)) - bg(i)) * dt * 0.5f;
  const Quaternion &q0 = i0.nominalState.q_wb, &q1 = i1.nominalState.q_wb;
  eqq(q1, unit(qmul(q0, Quaternion(1, w(0), w(1), w(2)))), 1e-4f, "attitude-by-mean-rate");
  symi_check_eq(q1.w() * q1.w() + q1.x() * q1.x() + q1.y() * q1.y() + q1.z() * q1.z(), 1, 1e-4f, "attitude-stays-unit");
  Vector3 f0 = apply(q0, s0.a - ba), f1 = apply(q1, s1.a - ba), v1, p1;
  for (int i = 0; i < 3; i++) { v1(i) = i0.nominalState.v_wb(i) + (0.5f * (f0(i) + f1(i)) - gw(i)) * dt; p1(i) = i0.nominalState.p_wb(i) + 0.5f * (i0.nominalState.v_wb(i) + i1.nominalState.v_wb(i)) * dt; }
  eqm(i1.nominalState.v_wb, v1, 2e-2f, "velocity-by-mean-acceleration-less-gravity");
  eqm(i1.nominalState.p_wb, p1, 2e-2f, "position-by-mean-velocity");
}
bool eq3(const Vector3 &a, const Vector3 &b) { return (a(0) == b(0)) & (a(1) == b(1)) & (a(2) == b(2)); }
}
extern "C" void p01_first() {
  PropagateQueue q; FrameManager m; setup(q, m, symi_choice("nex", 4));
  int k = symi_choice("stale", 2); if (k) { q.F.setConstant(3); q.G.setConstant(2); q.exCamCov.setConstant(4, 4, 9); }
  Smp s = sample(0); symi_check(q.Propagate(s.a, s.g, s.t), "first-sample-accepted");
  symi_check(q.items.size() == 1, "one-state-created"); if (q.items.size() != 1) return;
  auto &it = *q.items[0];
  symi_check(eq3(it.accel, s.a) & eq3(it.gyro, s.g) & (it.timeStamp == s.t), "sample-recorded-unaltered");
  eqm(it.nominalState.p_wb, q.initState.p_wb, 0, "starts-at-the-initial-state"); eqm(it.nominalState.v_wb, q.initState.v_wb, 0, "starts-at-the-initial-state"); eqq(it.nominalState.q_wb, q.initState.q_wb, 0, "starts-at-the-initial-state");
  symi_reach("end");
}
// n further samples: every step obeys the midpoint rule, earlier states stay
extern "C" void p01_steps() {
  PropagateQueue q; FrameManager m; setup(q, m, 1); const int n = thorough() ? 3 : 2;
  Vector3 ba = q.bias_a, bg = q.bias_g, gw = IMUFullState::gravity_w;
  std::vector<Smp> s; 
  for (int k = 0; k <= n; k++) {
    s.push_back(sample(k)); if (k) { double d = s[k].t - s[k - 1].t; symi_assume((d >= 0) & (d <= 1)); }
    std::vector<IMUPropagateQueueItem> before; for (auto &i : q.items) before.push_back(*i);
    symi_check(q.Propagate(s[k].a, s[k].g, s[k].t), "sample-accepted");
    symi_check((int)q.items.size() == k + 1, "one-state-per-sample"); if ((int)q.items.size() != k + 1) return;
    for (int i = 0; i < k; i++) { auto &b = before[i]; auto &c = *q.items[i]; symi_check(eq3(b.accel, c.accel) & eq3(b.gyro, c.gyro) & (b.timeStamp == c.timeStamp), "earlier-samples-kept");
      eqm(b.nominalState.p_wb, c.nominalState.p_wb, 0, "earlier-states-kept"); eqm(b.nominalState.v_wb, c.nominalState.v_wb, 0, "earlier-states-kept"); eqq(b.nominalState.q_wb, c.nominalState.q_wb, 0, "earlier-states-kept"); }
    auto &it = *q.items[k];
    symi_check(eq3(it.accel, s[k].a) & eq3(it.gyro, s[k].g) & (it.timeStamp == s[k].t), "sample-recorded-unaltered");
    eqm(q.bias_a, ba, 0, "biases-kept"); eqm(q.bias_g, bg, 0, "biases-kept");
  }
  for (int k = 1; k <= n; k++) {
    if (k > 1) {       // a later step starts from any state: replace the intermediate one by a fresh symbolic state
      PropagateQueue r; FrameManager mr; extr(mr, 1); r.propagator = &mr; r.bias_a = ba; r.bias_g = bg; r.initState = q.initState;
      for (int j = 0; j < k; j++) r.Propagate(s[j].a, s[j].g, s[j].t);
      auto &st = r.items.back()->nominalState; st.p_wb = sv3(N("pm", k), -1000, 1000); st.v_wb = sv3(N("vm", k), -20, 20); st.q_wb = squat(N("qm", k));
      r.Propagate(s[k].a, s[k].g, s[k].t);
      checkStep(*r.items[k - 1], *r.items[k], s[k - 1], s[k], ba, bg, gw);
    } else checkStep(*q.items[k - 1], *q.items[k], s[k - 1], s[k], ba, bg, gw);
  }
  symi_reach("end");
}

// ---- P02
namespace {
// the error-state transition seen through the cross-covariance: identity in, F out
struct Cov { PropagateQueue q; FrameManager m; Smp s0, s1; float dt; };
void prepare(Cov &c, int nex, int history, double dtmin, double dtmax) {
  extr(c.m, nex); c.q.propagator = &c.m; c.q.bias_a = sv3("ba", -1, 1); c.q.bias_g = sv3("bg", -1, 1);
  c.q.initState.p_wb.setZero(); c.q.initState.v_wb = sv3("v0", -20, 20); c.q.initState.q_wb = squat("q0");
  IMUFullState::gravity_w = Vector3(0, 0, 9.75f);
  float na = symi_f32("na", 0, 4), ng = symi_f32("ng", 0, 4), nwa = symi_f32("nwa", 0, 4), nwg = symi_f32("nwg", 0, 4);
  if (history) c.q.InitializeProcessNoiseMatrix(3, 5, 7, 9);
  if (history < 2) c.q.InitializeProcessNoiseMatrix(na, ng, nwa, nwg);
  if (history) {       // another stretch of motion was propagated before with the same object
    const IMUMotionState start = c.q.initState; const Vector3 ba = c.q.bias_a, bg = c.q.bias_g; if (history > 1) { c.q.initState.v_wb = Vector3(1, 2, 3); c.q.initState.q_wb = Quaternion(0.5f, 0.5f, -0.5f, 0.5f); c.q.bias_a = c.q.bias_g = Vector3(0.25f, 0, 0); }
    for (int k = 2; k < history; k++) c.q.Propagate(Vector3(1 + k % 3, 2 - k % 5, 9), Vector3(0.5f * (k % 2), -1, 2), 0.0078125 * k);
    c.q.Propagate(Vector3(1, 2, 3), Vector3(0.5f, -1, 2), 1); c.q.Propagate(Vector3(3, -1, 9), Vector3(1, 2, -0.5f), 1.5);
    c.q.initState = start; c.q.bias_a = ba; c.q.bias_g = bg;
    auto &b = *c.q.items.back(); b.nominalState.q_wb = c.q.initState.q_wb; b.nominalState.v_wb = c.q.initState.v_wb; b.imuCov.setZero();
    c.s0 = sample(0); if (history > 2) c.s0.t = LATE; b.accel = c.s0.a; b.gyro = c.s0.g; b.timeStamp = c.s0.t; b.imuExCamCov.setZero(15, nex * 6 + 6);
    if (history == 1) c.q.items.pop_front(); else c.q.InitializeProcessNoiseMatrix(na, ng, nwa, nwg);
  } else { c.s0 = sample(0); c.q.Propagate(c.s0.a, c.s0.g, c.s0.t); }
  c.s1 = sample(1); c.dt = history > 2 ? 0.0625f : symi_f32("dt", dtmin, dtmax); c.s1.t = c.s0.t + (double)c.dt;
}
void oracleA(const Cov &c, Matrix &A) {      // dF/ddt at 0
  A = Matrix::Zero(15, 15); Matrix33 R = rotOf(c.q.initState.q_wb); Vector3 am, wm;
  for (int i = 0; i < 3; i++) { am(i) = 0.5f * (c.s0.a(i) + c.s1.a(i)) - c.q.bias_a(i); wm(i) = 0.5f * (c.s0.g(i) + c.s1.g(i)) - c.q.bias_g(i); }
  Matrix Ra = mul(R, skewOf(am)); Matrix33 W = skewOf(wm);
  for (int i = 0; i < 3; i++) { A(i, 3 + i) = 1; A(6 + i, 12 + i) = -1; for (int j = 0; j < 3; j++) { A(3 + i, 6 + j) = -Ra(i, j); A(3 + i, 9 + j) = -R(i, j); A(6 + i, 6 + j) = -W(i, j); } }
}
}
static void transition(int history) {
  Cov c; prepare(c, 2, history, 1.0 / 8192, 0.0625);
  auto &i0 = *c.q.items.back();
  Matrix C0 = Matrix::Zero(15, 18); for (int i = 0; i < 15; i++) C0(i, i) = 1;
  for (int i = 0; i < 15; i++) for (int j = 0; j < 3; j++) C0(i, 15 + j) = symi_f32(N("c", i, j), -1, 1);
  i0.imuExCamCov = C0; size_t n0 = c.q.items.size();
  c.q.Propagate(c.s1.a, c.s1.g, c.s1.t);
  symi_check(c.q.items.size() == n0 + 1, "one-state-per-sample"); if (c.q.items.size() != n0 + 1) return;
  auto &i1 = *c.q.items.back();
  symi_check(i1.imuExCamCov.rows() == 15 && i1.imuExCamCov.cols() == 18, "cross-covariance-shape"); if (i1.imuExCamCov.cols() != 18) return;
  Matrix F = i1.imuExCamCov.leftCols(15), A; oracleA(c, A);
  for (int i = 0; i < 15; i++) for (int j = 0; j < 15; j++) symi_check_eq((F(i, j) - ((i == j ? 1.0f : 0.0f) + c.dt * A(i, j))) / (c.dt * c.dt), 0, 200, "transition-is-the-first-order-derivative");
  eqm(i1.imuExCamCov.rightCols(3), mul(F, C0.rightCols(3)), 1e-3f, "cross-covariance-is-F-times-it");
  // noise part: zero prior covariance
  float na = symi_f32("na", 0, 4), ng = symi_f32("ng", 0, 4), nwa = symi_f32("nwa", 0, 4), nwg = symi_f32("nwg", 0, 4);
  for (int i = 0; i < 15; i++) for (int j = 0; j < 15; j++) {
    float q = i != j ? 0.0f : i < 3 ? 0.0f : i < 6 ? na : i < 9 ? ng : i < 12 ? nwa : nwg;
    symi_check_eq((i1.imuCov(i, j) / (c.dt * c.dt) - q) / c.dt, 0, 40, "noise-enters-to-first-order");
    symi_check_eq(i1.imuCov(i, j), i1.imuCov(j, i), 1e-5f, "covariance-symmetric");
  }
  eqm(i0.imuExCamCov, C0, 0, "earlier-covariance-kept");
  symi_reach("end");
}
extern "C" void p02_transition() { transition(0); }
extern "C" void p02_transition_after() { transition(1); }
extern "C" void p02_transition_long() { transition(50); }
// P -> F P F' + G Q G' for every symmetric P with two symbolic 3x3 block rows at a time
extern "C" void p02_covariance() {
  Cov c; prepare(c, 2, false, 1.0 / 8192, 1);
  int bi = symi_choice("bi", 5), bj = symi_choice("bj", 5); if (bj > bi) return;
  auto &i0 = *c.q.items.back();
  i0.imuExCamCov.setZero(15, 18); for (int i = 0; i < 15; i++) i0.imuExCamCov(i, i) = 1;
  Matrix P = Matrix::Zero(15, 15);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { if (bi == bj && j > i) continue; P(3 * bi + i, 3 * bj + j) = P(3 * bj + j, 3 * bi + i) = symi_f32(N("P", i, j), -4, 4); }
  PropagateQueue z = c.q; z.items.clear(); z.items.push_back(std::make_shared<IMUPropagateQueueItem>(i0)); z.items[0]->imuCov.setZero();
  z.Propagate(c.s1.a, c.s1.g, c.s1.t);
  i0.imuCov = P;
  c.q.Propagate(c.s1.a, c.s1.g, c.s1.t);
  Matrix F = c.q.items.back()->imuExCamCov.leftCols(15), W = z.items.back()->imuCov, E = mul(mul(F, P), Matrix(F.transpose()));
  for (int i = 0; i < 15; i++) for (int j = 0; j < 15; j++) {
    symi_check_eq(c.q.items.back()->imuCov(i, j), E(i, j) + W(i, j), 1e-2f, "covariance-is-FPF'-plus-noise");
    if (j < i) symi_check_eq(c.q.items.back()->imuCov(i, j), c.q.items.back()->imuCov(j, i), 1e-2f, "covariance-symmetric");
  }
  eqm(i0.imuCov, P, 0, "earlier-covariance-kept");
  symi_reach("end");
}
extern "C" void p02_noise() {
  PropagateQueue q; float n[4] = {symi_f32("na", 0, 1000), symi_f32("ng", 0, 1000), symi_f32("nwa", 0, 1000), symi_f32("nwg", 0, 1000)};
  if (symi_choice("before", 2)) { q.Q.setConstant(3); q.InitializeProcessNoiseMatrix(2, 3, 4, 5); }
  q.InitializeProcessNoiseMatrix(n[0], n[1], n[2], n[3]);
  for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++) symi_check_eq(q.Q(i, j), i == j ? n[i / 3] : 0.0f, 0, "noise-matrix-diagonal");
  symi_reach("end");
}

// ---- P03
namespace {
// the first two samples are fully symbolic, later ones in one component each (and their time step is fixed), so that chained normalisations stay decidable
Smp sampleOf(int k, const std::vector<Smp> &s) {
  if (k < 2) { Smp x = sample(k); if (k) x.t = s[0].t + (double)symi_f32("dt", 0, 1); return x; }
  Smp x; x.a = Vector3(1, -2, 9); x.g = Vector3(0.5f, -1, 2); x.a(k % 3) = symi_f32(N("a", k), -40, 40); x.g((k + 1) % 3) = symi_f32(N("g", k), -10, 10); x.t = s[k - 1].t + 0.25; return x;
}
Smp fixedSample(int k) { Smp x; x.a = Vector3(1 + k, -2, 9 - k); x.g = Vector3(0.5f * k, -1, 2 - k); x.t = 2 + 0.25 * k; return x; }
}
// cov: constant motion and symbolic covariances; otherwise symbolic motion and no prior inertial covariance (so that its sign check stays decidable)
static void repropagate(bool cov) {
  const int n = thorough() ? 4 : 3; int len = 1 + symi_choice("len", n);
  PropagateQueue q, r; FrameManager m; setup(q, m, 0); if (cov) { q.initState.q_wb = Quaternion(1, 0, 0, 0); q.bias_g = Vector3(0.25f, 0.5f, -0.125f); }
  for (auto *x : {&q, &r}) { x->propagator = &m; x->bias_a = q.bias_a; x->bias_g = q.bias_g; x->initState = q.initState; x->InitializeProcessNoiseMatrix(0.5f, 0.25f, 0.125f, 2); }
  std::vector<Smp> s;
  for (int k = 0; k < len; k++) { s.push_back(cov ? fixedSample(k) : sampleOf(k, s)); q.Propagate(s[k].a, s[k].g, s[k].t); }
  r.Propagate(s[0].a, s[0].g, s[0].t);
  // a correction arrived at the first state: new state, covariances (of another width) and biases
  int cols = symi_choice("cols", 2) ? 12 : 6;
  Vector3 p = sv3("pc", -10, 10), v = sv3("vc", -10, 10); Quaternion qc = cov ? Quaternion(0.5f, -0.5f, 0.5f, 0.5f) : squat("qc");
  Matrix P = Matrix::Zero(15, 15), C(15, cols);
  if (cov) for (int i = 0; i < 15; i++) { P(i, i) = symi_f32(N("P", i), 3, 4); int j = (i * 7 + 3) % 15; if (j < i) P(i, j) = P(j, i) = symi_f32(N("Po", i), -0.0625f, 0.0625f); }
  for (int i = 0; i < 15; i++) for (int j = 0; j < cols; j++) C(i, j) = 0.25f * (i - j);
  for (int i = 0; i < 15; i++) C(i, i % cols) = symi_f32(N("C", i), -4, 4);
  Vector3 ba = sv3("ba2", -1, 1), bg = cov ? Vector3(-0.25f, 0.75f, 0.5f) : sv3("bg2", -1, 1);
  for (auto *x : {&q, &r}) { auto &f = *x->items.front(); f.nominalState.p_wb = p; f.nominalState.v_wb = v; f.nominalState.q_wb = qc; f.imuCov = P; f.imuExCamCov = C; x->bias_a = ba; x->bias_g = bg; }
  for (int k = 1; k < len; k++) r.Propagate(s[k].a, s[k].g, s[k].t);
  auto same = [&](const char *l) {
    symi_check(q.items.size() == r.items.size(), l);
    for (size_t i = 0; i < r.items.size() && i < q.items.size(); i++) { auto &a = *q.items[i], &b = *r.items[i];
      symi_check(eq3(a.accel, s[i].a) & eq3(a.gyro, s[i].g) & (a.timeStamp == s[i].t), "samples-untouched");
      eqm(a.nominalState.p_wb, b.nominalState.p_wb, 1e-3f, l); eqm(a.nominalState.v_wb, b.nominalState.v_wb, 1e-3f, l); eqq(a.nominalState.q_wb, b.nominalState.q_wb, 1e-4f, l);
      eqm(a.imuCov, b.imuCov, 1e-2f, "covariance-equals-fresh-propagation"); eqm(a.imuExCamCov, b.imuExCamCov, 1e-2f, "cross-covariance-equals-fresh-propagation"); }
    auto &f = *q.items.front(); eqm(f.nominalState.p_wb, p, 0, "first-state-untouched"); eqm(f.nominalState.v_wb, v, 0, "first-state-untouched"); eqq(f.nominalState.q_wb, qc, 0, "first-state-untouched"); eqm(f.imuCov, P, 0, "first-state-untouched"); eqm(f.imuExCamCov, C, 0, "first-state-untouched");
    eqm(q.bias_a, ba, 0, "biases-untouched"); eqm(q.bias_g, bg, 0, "biases-untouched");
  };
  symi_check(q.Repropagate(), "repropagation-succeeds");
  same("state-equals-fresh-propagation");
  if (len > 1) { symi_check(q.Repropagate(), "repropagation-succeeds"); same("repeating-changes-nothing"); }
  symi_reach("end");
}
extern "C" void p03_motion() { repropagate(false); }
extern "C" void p03_covariance() { repropagate(true); }
extern "C" void p03_empty() { PropagateQueue q; FrameManager m; q.propagator = &m; q.Repropagate(); symi_check(q.items.empty(), "nothing-to-repropagate"); symi_reach("end"); }

// ---- P04, bit-precise
static void trimOrigin(int n) {
  PropagateQueue q; double prev = 0; std::vector<double> t; std::vector<IMUPropagateQueueItem *> w;
  for (int i = 0; i < n; i++) { double x = symi_f64(N("t", i), 0, 1048576); if (i) symi_assume(x > prev); prev = x; auto it = std::make_shared<IMUPropagateQueueItem>(); it->timeStamp = x; it->accel = Vector3(i, 2, 3); it->gyro = Vector3(4, 5, i); q.items.push_back(it); t.push_back(x); w.push_back(it.get()); }
  double ts = symi_f64("ts", 0, 1048576), thr = symi_f64("thr", 0, 1000);
  bool ok = q.ResetOrigin(ts, thr);
  int k = 0; while (k < n && ts - t[k] > thr) k++;
  symi_check(ok == (k < n), "reports-failure-iff-nothing-remains");
  symi_check((int)q.items.size() == n - k, "exactly-the-outdated-are-removed");
  for (int i = k; i < n && i - k < (int)q.items.size(); i++) symi_check((q.items[i - k].get() == w[i]) & (w[i]->timeStamp == t[i]) & (w[i]->accel(0) == i) & (w[i]->gyro(2) == i), "others-unchanged-in-order");
  symi_reach("end");
}
static void trimAttitude(int n) {
  AttitudeEstimate q; double prev = 0; std::vector<double> t; std::vector<AttitudeEstimateItem *> w;
  for (int i = 0; i < n; i++) { double x = symi_f64(N("t", i), 0, 1048576); if (i) symi_assume(x > prev); prev = x; auto it = std::make_shared<AttitudeEstimateItem>(); it->timeStamp = x; it->accel = Vector3(i, 2, 3); it->gyro = Vector3(4, 5, i); it->q_wb = Quaternion(1, 0, 0, 0); q.items.push_back(it); t.push_back(x); w.push_back(it.get()); }
  double ts = symi_f64("ts", 0, 1048576); float thr = symi_f32("thr", 0, 1000);
  q.CleanOldItems(ts, thr);
  // judged up to one float's neighbour of the tolerance, so that the precision of the subtraction is left open
  symi_assume(thr >= 1e-6f);
  uint32_t bits; memcpy(&bits, &thr, 4); uint32_t up = bits + 1, down = bits - 1; float thrU, thrD; memcpy(&thrU, &up, 4); memcpy(&thrD, &down, 4);
  int size = (int)q.items.size(); symi_check(size <= n, "nothing-added");
  for (int i = 0; i < n; i++) {
    float age = (float)(ts - t[i]); bool kept = n - size <= i;
    if (kept && i == n - size) symi_check(!(age > thrU), "the-outdated-are-removed");   // later ones are younger
    else if (kept) ; else symi_check(age > thrD, "only-the-outdated-are-removed");
    if (kept && i - (n - size) < size) symi_check((q.items[i - (n - size)].get() == w[i]) & (w[i]->timeStamp == t[i]) & (w[i]->accel(0) == i), "others-unchanged-in-order");
  }
  symi_reach("end");
}
extern "C" void p04_origin() { trimOrigin(symi_choice("n", thorough() ? 5 : 4)); }
extern "C" void p04_attitude() { trimAttitude(symi_choice("n", thorough() ? 5 : 4)); }
// ---- long queues
namespace { Smp plainSample(int k) { Smp x; x.a = Vector3(1 + k % 3, -2, 9 - k % 4); x.g = Vector3(0.5f * (k % 3), -1, 2 - k % 5); x.t = LATE + 0.0625 * k; return x; } }
extern "C" void p01_long() {
  PropagateQueue q; FrameManager m; setup(q, m, 2); Vector3 ba = q.bias_a, bg = q.bias_g, gw = IMUFullState::gravity_w; const int n = 50; q.initState.q_wb = Quaternion(0.5f, 0.5f, -0.5f, 0.5f); std::vector<Smp> s; std::vector<IMUPropagateQueueItem> was;
  q.bias_g = Vector3(0.25f, 0.5f, -0.125f);      // up to the last sample
  for (int k = 0; k < n; k++) { s.push_back(plainSample(k)); symi_check(q.Propagate(s[k].a, s[k].g, s[k].t), "sample-accepted"); }
  symi_check((int)q.items.size() == n, "one-state-per-sample"); if ((int)q.items.size() != n) return; q.bias_g = bg;
  auto &l = *q.items.back(); l.nominalState.p_wb = sv3("pm", -1000, 1000); l.nominalState.v_wb = sv3("vm", -20, 20); l.nominalState.q_wb = squat("qm"); l.accel = s[n - 1].a = sv3("a0", -40, 40); l.gyro = s[n - 1].g = sv3("g0", -10, 10);
  for (auto &i : q.items) was.push_back(*i); Smp x = sample(n); x.t = s[n - 1].t + (symi_choice("step", 2) ? 0.0625 : (double)symi_f32("dt", 0, 1)); s.push_back(x); symi_check(q.Propagate(x.a, x.g, x.t), "sample-accepted");
  symi_check((int)q.items.size() == n + 1, "one-state-per-sample"); if ((int)q.items.size() != n + 1) return;
  for (int i = 0; i < n; i++) { auto &b = was[i]; auto &c = *q.items[i]; symi_check(eq3(c.accel, s[i].a) & eq3(c.gyro, s[i].g) & (c.timeStamp == s[i].t), "sample-recorded-unaltered"); eqm(b.nominalState.p_wb, c.nominalState.p_wb, 0, "earlier-states-kept"); eqm(b.nominalState.v_wb, c.nominalState.v_wb, 0, "earlier-states-kept"); eqq(b.nominalState.q_wb, c.nominalState.q_wb, 0, "earlier-states-kept"); }
  checkStep(*q.items[n - 1], *q.items[n], s[n - 1], s[n], ba, bg, gw); eqm(q.bias_a, ba, 0, "biases-kept"); eqm(q.bias_g, bg, 0, "biases-kept");
  symi_reach("end");
}
// a correction of a long queue: position, velocity and the velocity-like part of the motion are symbolic
extern "C" void p03_long() {
  const int n = 70; PropagateQueue q, r; FrameManager m; extr(m, 1); IMUFullState::gravity_w = Vector3(0, 0, 9.75f); std::vector<Smp> s; for (auto *x : {&q, &r}) { x->propagator = &m; x->initState = IMUMotionState(Vector3(1, 2, 3), Vector3(0.5f, 1, 0), Quaternion(1, 0, 0, 0)); x->bias_a.setZero(); x->bias_g = Vector3(0.25f, 0.5f, -0.125f); x->InitializeProcessNoiseMatrix(0.5f, 0.25f, 0.125f, 2); }
  for (int k = 0; k < n; k++) { s.push_back(plainSample(k)); q.Propagate(s[k].a, s[k].g, s[k].t); } r.Propagate(s[0].a, s[0].g, s[0].t);
  Vector3 p = sv3("pc", -10, 10), v = sv3("vc", -10, 10), ba = sv3("ba2", -1, 1), bg(-0.25f, 0.75f, 0.5f); Matrix C(15, 18); for (int i = 0; i < 15; i++) for (int j = 0; j < 18; j++) C(i, j) = i == j ? symi_f32(N("C", i), -4, 4) : 0.25f * (i - j);
  for (auto *x : {&q, &r}) { auto &f = *x->items.front(); f.nominalState = IMUMotionState(p, v, Quaternion(0.5f, -0.5f, 0.5f, 0.5f)); f.imuCov.setIdentity(); f.imuExCamCov = C; x->bias_a = ba; x->bias_g = bg; }
  for (int k = 1; k < n; k++) r.Propagate(s[k].a, s[k].g, s[k].t);
  for (int again = 0; again < 2; again++) {
    symi_check(q.Repropagate(), "repropagation-succeeds"); symi_check((int)q.items.size() == n && (int)r.items.size() == n, "state-equals-fresh-propagation"); if ((int)q.items.size() != n || (int)r.items.size() != n) return;
    for (int i = 0; i < n; i++) { auto &a = *q.items[i], &b = *r.items[i]; symi_check(eq3(a.accel, s[i].a) & eq3(a.gyro, s[i].g) & (a.timeStamp == s[i].t), "samples-untouched"); eqm(a.nominalState.p_wb, b.nominalState.p_wb, 1e-3f, "state-equals-fresh-propagation"); eqm(a.nominalState.v_wb, b.nominalState.v_wb, 1e-3f, "state-equals-fresh-propagation"); eqq(a.nominalState.q_wb, b.nominalState.q_wb, 1e-4f, "state-equals-fresh-propagation"); eqm(a.imuCov, b.imuCov, 1e-2f, "covariance-equals-fresh-propagation"); eqm(a.imuExCamCov, b.imuExCamCov, 1e-2f, "cross-covariance-equals-fresh-propagation"); }
    eqm(q.items.front()->nominalState.p_wb, p, 0, "first-state-untouched"); eqm(q.items.front()->nominalState.v_wb, v, 0, "first-state-untouched"); eqm(q.bias_a, ba, 0, "biases-untouched");
  }
  symi_reach("end");
}
static void trimLong(bool attitude) {
  const int n = 140; PropagateQueue q; AttitudeEstimate e; std::vector<double> t; std::vector<void *> w; auto at = [&](int i) { return LATE + i * 0.0078125 + (i > 105 ? 3 : 0); };
  for (int i = 0; i < n; i++) { t.push_back(at(i)); if (attitude) { auto it = std::make_shared<AttitudeEstimateItem>(); it->timeStamp = t[i]; e.items.push_back(it); w.push_back(it.get()); } else { auto it = std::make_shared<IMUPropagateQueueItem>(); it->timeStamp = t[i]; q.items.push_back(it); w.push_back(it.get()); } }
  double ts = symi_f64("ts", LATE - 1, LATE + 5), thr = attitude ? (double)symi_f32("thr", 0.001f, 8) : symi_f64("thr", 0, 8); bool ok = true; if (attitude) e.CleanOldItems(ts, (float)thr); else ok = q.ResetOrigin(ts, thr);
  int size = attitude ? (int)e.items.size() : (int)q.items.size(), k = n - size; symi_check(k >= 0, "nothing-added"); if (k < 0) return; if (!attitude) symi_check(ok == (size > 0), "reports-failure-iff-nothing-remains");
  double slack = attitude ? 1e-5 * (thr + 1e-3) : 0; if (k < n) symi_check(!(ts - t[k] > thr + slack), "the-outdated-are-removed"); if (k > 0) symi_check(ts - t[k - 1] > thr - slack, "only-the-outdated-are-removed");
  for (int i = k; i < n; i++) symi_check(attitude ? e.items[i - k].get() == w[i] && e.items[i - k]->timeStamp == t[i] : q.items[i - k].get() == w[i] && q.items[i - k]->timeStamp == t[i], "others-unchanged-in-order");
  symi_reach("end");
}
extern "C" void p04_origin_long() { trimLong(false); }
extern "C" void p04_attitude_long() { trimLong(true); }
#include "pollute.hpp"
#ifndef SYMI_ASAN
extern "C" void symi_prelude() { pollute::attitude(); pollute::propagation(); }
#endif
