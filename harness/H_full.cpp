// The complete visual update as one operation, and independence of estimator instances. Triangulation
// answers the true landmark (its linear system is looked at), the other decompositions are Eigen's own.
#include "upd.hpp"
#include <backend.hpp>
#include <cstdlib>
namespace {
const Vector3 PT[9] = {Vector3(0.5f, 0.25f, 4), Vector3(-2, 1, 8), Vector3(1, -1.5f, 6), Vector3(0.25f, 1.25f, 5), Vector3(2, -2, 7), Vector3(3, -1, 9), Vector3(-1, -3, 10), Vector3(1.5f, 0.5f, 12), Vector3(4, -4, 8)};
int gPts = 4;
Matrix locate(int, const Matrix &A, const Matrix &) {      // the landmark whose observations these are
  int best = 0; float most = -1e30f; for (int k = 0; k < gPts; k++) { float m = 0; for (int i = 0; i < A.rows(); i++) { float e = std::fabs(symi_peek(A(i, 0)) * PT[k](0) + symi_peek(A(i, 1)) * PT[k](1) + symi_peek(A(i, 2)) * PT[k](2) + symi_peek(A(i, 3))); m += (e < 1e-3f) - 1e-4f * e; } if (m > most) { most = m; best = k; } }
  Matrix V = Matrix::Identity(4, 4); for (int i = 0; i < 3; i++) V(i, 3) = PT[best](i); V(3, 3) = 1; return V;
}
Quaternion camq(int c, int turn) { return turn ? unitOf(Quaternion(1, 0.0625f * c, -0.03125f, 0.0625f)) : Quaternion(1, 0, 0, 0); }
Quaternion frq(int i, int turn) { return turn ? unitOf(Quaternion(1, 0.03125f * i, 0.0625f, -0.03125f * i)) : Quaternion(1, 0, 0, 0); }
Vector3 frp(int i) { return Vector3(0.75f * i, -0.25f * i * i, 0.125f * i); }
Matrix66 blockOf(const Matrix &C, int a, int b) { Matrix66 m; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) m(i, j) = C(a + i, b + j); return m; }
// what one landmark contributes: [Hx r]' (I - Hf (Hf'Hf)^-1 Hf') [Hx r], without its last row
Matrix information(const World &w, const std::shared_ptr<Feature> &f, const Vector3 &pw) {
  std::vector<Matrix> part; int first = f->firstFrameID - w.fr.frames.front()->id, rows = 0;
  for (size_t i = 0; i < f->observes.size(); i++) for (auto &o : f->observes[i]->norms) { Matrix m; modelRows(w, first + i, o.first, pw, o.second, m); part.push_back(m); rows += 2; }
  int c = w.cols(); Eigen::MatrixXd F(rows, 3), X(rows, c); Matrix r(rows, 1);
  for (size_t i = 0; i < part.size(); i++) for (int a = 0; a < 2; a++) { for (int j = 0; j < 3; j++) F(2 * i + a, j) = part[i](a, j); for (int j = 0; j < c; j++) X(2 * i + a, j) = part[i](a, 3 + j); r(2 * i + a, 0) = part[i](a, 3 + c); }
  Eigen::Matrix3d A = F.transpose() * F; Eigen::MatrixXd M = Eigen::MatrixXd::Identity(rows, rows) - F * A.inverse() * F.transpose(); Eigen::MatrixXd XM = X.transpose() * M, XX = XM * X; Matrix out(c, c + 1), XMf = XM.cast<float>();
  for (int i = 0; i < c; i++) { for (int j = 0; j < c; j++) out(i, j) = XX(i, j); float s = 0; for (int k = 0; k < rows; k++) s += XMf(i, k) * r(k, 0); out(i, c) = s; }
  return out;
}
}
static void whole(int exactly, int turn, int nc, int nf, int nl, int later, int early) {
  World w; gPts = nl > 4 ? 9 : 4;
  w.fr.maxWindowSize = nf - symi_choice("full", 2); w.fr.minKeyframeTrackedFeatureNum = symi_choice("key", 2) * 50; w.fr.maxKeyframeTranslation = 100; w.up.maxUsedFeatures = 10; w.up.measureNoise = 0.25f;
  if (nc == 1 && nf == 2 && nl > 2) return;
  for (int c = 0; c < nc; c++) w.camera(camq(c, turn), Vector3(0.5f * c, 0.125f, 0)); for (int i = 0; i < nf; i++) w.frame(frq(i, turn), frp(i), 1 + 4 * (nl & 1));
  // observations from the true poses; the newest frame still carries its predecessor's pose
  std::vector<std::shared_ptr<Feature>> lm; for (int k = 0; k < nl; k++) {
    int first = nl > 4 ? k % (nf - 1) : k == 1 && nf > 2 ? 1 : 0; std::vector<std::vector<Vector2>> z; std::vector<uint32_t> mask;
    for (int i = first; i < nf; i++) { z.emplace_back(); mask.push_back(k == 2 && i == nf - 1 && nc > 1 ? 2 : (1u << nc) - 1); for (int c = 0; c < nc; c++) { Vector3 p = into(w.fr.extrinsics[c].q_bc, w.fr.extrinsics[c].p_bc, into(w.fr.frames[i]->q_wb, w.fr.frames[i]->p_wb, PT[k])); Vector2 v(p(0) / p(2), p(1) / p(2)); if (!exactly && k < 2 && c == 0 && i > first && i >= nf - 2) v(0) += symi_f32(N("du", k, i), -0.25f, 0.25f), v(1) += symi_f32(N("dv", k, i), -0.25f, 0.25f); z.back().push_back(v); } }
    lm.push_back(w.track(7 + 3 * k, first, mask, z)); }
  int n = w.cols(), nx = n - 15; Eigen::MatrixXd S0 = Eigen::MatrixXd::Zero(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { S0(i, j) = 0.0625 * ((i * 7 + j * 3) % 5 - 2); if (i == j) S0(i, j) += 0.5; } Eigen::MatrixXd P0 = S0 * S0.transpose() * 0.25; Matrix P = P0.cast<float>();
  auto put = [&](double t) { auto it = std::make_shared<IMUPropagateQueueItem>(); it->timeStamp = t; it->accel = Vector3(0.25f, -0.5f, 8); it->gyro = Vector3(0.125f, 0, -0.25f); it->imuCov.setIdentity(); it->imuExCamCov.setZero(15, nx); it->nominalState = IMUMotionState(Vector3(9, 9, 9), Vector3(8, 8, 8), Quaternion(1, 0, 0, 0)); w.pq.items.push_back(it); return it; };
  IMUFullState::gravity_w = Vector3(0, 0, 8); w.pq.InitializeProcessNoiseMatrix(0.25f, 0.125f, 0.0625f, 0.0625f); w.pq.ResetProcessFunction(); w.pq.bias_a = Vector3(0.125f, -0.25f, 0.5f); w.pq.bias_g = Vector3(0.0625f, 0.125f, -0.25f);
  if (early) put((LATE + 40) - 0.25); auto it = put((LATE + 40)); std::vector<std::shared_ptr<IMUPropagateQueueItem>> after; for (int i = 0; i < later; i++) after.push_back(put((LATE + 40) + 0.125 * (i + 1)));
  Vector3 v0 = sv3("v", -5, 5); it->nominalState = IMUMotionState(frp(nf - 1), v0, frq(nf - 1, turn)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i < 15 && j < 15) it->imuCov(i, j) = P(i, j); else if (i < 15) it->imuExCamCov(i, j - 15) = P(i, j); else if (j >= 15) { if (w.pq.exCamCov.rows() != nx) w.pq.exCamCov.setZero(nx, nx); w.pq.exCamCov(i - 15, j - 15) = P(i, j); }
  // the whole update, written out: information form over the same landmarks
  Eigen::MatrixXd L = P0.inverse(); Matrix g = Matrix::Zero(n, 1); for (int k = 0; k < nl; k++) { Matrix I = information(w, lm[k], PT[k]); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) L(i, j) += symi_peek(I(i, j)) * 16.0; g(i, 0) += I(i, n) * 16; } }
  Eigen::MatrixXd C = L.inverse(); Matrix Cf = C.cast<float>(), dx = mul(Cf, g);
  auto ex = w.fr.extrinsics; std::vector<Frame> fr; for (auto &f : w.fr.frames) fr.push_back(*f); w.fr.frames.back()->p_wb = frp(nf - 2) + Vector3(0.5f, 1, -0.25f); w.fr.frames.back()->q_wb = frq(nf - 2, 1 - turn); w.fr.frames.back()->v_wb.setZero();
  Vector3 ba = w.pq.bias_a, bg = w.pq.bias_g; symistub::genuine() = true; symistub::log().clear(); symistub::svdVFn() = locate; if (symi_choice("stale", 2)) { w.up.features = {nullptr}; w.up.covariance = Matrix::Constant(n + 6, n + 6, 3); w.up.Hx_r = Matrix::Constant(4, n + 1, 5); w.up.delta_x = Vector::Constant(n, 6); }
  bool ok = w.up.Update((LATE + 40), 0.125); symi_check(ok, "update-succeeds"); if (!ok) return; const float T = 4e-3f;
  symi_check(w.pq.items.size() == 1u + later && w.pq.items.front() == it, "update-happens-at-the-image-time"); if (w.pq.items.front() != it) return;
  if (exactly) for (auto &r : symistub::log()) if (r.kind == 2) { float worst = 0; for (int i = 0; i < r.A.rows(); i++) { float s = 0; for (int j = 0; j < 4; j++) s += r.A(i, j) * r.V(j, 3); worst = std::max(worst, std::fabs(s)); } symi_check(worst < 0.015625f, "landmarks-are-triangulated-from-the-propagated-pose"); }
  symi_check((int)w.up.features.size() == nl, "every-landmark-is-used");
  auto add = [&](const Vector3 &now, const Vector3 &was, int at, const char *l) { for (int k = 0; k < 3; k++) symi_check_eq(now(k) - was(k), dx(at + k, 0), T, l); };
  symi_check((int)w.up.delta_x.rows() == n, "one-error-per-state"); if (w.up.delta_x.rows() != n) return; for (int i = 0; i < n; i++) symi_check_eq(w.up.delta_x(i), dx(i, 0), T, "error-is-the-optimal-one");
  auto turned = [&](const Quaternion &now, const Quaternion &was, int at, const char *l) { auto &d = w.up.delta_x; eqq(now, unitOf(qmul(was, Quaternion(1, 0.5f * d(at), 0.5f * d(at + 1), 0.5f * d(at + 2)))), 1e-4f, l); };
  if (exactly) { const char *l = "agreeing-observations-move-nothing"; for (int i = 0; i < n; i++) symi_check_eq(w.up.delta_x(i), 0, T, l); eqm(it->nominalState.p_wb, frp(nf - 1), T, l); eqq(it->nominalState.q_wb, frq(nf - 1, turn), T, l); eqm(it->nominalState.v_wb, v0, T, l); for (int i = 0; i < nf; i++) { eqm(w.fr.frames[i]->p_wb, frp(i), T, l); eqq(w.fr.frames[i]->q_wb, frq(i, turn), T, l); } }
  add(it->nominalState.p_wb, frp(nf - 1), 0, "state-gets-the-optimal-correction"); add(it->nominalState.v_wb, v0, 3, "state-gets-the-optimal-correction"); turned(it->nominalState.q_wb, frq(nf - 1, turn), 6, "state-gets-the-optimal-correction"); add(w.pq.bias_a, ba, 9, "state-gets-the-optimal-correction"); add(w.pq.bias_g, bg, 12, "state-gets-the-optimal-correction");
  for (int c = 0; c < nc; c++) { add(w.fr.extrinsics[c].p_bc, ex[c].p_bc, 15 + 6 * c, "mounting-gets-the-optimal-correction"); turned(w.fr.extrinsics[c].q_bc, ex[c].q_bc, 18 + 6 * c, "mounting-gets-the-optimal-correction"); }
  symi_check((int)w.fr.frames.size() == nf, "window-is-kept-until-the-drop"); if ((int)w.fr.frames.size() != nf) return;
  for (int i = 0; i < nf - 1; i++) { int at = 15 + 6 * nc + 6 * i; add(w.fr.frames[i]->p_wb, fr[i].p_wb, at, "older-frames-get-the-optimal-correction"); turned(w.fr.frames[i]->q_wb, fr[i].q_wb, at + 3, "older-frames-get-the-optimal-correction"); }
  auto &nw = *w.fr.frames.back(); eqm(nw.p_wb, it->nominalState.p_wb, 0, "newest-frame-is-the-inertial-state"); eqq(nw.q_wb, it->nominalState.q_wb, 0, "newest-frame-is-the-inertial-state"); eqm(nw.v_wb, it->nominalState.v_wb, 0, "newest-frame-is-the-inertial-state");
  // covariance: optimal one, the newest pose cloned, the dropped frame taken out
  int full = w.fr.maxWindowSize < (uint32_t)nf; int drop = !full ? -1 : w.up.margPolicy == MARG_OLDEST ? 0 : nf - 2; symi_check((w.up.margPolicy == NO_MARG) == !full, "drops-only-when-full");
  std::vector<int> src; for (int i = 0; i < 15 + 6 * nc; i++) src.push_back(i); for (int f = 0; f < nf; f++) if (f != drop) for (int k = 0; k < 6; k++) src.push_back(f < nf - 1 ? 15 + 6 * nc + 6 * f + k : k < 3 ? k : 6 + k - 3);
  int m = src.size(); symi_check(it->imuExCamCov.cols() == m - 15 && w.pq.exCamCov.rows() == m - 15 && w.pq.exCamCov.cols() == m - 15, "window-covariance-fits"); if (it->imuExCamCov.cols() != m - 15 || w.pq.exCamCov.rows() != m - 15) return;
  for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { float v = i < 15 && j < 15 ? it->imuCov(i, j) : i < 15 ? it->imuExCamCov(i, j - 15) : j < 15 ? it->imuExCamCov(j, i - 15) : w.pq.exCamCov(i - 15, j - 15); symi_check_eq(v, Cf(src[i], src[j]), T, "stored-covariance-is-the-optimal-one-over-the-kept-window"); }
  if (later) {       // the later sample was propagated again from the corrected state
    PropagateQueue o; o.propagator = &w.fr; o.InitializeProcessNoiseMatrix(0.25f, 0.125f, 0.0625f, 0.0625f); o.ResetProcessFunction(); o.bias_a = w.pq.bias_a; o.bias_g = w.pq.bias_g; o.items.push_back(std::make_shared<IMUPropagateQueueItem>(*it)); for (int i = 0; i < later; i++) { auto b = std::make_shared<IMUPropagateQueueItem>(); b->timeStamp = (LATE + 40) + 0.125 * (i + 1); b->accel = Vector3(0.25f, -0.5f, 8); b->gyro = Vector3(0.125f, 0, -0.25f); b->imuExCamCov.setZero(15, m - 15); o.items.push_back(b); } o.Repropagate(); const char *l = "later-samples-follow-the-corrected-state";
    auto b = std::next(o.items.begin()); for (auto &x : after) { eqm(x->nominalState.p_wb, (*b)->nominalState.p_wb, 1e-4f, l); eqm(x->nominalState.v_wb, (*b)->nominalState.v_wb, 1e-4f, l); eqq(x->nominalState.q_wb, (*b)->nominalState.q_wb, 1e-4f, l); eqm(x->imuCov, (*b)->imuCov, 1e-4f, l); eqm(x->imuExCamCov, (*b)->imuExCamCov, 1e-4f, l); ++b; }
    symi_check_eq(after[0]->nominalState.p_wb(0), it->nominalState.p_wb(0), 1, l); symi_reach("later"); }
  symi_reach("end");
}
extern "C" void e01_update() { int exactly = symi_choice("exact", 2), turn = symi_choice("turn", 2), nc = 1 + symi_choice("cams", 2), nf = 2 + symi_choice("frames", thorough() ? 3 : 2), nl = 1 + symi_choice("landmarks", thorough() ? 4 : 3), later = exactly ? symi_choice("later", 2) * (nl == 1 ? 3 : 1) : 0, early = symi_choice("early", 2); whole(exactly, turn, nc, nf, nl, later, early); }
// a long window: compression of more rows than columns included
extern "C" void e01_long() { int exactly = symi_choice("exact", 2), many = symi_choice("landmarks", 2), turn = thorough() ? (int)symi_choice("turn", 2) : many; whole(exactly, turn, 2, 6, 5 + 4 * many, exactly, turn); }

// ---- E02: parts of two estimators used in turn; the second of each kind is the disturbance
namespace {
Matrix asked(int, const Matrix &A, const Matrix &) { Matrix V = Matrix::Identity(4, 4); for (int i = 0; i < 3; i++) V(i, 3) = PT[A.rows() % 4](i); V(3, 3) = 1; return V; }
int gAsk; Matrix stepped(int, const Matrix &A, const Matrix &B) { Matrix X = Matrix::Zero(A.cols(), B.cols()); for (int i = 0; i < X.rows(); i++) X(i, 0) = 0.03125f * (i + 1) * (gAsk % 2 ? -1 : 1); gAsk++; return X; }
struct In { std::vector<Vector3> a, g; std::vector<double> t; };
In inputs(const char *n, int k, bool sym) { In r; for (int i = 0; i < k; i++) { Vector3 a(0, 0.125f * (i % 2), 8); if (sym && i) { a = sv3(N((std::string(n) + "a").c_str(), i), -20, 20); a(2) = symi_f32(N((std::string(n) + "up").c_str(), i), 1, 20); } r.a.push_back(a); r.g.push_back(sym ? sv3(N((std::string(n) + "g").c_str(), i), -4, 4) : Vector3(0.25f, -0.125f * i, 0.5f)); r.t.push_back(sym ? 10 + 0.125 * i + symi_f64(N((std::string(n) + "t").c_str(), i), 0, 0.0625) : 3 + 0.25 * i); } return r; }
}
extern "C" void e02_parts() {
  const char *l = "another-instance-does-not-influence-this-one"; int part = symi_choice("part", 4), before = symi_choice("before", 2), last = symi_choice("last", 2); const int n = thorough() ? 4 : 3;      // last: the undisturbed run comes last
  symistub::genuine() = false; symistub::log().clear(); symistub::svdVFn() = asked; symistub::solveFn() = stepped; const Vector3 G(0, 0, 8), G2(0, 6, 8);
  auto other = [&](auto f) { IMUFullState::gravity_w = G2; f(); IMUFullState::gravity_w = G; }; IMUFullState::gravity_w = G;
  if (part == 0) {
    In x = inputs("x", n, true), y = inputs("y", n + 1, false); AttitudeEstimate a, o, c; o.bias_g = Vector3(1, 2, 3); o.bias_a = Vector3(0, -6, 0); std::vector<bool> r, rc; auto alone = [&] { for (int i = 0; i < n; i++) rc.push_back(c.Propagate(x.a[i], x.g[i], x.t[i])); }; if (!last) alone();
    if (before) other([&] { for (size_t i = 0; i < y.a.size(); i++) o.Propagate(y.a[i], y.g[i], y.t[i]); });
    for (int i = 0; i < n; i++) { r.push_back(a.Propagate(x.a[i], x.g[i], x.t[i])); if (!before) other([&] { o.Propagate(y.a[i], y.g[i], y.t[i]); Quaternion q; o.GetAttitude(3, 1, q); }); } if (!before) o.CleanOldItems(100, 0.1f);
    if (last) alone(); symi_check(r == rc, l); symi_check(a.items.size() == c.items.size(), l); if (a.items.size() != c.items.size()) return;
    auto p = a.items.begin(); for (auto &q : c.items) { eqq((*p)->q_wb, q->q_wb, 1e-4f, l); eqm((*p)->accel, q->accel, 0, l); eqm((*p)->gyro, q->gyro, 0, l); symi_check((*p)->timeStamp == q->timeStamp, l); ++p; }
  } else if (part == 1) {
    In x = inputs("x", n, true), y = inputs("y", n, false); FrameManager m, mo; m.extrinsics.resize(1); mo.extrinsics.resize(3); PropagateQueue a, o, c; for (auto *q : {&a, &c}) { q->propagator = &m; q->bias_a = sv3("ba", -1, 1); q->bias_g = sv3("bg", -1, 1); q->InitializeProcessNoiseMatrix(0.25f, 0.125f, 0.5f, 0.75f); q->initState = IMUMotionState(sv3("p", -9, 9), sv3("v", -9, 9), qc(1)); }
    o.propagator = &mo; o.bias_a = Vector3(3, 2, 1); o.InitializeProcessNoiseMatrix(2, 3, 4, 5); o.initState = IMUMotionState(Vector3(1, 1, 1), Vector3(2, 2, 2), qc(2)); const int k = 2; if (symi_choice("same", 2)) { y = x; x.t[1] = y.t[1] = x.t[0] + 0.125; }
    auto alone = [&] { for (int i = 0; i < k; i++) c.Propagate(x.a[i], x.g[i], x.t[i]); }; if (!last) alone(); if (before) other([&] { for (int i = 0; i < k; i++) o.Propagate(y.a[i], y.g[i], y.t[i]); });
    for (int i = 0; i < k; i++) { a.Propagate(x.a[i], x.g[i], x.t[i]); if (!before) other([&] { o.Propagate(y.a[i], y.g[i], y.t[i]); if (i) o.Repropagate(); }); } if (last) alone();
    if (!before) o.ResetOrigin(100, 1); symi_check(a.items.size() == c.items.size(), l); if (a.items.size() != c.items.size()) return;
    auto p = a.items.begin(); for (auto &q : c.items) { auto &s = *(*p++); eqm(s.nominalState.p_wb, q->nominalState.p_wb, 1e-4f, l); eqm(s.nominalState.v_wb, q->nominalState.v_wb, 1e-4f, l); eqq(s.nominalState.q_wb, q->nominalState.q_wb, 1e-4f, l); eqm(s.imuCov, q->imuCov, 1e-4f, l); eqm(s.imuExCamCov, q->imuExCamCov, 1e-4f, l); } eqm(a.exCamCov, c.exCamCov, 1e-4f, l);
  } else if (part == 2) {
    std::vector<Quaternion> q{qc(0), qc(0), qc(0)}, q2{qc(0), qc(1)}; std::vector<Vector3> p, p2{Vector3(5, 5, 5), Vector3(6, 5, 4)}; std::vector<Vector2> z, z2{Vector2(1, 1), Vector2(2, 2)}; for (int i = 0; i < 3; i++) { p.push_back(sv3(N("p", i), -9, 1)); z.push_back(sv2(N("z", i), -2, 2)); }
    Trianglator a, o, c; Vector3 w(7, 7, 7), u(0, 0, 0), v(7, 7, 7); auto &log = symistub::log(); size_t kc = 0, k = 0; bool rc = false; auto alone = [&] { kc = log.size(); rc = c.TrianglateAnalytic(q, p, z, v); }; if (!last) alone();
    if (before) o.TrianglateAnalytic(q2, p2, z2, u); k = log.size(); bool r = a.TrianglateAnalytic(q, p, z, w); if (!before) o.TrianglateAnalytic(q2, p2, z2, u); if (last) alone(); symi_check(r == rc, l); eqm(w, v, 1e-4f, l);
    if (log.size() > kc && log.size() > k) eqm(log[k].A, log[kc].A, 1e-4f, l);
  } else {
    std::vector<Vector3> x, x2{Vector3(1, 2, 9), Vector3(3, 4, 7)}; std::vector<Vector2> z, z2{Vector2(0, 0), Vector2(1, 1)}; for (int i = 0; i < 3; i++) { x.push_back(Vector3(i - 1.0f, 0.5f * i, 6)); z.push_back(i ? Vector2(0.125f * i, 0.25f) : sv2(N("z", i), -2, 2)); }
    PnPSolver a, o, c; a.maxIterateTimes = c.maxIterateTimes = 2; o.maxIterateTimes = 3; Quaternion qa = qc(0), qo = qc(0), qq = qc(0); Vector3 pa(0, 0, 0), po(0, 0, 1), pp(0, 0, 0); bool rc = false; auto alone = [&] { gAsk = 0; rc = c.EstimatePose(x, z, qq, pp); }; if (!last) alone();
    if (before) { gAsk = 1; o.EstimatePose(x2, z2, qo, po); } gAsk = 0; bool r = a.EstimatePose(x, z, qa, pa); if (!before) { o.EstimatePoseKernel(x2, z2, qo, po); o.EstimatePose(x2, z2, qo, po); } if (last) alone(); symi_check(r == rc, l); eqm(pa, pp, 1e-4f, l); eqq(qa, qq, 1e-4f, l);
  }
  symi_reach("end");
}
