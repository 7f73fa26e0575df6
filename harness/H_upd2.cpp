// The visual update with Eigen's own decompositions.
#include "upd.hpp"
namespace {
// landmarks in front of all cameras; observations offset by symbolic amounts
void scene(World &w, int nc, int nf, int turn) {
  for (int c = 0; c < nc; c++) w.camera(turn ? unitOf(Quaternion(1, 0.0625f * c, -0.03125f, 0.0625f)) : Quaternion(1, 0, 0, 0), Vector3(0.5f * c, 0.125f, 0));
  for (int i = 0; i < nf; i++) w.frame(turn ? unitOf(Quaternion(1, 0.03125f * i, 0.0625f, -0.03125f * i)) : Quaternion(1, 0, 0, 0), Vector3(0.75f * i, -0.25f * i * i, 0.125f * i));
}
std::shared_ptr<Feature> landmark(World &w, int id, int first, const std::vector<uint32_t> &mask, const Vector3 &pw, bool sym) {
  std::vector<std::vector<Vector2>> z; int k = 0; for (size_t i = 0; i < mask.size(); i++) { z.emplace_back(); for (size_t c = 0; c < w.fr.extrinsics.size(); c++) { Vector3 b = into(w.fr.frames[first + i]->q_wb, w.fr.frames[first + i]->p_wb, pw), p = into(w.fr.extrinsics[c].q_bc, w.fr.extrinsics[c].p_bc, b); Vector2 v(p(0) / p(2), p(1) / p(2)); if (sym && k < 3) { v(0) += symi_f32(N("du", id, k), -1, 1); v(1) += symi_f32(N("dv", id, k), -1, 1); k++; } z[i].push_back(v); } }
  auto f = w.track(id, first, mask, z); f->p_w = pw; f->status = Feature::SOLVED; return f;
}
// G = [Hx r]' (I - Hf (Hf' Hf)^-1 Hf') [Hx r] of one landmark
Matrix projected(World &w, const std::shared_ptr<Feature> &f, int &rows) {
  std::vector<Matrix> part; int first = f->firstFrameID - w.fr.frames.front()->id; rows = 0;
  for (size_t i = 0; i < f->observes.size(); i++) for (auto &o : f->observes[i]->norms) { Matrix m; modelRows(w, first + i, o.first, f->p_w, o.second, m); part.push_back(m); rows += 2; }
  int c = w.cols() + 1; Matrix F(rows, 3), X(rows, c); for (size_t i = 0; i < part.size(); i++) for (int a = 0; a < 2; a++) { for (int j = 0; j < 3; j++) F(2 * i + a, j) = part[i](a, j); for (int j = 0; j < c; j++) X(2 * i + a, j) = part[i](a, 3 + j); }
  Eigen::Matrix3d A = (F.transpose().cast<double>() * F.cast<double>()), Ai = A.inverse(); Matrix FX = mul(Matrix(F.transpose()), X), Aif(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) Aif(i, j) = Ai(i, j);
  return mul(Matrix(X.transpose()), X) - mul(Matrix(FX.transpose()), mul(Aif, FX));
}
void same(const Matrix &a, const Matrix &b, float tol, const char *h, const char *r, const char *n) {
  int c = b.cols() - 1; symi_check(a.cols() == b.cols(), h); if (a.cols() != b.cols()) return;
  for (int i = 0; i < c; i++) { for (int j = 0; j < c; j++) symi_check_eq(a(i, j), b(i, j), tol, h); symi_check_eq(a(i, c), b(i, c), tol, r); }
  if (n) symi_check_eq(a(c, c), b(c, c), tol, n);
}
Matrix gram(const Matrix &m) { return mul(Matrix(m.transpose()), m); }
}
// ---- U02
extern "C" void u02_one() {
  World w; int nc = 1 + symi_choice("cams", 2), nf = 2 + symi_choice("frames", 2), turn = symi_choice("turn", 2); scene(w, nc, nf, turn); int first = symi_choice("first", nf), len = nf - first; std::vector<uint32_t> mask; int total = 0;
  for (int i = 0; i < len; i++) { mask.push_back(1 + symi_choice(N("mask", i), (1 << nc) - 1)); total += __builtin_popcount(mask.back()); } if (total < 2) return;
  auto f = landmark(w, 7, first, mask, symi_choice("pt", 2) ? Vector3(0.5f, 0.25f, 4) : Vector3(-2, 1, 8), true);
  w.up.Hx_cols = w.cols(); Matrix out; symi_check(w.up.ConstructMeasurementFunction(f, out), "measurement-is-built");
  symi_check(out.rows() == 2 * total - 3, "three-rows-fewer"); int rows; Matrix P = projected(w, f, rows);
  same(gram(out), P, 2e-3f, "eliminated-directions-are-those-of-the-landmark", "information-of-the-remaining-directions-is-kept", "residual-of-the-remaining-directions-is-kept");
  symi_reach("end");
}
extern "C" void u02_stack() {
  int big = symi_choice("tall", 2); World w; int nc = big ? 3 : 1 + symi_choice("cams", 2), nf = big ? 4 : 3, nl = big ? 3 : 1 + symi_choice("landmarks", 3); scene(w, nc, nf, symi_choice("turn", 2));
  const Vector3 P[3] = {Vector3(0.5f, 0.25f, 4), Vector3(-2, 1, 8), Vector3(1, -1.5f, 6)}; Matrix sum; int rows = 0; std::vector<std::shared_ptr<Feature>> fs;
  for (int i = 0; i < nl; i++) { int first = big ? 0 : symi_choice(N("first", i), 2); fs.push_back(landmark(w, 7 + i, first, std::vector<uint32_t>(nf - first, (1 << nc) - 1), P[i], i < 2)); }
  sum = Matrix::Zero(w.cols() + 1, w.cols() + 1); for (auto &f : fs) { int r; sum += projected(w, f, r); rows += r - 3; }
  w.up.features = fs; if (symi_choice("stale", 2)) { w.up.Hx_r = Matrix::Constant(3, 5, 9); w.up.Hx_rows = 77; }
  symi_check(w.up.ConstructMeasurementFunction(), "measurement-is-built");
  symi_check(w.up.Hx_r.cols() == w.cols() + 1, "one-column-per-state-and-the-residual");
  if (!big) symi_check(w.up.Hx_r.rows() == rows, "every-landmark-keeps-its-rows");
  same(gram(w.up.Hx_r), sum, 5e-3f, big ? "compression-keeps-the-information-matrix" : "stacking-keeps-the-information", big ? "compression-keeps-the-information-vector" : "stacking-keeps-the-information", big ? nullptr : "stacking-keeps-the-information");
  symi_reach("end");
}
extern "C" void u02_long() {
  World w; const int nc = 2, nf = 8, nl = 9; scene(w, nc, nf, symi_choice("turn", 2)); int sym = symi_choice("offset", 3) * 4; std::vector<std::shared_ptr<Feature>> fs; Matrix sum = Matrix::Zero(w.cols() + 1, w.cols() + 1); int rows = 0, few = symi_choice("few", 2) ? 3 : nl;
  for (int i = 0; i < few; i++) { int first = i % 4; fs.push_back(landmark(w, 7 + i, first, std::vector<uint32_t>(nf - first, 3), Vector3(-2 + i, 1.5f - 0.5f * i, 25 + i), i == (few < nl ? sym / 4 : sym))); int r; sum += projected(w, fs.back(), r); rows += r - 3; }
  w.up.features = fs; symi_check(w.up.ConstructMeasurementFunction(), "measurement-is-built"); symi_check(w.up.Hx_r.cols() == w.cols() + 1, "one-column-per-state-and-the-residual"); if (few < nl && rows <= w.cols()) symi_check(w.up.Hx_r.rows() == rows, "every-landmark-keeps-its-rows");
  same(gram(w.up.Hx_r), sum, 5e-3f, "compression-keeps-the-information-matrix", "compression-keeps-the-information-vector", nullptr); symi_reach("end");
}
// ---- U03, one measurement row
extern "C" void u03_single() {
  World w; w.camera(qc(0), Vector3(0, 0, 0)); w.frame(qc(0), Vector3(0, 0, 0)); w.frame(qc(1), Vector3(1, 0, 0)); w.item(100); int n = w.cols();
  w.up.Hx_cols = n; w.up.Hx_rows = 1; w.up.measureNoise = symi_f32("noise", 0.001f, 4); int at[2] = {(int)symi_choice("a", 5) * 3 + 1, 15 + (int)symi_choice("b", 4) * 3};
  Matrix P = Matrix::Zero(n, n), H = Matrix::Zero(1, n); for (int i = 0; i < n; i++) { P(i, i) = 1 + i % 3; if (i) P(i, i - 1) = P(i - 1, i) = 0.25f; H(0, i) = (i * 3 % 5 - 2) * 0.25f; }
  for (int i = 0; i < 2; i++) { for (int j = 0; j < i; j++) P(at[i], at[j]) = P(at[j], at[i]) = symi_f32(N("P", i, j), -1, 1); P(at[i], at[i]) = symi_f32(N("P", i), 1, 8); H(0, at[i]) = symi_f32(N("H", i), -4, 4); }
  float r = symi_f32("r", -4, 4); w.up.covariance = P; w.up.Hx_r = Matrix(1, n + 1); for (int i = 0; i < n; i++) w.up.Hx_r(0, i) = H(0, i); w.up.Hx_r(0, n) = r;
  Vector PH(n); float S = 0; for (int i = 0; i < n; i++) { PH(i) = 0; for (int j = 0; j < n; j++) PH(i) += P(i, j) * H(0, j); } for (int i = 0; i < n; i++) S += H(0, i) * PH(i); S += w.up.measureNoise * w.up.measureNoise; symi_assume(S > 0.01f);
  symi_check(w.up.UpdateState(), "update-succeeds"); symi_check(w.up.delta_x.rows() == n && w.up.covariance.rows() == n && w.up.covariance.cols() == n, "shapes"); if (w.up.delta_x.rows() != n || w.up.covariance.rows() != n || w.up.covariance.cols() != n) return;
  for (int i = 0; i < n; i++) { symi_check_eq(w.up.delta_x(i) * S, PH(i) * r, 1e-3f, "error-estimate-is-gain-times-residual"); for (int j = 0; j < n; j++) { symi_check_eq(w.up.covariance(i, j) * S, P(i, j) * S - PH(i) * PH(j), 1e-3f, "covariance-is-reduced-by-the-gain"); symi_check_eq(w.up.covariance(i, j), w.up.covariance(j, i), 1e-4f, "covariance-is-symmetric"); } }
  symi_reach("end");
}
// ---- U04: P = I, H = I, every error component symbolic
static void applied(int nc, int nf, int mode) {
  World w; int nl = 2;
  for (int c = 0; c < nc; c++) w.camera(mode == 1 && c == nc - 1 ? squat("qbc") : qc(c + 1), sv3(N("pbc", c), -2, 2)); for (int i = 0; i < nf; i++) { w.frame(mode == 2 && i == 0 ? squat("qwb") : qc(i + 2), sv3(N("pwb", i), -20, 20), 1 + symi_choice("firstId", 2) * 4); w.fr.frames[i]->v_wb = sv3(N("vwb", i), -5, 5); }
  auto it = w.item(100); if (mode == 3) it->nominalState.q_wb = squat("q"); it->nominalState.p_wb = sv3("p", -20, 20); it->nominalState.v_wb = sv3("v", -5, 5); w.pq.bias_a = sv3("ba", -1, 1); w.pq.bias_g = sv3("bg", -1, 1); auto it2 = w.item(101); auto keep2 = *it2; int n = w.cols(); (void)nl;
  Matrix P = Matrix::Identity(n, n); w.up.covariance = P; w.up.measureNoise = 1; w.up.Hx_cols = w.up.Hx_rows = n; w.up.Hx_r = Matrix::Zero(n, n + 1); for (int i = 0; i < n; i++) { w.up.Hx_r(i, i) = 1; w.up.Hx_r(i, n) = symi_f32(N("e", i), -2, 2); }
  auto item0 = *it; Vector3 ba = w.pq.bias_a, bg = w.pq.bias_g; std::vector<Extrinsic> ex = w.fr.extrinsics; std::vector<Frame> fr; for (auto &f : w.fr.frames) fr.push_back(*f); w.pq.initState = IMUMotionState(Vector3(5, 5, 5), Vector3(6, 6, 6), qc(1));
  symi_check(w.up.UpdateState(), "update-succeeds"); symi_check(w.up.delta_x.rows() == n, "one-error-per-state"); if (w.up.delta_x.rows() != n) return; auto &d = w.up.delta_x;
  for (int i = 0; i < n; i++) symi_check_eq(d(i), 0.5f * w.up.Hx_r(i, n), 1e-4f, "error-estimate-is-gain-times-residual");
  auto add = [&](const Vector3 &now, const Vector3 &was, int at, const char *l) { for (int k = 0; k < 3; k++) symi_check_eq(now(k), was(k) + d(at + k), 1e-4f, l); };
  auto turn = [&](const Quaternion &now, const Quaternion &was, int at, const char *l) { eqq(now, unitOf(qmul(was, Quaternion(1, 0.5f * d(at), 0.5f * d(at + 1), 0.5f * d(at + 2)))), 1e-4f, l); };
  add(it->nominalState.p_wb, item0.nominalState.p_wb, 0, "position-gets-its-error"); add(it->nominalState.v_wb, item0.nominalState.v_wb, 3, "velocity-gets-its-error"); turn(it->nominalState.q_wb, item0.nominalState.q_wb, 6, "attitude-turns-by-its-error"); add(w.pq.bias_a, ba, 9, "accelerometer-bias-gets-its-error"); add(w.pq.bias_g, bg, 12, "gyro-bias-gets-its-error");
  for (int c = 0; c < nc; c++) { add(w.fr.extrinsics[c].p_bc, ex[c].p_bc, 15 + 6 * c, "mounting-position-gets-its-error"); turn(w.fr.extrinsics[c].q_bc, ex[c].q_bc, 18 + 6 * c, "mounting-orientation-turns-by-its-error"); }
  symi_check((int)w.fr.frames.size() == nf && (int)w.fr.extrinsics.size() == nc, "nothing-else-changes");
  for (int i = 0; i < nf; i++) { auto &f = *w.fr.frames[i]; symi_check((f.id == fr[i].id) & (f.timeStamp == fr[i].timeStamp), "nothing-else-changes");
    if (i < nf - 1) { int at = 15 + 6 * nc + 6 * i; add(f.p_wb, fr[i].p_wb, at, "older-frame-position-gets-its-error"); turn(f.q_wb, fr[i].q_wb, at + 3, "older-frame-orientation-turns-by-its-error"); eqm(f.v_wb, fr[i].v_wb, 0, "nothing-else-changes"); }
    else { eqm(f.p_wb, it->nominalState.p_wb, 0, "newest-frame-is-the-inertial-state"); eqm(f.v_wb, it->nominalState.v_wb, 0, "newest-frame-is-the-inertial-state"); eqq(f.q_wb, it->nominalState.q_wb, 0, "newest-frame-is-the-inertial-state"); } }
  eqm(it2->nominalState.p_wb, keep2.nominalState.p_wb, 0, "nothing-else-changes"); eqq(it2->nominalState.q_wb, keep2.nominalState.q_wb, 0, "nothing-else-changes"); eqm(it->accel, item0.accel, 0, "nothing-else-changes"); eqm(it->gyro, item0.gyro, 0, "nothing-else-changes"); symi_check(it->timeStamp == item0.timeStamp, "nothing-else-changes");
  eqm(w.pq.initState.p_wb, Vector3(5, 5, 5), 0, "nothing-else-changes");
  symi_reach("end");
}
extern "C" void u04_apply() { int nc = 1 + symi_choice("cams", 2), nf = 1 + symi_choice("frames", thorough() ? 4 : 3); applied(nc, nf, symi_choice("sym", 4)); }
extern "C" void u04_long() { applied(3, 9, 4); }
#include "pollute.hpp"
#ifndef SYMI_ASAN
extern "C" void symi_prelude() { pollute::measurement(); }
#endif
