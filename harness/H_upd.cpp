// The visual update, decompositions answered by the harness (build with SYMI_STUBS).
#include "upd.hpp"
#include <backend.hpp>
#include <cstdlib>

// ---- U01: the first three rows of the rotated system are lost, the rotation is a cyclic shift
namespace { int gShift; Matrix shiftQ(int, const Matrix &A, const Matrix &) { int m = A.rows(); Matrix Q = Matrix::Zero(m, m); for (int i = 0; i < m; i++) Q((i + gShift) % m, i) = 1; return Q; } }
static void rowsOf(World &w, int first, const std::vector<uint32_t> &mask, const std::vector<std::vector<Vector2>> &z, const Vector3 &pw, int shift) {
  int nc = w.fr.extrinsics.size(), nf = w.fr.frames.size(), total = 0; for (auto m : mask) total += __builtin_popcount(m);
  auto f = w.track(7, first, mask, z); f->p_w = pw; f->status = Feature::SOLVED;
  w.up.Hx_cols = w.cols(); int m = 2 * total, cols = w.cols(); gShift = shift;
  symistub::log().clear(); symistub::qrQFn() = shiftQ; Matrix out;
  symi_check(w.up.ConstructMeasurementFunction(f, out), "measurement-is-built");
  if (symistub::log().size() != 1 || symistub::log()[0].kind != 4) { symi_reach("end"); return; }
  Matrix Hf = symistub::log()[0].A; symi_check(Hf.rows() == m && Hf.cols() == 3, "landmark-rows-are-eliminated"); if (Hf.rows() != m || Hf.cols() != 3) return;
  symi_check(out.rows() == m - 3 && out.cols() == cols + 1, "three-rows-fewer"); if (out.rows() != m - 3 || out.cols() != cols + 1) return;
  std::vector<bool> used(total, false); Matrix model;
  for (int r = 0; r < m - 3; r++) {
    int orig = (r + 3 + gShift) % m, pair = orig / 2; if (orig % 2 == 1 && r > 0) continue; int fi = -1, cam = -1;
    // whose observation is this row: the frame and camera columns that are not all zero
    for (int i = 0; i < nf; i++) { int c0 = i == nf - 1 ? 0 : 15 + 6 * nc + 6 * i; for (int k = 0; k < 3; k++) if (symi_peek(out(r, c0 + k)) != 0) fi = i; }
    for (int c = 0; c < nc; c++) for (int k = 0; k < 3; k++) if (symi_peek(out(r, 15 + 6 * c + k)) != 0) cam = c;
    bool known = fi >= first && cam >= 0 && (mask[fi - first] >> cam & 1); symi_check(known, "each-row-is-one-observation"); if (!known) return;
    modelRows(w, fi, cam, pw, z[fi - first][cam], model); (void)pair;
    for (int a = orig % 2; a < 2; a++) { int rr = r + a - orig % 2; if (rr >= m - 3 || (rr + 3 + gShift) % m != (orig - orig % 2) + a) continue;
      for (int k = 0; k < cols; k++) symi_check_eq(out(rr, k), model(a, 3 + k), 1e-3f, "rows-are-the-derivatives-in-their-columns");
      symi_check_eq(out(rr, cols), model(a, 3 + cols), 1e-3f, "residual-is-observed-minus-predicted");
      for (int k = 0; k < 3; k++) symi_check_eq(Hf((orig - orig % 2) + a, k), model(a, k), 1e-3f, "landmark-rows-are-the-derivatives"); }
    symi_reach("row");
  }
  symi_reach("end");
}
extern "C" void u01_rows() {
  World w; int nc = 1 + symi_choice("cams", thorough() ? 3 : 2), nf = 2 + symi_choice("frames", thorough() ? 3 : 2), first = symi_choice("first", nf), len = nf - first; int mode = symi_choice("mode", 3);
  std::vector<uint32_t> mask; int total = 0; for (int i = 0; i < len; i++) { mask.push_back(1 + symi_choice(N("mask", i), (1 << nc) - 1)); total += __builtin_popcount(mask.back()); }
  if (total < 2 || total > (thorough() ? 5 : 4)) return;
  if (nf > 2 && len < nf - 1) return;
  Vector3 pw = mode == 0 ? sv3("pw", -50, 50) : Vector3(1, -2, 9); int which = symi_choice("which", mode == 1 ? len : mode == 2 ? nc : 1);
  for (int c = 0; c < nc; c++) w.camera(mode == 2 && c == which ? squat("qbc") : qc(symi_choice("qc", mode == 0 ? 2 : 1) * 2 + c), mode == 0 ? sv3(N("pbc", c), -2, 2) : Vector3(0.25f, -0.5f * c, 0.125f));
  for (int i = 0; i < nf; i++) w.frame(mode == 1 && i == first + which ? squat("qwb") : qc(i * (1 + symi_choice("qf", mode == 0 ? 2 : 1))), mode == 0 ? sv3(N("pwb", i), -20, 20) : Vector3(0.5f * i, 0.25f, -0.125f * i), 1 + symi_choice("firstId", 2) * 4);
  std::vector<std::vector<Vector2>> z; for (int i = 0; i < len; i++) { z.emplace_back(); for (int c = 0; c < nc; c++) { z[i].push_back(sv2(N("z", i, c), -4, 4)); if (mask[i] >> c & 1) { float d = depthIn(w, first + i, c, pw); symi_assume(i == len - 1 && symi_choice("behind", 2) ? d < -0.0625f : d > 0.0625f); } } }
  rowsOf(w, first, mask, z, pw, 2 * total == 4 ? symi_choice("shift", 4) : 3 * symi_choice("shift", 2));
}
// a long window: the positions of one frame and one camera and the observations of one frame are symbolic
extern "C" void u01_long() {
  World w; const int nf = 9, nc = 2; int first = 3 * symi_choice("first", 3), len = nf - first, at = first + (len - 1) * (int)symi_choice("at", 2); Vector3 pw(1, -2, 9); std::vector<uint32_t> mask; std::vector<std::vector<Vector2>> z;
  for (int c = 0; c < nc; c++) w.camera(qc(c), c ? sv3("pbc", -2, 2) : Vector3(0.25f, -0.5f, 0.125f)); for (int i = 0; i < nf; i++) w.frame(qc(i * 2), i == at ? sv3("pwb", -20, 20) : Vector3(0.5f * i, 0.25f, -0.125f * i), 40);
  for (int i = 0; i < len; i++) { mask.push_back(i % 3 == 1 ? 1 : 3); z.emplace_back(); for (int c = 0; c < nc; c++) { z[i].push_back(first + i == at ? sv2(N("z", c), -4, 4) : Vector2(0.125f * i, -0.25f * c)); if (mask[i] >> c & 1) { float d = depthIn(w, first + i, c, pw); symi_assume((d < -0.0625f) | (d > 0.0625f)); } } }
  rowsOf(w, first, mask, z, pw, 3 * symi_choice("shift", 2));
}

// ---- U03 with several rows: measurements of uncoupled parts of the state, so that the innovation
// covariance is diagonal and its decomposition known
extern "C" void u03_gain() {
  World w; w.camera(qc(0), Vector3(0, 0, 0)); w.frame(qc(0), Vector3(0, 0, 0)); w.frame(qc(1), Vector3(1, 0, 0)); w.item(100); int N0 = w.cols(), n = 2 + symi_choice("n", 2), mode = symi_choice("mode", 3); auto sy = [&](int m, const char *nm, float lo, float hi, float v) { return m == mode ? symi_f32(nm, lo, hi) : v; };
  w.up.Hx_cols = N0; w.up.Hx_rows = n; w.up.measureNoise = sy(0, "noise", 0.01f, 4, 0.5f);
  // part k: states i with i % 4 == k; part 3 is coupled to all others and not measured
  Matrix P = Matrix::Zero(N0, N0), H = Matrix::Zero(n, N0), r(n, 1); int c = 3 + 4 * symi_choice("c", 3);
  for (int i = 0; i < N0; i++) { P(i, i) = 2 + i % 3; if (i >= 4) P(i, i - 4) = P(i - 4, i) = 0.25f; if (i % 4 == 3 && i) P(i, i - 1) = P(i - 1, i) = 0.125f; }
  for (int k = 0; k < n; k++) { int a = k + 4, b = k + 4 * (2 + k); P(a, a) = sy(1, N("Paa", k), 1, 8, 3); P(a, c) = P(c, a) = sy(1, N("Pac", k), -1, 1, 0.5f); H(k, k) = 0.5f - k; H(k, a) = sy(0, N("Ha", k), -4, 4, 1); H(k, b) = -0.75f; r(k, 0) = symi_f32(N("r", k), -4, 4); if (mode == 2) P(c, k + 8) = P(k + 8, c) = symi_f32(N("Pc8", k), -1, 1); }
  if (mode == 2) P(c, c) = symi_f32("Pcc", 1, 8);
  Matrix PHt = mul(P, Matrix(H.transpose())), S = mul(H, PHt); float s2 = w.up.measureNoise * w.up.measureNoise; for (int i = 0; i < n; i++) S(i, i) += s2;
  for (int i = 0; i < n; i++) symi_assume(S(i, i) > 0.0625f);
  symistub::eigVFn() = nullptr; symistub::eigLFn() = [](int, const Matrix &A, const Matrix &) { Matrix L(A.rows(), 1); for (int i = 0; i < A.rows(); i++) L(i, 0) = A(i, i); return L; };
  symistub::solveFn() = [](int, const Matrix &A, const Matrix &B) { Matrix X = B; for (int i = 0; i < A.rows(); i++) for (int j = 0; j < B.cols(); j++) X(i, j) = B(i, j) / A(i, i); return X; };
  w.up.covariance = P; w.up.Hx_r = Matrix(n, N0 + 1); for (int i = 0; i < n; i++) { for (int j = 0; j < N0; j++) w.up.Hx_r(i, j) = H(i, j); w.up.Hx_r(i, N0) = r(i, 0); }
  symistub::log().clear(); symi_check(w.up.UpdateState(), "update-succeeds");
  for (auto &l : symistub::log()) eqm(l.A, S, 1e-3f, "inverts-the-innovation-covariance-with-the-configured-noise");
  Matrix K = PHt; for (int i = 0; i < N0; i++) for (int j = 0; j < n; j++) K(i, j) = PHt(i, j) / S(j, j);
  Matrix dx = mul(K, r), C = P - mul(K, Matrix(PHt.transpose()));
  symi_check(w.up.delta_x.rows() == N0, "one-error-per-state"); if (w.up.delta_x.rows() != N0) return;
  for (int i = 0; i < N0; i++) symi_check_eq(w.up.delta_x(i), dx(i, 0), 2e-3f, "error-estimate-is-gain-times-residual");
  symi_check(w.up.covariance.rows() == N0 && w.up.covariance.cols() == N0, "covariance-shape"); if (w.up.covariance.rows() != N0 || w.up.covariance.cols() != N0) return;
  for (int i = 0; i < N0; i++) for (int j = 0; j < N0; j++) symi_check_eq(w.up.covariance(i, j), C(i, j), 2e-3f, "covariance-is-reduced-by-the-gain");
  symi_reach("end");
}

// ---- U05, U06
namespace {
Matrix symCov(World &w) { return ssym("C", w.cols(), -4, 4); }
void cfg(World &w, int &nc, int &nf, int most = 10) { nc = 1 + symi_choice("cams", thorough() ? 4 : 3); nf = 1 + symi_choice("frames", most); for (int c = 0; c < nc; c++) w.camera(qc(c), Vector3(c, 0, 0)); for (int i = 0; i < nf; i++) w.frame(qc(i), Vector3(i, 0, 0)); w.item(100); if (symi_choice("items", 2)) w.item(101); }
void exact(const Matrix &a, const Matrix &b, const char *l) { eqm(a, b, 0, l); }
}
extern "C" void u05_assemble() {
  World w; int nc, nf; cfg(w, nc, nf); int n = w.cols(), k = n - 15; Matrix C = symCov(w); auto &it = *w.pq.items.front();
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i < 15 && j < 15) it.imuCov(i, j) = C(i, j); else if (i < 15) it.imuExCamCov(i, j - 15) = C(i, j); else if (j >= 15) w.pq.exCamCov(i - 15, j - 15) = C(i, j);
  int stale = symi_choice("stale", 2); if (stale) w.up.covariance = Matrix::Constant(n + 6, n + 6, 7);
  symi_check(w.up.ConstructCovariance(), "assembling-succeeds"); exact(w.up.covariance, C, "assembled-from-exactly-the-three-blocks");
  (void)k; symi_reach("end");
}
extern "C" void u05_expand() {
  World w; int nc, nf; cfg(w, nc, nf); int n = w.cols(); Matrix C = symCov(w); w.up.covariance = C;
  symi_check(w.up.ExpandCameraCovariance(), "extending-succeeds");
  auto src = [&](int i) { return i < n ? i : i < n + 3 ? i - n : 6 + i - n - 3; };
  symi_check(w.up.covariance.rows() == n + 6 && w.up.covariance.cols() == n + 6, "six-rows-and-columns-more"); if (w.up.covariance.rows() != n + 6 || w.up.covariance.cols() != n + 6) return;
  for (int i = 0; i < n + 6; i++) for (int j = 0; j < n + 6; j++) symi_check_eq(w.up.covariance(i, j), C(src(i), src(j)), 1e-5f, i < n && j < n ? "extending-changes-nothing-else" : "new-rows-are-those-of-the-inertial-pose");
  symi_reach("end");
}
extern "C" void u05_store() {
  World w; int nc, nf; cfg(w, nc, nf, thorough() ? 10 : 6); int n = w.cols() + 6 * (int)symi_choice("extra", 2); Matrix C = ssym("C", n, -4, 4); w.up.covariance = C; w.up.margPolicy = (MargPolicy)(1 + symi_choice("policy", 4)); if (symi_choice("same", 2)) { w.pq.exCamCov = Matrix::Constant(n - 15, n - 15, 9); w.pq.items.front()->imuExCamCov = Matrix::Constant(15, n - 15, 8); w.pq.items.front()->imuCov.setConstant(7); } Matrix later; if (w.pq.items.size() > 1) later = w.pq.items[1]->imuCov;
  symi_check(w.up.UpdateCovariance(), "storing-succeeds"); auto &it = *w.pq.items.front();
  symi_check(it.imuExCamCov.cols() == n - 15 && w.pq.exCamCov.rows() == n - 15 && w.pq.exCamCov.cols() == n - 15, "stored-blocks-have-the-right-size"); if (it.imuExCamCov.cols() != n - 15 || w.pq.exCamCov.rows() != n - 15 || w.pq.exCamCov.cols() != n - 15) return;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { float v = i < 15 && j < 15 ? it.imuCov(i, j) : i < 15 ? it.imuExCamCov(i, j - 15) : j < 15 ? it.imuExCamCov(j, i - 15) : w.pq.exCamCov(i - 15, j - 15); symi_check_eq(v, C(i, j), 0, "every-block-is-stored-unchanged"); }
  exact(w.up.covariance, C, "storing-changes-nothing"); if (w.pq.items.size() > 1) exact(w.pq.items[1]->imuCov, later, "later-samples-are-left-to-repropagation");
  symi_reach("end");
}
extern "C" void u06_reduce() {
  World w; int nc, nf; cfg(w, nc, nf); int n = w.cols() + 6; Matrix C = ssym("C", n, -4, 4); w.up.covariance = C; w.up.margPolicy = (MargPolicy)(1 + symi_choice("policy", 4));
  MargPolicy pol = w.up.margPolicy; if (pol == MARG_SUBNEW && nf < 2) return;
  symi_check(w.up.ReduceCameraCovariance(), "reducing-succeeds");
  int drop = pol == MARG_OLDEST ? 0 : pol == MARG_SUBNEW ? nf - 2 : pol == MARG_NEWEST ? nf - 1 : -1; Matrix O = C;
  if (drop >= 0) { int d = 15 + 6 * nc + 6 * drop; O = Matrix(n - 6, n - 6); for (int i = 0; i < n - 6; i++) for (int j = 0; j < n - 6; j++) O(i, j) = C(i < d ? i : i + 6, j < d ? j : j + 6); }
  exact(w.up.covariance, O, drop < 0 ? "dropping-none-leaves-it" : "exactly-the-dropped-frame's-rows-and-columns-go");
  symi_reach("end");
}

// ---- U07
namespace { int gRand, gSvd, gOk, gEvery; Vector3 gPt; Matrix answer(int, const Matrix &, const Matrix &) { Matrix V = Matrix::Identity(4, 4); bool ok = gEvery ? gSvd % gEvery != 1 : gSvd < 31 ? gOk >> gSvd & 1 : gOk & 1; gSvd++; for (int i = 0; i < 3; i++) V(i, 3) = gPt(i) + gSvd; V(3, 3) = ok ? 1 : 0; return V; } }
extern "C" int rand() { int k = gRand++; return k < 4 ? (int)symi_choice(N("score", k), 2) * 5 + 3 : k; }
extern "C" void u07_select() {
  World w; int nl = symi_choice("landmarks", thorough() ? 5 : 4), nf = 2 + symi_choice("frames", 2); w.camera(qc(0), Vector3(0, 0, 0)); w.camera(qc(0), Vector3(0.5f, 0, 0)); for (int i = 0; i < nf; i++) w.frame(qc(0), Vector3(0.5f * i, 0, 0));
  std::vector<std::shared_ptr<Feature>> lm; std::vector<std::vector<Vector2>> z(nf, std::vector<Vector2>(2, Vector2(0.25f, 0.5f)));
  for (int i = 0; i < nl; i++) lm.push_back(w.track(30 + 4 * i, 0, std::vector<uint32_t>(nf, 3), z));
  auto old = w.track(5, 0, std::vector<uint32_t>(nf - 1, 3), z); old->status = Feature::SOLVED;   // lost before the newest frame
  w.up.maxUsedFeatures = symi_choice("limit", 4); gOk = symi_choice("ok", 1 << nl); gRand = gSvd = 0; gPt = Vector3(symi_f32("x", -4, 4), 1, symi_f32("d", 1, 20)); symistub::log().clear(); symistub::svdVFn() = answer;
  if (symi_choice("stale", 2)) w.up.features.push_back(old);
  symi_check(w.up.SelectGoodFeatures(), "selecting-succeeds");
  // which landmarks were solved: told by the points they were given
  int solved = 0; for (auto &f : lm) if (f->status == Feature::SOLVED) solved++;
  symi_check(solved == __builtin_popcount(gOk), "solved-iff-triangulation-succeeded");
  int want = solved < (int)w.up.maxUsedFeatures ? solved : (int)w.up.maxUsedFeatures;
  symi_check((int)w.up.features.size() == want, "all-successful-ones-up-to-the-limit");
  for (size_t i = 0; i < w.up.features.size(); i++) {
    bool mine = false; for (auto &f : lm) mine = mine | (f == w.up.features[i]); symi_check(mine, "only-landmarks-of-the-newest-frame"); symi_check(w.up.features[i]->status == Feature::SOLVED, "only-triangulated-landmarks");
    for (size_t j = 0; j < i; j++) symi_check(w.up.features[i] != w.up.features[j], "no-landmark-twice");
  }
  symi_reach("end");
}
// many landmarks, against every limit
extern "C" void u07_long() {
  World w; const int nf = 3, nl = 300; w.camera(qc(0), Vector3(0, 0, 0)); w.camera(qc(0), Vector3(0.5f, 0, 0)); for (int i = 0; i < nf; i++) w.frame(qc(0), Vector3(0.5f * i, 0, 0));
  std::vector<std::shared_ptr<Feature>> lm; std::vector<std::vector<Vector2>> z(nf, std::vector<Vector2>(2, Vector2(0.25f, 0.5f))); for (int i = 0; i < nl; i++) lm.push_back(w.track(30 + 4 * i, 0, std::vector<uint32_t>(nf, 3), z));
  w.up.maxUsedFeatures = symi_u32("limit", 0, 400); gEvery = symi_choice("fail", 2) ? 3 : 1000; gRand = 4; gSvd = 0; gPt = Vector3(symi_f32("x", -4, 4), 1, symi_f32("d", 1, 20)); symistub::log().clear(); symistub::svdVFn() = answer;
  symi_check(w.up.SelectGoodFeatures(), "selecting-succeeds"); int solved = 0; for (auto &f : lm) solved += f->status == Feature::SOLVED; gEvery = 0;
  symi_check((w.up.features.size() == w.up.maxUsedFeatures) | ((w.up.features.size() == (size_t)solved) & ((uint32_t)solved <= w.up.maxUsedFeatures)), "all-successful-ones-up-to-the-limit"); int tried = 0; for (auto &l : symistub::log()) tried += l.kind == 2; symi_check(tried == nl && solved > nl / 2, "solved-iff-triangulation-succeeded");
  std::vector<void *> seen; for (auto &f : w.up.features) { bool mine = false; for (auto &g : lm) mine = mine | (f == g); symi_check(mine, "only-landmarks-of-the-newest-frame"); symi_check(f->status == Feature::SOLVED, "only-triangulated-landmarks"); for (auto *x : seen) symi_check(x != f.get(), "no-landmark-twice"); seen.push_back(f.get()); }
  symi_reach("end");
}
// every surviving observation enters, posed as frame pose combined with camera mounting
extern "C" void u07_poses() {
  World w; int nc = 1 + symi_choice("cams", 2), nf = 2 + symi_choice("frames", 2), first = symi_choice("first", nf), len = nf - first, mode = symi_choice("mode", 3);
  for (int c = 0; c < nc; c++) w.camera(mode == 2 && c == 0 ? squat("qbc") : qc(1 + c), mode == 0 ? sv3(N("pbc", c), -2, 2) : Vector3(0.25f, -0.5f * c, 0.125f));
  for (int i = 0; i < nf; i++) w.frame(mode == 1 && i == nf - 1 ? squat("qwb") : qc(i + 2), mode == 0 ? sv3(N("pwb", i), -20, 20) : Vector3(0.5f * i, 0.25f, -0.125f * i), 1 + symi_choice("firstId", 2) * 4);
  std::vector<uint32_t> mask; int total = 0; for (int i = 0; i < len; i++) { mask.push_back(1 + symi_choice(N("mask", i), (1 << nc) - 1)); total += __builtin_popcount(mask.back()); }
  std::vector<std::vector<Vector2>> z; for (int i = 0; i < len; i++) { z.emplace_back(); for (int c = 0; c < nc; c++) z[i].push_back(sv2(N("z", i, c), -4, 4)); }
  auto f = w.track(7, first, mask, z); gOk = -1; gSvd = 0; gPt = Vector3(0, 0, 0); symistub::log().clear(); symistub::svdVFn() = answer;
  bool ok = w.up.TrianglizeMultiFrame(f); symi_check((f->status == Feature::SOLVED) == ok, "solved-iff-triangulation-succeeded");
  if (total < 2) { symi_check(!ok, "one-view-cannot-be-triangulated"); symi_reach("end"); return; }
  if (symistub::log().size() != 1) { symi_reach("other"); return; } auto &A = symistub::log()[0].A;
  if (ok) for (int i = 0; i < 3; i++) symi_check_eq(f->p_w(i), symistub::log()[0].V(i, 3), 1e-4f, "landmark-takes-the-triangulated-point");
  symi_check(A.cols() == 4, "constraint-shape"); if (A.cols() != 4) return;
  Matrix G = mul(Matrix(A.transpose()), A), O = Matrix::Zero(4, 4);
  for (int i = 0; i < len; i++) for (int c = 0; c < nc; c++) if (mask[i] >> c & 1) {
    auto &fr = *w.fr.frames[first + i]; auto &e = w.fr.extrinsics[c]; Matrix33 Ra = rotOf(fr.q_wb), Rb = rotOf(e.q_bc); Matrix R = mul(Ra, Rb); Vector3 p = rot(fr.q_wb, e.p_bc) + fr.p_wb; float P[3][4];
    for (int r = 0; r < 3; r++) { float s = 0; for (int k = 0; k < 3; k++) { P[r][k] = R(k, r); s -= R(k, r) * p(k); } P[r][3] = s; }
    float u[4], v[4]; for (int k = 0; k < 4; k++) { u[k] = z[i][c](0) * P[2][k] - P[0][k]; v[k] = z[i][c](1) * P[2][k] - P[1][k]; }
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) O(a, b) += u[a] * u[b] + v[a] * v[b];
  }
  eqm(G, O, 2e-3f, "every-observation-posed-by-frame-and-mounting"); symi_reach("end");
}

// ---- U08: whole histories
namespace {
void sizes(World &w, const char *l) {
  int k = 6 * (int)(w.fr.extrinsics.size() + w.fr.frames.size());
  for (auto &i : w.pq.items) symi_check(i->imuExCamCov.rows() == 15 && i->imuExCamCov.cols() == k, l);
  symi_check(w.pq.exCamCov.rows() == k && w.pq.exCamCov.cols() == k, l);
}
}

extern "C" void u08_history() {
  Backend b; int nc = 1 + symi_choice("cams", 2); b.frameManager.maxWindowSize = 1 + symi_choice("limit", 3); b.frameManager.minKeyframeTrackedFeatureNum = symi_choice("key", 2); const double T = 0.125; b.dataloader.imuPeriod = T;
  b.propagator.propagator = &b.frameManager; b.visionUpdator.propagator = &b.propagator; b.visionUpdator.featureManager = &b.featureManager; b.visionUpdator.frameManager = &b.frameManager; b.visionUpdator.trianglator = &b.trianglator; b.visionUpdator.pnpSolver = &b.pnpSolver; b.visionUpdator.measureNoise = 0.5f;
  for (int c = 0; c < nc; c++) b.frameManager.extrinsics.emplace_back(Extrinsic(qc(0), Vector3(0.5f * c, 0, 0)));
  IMUFullState::gravity_w = Vector3(0, 0, 8); b.propagator.InitializeProcessNoiseMatrix(0.25f, 0.125f, 0.0625f, 0.0625f); b.propagator.initState = IMUMotionState(Vector3(0, 0, 0), Vector3(1, 0, 0), qc(0));
  gOk = -1; gSvd = 0; gRand = 100; gPt = Vector3(0.5f, 0.25f, 9); symistub::log().clear(); symistub::svdVFn() = answer;
  double t = 64; auto image = [&](int k, double at, bool seen) {
    std::shared_ptr<FeaturesMessage> m(new FeaturesMessage()); m->timeStamp = at;
    if (seen) for (uint32_t id = 3; id < 5; id++) { auto o = std::make_shared<FeatureObserve>(); for (int c = 0; c < nc; c++) o->norms[c] = Vector2(0.125f * c, 0.25f + 0.125f * k); m->ids.push_back(id + 10 * (seen ? 0 : 1)); m->observes.push_back(o); }
    b.UpdateFeatureFrameManager(m);
  };
  bool seen = true; image(0, t, true); b.propagator.Propagate(Vector3(0, 0, 8.5f), Vector3(0.125f, 0, 0), t);
  for (int k = 1; k <= (thorough() ? 4 : 3); k++) {
    int n = 1 + symi_choice(N("samples", k), 2); for (int i = 0; i < n; i++) { t += T; symi_check(b.propagator.Propagate(Vector3(0.25f * k, 0, 8.5f), Vector3(0.125f, 0, 0.25f), t), "propagation-succeeds"); }
    seen = seen && symi_choice(N("tracked", k), 2) == 0; double off = symi_f64(N("off", k), 0, T); image(k, t - off, seen);
    symi_check(b.visionUpdator.Update(t - off, T), "a-matching-update-succeeds");
    symi_check(b.MarginalizeFeatureFrameManager(b.visionUpdator.margPolicy), "drop-succeeds");
    symi_check(b.frameManager.frames.size() <= b.frameManager.maxWindowSize || b.frameManager.frames.size() == 1, "window-within-its-limit");
    int d = 6 * (int)(b.frameManager.extrinsics.size() + b.frameManager.frames.size()); symi_check(!b.propagator.items.empty(), "samples-remain");
    for (auto &i : b.propagator.items) symi_check(i->imuExCamCov.rows() == 15 && i->imuExCamCov.cols() == d, "cross-covariance-fits-cameras-and-window");
    symi_check(b.propagator.exCamCov.rows() == d && b.propagator.exCamCov.cols() == d, "window-covariance-fits-cameras-and-window");
  }
  symi_reach("end");
}
extern "C" void u08_refused() {
  World w; int nc = 1 + symi_choice("cams", 2), nf = 2 + symi_choice("frames", 2); for (int c = 0; c < nc; c++) w.camera(qc(c), Vector3(c, 0, 0)); for (int i = 0; i < nf; i++) w.frame(qc(i), Vector3(i, 0, 0));
  int have = symi_choice("items", 3); double t0 = symi_f64("t0", 0, 1000); for (int i = 0; i < have; i++) w.item(t0 + i);
  int d = 6 * (int)symi_choice("blocks", nc + nf + 2), need = 6 * (nc + nf) - 6; for (auto &i : w.pq.items) i->imuExCamCov.setZero(15, d); w.pq.exCamCov.setIdentity(d, d);
  double ts = symi_f64("ts", 0, 2000), thr = symi_f64("thr", 0, 10); symistub::log().clear();
  bool left = false; for (int i = 0; i < have; i++) left = left | !(ts - (t0 + i) > thr);
  bool ok = w.up.Update(ts, thr);
  symi_check(ok == (left & (d == need)), "refused-iff-no-sample-left-or-sizes-differ");
  symi_check((int)w.fr.frames.size() == nf, "window-unchanged");
  symi_reach("end");
}
// no usable landmark: the update only extends and shrinks the window
extern "C" void u07_none() {
  World w; int nf = 2 + symi_choice("frames", 2); w.camera(qc(0), Vector3(0, 0, 0)); for (int i = 0; i < nf; i++) w.frame(qc(i), Vector3(i, 0, 0)); w.fr.maxWindowSize = nf - symi_choice("full", 2); auto it = w.item(100); bool more = symi_choice("more", 2); if (more) w.item(100.125);
  int n = w.cols(); Matrix C = ssym("C", n, -4, 4); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i < 15 && j < 15) it->imuCov(i, j) = C(i, j); else if (i < 15) it->imuExCamCov(i, j - 15) = C(i, j); else if (j >= 15) w.pq.exCamCov(i - 15, j - 15) = C(i, j);
  if (more) { for (auto &x : w.pq.items) { x->imuCov.setIdentity(); } for (int i = 0; i < 15; i++) for (int j = 0; j < 15; j++) C(i, j) = i == j; }
  int failing = symi_choice("failing", 2); std::vector<std::vector<Vector2>> z(nf, std::vector<Vector2>(1, Vector2(0.25f, 0.5f))); if (failing) w.track(8, 0, std::vector<uint32_t>(nf, 1), z);
  gOk = 0; gSvd = gRand = 0; gPt = Vector3(0, 0, 1); symistub::log().clear(); symistub::svdVFn() = answer; std::vector<Vector3> p; for (auto &f : w.fr.frames) p.push_back(f->p_wb);
  Vector3 ip = it->nominalState.p_wb; symi_check(w.up.Update(100, 0.5), "an-update-without-landmarks-succeeds");
  for (int i = 0; i + 1 < nf; i++) eqm(w.fr.frames[i]->p_wb, p[i], 0, "older-frames-are-kept"); eqm(it->nominalState.p_wb, ip, 0, "state-is-kept"); eqm(w.fr.frames.back()->p_wb, ip, 0, "newest-frame-takes-the-inertial-pose"); eqq(w.fr.frames.back()->q_wb, it->nominalState.q_wb, 0, "newest-frame-takes-the-inertial-pose");
  int full = w.fr.maxWindowSize < (uint32_t)nf; int drop = !full ? -1 : w.up.margPolicy == MARG_OLDEST ? 0 : nf - 2; symi_check((w.up.margPolicy == NO_MARG) == !full, "drops-only-when-full");
  std::vector<int> src; for (int i = 0; i < 15 + 6; i++) src.push_back(i); for (int f = 0; f < nf; f++) if (f != drop) for (int k = 0; k < 6; k++) src.push_back(f < nf - 1 ? 21 + 6 * f + k : k < 3 ? k : 6 + k - 3);
  int m = src.size(); symi_check(it->imuExCamCov.cols() == m - 15 && w.pq.exCamCov.rows() == m - 15, "window-covariance-fits"); if (it->imuExCamCov.cols() != m - 15 || w.pq.exCamCov.rows() != m - 15) return;
  for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { float v = i < 15 && j < 15 ? it->imuCov(i, j) : i < 15 ? it->imuExCamCov(i, j - 15) : j < 15 ? it->imuExCamCov(j, i - 15) : w.pq.exCamCov(i - 15, j - 15); symi_check_eq(v, C(src[i], src[j]), 1e-5f, "covariance-is-only-extended-and-shrunk"); }
  symi_reach("end");
}
#include "pollute.hpp"
#ifndef SYMI_ASAN
extern "C" void symi_prelude() { pollute::update(); }
#endif
