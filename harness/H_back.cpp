// Configuration, initialisation, stepping and publishing (build with SYMI_STUBS).
#include "upd.hpp"
#include <backend.hpp>
#include <cstdlib>
#include <unistd.h>
#include <sys/stat.h>
namespace {
void mount(Backend &b, double T) {
  b.dataloader.imuPeriod = T; b.propagator.propagator = &b.frameManager; b.visionUpdator.propagator = &b.propagator; b.visionUpdator.featureManager = &b.featureManager; b.visionUpdator.frameManager = &b.frameManager; b.visionUpdator.trianglator = &b.trianglator; b.visionUpdator.pnpSolver = &b.pnpSolver; b.visionUpdator.measureNoise = 0.5f;
  IMUFullState::gravity_w = Vector3(0, 0, 8); b.propagator.InitializeProcessNoiseMatrix(0.25f, 0.125f, 0.0625f, 0.0625f);
}
Quaternion sq4(const char *n) { return Quaternion(symi_f32(N((std::string(n) + "w").c_str()), -1, 1), symi_f32(N((std::string(n) + "x").c_str()), -1, 1), symi_f32(N((std::string(n) + "y").c_str()), -1, 1), symi_f32(N((std::string(n) + "z").c_str()), -1, 1)); }
int gSvd; unsigned gFail; Vector3 gPt; Matrix gDx; int gSolve; bool gSpread; Quaternion gFrame(1, 0, 0, 0);
Matrix answer(int, const Matrix &, const Matrix &) { Matrix V = Matrix::Identity(4, 4); int k = gSvd++; Vector3 x = gPt; if (gSpread) for (int i = 0; i < 3; i++) x(i) += i == 2 ? k % 3 : (k * (i + 2) % 5 - 2) * 0.5f; x = rot(gFrame, x); for (int i = 0; i < 3; i++) V(i, 3) = x(i); V(3, 3) = k < 32 && (gFail >> k & 1) ? 0 : 1; return V; }
Matrix stepFn(int, const Matrix &A, const Matrix &B) { if (gSolve++ == 0 && A.rows() == 6 && gDx.rows() == 6) return gDx; return Matrix::Zero(A.cols(), B.cols()); }
std::shared_ptr<FeaturesMessage> image(double t, const std::vector<uint32_t> &ids, const std::vector<uint32_t> &masks, int nc, float salt) {
  std::shared_ptr<FeaturesMessage> m(new FeaturesMessage()); m->timeStamp = t;
  for (size_t i = 0; i < ids.size(); i++) { auto o = std::make_shared<FeatureObserve>(); for (int c = 0; c < nc; c++) if (masks[i] >> c & 1) o->norms[c] = Vector2(0.0625f * (ids[i] % 7) + 0.125f * c, 0.0625f * (ids[i] % 5) - salt); m->ids.push_back(ids[i]); m->observes.push_back(o); }
  return m;
}
void quiet() { symistub::log().clear(); gSvd = gSolve = 0; gFail = 0; gSpread = false; gDx = Matrix(); gFrame = Quaternion(1, 0, 0, 0); gPt = Vector3(0.5f, 0.25f, 9); symistub::svdVFn() = answer; symistub::solveFn() = stepFn; symistub::eigVFn() = nullptr; symistub::eigLFn() = nullptr; symistub::qrQFn() = nullptr; }
}

// ---- B03
extern "C" void b03_publish() {
  Backend b; mount(b, 0.125); int n = symi_choice("items", 4); std::vector<IMUMotionState> st; std::vector<double> tm;
  for (int i = 0; i < n; i++) { auto it = std::make_shared<IMUPropagateQueueItem>(); it->timeStamp = i == n - 1 || i == 0 ? stampOf(N("t", i), 0, 1e6) : symi_f64(N("t", i), 0, 1e6); it->nominalState = IMUMotionState(sv3(N("p", i), -1000, 1000), sv3(N("v", i), -50, 50), sq4(N("q", i))); st.push_back(it->nominalState); tm.push_back(it->timeStamp); b.propagator.items.push_back(it); }
  b.propagator.bias_a = sv3("ba", -1, 1); b.propagator.bias_g = sv3("bg", -1, 1); Vector3 ba = b.propagator.bias_a, bg = b.propagator.bias_g; b.status = symi_choice("status", 2) ? INITIALIZED : NEED_INIT; b.propagator.initState = IMUMotionState(Vector3(7, 7, 7), Vector3(8, 8, 8), qc(3)); b.attitudeEstimator.bias_a = Vector3(9, 9, 9);
  int nf = symi_choice("frames", 3); b.frameManager.maxWindowSize = 1; for (int i = 0; i < nf; i++) { std::shared_ptr<Frame> f(new Frame(50.0 + i)); b.frameManager.AddNewFrame(f); f->p_wb = Vector3(30 + i, 31, 32); f->v_wb = Vector3(33, 34, 35); f->q_wb = qc(1); }
  for (int k = 0; k < 4; k++) {
    IMUFullState s; s.p_wb = Vector3(11, 12, 13); s.v_wb = Vector3(14, 15, 16); s.q_wb = qc(4); s.bias_a = Vector3(17, 18, 19); s.bias_g = Vector3(20, 21, 22); IMUFullState was = s; double t = 77;
    bool upd = k & 1, ok = upd ? b.PublishUpdateState(s, t) : b.PublishPropagateState(s, t);
    symi_check(ok == (n > 0), "publishes-iff-a-sample-exists"); const char *l = upd ? "updated-state-is-the-oldest-sample" : "propagated-state-is-the-newest-sample";
    if (n == 0) { l = "outputs-untouched-without-samples"; eqm(s.p_wb, was.p_wb, 0, l); eqm(s.v_wb, was.v_wb, 0, l); eqq(s.q_wb, was.q_wb, 0, l); eqm(s.bias_a, was.bias_a, 0, l); eqm(s.bias_g, was.bias_g, 0, l); symi_check(t == 77, l); continue; }
    int i = upd ? 0 : n - 1; eqm(s.p_wb, st[i].p_wb, 0, l); eqm(s.v_wb, st[i].v_wb, 0, l); eqq(s.q_wb, st[i].q_wb, 0, l); symi_check_eq64(t, tm[i], 0, l); eqm(s.bias_a, ba, 0, "current-biases"); eqm(s.bias_g, bg, 0, "current-biases");
  }
  const char *l = "publishing-changes-nothing"; symi_check((int)b.propagator.items.size() == n, l); int i = 0; if ((int)b.propagator.items.size() == n) for (auto &it : b.propagator.items) { eqm(it->nominalState.p_wb, st[i].p_wb, 0, l); eqm(it->nominalState.v_wb, st[i].v_wb, 0, l); eqq(it->nominalState.q_wb, st[i].q_wb, 0, l); symi_check_eq64(it->timeStamp, tm[i], 0, l); i++; }
  eqm(b.propagator.bias_a, ba, 0, l); eqm(b.propagator.bias_g, bg, 0, l);
  symi_reach("end");
}

// ---- C01: numbers in files are the tokens 1, 2, 3, ...; reading token k gives the symbolic number k
namespace {
bool gRead; int gInt = -1; bool gWide;
float token(int k) { if (k >= 1000) return k - 1000; return symi_f32(N("value", k), gWide ? -1000.f : 0.0625f, 1000); }
float gRot[9];
float valueOf(int k) { if (k >= 500 && k < 509) return gRot[k - 500]; return token(k); }
float expect(int k) { return gRead ? valueOf(k) : k >= 1000 ? k : (float)k; }
}
extern "C" std::istream &_ZNSirsERf(std::istream *self, float *v) { std::string s; if (*self >> s) { gRead = true; *v = valueOf(atoi(s.c_str())); } return *self; }
extern "C" std::istream &_ZNSirsERd(std::istream *self, double *v) { std::string s; if (*self >> s) { gRead = true; *v = valueOf(atoi(s.c_str())); } return *self; }
namespace {
struct Dir {
  std::string d; std::vector<std::string> made;
  Dir() { char t[] = "/tmp/symi-cfg-XXXXXX"; d = mkdtemp(t); }
  void put(const char *name, int rows, int cols, int first, int surplus) {
    std::string p = d + "/" + name; made.push_back(p); FILE *f = fopen(p.c_str(), "w"); for (int r = 0; r < rows + surplus; r++) { for (int c = 0; c < cols; c++) fprintf(f, "%d%s", r < rows ? first + r * cols + c : 300 + r * cols + c, c + 1 < cols ? "  " : ""); fprintf(f, "\n"); } fclose(f);
  }
  void done() { for (auto &p : made) unlink(p.c_str()); made.clear(); rmdir(d.c_str()); }
};
void camFile(Dir &d, int c, int surplus, bool turned) {
  // rows: R p / 0 0 0 1, entries: 0, 1 as numbers 1000, 1001; -1 as 999 is not used
  char n[64]; snprintf(n, sizeof n, "T_bc%d.txt", c); std::string p = d.d + "/" + n; d.made.push_back(p); FILE *f = fopen(p.c_str(), "w");
  static const int perm[3][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}};
  for (int r = 0; r < 3; r++) { for (int k = 0; k < 3; k++) fprintf(f, "%d ", turned && c == 0 ? 500 + 3 * r + k : perm[c % 3][r] == k ? 1001 : 1000); fprintf(f, "%d\n", 40 + 3 * c + r); }
  fprintf(f, "1000 1000 1000 1001\n"); for (int i = 0; i < surplus; i++) fprintf(f, "301 302 303 304\n"); fclose(f);
}
struct Cfg { Configurator::IMU imu; Configurator::Vision vis; };
}
// each file present or absent, loaded once or over an earlier configuration
extern "C" void c01_files() {
  auto *cf = Configurator::GetInstance(); Cfg def{cf->imu, cf->vision}; Dir d; int surplus = symi_choice("surplus", 2); bool has[7]; gWide = false; static const char *F[7] = {"imu_frequence.txt", "imu_na_ng_nwa_nwg.txt", "imu_bias_a_g_init.txt", "gravity_norm.txt", "window_size.txt", "vision_measure_noise.txt", "keyframe_policy.txt"};
  static const int R[7] = {1, 1, 2, 1, 1, 1, 1}, C[7] = {1, 4, 3, 1, 1, 1, 3}, first[7] = {1, 2, 6, 12, 1008, 14, 0};
  for (int i = 0; i < 7; i++) { has[i] = symi_choice(N("present", i), 2); if (has[i] && i < 6) d.put(F[i], R[i], C[i], first[i], surplus); }
  int keyn = 1000 + 25 + (int)symi_choice("keynum", 2) * 16; if (has[6]) { std::string p = d.d + "/" + F[6]; d.made.push_back(p); FILE *f = fopen(p.c_str(), "w"); fprintf(f, "%d 16 17\n", keyn); if (surplus) fprintf(f, "301 302 303\n"); fclose(f); }
  int nc = 1 + surplus; for (int c = 0; c < nc; c++) camFile(d, c, surplus, false);
  Backend b; bool ok = b.ConfigParams(d.d); d.done(); symi_check(ok, "loading-succeeds");
  float per = has[0] ? 1.0f / expect(1) : def.imu.period; symi_check_eq64(b.dataloader.imuPeriod, per, 1e-6, "period-is-the-reciprocal-frequency");
  PropagateQueue q; q.InitializeProcessNoiseMatrix(has[1] ? expect(2) : def.imu.sigmaBiasAccel, has[1] ? expect(3) : def.imu.sigmaBiasGyro, has[1] ? expect(4) : def.imu.sigmaBiasAccelRandomWalk, has[1] ? expect(5) : def.imu.sigmaBiasGyroRandomWalk); eqm(b.propagator.Q, q.Q, 1e-6f, "noise-parameters-in-their-places");
  for (int i = 0; i < 3; i++) { symi_check_eq(b.propagator.bias_a(i), has[2] ? expect(6 + i) : def.imu.defaultBiasAccel(i), 1e-6f, "initial-biases"); symi_check_eq(b.propagator.bias_g(i), has[2] ? expect(9 + i) : def.imu.defaultBiasGyro(i), 1e-6f, "initial-biases"); }
  symi_check_eq(IMUFullState::gravity_w(2), has[3] ? expect(12) : def.imu.gravityNorm, 1e-6f, "gravity"); symi_check((IMUFullState::gravity_w(0) == 0) & (IMUFullState::gravity_w(1) == 0), "gravity");
  symi_check(b.frameManager.maxWindowSize == (has[4] ? (uint32_t)expect(1008) : def.vis.maxFrameNum), "window-limit");
  symi_check_eq(b.visionUpdator.measureNoise, has[5] ? expect(14) : def.vis.sigmaVision, 1e-6f, "pixel-noise"); symi_check(b.visionUpdator.maxUsedFeatures == def.vis.maxFeatureNumForUpdate, "landmark-limit");
  symi_check(b.frameManager.minKeyframeTrackedFeatureNum == (has[6] ? (uint32_t)expect(keyn) : def.vis.minKeyframeTrackedFeatureNum), "keyframe-thresholds");
  symi_check_eq(b.frameManager.minKeyframeMeanParallax, has[6] ? expect(16) : def.vis.minKeyframeMeanParallax, 1e-6f, "keyframe-thresholds"); symi_check_eq(b.frameManager.maxKeyframeTranslation, has[6] ? expect(17) : def.vis.maxKeyframeTranslation, 1e-6f, "keyframe-thresholds");
  symi_check((int)b.frameManager.extrinsics.size() == nc, "cameras-until-the-first-missing-one");
  symi_check((b.propagator.propagator == &b.frameManager) & (b.visionUpdator.propagator == &b.propagator) & (b.visionUpdator.featureManager == &b.featureManager) & (b.visionUpdator.frameManager == &b.frameManager) & (b.visionUpdator.trianglator == &b.trianglator), "modules-are-connected");
  symi_reach("end");
}
static void cameras(int n) {
  gWide = true; int turned = n > 0 && symi_choice("turned", 2), gap = symi_choice("after-gap", 2), before = symi_choice("earlier", 3); Quaternion q(1, 0, 0, 0);
  if (turned) { q = squat("q"); Matrix33 r = rotOf(q); for (int i = 0; i < 9; i++) gRot[i] = r(i / 3, i % 3); }
  Backend b; if (before) { Dir e; for (int c = 0; c < before + 1; c++) camFile(e, c, 0, false); symi_check(b.ConfigParams(e.d), "loading-succeeds"); e.done(); }
  Dir d; int surplus = symi_choice("surplus", 3); for (int c = 0; c < n; c++) camFile(d, c, surplus, turned); if (gap) camFile(d, n + 1, 0, false);
  symi_check(b.ConfigParams(d.d), "loading-succeeds"); d.done(); auto &ex = b.frameManager.extrinsics; symi_check((int)ex.size() == n, "cameras-until-the-first-missing-one"); if ((int)ex.size() != n) return;
  static const float Q[3][4] = {{1, 0, 0, 0}, {0.5f, -0.5f, -0.5f, -0.5f}, {0.5f, 0.5f, 0.5f, 0.5f}};
  for (int c = 0; c < n; c++) { for (int i = 0; i < 3; i++) symi_check_eq(ex[c].p_bc(i), expect(40 + 3 * c + i), 1e-6f, "mounting-positions-in-order");
    if (turned && c == 0) { if (!gRead) continue; Matrix33 g = rotOf(ex[c].q_bc); for (int i = 0; i < 9; i++) symi_check_eq(g(i / 3, i % 3), gRot[i], 1e-4f, "mounting-orientations-in-order"); }
    else if (gRead) { Matrix33 g = rotOf(ex[c].q_bc), w = rotOf(Quaternion(Q[c % 3][0], Q[c % 3][1], Q[c % 3][2], Q[c % 3][3])); eqm(g, w, 1e-5f, "mounting-orientations-in-order"); } }
  symi_reach("end");
}

extern "C" void c01_cameras() { cameras(symi_choice("cams", 4)); }
extern "C" void c01_many() { cameras(9 + 2 * symi_choice("cams", 2)); }

// ---- B01
extern "C" void b01_whole() {
  quiet(); const double T = 0.125; Backend b; mount(b, T); int sc = symi_choice("scenario", thorough() ? 12 : 10);
  // scenario: which condition is broken, 0-2 none, 3 same time, 4 one frame, 5 too few solved, 6 too few seen again, 7 attitudes far or near
  bool sym = sc < 3, same = sc == 3, one = sc == 4, few = sc == 5, unseen = sc == 6; int nc = 1 + symi_choice("cams", 2); if (nc == 1 && sc != 0) return;
  Quaternion qb[3] = {qc(0), qc(1), unitOf(Quaternion(0.75f, 0.25f, -0.5f, 0.25f))}; for (int c = 0; c < nc; c++) b.frameManager.extrinsics.emplace_back(Extrinsic(qb[sc % 3], sym ? sv3(N("pbc", c), -0.125f, 0.125f) : Vector3(0.0625f, -0.125f * c, 0.03125f)));
  double ti = LATE, dt = same ? 0 : sc == 8 ? 0.0625 : symi_f64("dt", 0.015625, 1); gSpread = true; gPt = Vector3(0.25f, -0.25f, 8);
  int total = few || unseen ? 10 + symi_choice("spare", 2) : sc == 8 ? 270 : 11; std::vector<uint32_t> ids, m1, m2; for (int i = 0; i < total; i++) { ids.push_back(5 + 3 * i); m1.push_back((1 << nc) - 1); m2.push_back(unseen && i < 1 + (int)symi_choice("lost", 2) ? 2 : (1 << nc) - 1); }
  if (few) gFail = symi_choice("fails", 3); if (nc == 1) gFail = 0; if (gFail == 2) gFail = 3; b.pnpSolver.maxIterateTimes = 1;
  symi_check(b.UpdateFeatureFrameManager(image(ti, ids, m1, nc, 0.125f)), "image-enters-the-window"); if (!one) symi_check(b.UpdateFeatureFrameManager(image(ti + dt, ids, m2, nc, 0.25f)), "image-enters-the-window");
  if (sc == 1 || sc == 3 || sc == 7) for (int k = 1; k < 3; k++) symi_check(b.UpdateFeatureFrameManager(image(ti + 1 + 0.5 * k, ids, m1, nc, 0.25f + 0.5f * k)), "image-enters-the-window");      // frames from before a reset
  AttitudeEstimate &est = b.attitudeEstimator; int ni = sym ? 1 : 2 + symi_choice("samples", 2); double first = sc >= 7 ? symi_f64("first", LATE - 0.5, LATE + 0.5) : ti - 2 * T; std::vector<Vector3> acc, gyr; std::vector<double> ts;
  for (int i = 0; i < (sc == 9 ? 0 : ni + 2); i++) { auto it = std::make_shared<AttitudeEstimateItem>(); it->timeStamp = first + i * T; it->q_wb = sc % 3 == 0 ? qb[0] : unitOf(qmul(Quaternion(1, 0.0625f * i, 0, 0), Quaternion(0.5f, 0.5f, -0.25f, 0.25f))); it->accel = sym ? sv3(N("acc", i), -20, 20) : Vector3(0.5f * i, 1, 8); it->gyro = sym ? sv3(N("gyr", i), -4, 4) : Vector3(0.125f, 0.25f * i, 0); acc.push_back(it->accel); gyr.push_back(it->gyro); ts.push_back(it->timeStamp); est.items.push_back(it); }
  b.propagator.bias_a = Vector3(0.125f, -0.25f, 0.5f); b.propagator.bias_g = Vector3(0.0625f, 0.125f, -0.25f); est.bias_a = Vector3(0.25f, 0, 0); est.bias_g = Vector3(0, 0.25f, 0);
  bool stale = symi_choice("stale", 2); if (stale) { b.propagator.initState = IMUMotionState(Vector3(9, 9, 9), Vector3(1, 1, 1), qc(2)); b.propagator.Propagate(Vector3(1, 1, 1), Vector3(1, 1, 1), 3); b.propagator.Propagate(Vector3(1, 1, 1), Vector3(1, 1, 1), 3.125); }
  gDx = Matrix::Zero(6, 1); for (int i = 0; i < 3; i++) gDx(i, 0) = sym ? symi_f32(N("dx", i), -1, 1) : 0.25f * i + 0.125f; gDx(3, 0) = 0.125f; gDx(5, 0) = -0.0625f;
  AttitudeEstimate e2 = est; Quaternion qa(1, 0, 0, 0); bool near = e2.GetAttitude(ti, T * 0.55, qa); gFrame = qmul(qa, qb[sc % 3]);
  auto fi = b.frameManager.frames.empty() ? nullptr : b.frameManager.frames.front(), fj = one ? nullptr : *std::next(b.frameManager.frames.begin()); bool ok = b.Initialize();
  int usable = 0; std::vector<Vector3> p3; std::vector<Vector2> p2; if (!one) for (int i = 0; i < total; i++) { auto f = b.featureManager.features.at(ids[i]); Vector2 z; if (f->status == Feature::SOLVED && (m2[i] & 1)) { f->GetNorm(fj->id, 0, z); usable++; p3.push_back(f->p_w); p2.push_back(z); } }
  if (nc == 1 || one || same || !near) symi_check(!ok, one ? "one-frame-is-not-enough" : same ? "times-must-differ" : !near ? "needs-a-near-attitude" : "one-camera-triangulates-nothing");
  else symi_check(ok == (usable >= 10), "needs-ten-landmarks"), symi_check(few || usable == total - (unseen ? (int)std::count(m2.begin(), m2.end(), 2u) : 0), "all-solved-landmarks-count");
  if (ok && !one) {
    eqm(fi->p_wb, Vector3(0, 0, 0), 0, "first-frame-at-the-origin"); eqq(fi->q_wb, qa, 1e-5f, "first-frame-takes-the-attitude");
    auto &e = b.frameManager.extrinsics[0]; Quaternion q = qmul(qa, e.q_bc); Vector3 p = rot(qa, e.p_bc); gSolve = 0; symi_check(b.pnpSolver.EstimatePoseKernel(p3, p2, q, p), "pose-oracle");
    Quaternion qj = qmul(q, Quaternion(e.q_bc.w(), -e.q_bc.x(), -e.q_bc.y(), -e.q_bc.z())); eqq(fj->q_wb, qj, 1e-4f, "second-frame-orientation-is-camera-times-inverse-mounting"); Vector3 pj = p - rot(qj, e.p_bc); eqm(fj->p_wb, pj, 1e-4f, "second-frame-position-is-camera-times-inverse-mounting");
    for (int i = 0; i < 3; i++) { symi_check_eq(fj->v_wb(i) * dt, pj(i), 1e-3f, "velocity-is-displacement-over-time"); symi_check_eq(fi->v_wb(i) * dt, pj(i), 1e-3f, "velocity-is-displacement-over-time"); }
    e2.CleanOldItems(ti, T); size_t drop = ts.size() - e2.items.size(); PropagateQueue o; o.propagator = &b.frameManager; o.InitializeProcessNoiseMatrix(0.25f, 0.125f, 0.0625f, 0.0625f); o.bias_a = b.propagator.bias_a; o.bias_g = b.propagator.bias_g; o.initState = IMUMotionState(fi->p_wb, fi->v_wb, fi->q_wb);
    for (size_t i = drop; i < ts.size(); i++) o.Propagate(acc[i], gyr[i], ts[i]);
    const char *l = "propagation-starts-afresh-through-the-raw-samples"; symi_check(b.propagator.items.size() == o.items.size(), l); if (b.propagator.items.size() == o.items.size()) { auto x = b.propagator.items.begin(); for (auto &y : o.items) { eqm((*x)->accel, y->accel, 0, l); eqm((*x)->gyro, y->gyro, 0, l); symi_check_eq64((*x)->timeStamp, y->timeStamp, 0, l); eqm((*x)->nominalState.p_wb, y->nominalState.p_wb, 1e-4f, l); eqm((*x)->nominalState.v_wb, y->nominalState.v_wb, 1e-4f, l); eqq((*x)->nominalState.q_wb, y->nominalState.q_wb, 1e-4f, l); eqm((*x)->imuCov, y->imuCov, 1e-4f, l); ++x; } }
    eqm(b.propagator.bias_a, Vector3(0.125f, -0.25f, 0.5f), 0, "biases-are-kept"); eqm(b.propagator.bias_g, Vector3(0.0625f, 0.125f, -0.25f), 0, "biases-are-kept"); symi_reach("initialised");
  }
  symi_reach("end");
}
// the first frame's landmarks are triangulated from all its cameras
extern "C" void b01_views() {
  quiet(); Backend b; mount(b, 0.125); int nc = 1 + symi_choice("cams", 3), mode = symi_choice("mode", 3), back = symi_choice("before", 2); std::vector<uint32_t> ids{7, 12}, m{1 + symi_choice("mask", (1 << nc) - 1), (1u << nc) - 1};
  for (int c = 0; c < nc; c++) b.frameManager.extrinsics.emplace_back(Extrinsic(mode == 2 && c == 0 ? squat("qbc") : qc(1 + c), mode == 0 ? sv3(N("pbc", c), -2, 2) : Vector3(0.25f, -0.5f * c, 0.125f)));
  gFail = symi_choice("fails", 3); gSpread = true; if (back) b.UpdateFeatureFrameManager(image(9, ids, m, nc, 0.5f)); auto msg = image(10, ids, m, nc, 0); for (int c = 0; c < nc; c++) if (m[0] >> c & 1) msg->observes[0]->norms[c] = sv2(N("z", c), -4, 4);
  b.UpdateFeatureFrameManager(msg); auto fr = b.frameManager.frames.back(); fr->q_wb = mode == 1 ? squat("qwb") : qc(2); fr->p_wb = mode == 0 ? sv3("pwb", -20, 20) : Vector3(0.5f, 0.25f, -0.125f); gPt = Vector3(symi_f32("x", -4, 4), 1, 8);
  if (back) for (auto &x : b.featureManager.features) { x.second->status = Feature::SOLVED; x.second->p_w = Vector3(77, 78, 79); }      // triangulated before
  symi_check(b.TrianglizeMultiView(fr), "triangulating-succeeds"); int want = 0; for (auto x : m) want += __builtin_popcount(x) > 1; auto &log = symistub::log(); auto f = b.featureManager.features.at(7), f2 = b.featureManager.features.at(12);
  bool two = __builtin_popcount(m[0]) > 1; if (!two) symi_check(f->status != Feature::SOLVED, "one-view-is-not-triangulated"); if (nc < 2) symi_check(f2->status != Feature::SOLVED, "one-view-is-not-triangulated");
  if ((int)log.size() != want) { symi_reach("other"); symi_reach("end"); return; }
  if (two && log.size() == 2) {
    // the two systems, in either order
    Matrix O[2]; for (int w = 0; w < 2; w++) { O[w] = Matrix::Zero(4, 4); for (int c = 0; c < nc; c++) if (m[w] >> c & 1) { auto &e = b.frameManager.extrinsics[c]; Matrix R = mul(rotOf(fr->q_wb), rotOf(e.q_bc)); Vector3 p = rot(fr->q_wb, e.p_bc) + fr->p_wb; Vector2 z = msg->observes[w]->norms[c]; float P[3][4]; for (int r = 0; r < 3; r++) { float s = 0; for (int k = 0; k < 3; k++) { P[r][k] = R(k, r); s -= R(k, r) * p(k); } P[r][3] = s; }
      float u[4], v[4]; for (int k = 0; k < 4; k++) { u[k] = z(0) * P[2][k] - P[0][k]; v[k] = z(1) * P[2][k] - P[1][k]; } for (int a = 0; a < 4; a++) for (int bb = 0; bb < 4; bb++) O[w](a, bb) += u[a] * u[bb] + v[a] * v[bb]; } }
    Matrix G[2]; for (int k = 0; k < 2; k++) G[k] = mul(Matrix(log[k].A.transpose()), log[k].A);
    // told apart by the values of this run
    auto dist = [&](const Matrix &x, const Matrix &y) { float s = 0; for (int i = 0; i < 16; i++) s += std::fabs(symi_peek(x(i / 4, i % 4)) - symi_peek(y(i / 4, i % 4))); return s; };
    bool swap = dist(G[0], O[1]) + dist(G[1], O[0]) < dist(G[0], O[0]) + dist(G[1], O[1]);
    for (int w = 0; w < 2; w++) { int k = swap ? 1 - w : w; eqm(G[k], O[w], 2e-3f, "every-view-posed-by-frame-and-mounting"); auto g = w ? f2 : f; bool ok = !(gFail >> k & 1); Vector3 x(log[k].V(0, 3), log[k].V(1, 3), log[k].V(2, 3)); if (ok) for (int c = 0; c < nc; c++) if (m[w] >> c & 1) { auto &e = b.frameManager.extrinsics[c]; float d = into(e.q_bc, e.p_bc, into(fr->q_wb, fr->p_wb, x))(2); ok = ok & (d >= 0); }
      symi_check((g->status == Feature::SOLVED) == ok, "solved-iff-triangulation-succeeded"); if (g->status == Feature::SOLVED) for (int i = 0; i < 3; i++) symi_check_eq(g->p_w(i), log[k].V(i, 3), 1e-4f, "landmark-takes-the-triangulated-point"); }
    symi_reach("both");
  }
  symi_reach("end");
}

// ---- B02
struct Course { int limit, key, gap, bad, blank, reset, images, samples, marks, symbolic; };
static void course(const Course &c) {
  quiet(); const double T = 0.125; Backend b; mount(b, T); b.pnpSolver.maxIterateTimes = 1; b.visionUpdator.maxUsedFeatures = 1; b.frameManager.maxWindowSize = c.limit; b.frameManager.minKeyframeTrackedFeatureNum = c.key * 20; const int nc = 2; for (int k = 0; k < nc; k++) b.frameManager.extrinsics.emplace_back(Extrinsic(qc(0), Vector3(0.5f * k, 0, 0)));
  b.propagator.bias_g = Vector3(0.03125f, 0, 0.0625f); int gapAt = c.gap, bad = c.bad, blank = c.blank, reset = c.reset, images = c.images; double t = 64;
  std::vector<uint32_t> ids, all; for (int i = 0; i < c.marks; i++) { ids.push_back(3 + 2 * i); all.push_back(3); }
  if (c.samples > 16) { symi_check(b.GetIMUMessage(std::make_shared<IMUMessage>(Vector3(0, 0, 0), Vector3(0, 0, 8), t - LATE)), "message-accepted"); }      // so that the stamps the loader hands out are large
  for (int i = 0, k = 0; i < c.samples; i++, k++) { if (gapAt && i == 1 + 2 * gapAt) k += 5; auto m = std::make_shared<IMUMessage>(Vector3(0, 0, 0), Vector3(0, 0, i < bad ? 6 : 8), t + k * T); symi_check(b.GetIMUMessage(m), "message-accepted"); }
  double ti = t; for (int k = 0; k < images; k++) { double off = c.symbolic >> k & 1 ? symi_f64(N("off", k), 0.03125, 0.375) : 0.1875; ti += off; symi_check(b.GetFeaturesMessage(image(ti, blank == k + 1 ? std::vector<uint32_t>{2, 4} : ids, blank == k + 1 ? std::vector<uint32_t>{3, 3} : all, nc, 0.03125f * k)), "message-accepted"); }
  const int most = c.samples + c.images + 11; int step = 0, imgs = 0; std::vector<std::shared_ptr<Frame>> kept;
  for (; step < most; step++) {
    DataLoader dl = b.dataloader; std::shared_ptr<CombinedMessage> msg; bool has = dl.PopOneMessage(msg); AttitudeEstimate est = b.attitudeEstimator; std::vector<std::pair<void *, double>> pl; for (auto &x : b.propagator.items) pl.push_back({x.get(), x->timeStamp}); size_t nf = b.frameManager.frames.size(); Status was = b.status;
    symistub::log().clear(); gSvd = gSolve = 0; bool ok = b.RunOnce();
    if (!has) { symi_check(!ok, "no-message-no-step"); symi_check(b.status == was && b.frameManager.frames.size() == nf && b.propagator.items.size() == pl.size() && b.attitudeEstimator.items.size() == est.items.size(), "no-message-no-step"); break; }
    symi_check(b.dataloader.imuMeas.size() == dl.imuMeas.size() && b.dataloader.featMeas.size() == dl.featMeas.size(), "one-message-is-consumed");
    Status now = was; bool imu = !msg->imuMeas.empty(); std::vector<double> times; for (auto &x : pl) times.push_back(x.second);
    if (imu) { est.Propagate(msg->imuMeas[0]->accel, msg->imuMeas[0]->gyro, msg->imuMeas[0]->timeStamp); if (was == INITIALIZED) times.push_back(msg->imuMeas[0]->timeStamp); }
    size_t frames = nf; bool failed = false, updated = false, started = false;
    if (msg->featMeas) {
      imgs++; frames++; double at = msg->featMeas->timeStamp; symi_check(!b.frameManager.frames.empty(), "image-enters-the-window"); if (b.frameManager.frames.empty()) return;
      symi_check(b.frameManager.frames.back()->timeStamp == at, "image-enters-the-window");
      if (now == NEED_INIT) {
        bool can = nf >= 1; Quaternion q; auto i0 = kept.empty() ? nullptr : kept[0]; can = can && i0 && est.GetAttitude(i0->timeStamp, T * 0.55, q) && (int)i0->features.size() == c.marks && (int)(kept.size() > 1 ? kept[1]->features.size() : msg->featMeas->ids.size()) == c.marks;
        if (can) { now = INITIALIZED; started = true; est.CleanOldItems(i0->timeStamp, T); times.clear(); for (auto &x : est.items) times.push_back(x->timeStamp); } else { failed = true; frames = 1; }
      }
      if (now == INITIALIZED) { while (!times.empty() && at - times.front() > T) times.erase(times.begin()); bool fits = frames == 2 || was == INITIALIZED; if (times.empty() || !fits) { now = NEED_INIT; failed = true; } else updated = true; }
      symi_check(b.status == now, failed ? "a-failed-step-leaves-it-uninitialised" : "a-possible-step-succeeds");
      if (failed) {
        symi_check(b.frameManager.frames.size() == 1, "a-failure-keeps-one-frame"); if (b.frameManager.frames.size() == 1) { auto id = b.frameManager.frames.front()->id; for (auto &f : b.featureManager.features) symi_check(f.second->firstFrameID == id && f.second->observes.size() == 1, "a-failure-forgets-older-observations"); }
        symi_reach(started || was == INITIALIZED ? "update-failed" : "init-failed");
      } else {
        symi_check(b.frameManager.frames.size() <= b.frameManager.maxWindowSize, "window-within-its-limit"); symi_check(b.frameManager.frames.size() >= 2 || b.frameManager.frames.size() >= frames - 1, "window-within-its-limit");
        eqm(b.attitudeEstimator.bias_a, b.propagator.bias_a, 0, "attitude-takes-the-estimated-biases"); eqm(b.attitudeEstimator.bias_g, b.propagator.bias_g, 0, "attitude-takes-the-estimated-biases"); symi_reach(started ? "initialised" : "updated");
      }
      kept.assign(b.frameManager.frames.begin(), b.frameManager.frames.end()); if (b.frameManager.frames.size() > 1) est.CleanOldItems(at, T);
    } else { symi_check(b.status == was && b.frameManager.frames.size() == nf, "inertial-samples-change-no-frame"); }
    // inertial data reached the attitude always and the propagation once initialised
    symi_check(b.attitudeEstimator.items.size() == est.items.size(), "sample-feeds-the-attitude"); if (imu && b.attitudeEstimator.items.size() == est.items.size() && !est.items.empty()) { auto &x = *b.attitudeEstimator.items.back(); symi_check(x.timeStamp == est.items.back()->timeStamp, "sample-feeds-the-attitude"); eqm(x.accel, est.items.back()->accel, 0, "sample-feeds-the-attitude"); eqm(x.gyro, est.items.back()->gyro, 0, "sample-feeds-the-attitude"); eqq(x.q_wb, est.items.back()->q_wb, 1e-5f, "sample-feeds-the-attitude"); }
    if (!failed) { const char *l = updated ? "update-happens-at-the-image-time" : was == INITIALIZED ? "sample-feeds-the-propagation" : "no-propagation-before-initialisation"; symi_check(b.propagator.items.size() == times.size(), l); if (b.propagator.items.size() == times.size()) { size_t i = 0; for (auto &x : b.propagator.items) symi_check(x->timeStamp == times[i++], l); } }
    if (updated && !b.propagator.items.empty()) eqm(b.frameManager.frames.back()->p_wb, b.propagator.items.front()->nominalState.p_wb, 0, "update-happens-at-the-image-time");
    if (reset && imgs == reset && msg->featMeas) { b.Reset(); symi_check(b.status == NEED_INIT, "reset-asks-for-initialisation"); symi_check(b.frameManager.frames.size() == kept.size(), "reset-asks-for-initialisation"); symi_reach("reset"); }
  }
  symi_check(step == most || imgs == images, "every-image-is-processed"); symi_reach("end");
}
extern "C" void b02_history() { int limit = 2 + symi_choice("limit", 2), key = symi_choice("key", 2), gap = symi_choice("gap", 4), bad = symi_choice("bad", 2), blank = symi_choice("blank", thorough() ? 5 : 4); course({limit, key, gap, bad, blank, thorough() ? (int)symi_choice("reset", 4) : 0, 4 + (thorough() ? 1 : 0), 9, 10, 10}); }
// a reset after any image
extern "C" void b02_reset() { int limit = 2 + symi_choice("limit", 2); int at = 1 + symi_choice("reset", 4), gap = symi_choice("gap", 2) * 3; course({limit, limit & 1, gap, 0, 0, at, 6, 14, 10, (thorough() ? 2 : 0) + (1 << at)}); }
// a long course: many images through a larger window, one of them at any time
extern "C" void b02_long() { int key = symi_choice("key", 2), gap = 5 * symi_choice("gap", 2), blank = 6 * symi_choice("blank", 2); course({5, key, gap, 0, blank, 0, 9, 18, 14, 1 << (5 + 2 * key)}); }

// ---- E02: two estimators in one process
namespace {
int gRand2;
using Snap = std::vector<float>;
void put3(Snap &s, const Vector3 &v) { for (int i = 0; i < 3; i++) s.push_back(v(i)); }
void putq(Snap &s, const Quaternion &q) { s.push_back(q.w()); s.push_back(q.x()); s.push_back(q.y()); s.push_back(q.z()); }
template <class M> void putm(Snap &s, const M &m) { s.push_back(m.rows()); s.push_back(m.cols()); for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) s.push_back(m(i, j)); }
struct Shot { Snap v; std::vector<double> t; std::vector<uint32_t> n; };
Shot shot(Backend &b, bool ok, bool all = true) {
  Shot s; s.n = {(uint32_t)ok, (uint32_t)b.status, (uint32_t)b.frameManager.frames.size(), (uint32_t)b.featureManager.features.size(), (uint32_t)b.propagator.items.size(), (uint32_t)b.attitudeEstimator.items.size(), (uint32_t)b.dataloader.imuMeas.size(), (uint32_t)b.dataloader.featMeas.size()};
  for (auto &f : b.frameManager.frames) { s.n.push_back(f->id); s.n.push_back(f->features.size()); s.t.push_back(f->timeStamp); put3(s.v, f->p_wb); put3(s.v, f->v_wb); putq(s.v, f->q_wb); }
  std::map<uint32_t, std::shared_ptr<Feature>> fs(b.featureManager.features.begin(), b.featureManager.features.end()); for (auto &f : fs) { s.n.insert(s.n.end(), {f.first, f.second->firstFrameID, (uint32_t)f.second->observes.size(), f.second->observeNum, (uint32_t)f.second->status}); if (f.second->status == Feature::SOLVED) put3(s.v, f.second->p_w); }
  for (auto &x : b.propagator.items) { s.t.push_back(x->timeStamp); put3(s.v, x->nominalState.p_wb); put3(s.v, x->nominalState.v_wb); putq(s.v, x->nominalState.q_wb); put3(s.v, x->accel); put3(s.v, x->gyro); if (all) { putm(s.v, x->imuCov); putm(s.v, x->imuExCamCov); } }
  for (auto &x : b.attitudeEstimator.items) { s.t.push_back(x->timeStamp); putq(s.v, x->q_wb); put3(s.v, x->accel); put3(s.v, x->gyro); }
  putm(s.v, b.propagator.exCamCov); put3(s.v, b.propagator.bias_a); put3(s.v, b.propagator.bias_g); put3(s.v, b.attitudeEstimator.bias_a); put3(s.v, b.attitudeEstimator.bias_g);
  for (auto &e : b.frameManager.extrinsics) { put3(s.v, e.p_bc); putq(s.v, e.q_bc); }
  return s;
}
void sameShot(const Shot &a, const Shot &b, const char *l) {
  symi_check(a.n == b.n && a.v.size() == b.v.size() && a.t.size() == b.t.size(), l); if (a.v.size() != b.v.size() || a.t.size() != b.t.size()) return;
  for (size_t i = 0; i < a.t.size(); i++) symi_check_eq64(a.t[i], b.t[i], 0, l);
  for (size_t i = 0; i < a.v.size(); i++) if (!(symi_peek(a.v[i]) != symi_peek(a.v[i]) && symi_peek(b.v[i]) != symi_peek(b.v[i]))) symi_check_eq(a.v[i], b.v[i], 1e-5f, l);
}
// the estimator under comparison and its inputs
void feed(Backend &b, const double *off, int blank, int limit) {
  mount(b, 0.125); b.pnpSolver.maxIterateTimes = 1; b.visionUpdator.maxUsedFeatures = 20; b.frameManager.maxWindowSize = limit; b.frameManager.minKeyframeTrackedFeatureNum = 20 * (limit & 1); for (int c = 0; c < 2; c++) b.frameManager.extrinsics.emplace_back(Extrinsic(qc(0), Vector3(0.5f * c, 0, 0))); b.propagator.bias_g = Vector3(0.03125f, 0, 0.0625f);
  std::vector<uint32_t> ids, all; for (int i = 0; i < 10; i++) { ids.push_back(3 + 2 * i); all.push_back(3); }
  for (int i = 0; i < 9; i++) b.GetIMUMessage(std::make_shared<IMUMessage>(Vector3(0, 0, 0), Vector3(0, 0, 8), 64 + i * 0.125));
  double ti = 64; for (int k = 0; k < 4; k++) { ti += off[k]; b.GetFeaturesMessage(image(ti, blank == k + 1 ? std::vector<uint32_t>{2, 4} : ids, blank == k + 1 ? std::vector<uint32_t>{3, 3} : all, 2, 0.03125f * k)); }
}
void feedOther(Backend &b, int kind) {      // other cameras, times, landmarks and losses
  mount(b, 0.0625); b.pnpSolver.maxIterateTimes = 2; b.visionUpdator.maxUsedFeatures = 3; b.frameManager.maxWindowSize = kind ? 4 : 40; b.frameManager.minKeyframeTrackedFeatureNum = 50; int nc = 3 - kind; for (int c = 0; c < nc; c++) b.frameManager.extrinsics.emplace_back(Extrinsic(qc(0), Vector3(0.25f * c, 0.125f, 0))); b.propagator.bias_a = Vector3(0.25f, 0.125f, 0);
  std::vector<uint32_t> ids, all; for (int i = 0; i < 12; i++) { ids.push_back(3 + i); all.push_back((1u << nc) - 1); }
  for (int i = 0; i < 12; i++) b.GetIMUMessage(std::make_shared<IMUMessage>(Vector3(0.0625f, 0, 0.125f), Vector3(0, 0, 8), 10 + i * 0.0625)); for (int k = 0; k < 4; k++) b.GetFeaturesMessage(image(10.03125 + k * 0.125, kind && k == 2 ? std::vector<uint32_t>{99} : ids, all, nc, 0.0625f * k));
}
bool once(Backend &b) { symistub::log().clear(); gSvd = gSolve = gRand2 = 0; return b.RunOnce(); }
}
extern "C" int rand() { return gRand2++ * 7919 % 101; }
extern "C" void e02_stepping() {
  quiet(); double off[4] = {0.1875, 0.1875, 0.1875, 0.1875}; off[1] = symi_f64("off.1", 0.03125, 0.375); off[3] = symi_f64("off.3", 0.03125, 0.375); int blank = symi_choice("blank", thorough() ? 4 : 3), limit = 2 + symi_choice("limit", 2), kind = limit & 1, how = symi_choice("order", 3); const char *l = "another-estimator-does-not-influence-this-one";
  std::vector<Shot> seen, fresh; auto alone = [&] { Backend c; feed(c, off, blank, limit); for (int i = 0; i < 11; i++) fresh.push_back(shot(c, once(c), i == 10)); };
  if (how < 2) alone();      // the undisturbed run comes first or last
  Backend a, o; feedOther(o, kind); if (how == 0) for (int i = 0; i < 16; i++) once(o); feed(a, off, blank, limit);
  for (int i = 0; i < 11; i++) { seen.push_back(shot(a, once(a), i == 10)); if (how == 1) once(o); if (how == 2 && i == 6) for (int j = 0; j < 16; j++) once(o); }
  sameShot(shot(a, 0), [&] { Shot s = seen.back(); s.n[0] = 0; return s; }(), l);
  if (how == 2) alone(); for (int i = 0; i < 11; i++) sameShot(seen[i], fresh[i], l);
  symi_reach("end");
}
