// Messages, observations, landmarks, frames and states: what they are built from is what they hold.
#include "common.hpp"
#include <map>
#include <data_typedef.hpp>
#include <feature_manager.hpp>
#include <frame_manager.hpp>
#include <imu_state.hpp>
#include "pollute.hpp"
#ifndef SYMI_ASAN
extern "C" void symi_prelude() {
  std::unordered_map<uint32_t, Vector2> m{{0, Vector2(9, 8)}, {2, Vector2(7, 6)}}; FeatureObserve o(m); Vector2 v; o.GetNorm(0, v); o.GetNorm(1, v); o.Clear();
  auto p = std::make_shared<FeatureObserve>(m); FeaturesMessage a({4, 5}, {p, p}, {1}, 77), b({4, 5}, {p}, {1}, 77); b.Clear(); IMUMessage i(Vector3(9, 8, 7), Vector3(6, 5, 4), 33);
  Frame f(9, 44); f.AddFeatures({std::make_shared<Feature>(0, 3, std::vector<std::shared_ptr<FeatureObserve>>{p})}); f.Initialize(2, 3); IMUFullState s; s.p_wb = Vector3(1, 2, 3); s.Reset();
  FeatureManager fm; std::vector<std::shared_ptr<Feature>> ch; fm.AddNewFeatures({0, 1, 9}, {p, p, p}, 5, ch); fm.RemoveByID(1);
}
#endif
using ObsP = std::shared_ptr<FeatureObserve>; using ObsL = std::vector<ObsP>;
static bool same(const Vector3 &a, const Vector3 &b) { return (a(0) == b(0)) & (a(1) == b(1)) & (a(2) == b(2)); }
static bool sameq(const Quaternion &a, const Quaternion &b) { return (a.w() == b.w()) & (a.x() == b.x()) & (a.y() == b.y()) & (a.z() == b.z()); }
static Quaternion anyq(const char *n) { float v[4]; for (int i = 0; i < 4; i++) v[i] = symi_f32(N(n, i), -8, 8); return Quaternion(v[0], v[1], v[2], v[3]); }
static bool zero(const Vector3 &a) { return same(a, Vector3(0, 0, 0)); }
extern "C" void m02_observation() {
  static const uint32_t IDS[4] = {0, 1, 7, 0xffffffffu};
  int mask = symi_choice("held", 16); std::unordered_map<uint32_t, Vector2> m; std::map<uint32_t, Vector2> w;
  for (int i = 0; i < 4; i++) if (mask >> i & 1) { Vector2 v = sv2(N("z", i), -8, 8); m[IDS[i]] = v; w[IDS[i]] = v; }
  FeatureObserve o(m); int clears = symi_choice("cleared", 2); if (clears) { o.Clear(); w.clear(); }
  for (int round = 0; round < 2; round++) for (uint32_t id : {0u, 1u, 2u, 7u, 0xffffffffu}) {
    Vector2 v = sv2("before", -8, 8), b = v; bool got = o.GetNorm(id, v); auto it = w.find(id);
    symi_check(got == (it != w.end()), "observation-found-iff-held");
    Vector2 e = it != w.end() ? it->second : b; symi_check((v(0) == e(0)) & (v(1) == e(1)), "observation-of-that-camera-or-untouched");
  }
  symi_check(o.norms.size() == w.size(), "lookups-add-nothing"); symi_check(m.size() == (size_t)__builtin_popcount(mask), "source-untouched");
  if (clears) { m.clear(); Vector2 v = sv2("later", -8, 8), r(0, 0); o.norms[3] = v; symi_check(o.GetNorm(3, r) && (bool)((r(0) == v(0)) & (r(1) == v(1))), "usable-after-clearing"); }
  symi_reach("end");
}
extern "C" void m02_messages() {
  int n = symi_choice("ids", 4), k = symi_choice("observations", 4), fl = symi_choice("flags", 5); double t = stampOf("t", -1000, 1048576);
  std::vector<uint32_t> ids; ObsL obs; std::vector<uint8_t> flag; for (int i = 0; i < n; i++) ids.push_back(66000 - 7 * i); for (int i = 0; i < k; i++) obs.push_back(std::make_shared<FeatureObserve>()); for (int i = 0; i < fl; i++) flag.push_back(i % 2 + 1);
  auto f = std::make_shared<FeaturesMessage>(ids, obs, flag, t);
  if (n == k) { symi_check(f->ids == ids, "camera-message-ids"); symi_check(f->observes == obs, "camera-message-observations"); symi_check(f->flag == flag, "camera-message-flags"); symi_check(f->timeStamp == t, "camera-message-time"); }
  else { symi_check(f->ids.empty() && f->observes.empty(), "unequal-lists-hold-nothing"); }
  FeaturesMessage z; symi_check(z.ids.empty() && z.observes.empty() && z.flag.empty() && z.timeStamp == 0, "fresh-camera-message-is-empty");
  Vector3 g = sv3("g", -20, 20), a = sv3("a", -40, 40); auto u = std::make_shared<IMUMessage>(g, a, t); symi_check(same(u->gyro, g), "inertial-message-rate"); symi_check(same(u->accel, a), "inertial-message-acceleration"); symi_check(u->timeStamp == t, "inertial-message-time");
  IMUMessage y; symi_check(zero(y.gyro) & zero(y.accel) & (y.timeStamp == 0), "fresh-inertial-message-is-zero");
  std::vector<std::shared_ptr<IMUMessage>> us; for (int i = 0; i < k; i++) us.push_back(std::make_shared<IMUMessage>(a, g, t)); us.push_back(u);
  CombinedMessage one(f, u), many(f, us), fresh; symi_check(one.featMeas == f && one.imuMeas.size() == 1 && one.imuMeas[0] == u, "bundle-of-one-sample"); symi_check(many.featMeas == f && many.imuMeas == us, "bundle-of-several-samples"); symi_check(fresh.featMeas == nullptr && fresh.imuMeas.empty(), "fresh-bundle-is-empty");
  if (symi_choice("clear", 2)) { one.Clear(); many.Clear(); symi_check(one.featMeas == nullptr && one.imuMeas.empty() && many.featMeas == nullptr && many.imuMeas.empty(), "cleared-bundle-is-empty"); symi_check(same(u->gyro, g) & (u->timeStamp == t) & (f->ids.size() == (n == k ? n : 0)), "clearing-a-bundle-keeps-the-messages"); }
  f->Clear(); symi_check(f->ids.empty() && f->observes.empty() && f->flag.empty(), "cleared-camera-message-is-empty"); symi_check(f->timeStamp == 0, "cleared-camera-message-is-empty"); symi_check((int)ids.size() == n && (int)obs.size() == k, "source-untouched");
  symi_reach("end");
}
extern "C" void m02_states() {
  Vector3 p = sv3("p", -1000, 1000), v = sv3("v", -100, 100), ba = sv3("ba", -1, 1), bg = sv3("bg", -1, 1), th = sv3("th", -4, 4); Quaternion q = anyq("q");
  IMUFullState s(p, q, v, ba, bg), e(p, th, v, ba, bg), z; IMUMotionState m(p, v, q); Extrinsic x(q, p);
  symi_check(same(s.p_wb, p) & same(s.v_wb, v) & same(s.bias_a, ba) & same(s.bias_g, bg) & sameq(s.q_wb, q), "full-state-holds-each-part"); symi_check(zero(s.theta_wb), "full-state-holds-each-part");
  symi_check(same(e.p_wb, p) & same(e.v_wb, v) & same(e.bias_a, ba) & same(e.bias_g, bg) & same(e.theta_wb, th), "error-state-holds-each-part");
  symi_check(same(m.p_wb, p) & same(m.v_wb, v) & sameq(m.q_wb, q), "motion-state-holds-each-part"); symi_check(same(x.p_bc, p) & sameq(x.q_bc, q), "mounting-holds-each-part");
  Quaternion one(1, 0, 0, 0); s.theta_wb = th; IMUFullState *st[3] = {&z, &s, &e}; int k = symi_choice("which", 3); if (k) st[k]->Reset();
  symi_check(zero(st[k]->p_wb) & zero(st[k]->v_wb) & zero(st[k]->bias_a) & zero(st[k]->bias_g) & zero(st[k]->theta_wb) & sameq(st[k]->q_wb, one), "reset-state-is-the-fresh-one");
  float g = symi_f32("gravity", -30, 30); IMUFullState::SetGravityNorm(g); symi_check(same(IMUFullState::gravity_w, Vector3(0, 0, g)), "gravity-points-along-z"); s.Reset(); symi_check(same(IMUFullState::gravity_w, Vector3(0, 0, g)), "reset-keeps-gravity");
  symi_reach("end");
}
static std::shared_ptr<Feature> landmark(uint32_t id, int cams) { auto o = std::make_shared<FeatureObserve>(); for (int c = 0; c < cams; c++) o->norms[c] = sv2(N("o", id, c), -4, 4); return std::make_shared<Feature>(id, 3, ObsL{o}); }
extern "C" void m02_frame() {
  double t = stampOf("t", 0, 1048576), t1 = symi_f64("t1", 0, 1048576); uint32_t id = std::vector<uint32_t>{1, 70001, 4294967290u}[symi_choice("id", 3)]; bool with = symi_choice("ctor", 2); auto fp = with ? std::make_shared<Frame>(id, t) : std::make_shared<Frame>(t); Frame &f = *fp;
  Quaternion one(1, 0, 0, 0); auto blank = [&](uint32_t i, double at, const char *l) { symi_check(zero(f.p_wb) & zero(f.v_wb) & sameq(f.q_wb, one), l); symi_check(f.id == i && f.features.empty(), l); symi_check(f.timeStamp == at, l); };
  blank(with ? id : 0, t, "fresh-frame");
  std::vector<std::shared_ptr<Feature>> l; std::map<uint32_t, std::shared_ptr<Feature>> want; int n = symi_choice("n", 4), dup = symi_choice("dup", 2);
  for (int i = 0; i < n; i++) { l.push_back(landmark(65546 * i, 1 + i % 2)); want[65546 * i] = l.back(); }
  auto held = [&](const char *c) { symi_check(f.features.size() == want.size(), c); for (auto &w : want) { auto it = f.features.find(w.first); symi_check(it != f.features.end() && it->second == w.second, c); } };
  int how = symi_choice("how", 2); if (how) symi_check(f.AddFeatures(l), "associating-succeeds"); else for (auto &x : l) symi_check(f.AddFeature(x), "associating-succeeds");
  held("frame-holds-the-given-landmarks");
  if (dup && n) { symi_check(f.AddFeature(l[0]), "associating-succeeds"); auto x = landmark(77, 1); symi_check(f.AddFeatures({l[n - 1], x}), "associating-succeeds"); want[77] = x; held("associating-again-changes-nothing"); }
  f.p_wb = sv3("p", -9, 9); f.v_wb = sv3("v", -9, 9); f.q_wb = anyq("q"); 
  uint32_t id1 = f.id + (symi_choice("other", 2) ? 5 : 0); bool at = symi_choice("same-time", 2); symi_check(f.Initialize(id1, at ? t : t1), "initialising-succeeds"); blank(id1, at ? t : t1, "initialised-frame-is-blank");
  symi_reach("end");
}
extern "C" void m02_landmarks() {
  int n = 1 + symi_choice("n", thorough() ? 4 : 3); FeatureManager fm; std::vector<uint32_t> ids; ObsL obs; std::vector<int> num; uint32_t fid = 1 + symi_choice("frame", 2) * 70001;
  for (int i = 0; i < n; i++) { ids.push_back(4294967290u - 11 * i); auto o = std::make_shared<FeatureObserve>(); int c = 1 + symi_choice(N("cams", i), 2); for (int k = 0; k < c; k++) o->norms[k] = sv2(N("z", i, k), -4, 4); obs.push_back(o); num.push_back(c); }
  std::vector<std::shared_ptr<Feature>> ch; symi_check(fm.AddNewFeatures(ids, obs, fid, ch), "adding-succeeds");
  for (int i = 0; i < n; i++) { Feature &x = *fm.features.at(ids[i]); symi_check(x.id == ids[i] && x.firstFrameID == fid && x.FinalFrameID() == fid && (int)x.observeNum == num[i] && x.observes == ObsL{obs[i]} && x.status == Feature::UNSOLVED && (bool)zero(x.p_w), "new-landmark-holds-its-observation"); symi_check(ch[i].get() == &x, "changes-in-the-order-given"); }
  Feature &x = *fm.features.at(ids[0]); x.AddNewObserve(std::make_shared<FeatureObserve>()); symi_check(x.observes.size() == 1 && (int)x.observeNum == num[0], "empty-observation-ignored");
  int gone[2] = {(int)symi_choice("r0", n + 1), (int)symi_choice("r1", n + 1)}; std::vector<bool> alive(n, true);
  for (int r : gone) { fm.RemoveByID(r < n ? ids[r] : 12345); if (r < n) alive[r] = false;
    size_t left = 0; for (int i = 0; i < n; i++) { left += alive[i]; auto it = fm.features.find(ids[i]); symi_check((it != fm.features.end()) == alive[i], "only-the-named-landmark-leaves-the-store"); if (it != fm.features.end()) symi_check(it->second == ch[i] && it->second->observes == ObsL{obs[i]} && it->second->firstFrameID == fid, "the-others-keep-their-tracks"); } symi_check(fm.features.size() == left, "only-the-named-landmark-leaves-the-store"); }
  for (auto &c : ch) symi_check(c && c->observes.size() == 1, "handed-out-landmarks-stay-valid");
  symi_reach("end");
}
