// Track store and frame window: bounded histories of additions and removals against list models.
#include "common.hpp"
#include <map>
#include <algorithm>
#include <feature_manager.hpp>
#include <frame_manager.hpp>
#include <multi_view_vision_update.hpp>
#include <backend.hpp>

namespace {
bool gFixed;      // observation values fixed (long windows)
using Obs = std::map<uint32_t, Vector2>;                 // camera -> value
struct MFrame { std::map<uint32_t, Obs> seen; };         // landmark -> observation
// lookups of every (landmark, frame, camera) around the window, against the surviving frames
void checkTracks(FeatureManager &fm, const std::vector<MFrame> &win, uint32_t firstId, const std::vector<uint32_t> &lms) {
  size_t alive = 0;
  for (uint32_t lm : lms) {
    int first = -1, last = -1; unsigned cnt = 0;
    for (int i = 0; i < (int)win.size(); i++) { auto it = win[i].seen.find(lm); if (it != win[i].seen.end()) { if (first < 0) first = i; last = i; cnt += it->second.size(); } }
    auto f = fm.features.find(lm);
    symi_check((f != fm.features.end()) == (first >= 0), "landmark-stored-iff-still-observed");
    if (f == fm.features.end() || first < 0) continue;
    alive++;
    Feature &x = *f->second;
    symi_check(x.id == lm, "landmark-id-kept");
    symi_check(x.firstFrameID == firstId + first, "first-observing-frame");
    symi_check(x.FinalFrameID() == firstId + last, "last-observing-frame");
    symi_check(x.observeNum == cnt, "observation-count");
    for (int i = -1; i <= (int)win.size(); i++) for (uint32_t c = 0; c < 3; c++) {
      Vector2 v(-77, -78); bool got = x.GetNorm(firstId + i, c, v);
      const Vector2 *want = nullptr;
      if (i >= 0 && i < (int)win.size()) { auto a = win[i].seen.find(lm); if (a != win[i].seen.end()) { auto b = a->second.find(c); if (b != a->second.end()) want = &b->second; } }
      symi_check(got == (want != nullptr), "observation-found-iff-submitted");
      if (got && want) symi_check((v(0) == (*want)(0)) & (v(1) == (*want)(1)), "observation-value-as-submitted");
    }
  }
  symi_check(fm.features.size() == alive, "no-other-landmark-stored");
}
bool addFrame(FeatureManager &fm, std::vector<MFrame> &win, uint32_t id, int step, const std::vector<std::pair<uint32_t, uint32_t>> &masks) {
  MFrame mf; std::vector<uint32_t> ids; std::vector<std::shared_ptr<FeatureObserve>> obs;
  for (auto &m : masks) {
    if (!m.second) continue;
    auto o = std::make_shared<FeatureObserve>(); Obs mo;
    for (uint32_t c = 0; c < 2; c++) if (m.second & (1u << c)) { Vector2 v = gFixed && m.first % 16 ? Vector2(0.03125f * (m.first % 100) + c, 0.25f * step) : sv2(N("obs", step, m.first, c), -4, 4); o->norms[c] = v; mo[c] = v; }
    ids.push_back(m.first); obs.push_back(o); mf.seen[m.first] = mo;
  }
  std::vector<std::shared_ptr<Feature>> changed(1, nullptr);
  bool ok = fm.AddNewFeatures(ids, obs, id, changed);
  symi_check(ok, "adding-succeeds");
  win.push_back(mf);
  symi_check(changed.size() == ids.size(), "reports-exactly-the-touched-landmarks");
  for (uint32_t i : ids) { int n = 0; for (auto &c : changed) if (c && c->id == i) n++; symi_check(n == 1, "reports-exactly-the-touched-landmarks"); 
    auto f = fm.features.find(i); bool same = false; if (f != fm.features.end()) for (auto &c : changed) same = same | (c == f->second); symi_check(same, "reports-the-stored-landmark"); }
  return ok;
}
// landmark visible in the newest surviving frame, or nowhere: a new observation makes no gap
bool canExtend(const std::vector<MFrame> &win, uint32_t lm) {
  bool any = false; for (auto &f : win) any = any || f.seen.count(lm);
  return !any || win.back().seen.count(lm);
}
}
static uint32_t pick(const char *what, int step, const std::vector<MFrame> &win, uint32_t lm, uint32_t nmask) {
  if (!canExtend(win, lm)) return 0;
  static const uint32_t order[4] = {3, 1, 2, 0};
  if (nmask == 2) return symi_choice(N(what, step, lm), 2) ? 0 : 3;
  if (nmask == 3) { static const uint32_t o3[3] = {3, 2, 0}; return o3[symi_choice(N(what, step, lm), 3)]; }
  return order[symi_choice(N(what, step, lm), 4)];
}
static void tracks(int adds, int removes, int addsAfter, uint32_t na, uint32_t nb) {
  FeatureManager fm; std::vector<MFrame> win; std::vector<uint32_t> lms = {7, 20};
  uint32_t firstId = symi_u32("firstId", 1, 100000);
  int step = 0;
  auto add = [&] {
    std::vector<std::pair<uint32_t, uint32_t>> m = {{7, pick("a", step, win, 7, na)}, {20, pick("b", step, win, 20, nb)}};
    addFrame(fm, win, firstId + win.size(), step, m); step++;
    checkTracks(fm, win, firstId, lms);
  };
  for (int i = 0; i < adds; i++) add();
  for (int i = 0; i < removes && win.size() > 1; i++) {
    int k = symi_choice(N("rm", i), win.size());
    if (k == 0) { fm.RemoveByFrameID(firstId, false); firstId++; } else fm.RemoveByFrameID(firstId + k, true);
    win.erase(win.begin() + k);
    checkTracks(fm, win, firstId, lms);
  }
  for (int i = 0; i < addsAfter; i++) add();
  symi_reach("end");
}
extern "C" void f01_one() { if (thorough()) tracks(5, 3, 1, 4, 2); else tracks(4, 2, 1, 4, 2); }
extern "C" void f01_pairs() { if (thorough()) tracks(4, 2, 2, 4, 4); else tracks(2, 1, 1, 4, 3); }
extern "C" void f01_refused() {   // unequal lists are refused and change nothing
  FeatureManager fm; std::vector<MFrame> win; std::vector<uint32_t> lms = {7, 20};
  addFrame(fm, win, 5, 0, {{7, 3}});
  std::vector<uint32_t> ids(1 + symi_choice("n", 2), 20); std::vector<std::shared_ptr<FeatureObserve>> obs;
  if (symi_choice("m", 2)) { obs.push_back(std::make_shared<FeatureObserve>()); obs[0]->norms[0] = Vector2(1, 2); if (ids.size() == 1) obs.push_back(obs[0]); }
  std::vector<std::shared_ptr<Feature>> ch(3, nullptr);
  symi_check(!fm.AddNewFeatures(ids, obs, 6, ch), "mismatched-lists-refused");
  symi_check(ch.empty(), "mismatched-lists-report-nothing");
  checkTracks(fm, win, 5, lms);
  symi_reach("end");
}

// ---- frame window
namespace {
struct WF { std::shared_ptr<Frame> f; double t; Vector3 p, v; Quaternion q; std::vector<std::shared_ptr<Feature>> links; };
std::shared_ptr<Feature> mkFeature(uint32_t id, uint32_t first) {
  std::vector<std::shared_ptr<FeatureObserve>> o(1, std::make_shared<FeatureObserve>()); o[0]->norms[0] = Vector2(0, 0);
  return std::shared_ptr<Feature>(new Feature(id, first, o));
}
bool same3(const Vector3 &a, const Vector3 &b) { return (a(0) == b(0)) & (a(1) == b(1)) & (a(2) == b(2)); }
bool sameq(const Quaternion &a, const Quaternion &b) { return (a.w() == b.w()) & (a.x() == b.x()) & (a.y() == b.y()) & (a.z() == b.z()); }
void checkWindow(FrameManager &m, const std::vector<WF> &w, bool last = false) {
  symi_check(m.frames.size() == w.size(), "window-holds-the-surviving-frames");
  if (m.frames.size() != w.size()) return;
  for (size_t i = 0; i < w.size(); i++) {
    Frame &f = *m.frames[i];
    symi_check(m.frames[i] == w[i].f, "arrival-order-kept");
    symi_check(f.id == m.frames[0]->id + i, "consecutive-ids");
    symi_check(f.timeStamp == w[i].t, "time-stamp-kept");
    symi_check(same3(f.p_wb, w[i].p) & same3(f.v_wb, w[i].v) & sameq(f.q_wb, w[i].q), "pose-kept");
    symi_check(f.features.size() == w[i].links.size(), "landmark-links-kept");
    for (auto &l : w[i].links) { auto it = f.features.find(l->id); symi_check(it != f.features.end() && it->second == l, "landmark-links-kept"); }
    symi_check(m.GetFrame(f.id) == w[i].f, "lookup-by-id");
  }
  if (!w.empty()) {
    uint32_t lo = m.frames.front()->id, hi = m.frames.back()->id;
    symi_check(m.GetFrame(lo - 1) == nullptr && m.GetFrame(hi + 1) == nullptr, "no-frame-outside-the-window");
    if (last) { uint32_t any = symi_u32("anyId", 0, 0xffffffffu);
    symi_check((m.GetFrame(any) == nullptr) == ((any < lo) | (any > hi)), "no-frame-outside-the-window"); }
    symi_check(m.GetMaxFrameID() == hi, "newest-id");
  } else if (last) symi_check(m.GetFrame(symi_u32("anyId", 0, 0xffffffffu)) == nullptr, "no-frame-outside-the-window");
  symi_check(m.NeedMarginalize() == (w.size() > m.maxWindowSize), "marginalisation-requested-iff-over-the-limit");
}
void addWF(FrameManager &m, std::vector<WF> &w, int k, int style) {
  WF x; x.t = k % 3 == 1 ? LATE + 0.0625 * k : symi_f64(N("t", k), 0, 1000000);
  x.f = style ? std::shared_ptr<Frame>(new Frame(symi_u32(N("bogus", k), 0, 100000), x.t)) : std::shared_ptr<Frame>(new Frame(x.t));
  symi_check(m.AddNewFrame(x.f), "adding-succeeds");
  if (w.empty()) { x.p.setZero(); x.v.setZero(); x.q = Quaternion(1, 0, 0, 0); } else { x.p = w.back().p; x.v = w.back().v; x.q = w.back().q; }
  w.push_back(x);
  symi_check(same3(x.f->p_wb, x.p) & same3(x.f->v_wb, x.v) & sameq(x.f->q_wb, x.q) & (x.f->timeStamp == x.t), "new-frame-starts-from-the-newest-pose");
  // what the estimator then writes into the new frame
  WF &y = w.back(); y.f->p_wb = y.p = sv3(N("p", k), -100, 100); y.f->v_wb = y.v = sv3(N("v", k), -10, 10); y.q = squat(N("q", k)); y.f->q_wb = y.q;
  if (k & 1) y.links = {mkFeature(7, 1), mkFeature(20 + k, 1)}; else y.links = {mkFeature(7, 1)};
  y.f->AddFeatures(y.links);
}
void window(int K, int pre) {
  FrameManager m, other; std::vector<WF> w; std::vector<std::shared_ptr<Frame>> held;      // dropped frames and another window live on
  m.Initialize(symi_u32("limit", 0, 6)); other.Initialize(4);
  auto elsewhere = [&] { for (auto &f : other.frames) symi_check(other.GetFrame(f->id) == f, "windows-are-independent"); };
  for (int i = 0; i < 4; i++) { held.push_back(std::shared_ptr<Frame>(new Frame(500.0 + i))); other.AddNewFrame(held.back()); }
  for (int k = 0; k < pre; k++) addWF(m, w, k, k & 1);
  for (int k = pre; k < pre + K; k++) {
    uint32_t op = symi_choice(N("op", k), w.size() + 2);
    if (op == 0) addWF(m, w, k, symi_choice(N("style", k), 2));
    else if (op == w.size() + 1) { uint32_t out = symi_u32(N("outside", k), w.size(), 0xffffffffu); symi_check(!m.RemoveFrame(out), "removal-outside-refused"); }
    else { held.push_back(m.frames[op - 1]); symi_check(m.RemoveFrame(op - 1), "removal-succeeds"); w.erase(w.begin() + (op - 1)); }
    elsewhere(); checkWindow(m, w, k + 1 == pre + K);
  }
  symi_reach("end");
}
}
extern "C" void f02_window() { if (thorough()) window(5, 0); else window(3, 0); }
extern "C" void f02_full() { if (thorough()) window(3, 5); else window(2, 4); }
extern "C" void f02_covisible() {
  std::shared_ptr<Frame> a(new Frame(1.0)), b(new Frame(2.0)); std::vector<std::shared_ptr<Feature>> all;
  uint32_t ids[4] = {3, 16, 29, 4000000000u}; int ma = symi_choice("a", 16), mb = symi_choice("b", 16);
  std::vector<std::shared_ptr<Feature>> la, lb;
  for (int i = 0; i < 4; i++) { all.push_back(mkFeature(ids[i], 1)); if (ma >> i & 1) la.push_back(all[i]); if (mb >> i & 1) lb.push_back(all[i]); }
  a->AddFeatures(la); b->AddFeatures(lb);
  auto c = a->GetCovisibleFeatures(b);
  symi_check((int)c.size() == __builtin_popcount(ma & mb), "common-landmarks-exactly");
  for (int i = 0; i < 4; i++) { int n = 0; for (auto &x : c) n += x == all[i]; symi_check(n == (ma & mb & 1 << i ? 1 : 0), "common-landmarks-exactly"); }
  symi_check(a->features.size() == la.size() && b->features.size() == lb.size(), "frames-unchanged");
  symi_reach("end");
}

// ---- F03
namespace {
// n frames; landmark l seen in frame i by the cameras of mask[l][i]
void fill(FrameManager &m, FeatureManager &fm, int n, int nl, const std::vector<std::vector<uint32_t>> &mask, uint32_t firstId) {
  for (int i = 0; i < n; i++) {
    std::shared_ptr<Frame> f(new Frame(firstId + i, LATE + i * 0.0625)); m.frames.push_back(f);
    std::vector<uint32_t> ids; std::vector<std::shared_ptr<FeatureObserve>> obs; std::vector<std::shared_ptr<Feature>> ch;
    for (int l = 0; l < nl; l++) if (mask[l][i]) { auto o = std::make_shared<FeatureObserve>(); for (uint32_t c = 0; c < 2; c++) if (mask[l][i] >> c & 1) o->norms[c] = Vector2(0.125f * l, 0.25f * i + 0.5f * c); ids.push_back(l + 1); obs.push_back(o); }
    fm.AddNewFeatures(ids, obs, f->id, ch); f->AddFeatures(ch);
  }
}
int shared0(const std::vector<std::vector<uint32_t>> &mask, int nl, int i) { int c = 0; for (int l = 0; l < nl; l++) c += (mask[l][i] & 1) && (mask[l][i - 1] & 1); return c; }
bool moved(const Vector3 &a, const Vector3 &b, float lim) { Vector3 d = a - b; float q = d(0) * d(0) + d(1) * d(1) + d(2) * d(2); return (q > lim * lim); }
}
extern "C" void f03_keyframe() {
  FrameManager m; FeatureManager fm; const int nl = thorough() ? 4 : 3;
  int n = 1 + symi_choice("n", 3), k = symi_choice("k", n);
  std::vector<std::vector<uint32_t>> mask(nl, std::vector<uint32_t>(3, 3));
  int i0 = k > 0 ? k - 1 : 0;
  for (int l = 0; l < nl; l++) {      // overlap of frame k with its predecessor: both, only second camera, gone, new
    if (k == 0) break;
    switch (symi_choice(N("l", l), 5)) { case 0: break; case 1: mask[l][k] = 2; break; case 2: mask[l][i0] = 2; break; case 3: for (int j = k; j < 3; j++) mask[l][j] = 0; break; default: for (int j = 0; j < k; j++) mask[l][j] = 0; mask[l][k] = 3; }
  }
  fill(m, fm, n, nl, mask, symi_choice("base", 2) ? 1 : 41);
  m.minKeyframeTrackedFeatureNum = symi_u32("minTracked", 0, 0xffffffffu); m.maxKeyframeTranslation = symi_f32("maxTrans", 0, 1000);
  for (int i = 0; i < n; i++) m.frames[i]->p_wb = sv3(N("p", i), -1000, 1000);
  bool got = m.IsKeyFrame(m.frames[k]);
  if (k == 0) symi_check(got, "oldest-frame-is-a-keyframe");
  else {
    bool few = (uint32_t)shared0(mask, nl, k) < m.minKeyframeTrackedFeatureNum, far = moved(m.frames[k]->p_wb, m.frames[k - 1]->p_wb, m.maxKeyframeTranslation);
    symi_check(got == (few | far), "keyframe-iff-few-tracks-or-far");
  }
  symi_check(!m.IsKeyFrame(nullptr), "no-frame-is-no-keyframe");
  symi_check((int)m.frames.size() == n, "window-unchanged");
  symi_reach("end");
}
extern "C" void f03_policy() {
  FrameManager m; FeatureManager fm; MultiViewVisionUpdate u; u.frameManager = &m; u.featureManager = &fm;
  const int nl = 2; int n = 1 + symi_choice("n", 4);
  std::vector<std::vector<uint32_t>> mask(nl, std::vector<uint32_t>(4, 3));
  if (n >= 3) { int l = symi_choice("lost", 3); if (l < 2) { for (int j = n - 2; j < 4; j++) mask[l][j] = 0; } }
  fill(m, fm, n, nl, mask, 3);
  m.maxWindowSize = symi_u32("limit", 1, 6);
  m.minKeyframeTrackedFeatureNum = symi_u32("minTracked", 0, 100); m.maxKeyframeTranslation = symi_f32("maxTrans", 0, 1000);
  for (int i = 0; i < n; i++) m.frames[i]->p_wb = sv3(N("p", i), -1000, 1000);
  u.margPolicy = (MargPolicy)(1 + symi_choice("old", 4));
  symi_check(u.DecideMargPolicy(), "decision-succeeds");
  bool over = (uint32_t)n > m.maxWindowSize;
  if (!over) symi_check(u.margPolicy == NO_MARG, "below-the-limit-nothing-is-dropped");
  else {
    bool key = n == 2;
    if (n > 2) key = ((uint32_t)shared0(mask, nl, n - 2) < m.minKeyframeTrackedFeatureNum) | moved(m.frames[n - 2]->p_wb, m.frames[n - 3]->p_wb, m.maxKeyframeTranslation);
    symi_check((u.margPolicy == MARG_OLDEST) == key, "oldest-dropped-iff-second-newest-is-a-keyframe");
    symi_check((u.margPolicy == MARG_SUBNEW) == !key, "second-newest-dropped-otherwise");
  }
  symi_check((int)m.frames.size() == n, "window-unchanged");
  symi_reach("end");
}
// the drop removes exactly that frame from both stores
extern "C" void f03_effect() {
  Backend b; int n = 2 + symi_choice("n", thorough() ? 4 : 3);
  std::vector<MFrame> win; std::vector<std::shared_ptr<Frame>> fr; std::vector<uint32_t> lms = {7, 20};
  for (int i = 0; i < n; i++) {
    std::shared_ptr<FeaturesMessage> msg(new FeaturesMessage()); msg->timeStamp = LATE + i * 0.0625; MFrame mf;
    for (uint32_t lm : lms) {
      uint32_t mk = pick("m", i, win, lm, lm == 7 ? 3 : 2); if (!mk) continue;
      auto o = std::make_shared<FeatureObserve>(); Obs mo;
      for (uint32_t c = 0; c < 2; c++) if (mk >> c & 1) { Vector2 v = sv2(N("o", i, lm, c), -2, 2); o->norms[c] = v; mo[c] = v; }
      msg->ids.push_back(lm); msg->observes.push_back(o); mf.seen[lm] = mo;
    }
    b.UpdateFeatureFrameManager(msg); win.push_back(mf);
    symi_check((int)b.frameManager.frames.size() == i + 1, "every-image-enters-the-window");
    if ((int)b.frameManager.frames.size() != i + 1) return;
    auto f = b.frameManager.frames.back(); fr.push_back(f);
    symi_check(f->timeStamp == LATE + i * 0.0625, "image-time-kept");
    symi_check(f->features.size() == mf.seen.size(), "frame-links-its-landmarks");
    for (auto &s : mf.seen) symi_check(f->features.count(s.first) == 1, "frame-links-its-landmarks");
  }
  MargPolicy pol = (MargPolicy)(1 + symi_choice("policy", 4));
  if (pol == MARG_SUBNEW && n == 2) return;      // never decided: with two frames the second-newest is the oldest, a keyframe
  symi_check(b.MarginalizeFeatureFrameManager(pol), "drop-succeeds");
  int k = pol == MARG_OLDEST ? 0 : pol == MARG_NEWEST ? n - 1 : pol == MARG_SUBNEW ? n - 2 : -1;
  if (k >= 0) { win.erase(win.begin() + k); fr.erase(fr.begin() + k); }
  symi_check(b.frameManager.frames.size() == fr.size(), "exactly-that-frame-is-dropped");
  if (b.frameManager.frames.size() != fr.size()) return;
  for (size_t i = 0; i < fr.size(); i++) { symi_check(b.frameManager.frames[i] == fr[i], "exactly-that-frame-is-dropped"); symi_check(fr[i]->id == fr[0]->id + i, "consecutive-ids"); }
  checkTracks(b.featureManager, win, b.frameManager.frames.front()->id, lms);
  symi_reach("end");
}
// long windows and many landmarks: tracks of all lengths from any frame on, two drops anywhere, one more frame
extern "C" void f01_long() {
  gFixed = true;
  FeatureManager fm; std::vector<MFrame> win; std::vector<uint32_t> lms; const int nf = 12, nl = 270, K[4] = {0, 1, 6, 11}; for (int l = 0; l < nl; l++) lms.push_back(l % 3 ? 5 + 13 * l : 65536 + 5 + 13 * (l + 1));
  int r0 = symi_choice("rm0", thorough() ? 12 : 4), step = 0; uint32_t firstId = r0 % 2 ? 99999 : 1;
  auto add = [&] { int i = step; std::vector<std::pair<uint32_t, uint32_t>> m; for (int l = 0; l < nl; l++) { int b = l * 5 % nf, e = b + 1 + l * 7 % nf; m.push_back({lms[l], i >= b && i < e && canExtend(win, lms[l]) ? 1 + (l + i) % 3 : 0}); } addFrame(fm, win, firstId + win.size(), step++, m); };
  for (int i = 0; i < nf; i++) add();
  checkTracks(fm, win, firstId, lms);
  for (int i = 0; i < 2; i++) { int k = i == 0 ? r0 : symi_choice("rm1", thorough() ? 11 : 3); if (!thorough()) k = i ? 5 * k : K[k];
    if (k == 0) { fm.RemoveByFrameID(firstId, false); firstId++; } else fm.RemoveByFrameID(firstId + k, true); win.erase(win.begin() + k); checkTracks(fm, win, firstId, lms); }
  add(); checkTracks(fm, win, firstId, lms);
  symi_reach("end");
}
extern "C" void f02_long() {
  FrameManager m, other; std::vector<WF> w; m.Initialize(symi_u32("limit", 0, 40)); const int n = 14;
  for (int k = 0; k < n; k++) { addWF(m, w, k, k & 1); std::vector<std::shared_ptr<Feature>> more; for (int l = 0; l < 30; l++) more.push_back(mkFeature(100 + 7 * l + k % 3, 1)); w.back().f->AddFeatures(more); for (auto &x : more) w.back().links.push_back(x); }
  if (symi_choice("aged", 2)) for (auto &x : m.frames) x->id += 65535 - n;      // the window after many images
  for (int i = 0; i < 2; i++) { int k = symi_choice(N("rm", i), i ? 3 : n); if (i) k = k * 6; symi_check(m.RemoveFrame(k), "removal-succeeds"); w.erase(w.begin() + k); checkWindow(m, w, i == 1); }
  for (int k = n; k < n + 3; k++) addWF(m, w, k, k & 1);
  checkWindow(m, w);
  auto c = w[0].f->GetCovisibleFeatures(w[3].f); int want = 0; for (auto &a : w[0].links) for (auto &b : w[3].links) want += a->id == b->id; symi_check((int)c.size() == want, "common-landmarks-exactly"); for (auto &x : c) { int n0 = 0; for (auto &a : w[0].links) n0 += a == x; symi_check(n0 == 1, "common-landmarks-exactly"); }
  symi_reach("end");
}
// many landmarks and a long window: both the keyframe rule and the drop decision
extern "C" void f03_long() {
  static const int SH[8] = {0, 9, 10, 20, 31, 255, 256, 300}; FrameManager m; FeatureManager fm; MultiViewVisionUpdate u; u.frameManager = &m; u.featureManager = &fm; const int nl = 300; int n = 9 + 3 * symi_choice("n", 2), sh = SH[symi_choice("shared", 8)];
  std::vector<std::vector<uint32_t>> mask(nl, std::vector<uint32_t>(n, 3)); for (int l = 0; l < nl; l++) { int r = l * 7 % nl; if (r >= sh) { if (r % 2) for (int i = n - 2; i < n; i++) mask[l][i] = 0; else mask[l][n - 2] = 2; } }
  fill(m, fm, n, nl, mask, 7); m.maxWindowSize = symi_u32("limit", 1, 20); m.minKeyframeTrackedFeatureNum = symi_u32("minTracked", 0, 400); m.maxKeyframeTranslation = symi_f32("maxTrans", 0, 1000);
  for (int i = 0; i < n; i++) m.frames[i]->p_wb = i >= n - 3 ? sv3(N("p", i), -1000, 1000) : Vector3(i, 0, 0); u.margPolicy = (MargPolicy)(1 + symi_choice("old", 2));
  bool key = ((uint32_t)sh < m.minKeyframeTrackedFeatureNum) | moved(m.frames[n - 2]->p_wb, m.frames[n - 3]->p_wb, m.maxKeyframeTranslation), over = (uint32_t)n > m.maxWindowSize;
  symi_check(m.IsKeyFrame(m.frames[n - 2]) == key, "keyframe-iff-few-tracks-or-far");
  symi_check(u.DecideMargPolicy(), "decision-succeeds");
  symi_check((u.margPolicy == NO_MARG) == !over, "below-the-limit-nothing-is-dropped"); symi_check((u.margPolicy == MARG_OLDEST) == (over & key), "oldest-dropped-iff-second-newest-is-a-keyframe"); symi_check((u.margPolicy == MARG_SUBNEW) == (over & !key), "second-newest-dropped-otherwise");
  symi_reach("end");
}
#include "pollute.hpp"
#ifndef SYMI_ASAN
extern "C" void symi_prelude() { pollute::window(); }
#endif
