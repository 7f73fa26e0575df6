// Data loader: any bounded history of pushes and pops with symbolic time stamps, against a list model.
#include "common.hpp"
#include <data_loader.hpp>

namespace {
struct FM { std::shared_ptr<FeaturesMessage> p; double t; };
struct IM { std::shared_ptr<IMUMessage> p; double t; };
// reference model of one loader
struct Model {
  std::vector<FM> f; std::vector<IM> m;
  bool has = false; double t0 = 0; bool hf = false, hm = false; double lf = 0, lm = 0;
  double shift(double t) { if (!has) { has = true; t0 = t; } return t - t0; }
};
std::shared_ptr<FeaturesMessage> mkF(double t, int tag, int bad = 0) {
  std::shared_ptr<FeaturesMessage> p(new FeaturesMessage());
  p->ids.push_back(100 + tag);
  p->observes.push_back(std::make_shared<FeatureObserve>());
  p->flag.push_back(tag);
  if (bad == 1) p->ids.push_back(7);
  if (bad == 2) p->observes.push_back(std::make_shared<FeatureObserve>());
  if (bad == 3) p->ids.clear();
  if (bad == 4) p->observes.clear();
  p->timeStamp = t; return p;
}
std::shared_ptr<IMUMessage> mkI(double t, int tag) {
  std::shared_ptr<IMUMessage> p(new IMUMessage());
  p->gyro = Vector3(tag, 2 * tag, 3 * tag); p->accel = Vector3(-tag, 1, 5 * tag); p->timeStamp = t; return p;
}
void pushF(DataLoader &d, Model &m, double t, int tag, int bad) {
  auto p = mkF(t, tag, bad);
  bool ok = d.PushFeaturesMessage(p);
  if (bad) { symi_check(!ok, "refuses-mismatched-lists"); return; }
  double s = m.shift(t);
  if (!m.hf || s > m.lf) { m.hf = true; m.lf = s; m.f.push_back({p, s}); }
}
void pushI(DataLoader &d, Model &m, double t, int tag) {
  auto p = mkI(t, tag);
  d.PushIMUMessage(p);
  double s = m.shift(t);
  if (!m.hm || s > m.lm) { m.hm = true; m.lm = s; m.m.push_back({p, s}); }
}
int tagF(const FeaturesMessage &f) { return (int)f.flag[0]; }
void sameF(const std::shared_ptr<FeaturesMessage> &got, const FM &want, const char *l) {
  symi_check(got != nullptr, l); if (!got) return;
  symi_check(got->ids.size() == 1 && got->observes.size() == 1 && got->flag.size() == 1, l);
  symi_check(got->flag[0] == want.p->flag[0] && got->ids[0] == 100u + tagF(*got), l);
  symi_check_eq64(got->timeStamp, want.t, 1e-9, l);
}
void sameI(const std::shared_ptr<IMUMessage> &got, const IM &want, const char *l) {
  symi_check(got != nullptr, l); if (!got) return;
  float tag = want.p->gyro(0);
  symi_check((got->gyro == want.p->gyro) & (got->accel == want.p->accel) & (got->gyro(1) == 2 * tag) & (got->accel(2) == 5 * tag) & (got->accel(0) == -tag), l);
  symi_check_eq64(got->timeStamp, want.t, 1e-9, l);
}
// single message read against the model
bool popOne(DataLoader &d, Model &m, std::shared_ptr<CombinedMessage> &out) {
  bool ok = d.PopOneMessage(out);
  bool has = !m.f.empty() || !m.m.empty();
  symi_check(ok == has, "reports-whether-something-was-pending");
  symi_check(out != nullptr, "output-exists");
  if (!has) { symi_check(out->featMeas == nullptr && out->imuMeas.empty(), "delivers-nothing-when-empty"); return false; }
  if (!ok) return false;
  bool wantF = false, wantI = false;
  if (!m.f.empty() && !m.m.empty()) {
    if (m.f[0].t <= m.m[0].t) { wantF = true; wantI = m.m[0].t - m.f[0].t < d.imuPeriod; }
    else wantI = true;
  } else if (!m.f.empty()) wantF = true; else wantI = true;
  symi_check((out->featMeas != nullptr) == wantF, "camera-message-delivered-iff-due");
  symi_check(out->imuMeas.size() == (wantI ? 1u : 0u), "inertial-message-delivered-iff-due");
  if (wantF && out->featMeas) { sameF(out->featMeas, m.f[0], "camera-message-unaltered"); m.f.erase(m.f.begin()); }
  if (wantI && out->imuMeas.size() == 1) { sameI(out->imuMeas[0], m.m[0], "inertial-message-unaltered"); m.m.erase(m.m.begin()); }
  return true;
}
double T(const char *p, int i) { return symi_f64(N(p, i), 0, 1048576); }
}

// any history of K pushes and single reads, then drained
static void history(int K, bool bad) {
  DataLoader d; Model m; std::shared_ptr<CombinedMessage> out;
  d.imuPeriod = symi_f64("period", 0, 1);
  int badKind = 0; double lastF = 0, lastI = 0; bool hf = false, hi = false;
  auto read = [&] {
    bool r = popOne(d, m, out);
    if (!r) return false;
    if (out->featMeas) { if (hf) symi_check(out->featMeas->timeStamp > lastF, "camera-deliveries-increase"); hf = true; lastF = out->featMeas->timeStamp; }
    for (auto &x : out->imuMeas) { if (hi) symi_check(x->timeStamp > lastI, "inertial-deliveries-increase"); hi = true; lastI = x->timeStamp; }
    return true;
  };
  for (int k = 0; k < K; k++) {
    switch (symi_choice(N("op", k), bad ? 4 : 3)) {
      case 0: pushF(d, m, T("t", k), k + 1, 0); break;
      case 1: pushI(d, m, T("t", k), k + 1); break;
      case 2: read(); break;
      default: pushF(d, m, T("t", k), k + 1, badKind ? badKind : (badKind = 1 + symi_choice("bad", 4)));
    }
  }
  for (int i = 0; i < K + 2 && read(); i++) ;
  symi_check(m.f.empty() && m.m.empty(), "every-accepted-message-was-delivered");
  symi_reach("end");
}
extern "C" void d01_history() { history(thorough() ? 6 : 4, true); }
extern "C" void d01_interleaved() { history(thorough() ? 7 : 5, false); }
// floating-point exact: two messages per stream
extern "C" void d01_stream_fp() {
  DataLoader d; Model m; std::shared_ptr<CombinedMessage> out;
  for (int k = 0; k < 4; k++) pushI(d, m, T("t", k), k + 1);
  bool hi = false; double last = 0;
  for (int i = 0; i < 6; i++) { if (!d.PopOneMessage(out)) break; for (auto &x : out->imuMeas) { if (hi) symi_check(x->timeStamp > last, "inertial-deliveries-increase"); hi = true; last = x->timeStamp; symi_check(!m.m.empty(), "nothing-extra-delivered"); if (!m.m.empty()) { symi_check(x->gyro == m.m[0].p->gyro, "inertial-message-unaltered"); symi_check(x->timeStamp == m.m[0].t, "inertial-message-unaltered"); m.m.erase(m.m.begin()); } } }
  symi_check(m.m.empty(), "every-accepted-message-was-delivered");
  symi_reach("end");
}

// D02: both queues pre-filled with strictly increasing stamps, reads decide order and bundling
extern "C" void d02_merge() {
  DataLoader d; Model m; std::shared_ptr<CombinedMessage> out;
  d.imuPeriod = symi_f64("period", 0, 1);
  int nf = symi_choice("nf", thorough() ? 4 : 3), ni = symi_choice("ni", thorough() ? 5 : 4);
  for (int i = 0; i < nf; i++) pushF(d, m, T("f", i), i + 1, 0);
  for (int i = 0; i < ni; i++) pushI(d, m, T("i", i), 10 + i);
  if (symi_choice("preset", 2)) { out.reset(new CombinedMessage()); out->featMeas = mkF(3, 9); out->imuMeas.push_back(mkI(3, 9)); }
  for (int i = 0; i < nf + ni + 1; i++) if (!popOne(d, m, out)) break;
  symi_check(m.f.empty() && m.m.empty(), "every-accepted-message-was-delivered");
  symi_reach("end");
}
extern "C" void d02_bundle_fp() {
  DataLoader d; Model m; std::shared_ptr<CombinedMessage> out;
  d.imuPeriod = 0.005;
  pushF(d, m, T("f", 0), 1, 0);
  pushI(d, m, T("i", 0), 2);
  FM f = m.f[0]; IM i = m.m[0];
  symi_check(d.PopOneMessage(out), "something-is-delivered");
  bool first = f.t <= i.t, both = first & (i.t - f.t < 0.005);
  symi_check((out->featMeas != nullptr) == first, "camera-message-delivered-iff-due");
  symi_check((out->imuMeas.size() == 1) == (!first | both), "inertial-message-delivered-iff-due");
  symi_reach("end");
}

// D03: packed reads
static bool popPacked(DataLoader &d, Model &m, std::shared_ptr<CombinedMessage> &out, bool &got) {
  got = d.PopPackedMessage(out);
  symi_check(out != nullptr, "output-exists");
  if (!out) return false;
  bool due = false;
  if (!m.f.empty() && !m.m.empty() && m.m.back().t > m.f[0].t) {
    if (m.m[0].t >= m.f[0].t) { m.f.erase(m.f.begin()); }     // no sample before the image: discarded
    else due = true;
  }
  symi_check(got == due, "delivers-exactly-when-a-later-sample-exists");
  if (!due || !got) { symi_check(out->featMeas == nullptr && out->imuMeas.empty(), "delivers-nothing-when-refused"); return got == due; }
  sameF(out->featMeas, m.f[0], "image-unaltered");
  double ft = m.f[0].t;
  size_t n = 0; while (n < m.m.size() && m.m[n].t <= ft) n++;
  bool exact = !(std::fabs(m.m[n - 1].t - ft) > 1e-6);
  size_t want = n + (exact ? 0 : 1);
  symi_check(out->imuMeas.size() == want, "exactly-the-samples-since-the-previous-delivery");
  if (out->imuMeas.size() != want) return false;
  for (size_t i = 0; i < n; i++) {
    symi_check_eq64(out->imuMeas[i]->timeStamp, m.m[i].t, 1e-9, "sample-stamps-in-order");
    for (int k = 0; k < 3; k++) { symi_check_eq(out->imuMeas[i]->gyro(k), m.m[i].p->gyro(k), 1e-4, "samples-unaltered"); symi_check_eq(out->imuMeas[i]->accel(k), m.m[i].p->accel(k), 1e-4, "samples-unaltered"); }
  }
  IM start = m.m[n - 1];
  if (!exact) {
    auto mid = out->imuMeas.back();
    symi_check_eq64(mid->timeStamp, ft, 1e-9, "last-sample-at-the-image-time");
    auto &l = m.m[n - 1], &r = m.m[n];
    double dt = r.t - l.t;
    IM e; e.p = std::make_shared<IMUMessage>(); e.t = ft;
    for (int k = 0; k < 3; k++) {
      e.p->gyro(k) = (float)((l.p->gyro(k) * (r.t - ft) + r.p->gyro(k) * (ft - l.t)) / dt);
      e.p->accel(k) = (float)((l.p->accel(k) * (r.t - ft) + r.p->accel(k) * (ft - l.t)) / dt);
      symi_check_eq(mid->gyro(k), e.p->gyro(k), 2e-3, "linear-interpolation");
      symi_check_eq(mid->accel(k), e.p->accel(k), 2e-3, "linear-interpolation");
    }
    start = e;
  }
  m.f.erase(m.f.begin());
  m.m.erase(m.m.begin(), m.m.begin() + n);
  m.m.insert(m.m.begin(), start);      // the next delivery starts from the same sample
  return true;
}
extern "C" void d03_packed() {
  DataLoader d; Model m; std::shared_ptr<CombinedMessage> out;
  int nf = 1 + symi_choice("nf", 2), ni = symi_choice("ni", thorough() ? 6 : 5);
  for (int i = 0; i < nf; i++) pushF(d, m, symi_f64(N("f", i), 0, 64), i + 1, 0);
  for (int i = 0; i < ni; i++) {
    auto p = mkI(symi_f64(N("i", i), 0, 64), 10 + i);
    p->gyro(1) = symi_f32(N("gy", i), -4, 4); p->accel(0) = symi_f32(N("ax", i), -20, 20);
    double t = p->timeStamp; d.PushIMUMessage(p); double s = m.shift(t);
    if (!m.hm || s > m.lm) { m.hm = true; m.lm = s; m.m.push_back({p, s}); }
  }
  bool got;
  for (int i = 0; i < nf + 1; i++) if (!popPacked(d, m, out, got)) break;
  symi_reach("end");
}
// a refused read loses nothing: after it, single reads still deliver everything pending
extern "C" void d03_refused() {
  DataLoader d; Model m; std::shared_ptr<CombinedMessage> out;
  if (symi_choice("f", 2)) pushF(d, m, T("f", 0), 1, 0);
  int ni = symi_choice("ni", 3);
  for (int i = 0; i < ni; i++) pushI(d, m, T("i", i), 10 + i);
  bool got; popPacked(d, m, out, got);
  if (!got) {
    d.imuPeriod = 0;
    for (int i = 0; i < 5; i++) if (!popOne(d, m, out)) break;
    symi_check(m.f.empty() && m.m.empty(), "refused-read-loses-nothing");
  }
  // later arrivals
  symi_reach("end");
}
// history of interleaved pushes and packed reads
extern "C" void d03_history() {
  DataLoader d; Model m; std::shared_ptr<CombinedMessage> out; bool got;
  int K = thorough() ? 7 : 5;
  pushI(d, m, symi_f64("t0", 0, 64), 1);
  for (int k = 0; k < K; k++) {
    uint32_t c = symi_choice(N("op", k), 3);
    if (c == 0) pushF(d, m, symi_f64(N("t", k), 0, 64), k + 2, 0);
    else if (c == 1) pushI(d, m, symi_f64(N("t", k), 0, 64), k + 2);
    else if (!popPacked(d, m, out, got)) break;
  }
  popPacked(d, m, out, got);
  symi_reach("end");
}

// D04: a loader after Clear, and a second loader, behave like a fresh one
extern "C" void d04_clear() {
  DataLoader d, other; Model junk, junk2;
  int K = 2 + symi_choice("nb", 2);
  for (int k = 0; k < K; k++) {
    switch (symi_choice(N("before", k), 5)) {
      case 0: pushF(d, junk, T("b", k), k + 1, 0); break;
      case 1: pushI(d, junk, T("b", k), k + 1); break;
      case 2: pushF(other, junk2, T("b", k), k + 1, 0); break;
      case 3: pushI(other, junk2, T("b", k), k + 1); break;
      default: { std::shared_ptr<CombinedMessage> o; d.PopOneMessage(o); }
    }
  }
  d.Clear();
  DataLoader fresh;
  Model a, b; std::shared_ptr<CombinedMessage> o1, o2;
  int nf = symi_choice("nf", 2), ni = 1 + symi_choice("ni", 2);
  bool ffirst = nf && symi_choice("ffirst", 2);
  auto doF = [&] { for (int i = 0; i < nf; i++) { pushF(d, a, T("f", i), i + 1, 0); pushF(fresh, b, T("f", i), i + 1, 0); } };
  if (ffirst) doF();
  for (int i = 0; i < ni; i++) { pushI(d, a, T("i", i), i + 10); pushI(fresh, b, T("i", i), i + 10); }
  if (!ffirst) doF();
  for (int i = 0; i < nf + ni + 1; i++) { bool x = popOne(d, a, o1), y = popOne(fresh, b, o2); if (!x || !y) break; }
  symi_check(a.f.empty() && a.m.empty(), "cleared-loader-is-fresh");
  symi_check(b.f.empty() && b.m.empty(), "second-loader-is-independent");
  symi_reach("end");
}
// two loaders fed in any interleaving, each with its own origin
extern "C" void d04_two() {
  DataLoader d[2]; Model m[2]; std::shared_ptr<CombinedMessage> out;
  int K = thorough() ? 6 : 4;
  for (int k = 0; k < K; k++) {
    uint32_t c = symi_choice(N("op", k), 4), w = c & 1;
    if (c & 2) pushF(d[w], m[w], T("t", k), k + 1, 0); else pushI(d[w], m[w], T("t", k), k + 1);
  }
  for (int w = 0; w < 2; w++) {
    for (int i = 0; i < K + 1; i++) if (!popOne(d[w], m[w], out)) break;
    symi_check(m[w].f.empty() && m[w].m.empty(), "loaders-are-independent");
  }
  symi_reach("end");
}
// long streams: all stamps fixed but two, one in each stream, and any period; read in between and drained at the end, or cleared in the middle
static void longStream(bool clear) {
  DataLoader d; Model m; std::shared_ptr<CombinedMessage> out; d.imuPeriod = symi_f64("period", 0, 0.0625); const int nf = 30, ni = 150; int every = 2 + 11 * symi_choice("reads", 2), at = symi_choice("at", 3), when = clear ? 20 + 110 * (int)symi_choice("when", 2) : -1;
  auto far = [](int i) { return LATE + (i < 40 ? 0 : 33554432.0); }; double lastF = 0, lastI = 0; bool hf = false, hi = false; int f = 0, all = 0;
  auto read = [&] { if (!popOne(d, m, out)) return false;
    if (out->featMeas) { if (hf) symi_check(out->featMeas->timeStamp > lastF, "camera-deliveries-increase"); hf = true; lastF = out->featMeas->timeStamp; }
    for (auto &x : out->imuMeas) { if (hi) symi_check(x->timeStamp > lastI, "inertial-deliveries-increase"); hi = true; lastI = x->timeStamp; } return true; };
  for (int i = 0; i < ni; i++) {
    pushI(d, m, i == 10 + 60 * at ? symi_f64("i", far(i) + (i - 4) / 64.0, far(i) + (i + 4) / 64.0) : far(i) + i / 64.0, i + 1); all++;
    if (i % 5 == 3 && f < nf) { pushF(d, m, f == 2 + 12 * at ? symi_f64("f", far(i) + (i - 7) / 64.0, far(i) + (i + 7) / 64.0) : far(i) + i / 64.0 + 1 / 256.0, f + 100, 0); f++; all++; }
    if (i % every == every - 1) read();
    if (i == when) { d.Clear(); Model fresh; m = fresh; hf = hi = false; }
  }
  for (int i = 0; i < all + 2 && read(); i++) ;
  symi_check(m.f.empty() && m.m.empty(), "every-accepted-message-was-delivered");
  symi_reach("end");
}
extern "C" void d01_long() { longStream(false); }
extern "C" void d04_long() { longStream(true); }
extern "C" void d03_long() {
  DataLoader d; Model m; std::shared_ptr<CombinedMessage> out; bool got; int ni = 40, nf = 5, at = symi_choice("at", 6), far = at == 5; if (far) ni = 150; std::vector<double> ft;
  for (int i = 0; i < ni; i++) { auto p = mkI(LATE - (i ? 0 : 33554432.0) + i / 64.0, 10 + i); p->gyro(1) = 0.25f * (i % 7) - 1; p->accel(0) = (i * 5 % 11) * 0.5f; if (i == 17 || i == 31) { p->gyro(1) = symi_f32(N("gy", i), -4, 4); p->accel(0) = symi_f32(N("ax", i), -20, 20); } double t = p->timeStamp; d.PushIMUMessage(p); double s = m.shift(t); if (!m.hm || s > m.lm) { m.hm = true; m.lm = s; m.m.push_back({p, s}); } }
  for (int i = 0; i < nf; i++) pushF(d, m, i == at ? symi_f64("f", LATE - 0.5, LATE + 1) : LATE + 0.0625 + i * (far ? 34 : 9) / 64.0 + (i % 2) / 128.0, i + 1, 0);
  for (int i = 0; i < nf + 2; i++) if (!popPacked(d, m, out, got)) break;
  symi_reach("end");
}
#include "pollute.hpp"
#ifndef SYMI_ASAN
extern "C" void symi_prelude() { pollute::data(); }
#endif
