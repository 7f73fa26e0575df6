// What other instances in the process did before the check starts: every harness runs the parts it uses
// once with other cameras, gravity, noise, landmarks and window sizes, so that anything remembered outside
// an object (function statics, caches, counters) shows up as a violation of the property at hand.
#pragma once
#include "upd.hpp"
#include <data_loader.hpp>
#include <attitude_estimate.hpp>
namespace pollute {
struct Gravity { Vector3 was = IMUFullState::gravity_w; Gravity() { IMUFullState::gravity_w = Vector3(0, 6, 8); } ~Gravity() { IMUFullState::gravity_w = was; } };
inline void data() {
  for (int k = 0; k < 2; k++) {
    DataLoader d; d.imuPeriod = 0.0625f; std::shared_ptr<CombinedMessage> m;
    for (int i = 0; i < 5; i++) { d.PushIMUMessage(std::make_shared<IMUMessage>(Vector3(1, 2, 3), Vector3(4, 5, 6), 500 + 0.25 * i)); auto f = std::make_shared<FeaturesMessage>(); f->timeStamp = 500.125 + 0.25 * i; f->ids = {7}; f->observes = {std::make_shared<FeatureObserve>()}; d.PushFeaturesMessage(f); if (i == 2) k ? d.PopPackedMessage(m) : d.PopOneMessage(m); }
    while (k ? d.PopPackedMessage(m) : d.PopOneMessage(m)) { } if (k) d.Clear();
  }
}
inline void attitude() {
  Gravity g; AttitudeEstimate a; a.bias_a = Vector3(0, 0, 1); a.bias_g = Vector3(0.5f, -0.25f, 0.125f); Quaternion q;
  a.Propagate(Vector3(1, 1, 1), Vector3(0, 0, 0), 1); for (int i = 0; i < 9; i++) a.Propagate(Vector3(i ? 3 : 0, 6, 9), Vector3(0.25f * i, -0.5f, 0.125f), 1 + 0.125 * i); a.GetAttitude(1.25, 0.5, q); a.GetAttitude(40, 0.5, q); a.CleanOldItems(1.25, 0.0625f);
}
inline void propagation() {
  Gravity g; FrameManager w; w.extrinsics.resize(3);
  for (int k = 0; k < 2; k++) { PropagateQueue p; p.propagator = &w; p.bias_a = Vector3(0.5f, 1, -1); p.bias_g = Vector3(0.25f, -0.25f, 0.5f); p.InitializeProcessNoiseMatrix(3, 5, 7, 9); p.initState = IMUMotionState(Vector3(5, 4, 3), Vector3(2, 1, 0), qc(1 - k)); for (int i = 0; i < 4; i++) p.Propagate(Vector3(1, 2, 9), k ? p.bias_g : Vector3(1, -1, 0.5f), 10 + (k ? 0.03125 * i : 0.125 * i * i)); p.ResetOrigin(10.125, 0.03125); p.Repropagate(); }
}
inline void windowed(World &w, int frames, int cams) {
  w.fr.maxWindowSize = 40; w.fr.minKeyframeTrackedFeatureNum = cams > 1 ? 50 : 0; w.up.measureNoise = 0.75f; w.up.maxUsedFeatures = 2;
  for (int c = 0; c < cams; c++) w.camera(qc(c + 1), Vector3(0.25f * c, 0.5f, -0.125f * c)); for (int i = 0; i < frames; i++) w.frame(qc(i + 1), Vector3(0.5f * i, 0.25f * i * i, -0.125f * i));
  w.fr.maxWindowSize = frames - 1;
  for (int k = 0; k < 3; k++) { std::vector<std::vector<Vector2>> z; std::vector<uint32_t> m; for (int i = k % 2; i < frames; i++) { m.push_back((1u << cams) - 1); z.emplace_back(); for (int c = 0; c < cams; c++) z.back().push_back(Vector2(0.125f * k, 0.0625f * i - 0.25f * c)); } w.track(5 + 2 * k, k % 2, m, z)->p_w = Vector3(3.5f, 2.25f, 1 + k); }
  w.item(100); w.pq.InitializeProcessNoiseMatrix(3, 5, 7, 9); w.pq.ResetProcessFunction();
}
inline void window() {
  for (int k = 0; k < 2; k++) { World w; windowed(w, 3 + k, 1 + k); for (int i = 0; i < 2; i++) { w.fr.IsKeyFrame(*std::next(w.fr.frames.rbegin())); w.fr.NeedMarginalize(); auto id = w.fr.frames[i % w.fr.frames.size()]->id; w.fr.GetFrame(id); w.fr.GetMaxFrameID(); w.fr.frames.front()->GetCovisibleFeatures(w.fr.frames.back()); w.fm.RemoveByFrameID(id, i == 0); w.fr.RemoveFrame(i); } }
}
inline void measurement() {      // the update without triangulation and decisions
  for (int k = 0; k < 2; k++) { World w; windowed(w, 2 + k, 2 - k); w.up.ConstructCovariance(); for (auto &f : w.fm.features) w.up.features.push_back(f.second); w.up.ConstructMeasurementFunction(); w.up.UpdateState(); w.up.margPolicy = k ? MARG_OLDEST : NO_MARG; w.up.ExpandCameraCovariance(); w.up.ReduceCameraCovariance(); w.up.UpdateCovariance(); }
}
#ifdef SYMI_STUBS
inline Matrix located(int k, const Matrix &, const Matrix &) { Matrix V = Matrix::Identity(4, 4); V(0, 3) = 0.5f; V(1, 3) = 0.25f; V(2, 3) = 9 + k; return V; }
inline void update() {
  Gravity g; auto was = symistub::svdVFn(); symistub::svdVFn() = located;
  for (int k = 0; k < 3; k++) { World w; windowed(w, 2 + k, 1 + k % 2); w.item(100.125); w.up.Update(100, 0.03125); }
  symistub::svdVFn() = was; symistub::log().clear();
}
inline void geometry() {
  auto was = symistub::svdVFn(); symistub::svdVFn() = located; Trianglator t; PnPSolver s; s.maxIterateTimes = 2; std::vector<Quaternion> q; std::vector<Vector3> p, x; std::vector<Vector2> z;
  for (int i = 0; i < 5; i++) { q.push_back(qc(i < 2 ? 0 : i)); p.push_back(Vector3(0.5f * i, 0.25f, 0)); x.push_back(Vector3(i - 2, 0.5f * i, 4 + i)); z.push_back(Vector2(0.125f * i, -0.0625f * i)); }
  Vector3 r(0.25f, 0.5f, 4); t.TrianglateAnalytic(q, p, z, r); r = Vector3(0.25f, 0.5f, 4); t.TrianglateIterative(q, p, z, r);
  Quaternion a(1, 0, 0, 0); Vector3 b(0, 0, 0); s.EstimatePose(x, z, a, b); s.EstimatePoseKernel(x, z, a, b); s.ransacParam.maxIterateTimes = 3; std::vector<bool> in; s.EstimatePoseRANSAC(x, z, a, b, in);
  symistub::svdVFn() = was; symistub::log().clear();
}
#endif
}
