// A sliding window with cameras and landmarks, shared by the update harnesses.
#pragma once
#include "common.hpp"
#include <multi_view_vision_update.hpp>
namespace {
using Vec = std::vector<Vector3>; using Vec2 = std::vector<Vector2>; using Qs = std::vector<Quaternion>;
const float QS[6][4] = {{1, 0, 0, 0}, {0.5f, 0.5f, -0.5f, 0.5f}, {0.5f, -0.5f, -0.5f, -0.5f}, {0, 1, 0, 0}, {0.5f, 0.5f, 0.5f, -0.5f}, {0.5f, -0.5f, 0.5f, 0.5f}};
inline Quaternion qc(int k) { k %= 6; return Quaternion(QS[k][0], QS[k][1], QS[k][2], QS[k][3]); }
// R' (x - p)
inline Vector3 into(const Quaternion &q, const Vector3 &p, const Vector3 &x) { Matrix33 R = rotOf(q); Vector3 r; for (int i = 0; i < 3; i++) r(i) = R(0, i) * (x(0) - p(0)) + R(1, i) * (x(1) - p(1)) + R(2, i) * (x(2) - p(2)); return r; }
inline Vector3 rot(const Quaternion &q, const Vector3 &x) { Matrix33 R = rotOf(q); Vector3 r; for (int i = 0; i < 3; i++) r(i) = R(i, 0) * x(0) + R(i, 1) * x(1) + R(i, 2) * x(2); return r; }
struct World {
  PropagateQueue pq; FeatureManager fm; FrameManager fr; Trianglator tri; PnPSolver pnp; MultiViewVisionUpdate up;
  World() { pq.propagator = &fr; up.propagator = &pq; up.featureManager = &fm; up.frameManager = &fr; up.trianglator = &tri; up.pnpSolver = &pnp; up.measureNoise = 0.5f; }
  void camera(const Quaternion &q, const Vector3 &p) { fr.extrinsics.emplace_back(Extrinsic(q, p)); }
  void frame(const Quaternion &q, const Vector3 &p, uint32_t firstId = 1) {
    auto f = std::make_shared<Frame>(100.0 + fr.frames.size()); fr.AddNewFrame(f); if (fr.frames.size() == 1) f->id = firstId; f->q_wb = q; f->p_wb = p; f->v_wb = Vector3(0.5f, 0.25f, -1);
  }
  std::shared_ptr<IMUPropagateQueueItem> item(double t) {
    auto it = std::make_shared<IMUPropagateQueueItem>(); it->timeStamp = t; it->accel = Vector3(0, 0, 1); it->gyro = Vector3(0, 0, 0); it->nominalState = IMUMotionState(Vector3(1, 2, 3), Vector3(-1, 0.5f, 0.25f), qc(1));
    int n = 6 * (int)(fr.extrinsics.size() + fr.frames.size()) - 6; it->imuCov.setIdentity(); it->imuExCamCov.setZero(15, n); if (pq.items.empty()) pq.exCamCov.setIdentity(n, n);
    pq.items.push_back(it); return it;
  }
  // landmark observed from frame index `first` on, by the cameras of each mask
  std::shared_ptr<Feature> track(uint32_t id, int first, const std::vector<uint32_t> &masks, const std::vector<std::vector<Vector2>> &z) {
    std::shared_ptr<Feature> f; uint32_t fid = fr.frames.front()->id + first;
    for (size_t i = 0; i < masks.size(); i++) {
      auto o = std::make_shared<FeatureObserve>(); for (uint32_t c = 0; c < fr.extrinsics.size(); c++) if (masks[i] >> c & 1) o->norms[c] = z[i][c];
      std::vector<std::shared_ptr<Feature>> ch; fm.AddNewFeatures({id}, {o}, fid + i, ch); f = fm.features.at(id);
    }
    for (size_t i = 0; i < masks.size(); i++) fr.frames[first + i]->AddFeature(f);
    return f;
  }
  int cols() const { return 15 + 6 * (int)(fr.extrinsics.size() + fr.frames.size()) - 6; }
};
// measurement rows of one observation from the camera model: derivative of the prediction, [Hf | Hx | r]
inline void modelRows(const World &w, int frameIdx, int cam, const Vector3 &pw, const Vector2 &z, Matrix &out) {
  const Frame &f = *w.fr.frames[frameIdx]; const Extrinsic &e = w.fr.extrinsics[cam]; int nc = w.fr.extrinsics.size(), cols = w.cols();
  Matrix33 A = rotOf(f.q_wb), C = rotOf(e.q_bc); Vector3 b = into(f.q_wb, f.p_wb, pw), c = into(e.q_bc, e.p_bc, b); Matrix33 Sb = skewOf(b), Sc = skewOf(c);
  auto ct = [&](const Vector3 &d) { Vector3 r; for (int i = 0; i < 3; i++) r(i) = C(0, i) * d(0) + C(1, i) * d(1) + C(2, i) * d(2); return r; };
  out = Matrix::Zero(2, 3 + cols + 1); int fc = frameIdx == (int)w.fr.frames.size() - 1 ? -1 : 3 + 15 + 6 * nc + 6 * frameIdx, ec = 3 + 15 + 6 * cam;
  auto put = [&](int col, const Vector3 &dc) { for (int i = 0; i < 2; i++) out(i, col) = (dc(i) * c(2) - c(i) * dc(2)) / (c(2) * c(2)); };
  for (int j = 0; j < 3; j++) {
    Vector3 db(A(j, 0), A(j, 1), A(j, 2));                      // d b / d p_w
    put(j, ct(db)); put(fc < 0 ? 3 + j : fc + j, ct(-db));
    Vector3 th(Sb(0, j), Sb(1, j), Sb(2, j)); put(fc < 0 ? 3 + 6 + j : fc + 3 + j, ct(th));
    Vector3 e1(0, 0, 0); e1(j) = -1; put(ec + j, ct(e1));
    put(ec + 3 + j, Vector3(Sc(0, j), Sc(1, j), Sc(2, j)));
  }
  for (int i = 0; i < 2; i++) out(i, 3 + cols) = z(i) - c(i) / c(2);
}
inline float depthIn(const World &w, int frameIdx, int cam, const Vector3 &pw) { const Frame &f = *w.fr.frames[frameIdx]; const Extrinsic &e = w.fr.extrinsics[cam]; return into(e.q_bc, e.p_bc, into(f.q_wb, f.p_wb, pw))(2); }
}
