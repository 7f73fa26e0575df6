#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
B = "eskf_vio_backend/"
S = B + "src/"
DL = S + "data_manager/data_loader.cpp"
FM = S + "data_manager/vision_data/feature_manager.cpp"
FR = S + "data_manager/vision_data/frame_manager.cpp"
SP = S + "propagate/sequence_propagator.cpp"
AE = S + "propagate/attitude_estimate.cpp"
TR = S + "geometry/trianglation.cpp"
PN = S + "geometry/perspective_n_point.cpp"
MU = S + "update/multi_view_vision_update.cpp"
BE = S + "backend/backend.cpp"
BI = S + "backend/backend_initialize.cpp"
BC = S + "backend/backend_config.cpp"
CF = S + "config/config.cpp"
ML = B + "include/utility/math_lib.hpp"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

SIM = "The three scene programs push one fixed, already sorted recording; "

prop("D01", "Sensor messages are delivered once, in strictly increasing time per stream",
 "Whatever sequence of inertial and camera messages is submitted, every message whose time stamp is later than all accepted ones of its stream is eventually delivered exactly once and unaltered, and every other one is never delivered; camera messages whose id and observation lists differ in length are refused. Within each stream, deliveries are in strictly increasing time order.",
 ["inputs", "histories"], "all submission sequences up to a bounded length, all finite time stamps and sample values, all positions of the reads between them",
 SIM + "duplicated, late and interleaved-late messages never occur in them, and delivery order is not looked at.",
 [DL, S + "data_manager/data_typedef.cpp"], [("per-stream newest-stamp filter on input", "DataLoader::PushFeaturesMessage / PushIMUMessage"), ("queues popped from the front", "DataLoader::PopOneMessage")],
 [("featMeas/imuMeas", "pending messages per stream", B + "include/data_manager/data_loader.hpp")], ["DataLoader::PopOneMessage"])

prop("D02", "Next-message delivery merges both streams earliest-first",
 "When both streams have pending messages, a single-message read delivers the pending message with the earlier time stamp, a camera message winning a tie; a camera message is delivered together with the next inertial sample exactly when that sample is less than one inertial period later. When only one stream has pending messages its oldest one is delivered alone, and when none has, the read reports failure and delivers nothing.",
 ["inputs", "histories"], "all pending queues up to a bounded length, all finite time stamps (IEEE doubles) and all inertial periods",
 SIM + "exact ties, near-ties at the period boundary and one-sided queues are not exercised or not judged.",
 [DL], [("front comparison and bundling window", "DataLoader::PopOneMessage")], None, ["DataLoader::PopOneMessage"])

prop("D03", "Packed delivery tiles time and interpolates the inertial sample at the image",
 "A packed read delivers a camera message only once a later inertial sample exists, together with exactly the inertial samples from the previous delivery's end up to the image time, and the last of them carries the image time stamp (to one microsecond); when no sample is there, it is the linear interpolation of its two neighbours. The next packed delivery starts from that same sample; an image not preceded by any inertial sample is discarded without a delivery, and a refused read loses no other message.",
 ["inputs", "histories"], "all pending queues up to a bounded length, all time stamps and sample values",
 "No test program calls the packed read at all.",
 [DL], [("packed read and interpolation", "DataLoader::PopPackedMessage")], None, ["DataLoader::PopPackedMessage"])

prop("D04", "Delivered time stamps share one origin and loaders are independent",
 "All messages delivered by one loader have their submitted time stamps shifted by one common origin, the stamp of the first message submitted since construction or clearing. A cleared loader, and a second loader in the same process, behave exactly like a freshly constructed one, whatever was submitted before or elsewhere.",
 ["inputs", "histories"], "all short histories on one or two loaders with clearing at any point, all finite time stamps",
 "The test programs use one loader once, and their checker tolerates a wrong origin.",
 [DL, B + "include/data_manager/data_loader.hpp"], [("time origin and newest-stamp memory", "DataLoader::Clear / Push*Message")],
 [("timeStampOffset", "time origin", B + "include/data_manager/data_loader.hpp")], ["DataLoader::PopOneMessage"])

prop("F01", "Landmark tracks stay exact while frames and observations come and go",
 "After any history of adding observations for a new frame and removing the oldest or any other frame of the window, looking up a landmark's observation by frame and camera yields exactly what was submitted for that surviving frame and camera and nothing otherwise; the recorded observation count equals the number of surviving observations and the first and last observing frames are right. A landmark disappears from the store exactly when its last observing frame is removed, and adding reports exactly the touched landmarks.",
 ["inputs", "histories"], "all windows, track layouts, camera subsets and removal positions within the stated bounds, all observation values; tracks without gaps, as the interface documents",
 "In the recorded scenes every landmark is seen by both cameras in every frame, so partial tracks, mono observations and mid-track removals never occur.",
 [FM, B + "include/data_manager/vision_data/feature_manager.hpp", S + "data_manager/data_typedef.cpp"],
 [("add / remove with id shift", "FeatureManager::AddNewFeatures / RemoveByFrameID"), ("lookup", "Feature::GetNorm, FinalFrameID; FeatureObserve::GetNorm")],
 [("features, firstFrameID, observes, observeNum", "track store", B + "include/data_manager/vision_data/feature_manager.hpp")], ["Feature::GetNorm", "FeatureManager::features"])

prop("F02", "The frame window keeps consecutive ids, order and contents",
 "After any history of appending frames and removing frames at any position, the window holds exactly the surviving frames in arrival order with consecutive ids, each keeping its own time stamp, pose and landmark links; a new frame starts from the newest frame's pose and velocity (the first one from the identity at rest). Looking up an id returns that frame and nothing for an id outside the window, the co-visible landmarks of two frames are exactly their common ones, removing outside the window is refused, and marginalisation is requested exactly when the window exceeds its limit.",
 ["inputs", "histories"], "all append/remove histories up to a bounded length, all ids, poses and time stamps",
 "The scenes only ever fill a window of six and remove its first or second-newest frame; ids and lookups are not judged.",
 [FR, B + "include/data_manager/vision_data/frame_manager.hpp"],
 [("append, removal with id shift, lookup", "FrameManager::AddNewFrame / RemoveFrame / GetFrame / GetMaxFrameID / NeedMarginalize"), ("covisibility", "Frame::GetCovisibleFeatures")],
 [("frames", "sliding window", B + "include/data_manager/vision_data/frame_manager.hpp")], ["FrameManager::frames"])

prop("F03", "Keyframe and marginalisation decisions follow the configured thresholds",
 "A frame of the window is a keyframe exactly when it is the oldest one, or shares fewer first-camera tracks with its predecessor than the configured minimum, or moved farther from it than the configured distance. When the window exceeds its limit the oldest frame is dropped if the second-newest is a keyframe and the second-newest is dropped otherwise; below the limit nothing is dropped, and the drop removes exactly that frame and its observations from both stores.",
 ["inputs", "configurations"], "all window sizes, positions, track overlaps and thresholds within bounds, all positions in space",
 "The scenes exercise a single configuration and the outcome of the individual decision is never looked at.",
 [FR, MU, BE], [("keyframe rule", "FrameManager::IsKeyFrame"), ("policy", "MultiViewVisionUpdate::DecideMargPolicy"), ("effect", "Backend::MarginalizeFeatureFrameManager")], None, ["MultiViewVisionUpdate::margPolicy"])

prop("P01", "Inertial propagation integrates motion by the midpoint rule",
 "Each inertial sample advances the newest state by the midpoint rule: attitude by the mean bias-corrected rate, velocity by the mean of the two bias-corrected accelerations rotated into the world less gravity, position by the mean velocity, each over the elapsed time, with a unit attitude result. The first sample creates a state equal to the configured initial state, samples are recorded unaltered in order, and earlier states are not modified.",
 ["inputs"], "all unit attitudes, biases, measurements, gravity values, velocities, positions and time steps (real arithmetic)",
 "The scene check accepts three metres of position error, so moderate errors in any term pass.",
 [SP, S + "propagate/imu_state.cpp", ML], [("midpoint integration", "PropagateQueue::Propagate / PropagateMotionNominalState")], [("items", "propagated states", B + "include/propagate/sequence_propagator.hpp")], ["PropagateQueue::items"])

prop("P02", "Covariance propagation is the linearisation of the state propagation",
 "Propagating over a time step maps the inertial covariance P to F P F' + G Q G' and its cross-covariance C to F C, where F and G agree, to first order in the time step, with the derivatives of the integrated motion with respect to errors of position, velocity, attitude and biases and to measurement and bias noise. The result is symmetric whenever P is, whatever was propagated before, and Q is the diagonal of the four configured noise values per axis.",
 ["inputs", "histories"], "all covariances and cross-covariances, attitudes, measurements, biases and time steps (real arithmetic)",
 "No test looks at a covariance; a wrong noise or Jacobian block still passes within the three-metre tolerance.",
 [SP, B + "include/propagate/sequence_propagator.hpp"], [("error-state transition", "PropagateQueue::PropagateFullErrorStateCovariance"), ("noise", "PropagateQueue::InitializeProcessNoiseMatrix / ResetProcessFunction")], [("imuCov, imuExCamCov, F, G, Q", "error statistics", B + "include/propagate/sequence_propagator.hpp")], ["PropagateQueue::items"])

prop("P03", "Re-propagation equals propagating the stored samples afresh",
 "Re-propagating from the first retained sample yields, for every later sample, exactly the state, covariance and cross-covariance that feeding the same samples one by one from that first state and the current biases would give, and leaves the first state, samples and time stamps untouched. In particular repeating it changes nothing.",
 ["inputs", "histories"], "all queues up to a bounded length, all states, biases, samples and time steps (real arithmetic)",
 "In the scenes at most one sample follows the update point, and intermediate states are not compared.",
 [SP], [("re-propagation loop", "PropagateQueue::Repropagate")], None, ["PropagateQueue::items"])

prop("P04", "Trimming history drops exactly the outdated entries",
 "Resetting the propagation origin, and cleaning the attitude history, to a time and tolerance removes exactly the leading entries older than the time by more than the tolerance, and keeps all others unchanged in order. If nothing remains, the origin reset reports failure and neither operation misbehaves.",
 ["inputs"], "all queues up to a bounded length, all increasing finite time stamps (IEEE doubles), all tolerances",
 "The scenes never have a sensor gap, so the empty outcome and boundary cases never occur.",
 [SP, AE], [("origin reset", "PropagateQueue::ResetOrigin"), ("history cleaning", "AttitudeEstimate::CleanOldItems")], None, ["PropagateQueue::items", "AttitudeEstimate::items"])

prop("A01", "Initial attitude aligns measured gravity with world gravity",
 "The first accelerometer sample starts the attitude only if its bias-corrected magnitude is within 0.04 of gravity's, and then yields a unit attitude that rotates the measured direction onto the world gravity direction, for every tilt including exactly level. Otherwise it is refused and no attitude is produced.",
 ["inputs"], "all accelerometer vectors, biases and gravity magnitudes (real arithmetic)",
 "The recordings start from two poses only and the resulting attitude is not compared with the truth.",
 [AE], [("gravity alignment", "AttitudeEstimate::Propagate, first sample")], None, ["AttitudeEstimate::items"])

prop("A02", "Attitude tracking integrates the gyro with gravity feedback",
 "Each later sample rotates the last attitude by the mean bias-corrected rate plus the proportional and accumulated integral gravity-direction error times the elapsed time, in the same rotational sense as the inertial propagation, and gives a unit attitude. A sample older than the last one is refused and changes nothing, and attitude errors are corrected towards the measured gravity direction.",
 ["inputs"], "all unit attitudes, measurements, biases, gains and non-negative time steps (real arithmetic)",
 "Only the attitude of the very first sample influences the scenes noticeably; a wrong sense of rotation passes all tests.",
 [AE], [("complementary filter", "AttitudeEstimate::Propagate, later samples")], None, ["AttitudeEstimate::items"])

prop("A03", "Attitude lookup returns the nearest estimate within tolerance",
 "Asking for the attitude at a time succeeds exactly when some stored estimate is closer in time than the tolerance, and then returns the closest one (the earlier on a tie); otherwise it fails and leaves the output untouched.",
 ["inputs"], "all histories up to a bounded length with increasing finite time stamps (IEEE doubles), all query times and tolerances",
 "The scenes query it once, in the regular case.",
 [AE], [("lookup", "AttitudeEstimate::GetAttitude")], None, ["AttitudeEstimate::GetAttitude"])

prop("G01", "Linear triangulation solves the projection constraints and checks depth",
 "Linear triangulation poses one pair of constraints per view that the true point satisfies exactly for error-free observations, and returns the dehomogenised solution of that system. It reports success only if there are at least two views, the solution is not at infinity, and the returned point lies behind none of the cameras.",
 ["inputs"], "all camera poses, points and observations for a bounded number of views, every possible null vector (real arithmetic)",
 "One test triangulates one point from six fixed views.",
 [TR], [("constraint rows, null vector, cheirality", "Trianglator::TrianglateAnalytic")], None, ["Trianglator::TrianglateAnalytic"])

prop("G02", "Iterative triangulation never returns a worse point and uses true derivatives",
 "Iterative triangulation returns a point whose total reprojection cost does not exceed that of the starting point, whatever steps its inner solver proposes. Its residual is the predicted minus the observed normalised coordinates, its Jacobian is the derivative of that residual in inverse-depth coordinates, and its robust weight is one up to the threshold and decreases beyond it.",
 ["inputs"], "all poses, points and observations; all proposed steps for a bounded number of iterations (real arithmetic)",
 "The test runs one well-conditioned problem and its derivative errors are masked by damping.",
 [TR], [("damped iteration", "Trianglator::TrianglateIterative"), ("derivatives", "Trianglator::CumputeJacobian / ComputeResidual")], None, ["Trianglator::TrianglateIterative"])

prop("G03", "Pose estimation solves the true least-squares normal equations",
 "Each pose iteration, plain or robust, solves the normal equations built from the true derivatives of the reprojection residuals with respect to camera position and orientation over all given matches, each weighted by its robust weight, and applies the solution to position and, on the right, to orientation, keeping it a unit. Matches at zero depth are skipped, and unequal or empty match lists and an undefined solution are reported as failure.",
 ["inputs"], "all poses, points and matches up to a bounded number; every solver outcome (real arithmetic)",
 "The test solves one synthetic problem; missing weights or a wrong Jacobian block only slow convergence down.",
 [PN], [("Gauss-Newton loop", "PnPSolver::EstimatePose / EstimatePoseKernel")], None, ["PnPSolver::EstimatePose"])

prop("G04", "Robust pose sampling returns its best model and true inlier flags",
 "Sampling-based pose estimation returns, among the starting pose and all models it tried, one that no other tried model exceeds in the number of matches whose squared reprojection error is below the threshold, and terminates for every input, failing on fewer than three matches. The inlier flags say for each match exactly whether it is below the threshold under the returned pose, whatever the flag list contained before.",
 ["inputs", "histories"], "all match sets up to a bounded size, every sequence of random draws and of trial models",
 "The single test stops at the first all-inlier model.",
 [PN], [("sampling loop, scoring, inlier flags", "PnPSolver::EstimatePoseRANSAC")], None, ["PnPSolver::EstimatePoseRANSAC"])

prop("U01", "Measurement residuals and Jacobians are those of the camera model",
 "For every observation of a landmark used in an update, the residual is the observed minus the predicted normalised coordinates and the measurement rows are the exact derivatives of the prediction with respect to the landmark, the observing frame's position and orientation, and that camera's mounting position and orientation. Each derivative stands in the columns of the state it belongs to (the newest frame being the inertial state itself) and all other columns are zero.",
 ["inputs", "configurations"], "all poses, mountings, landmarks and observations, all bounded layouts of frames, cameras and tracks (real arithmetic)",
 "A wrong or misplaced block, say for the second camera's mounting, leaves the scenes within their tolerance.",
 [MU], [("per-landmark measurement", "MultiViewVisionUpdate::ConstructMeasurementFunction(feature)")], [("Hx_r", "stacked measurement", B + "include/update/multi_view_vision_update.hpp")], ["MultiViewVisionUpdate::Hx_r"])

prop("U02", "Landmark elimination and compression preserve the measurement information",
 "The measurement of a landmark handed to the filter is its stacked rows multiplied by an orthonormal basis of the directions its position cannot influence: it has exactly three rows fewer and does not change when the landmark's position estimate enters the residual linearly. Stacking several landmarks keeps every landmark's rows, and compressing a tall system preserves its information matrix and information vector.",
 ["inputs", "configurations"], "all residuals, all bounded layouts of tracks and all orthogonal transforms within the stated family (real arithmetic)",
 "Losing or duplicating rows of some landmarks only changes accuracy, which the scene tolerance hides.",
 [MU], [("left null space, stacking, QR compression", "MultiViewVisionUpdate::ConstructMeasurementFunction")], None, ["MultiViewVisionUpdate::Hx_r"])

prop("U03", "The correction is the Kalman gain with the configured pixel noise",
 "An update computes the error estimate K r and covariance (I - K H) P, symmetrised, with K = P H' (H P H' + s^2 I)^-1 for the configured image noise deviation s. The resulting covariance is symmetric.",
 ["inputs"], "all covariances, measurement rows and residuals within stated dimensions (real arithmetic)",
 "No test looks at gains or covariances.",
 [MU, ML], [("gain and covariance", "MultiViewVisionUpdate::UpdateState"), ("inverse", "Utility::Inverse")], [("covariance, delta_x, K", "filter statistics", B + "include/update/multi_view_vision_update.hpp")], ["MultiViewVisionUpdate::covariance"])

prop("U04", "Every estimated quantity receives exactly its own correction",
 "Applying an error estimate adds its parts to position, velocity and both biases, and multiplies orientations on the right by the corresponding small rotation, for the inertial state, every camera mounting and every older frame of the window; the newest frame becomes identical to the inertial state. All orientations stay unit and nothing else changes.",
 ["inputs", "configurations"], "all error vectors and states, all bounded numbers of cameras and frames (real arithmetic)",
 "Swapped or omitted parts of the mounting or window corrections stay within the scene tolerance.",
 [MU], [("state injection", "MultiViewVisionUpdate::UpdateState")], None, ["PropagateQueue::items", "FrameManager::frames", "FrameManager::extrinsics"])

prop("U05", "Assembling, extending and storing the covariance keeps every entry",
 "The full covariance used in an update consists exactly of the propagated inertial block, its cross-covariance and its transpose, and the stored mounting-and-window block. Extending it for the newest frame adds rows and columns equal to those of the inertial position and orientation, changes nothing else, and storing it writes every block back unchanged.",
 ["inputs", "configurations"], "all covariance entries, all bounded numbers of cameras and frames",
 "No test looks at a covariance.",
 [MU], [("assemble / extend / store", "MultiViewVisionUpdate::ConstructCovariance / ExpandCameraCovariance / UpdateCovariance")], None, ["MultiViewVisionUpdate::covariance"])

prop("U06", "Marginalising a frame removes exactly its covariance rows and columns",
 "Dropping the oldest, the second-newest or the newest frame leaves the covariance with exactly that frame's six rows and columns removed and every other entry unchanged, and dropping none leaves it as it is.",
 ["inputs", "configurations"], "all covariance entries, all policies and bounded numbers of cameras and frames",
 "No test looks at a covariance.",
 [MU], [("reduction", "MultiViewVisionUpdate::ReduceCameraCovariance")], None, ["MultiViewVisionUpdate::covariance"])

prop("U07", "Feature selection uses distinct triangulated landmarks up to the limit",
 "An update uses only landmarks seen in the newest frame whose triangulation from all their surviving observations, with each view posed as frame pose combined with camera mounting, succeeded; no landmark twice, never more than the configured maximum, and all successful ones when they do not exceed it. Without any usable landmark the update still succeeds and only extends or shrinks the window.",
 ["inputs", "configurations"], "all bounded sets of landmarks, triangulation outcomes, random draws and limits; all poses (real arithmetic)",
 "In the scenes every landmark triangulates in every frame.",
 [MU], [("selection", "MultiViewVisionUpdate::SelectGoodFeatures / TrianglizeMultiFrame")], None, ["MultiViewVisionUpdate::features"])

prop("U08", "An update keeps window, state and covariance sizes consistent",
 "After any successful sequence of propagations, updates and marginalisations, the inertial, cross and window covariance blocks have exactly the sizes implied by the number of cameras and of frames in the window, for every retained sample. An update whose covariance does not fit the window is refused, as is one for which no sample near the image time is left.",
 ["histories", "configurations"], "all bounded histories of images, keyframe outcomes and samples after the image",
 "Size agreement is only implied by the scenes not crashing in a single configuration.",
 [MU, SP, BE], [("update sequence", "MultiViewVisionUpdate::Update"), ("size check", "MultiViewVisionUpdate::ConstructCovariance")], None, ["PropagateQueue::items"])

prop("C01", "Configuration values reach the estimator verbatim",
 "Loading a configuration directory sets every parameter of every module to the value in its file (the inertial period being the reciprocal of the configured frequency, and camera mountings being read in order until the first missing one), and keeps the default of each parameter whose file is absent. Surplus lines in a file do not disturb anything.",
 ["inputs", "configurations"], "all parameter values, all subsets of present files and small deviations in line count",
 "The scenes load one complete, well-formed directory.",
 [CF, BC], [("file reading", "Configurator::ReadConfigParams / LoadMatrix"), ("distribution", "Backend::ConfigParams")], None, ["Backend::ConfigParams"])

prop("B01", "Initialisation sets pose and velocity from the first two frames",
 "Initialisation succeeds only with two frames at different times, an attitude estimate near the first one, and at least ten landmarks triangulated in it and seen by the first camera in the second. It then places the first frame at the origin with that attitude, poses the second by the estimated camera pose combined with the inverse mounting, sets both velocities to displacement over elapsed time, and starts propagation from the first frame's state through the raw inertial samples kept since then; otherwise the estimator stays uninitialised.",
 ["inputs", "configurations"], "all poses, mountings, time stamps and solver outcomes, bounded numbers of frames, landmarks and samples (real arithmetic)",
 "The scenes initialise once each, always at the first opportunity and from bias-free samples.",
 [BI, BE], [("initialisation steps", "Backend::Initialize / TrianglizeMultiView / EstimateFramePose / InitializePropagator")], None, ["Backend::PublishUpdateState"])

prop("B02", "Each step consumes one message and moves the estimator consistently",
 "Every step consumes one delivered message: an inertial sample always feeds the attitude estimate and, once initialised, the propagation; an image always enters the window and, once initialised, triggers an update at its time. A failed initialisation or update leaves the estimator uninitialised with a window of one frame so that a later initialisation starts afresh, a reset of the estimator asks for a new initialisation from the frames it still has, and the window never exceeds its limit after a step.",
 ["histories", "inputs"], "all bounded histories of messages and of initialisation and update outcomes",
 "The scenes never fail an update and never re-initialise.",
 [BE, BI], [("step", "Backend::RunOnce"), ("managers", "Backend::UpdateFeatureFrameManager / MarginalizeFeatureFrameManager")], [("status", "initialised or not", B + "include/backend/backend.hpp")], ["Backend::RunOnce"])

prop("B03", "Published states are the newest propagated and the updated state",
 "The published propagated state is the pose, velocity and time of the newest retained sample and the published updated state that of the oldest one, both with the current biases; without any sample publishing fails and leaves the outputs untouched. Publishing changes no estimate.",
 ["inputs"], "all states, biases and queue lengths up to a bound",
 "Only the propagated position is looked at, coarsely.",
 [BE], [("publishing", "Backend::PublishPropagateState / PublishUpdateState")], None, ["Backend::PublishPropagateState"])

prop("M01", "Rotation helpers satisfy their defining identities",
 "The skew matrix of a vector times any vector is their cross product; the left and right quaternion matrices times a quaternion are the respective products; the small-rotation quaternion is one plus half the vector; the homogeneous transform applies rotation then translation; Euler angles and rotation magnitudes are those of the given rotation; and the symmetric inverse times the matrix is the identity on the range. All variants of a helper agree.",
 ["inputs"], "all vectors and unit quaternions (real arithmetic)",
 "Several helpers are not executed by any test, the others only indirectly.",
 [ML], [("helpers", "Utility")], None, ["Utility"])

prop("M02", "Messages, landmarks, frames and states hold what they are built from",
 "A message, observation, landmark, frame, mounting or state built from given values holds exactly these, each in its own place, and answers lookups with them without changing; a camera message built from lists of different length holds nothing. Clearing, resetting or initialising leaves the same as freshly constructed and spares everything shared with others. A frame holds exactly the landmarks associated with it, and removing a landmark from the store removes no other and keeps all tracks.",
 ["inputs", "histories"], "all values; all list lengths, subsets and removals within the bounds",
 "The programs build one kind of message with equal lists; most constructors, clearing, resetting and removal by id are never executed.",
 [B + "include/data_manager/data_typedef.hpp", S + "data_manager/data_typedef.cpp", S + "propagate/imu_state.cpp", FM, FR], [("construction, clearing and lookups", "FeatureObserve, FeaturesMessage, IMUMessage, CombinedMessage, IMUFullState, IMUMotionState, Extrinsic, Feature, Frame"), ("removal by id", "FeatureManager::RemoveByID")], None, ["FeatureObserve::GetNorm", "Frame::features", "FeatureManager::features"])

prop("E01", "A complete visual update is the optimal correction of the whole window",
 "An update at an image first moves the newest frame to the propagated pose at the image time and triangulates from there; then the inertial state, both biases, every camera mounting and every frame of the window receive exactly the linear minimum-variance correction that all observations of the used landmarks imply under the prior covariance, the landmarks' own errors eliminated. Observations that agree with the current estimate move nothing. The stored covariance is the reduced one with the newest pose cloned and the dropped frame removed, later inertial samples are propagated again from the corrected state, and leftovers of earlier updates have no effect.",
 ["inputs", "configurations"], "all observation offsets in the bound, all velocities; window sizes, camera counts, track layouts and drop decisions within the bounds",
 "The scene programs look at a trajectory error of the final pose; a correction that is a little off, wrongly ordered or ignores some observations still converges there.",
 [MU, SP], [("order of the update's steps", "MultiViewVisionUpdate::Update"), ("pose of the newest frame", "MultiViewVisionUpdate::UpdateNewestFramePose"), ("stacked measurement, gain and correction", "MultiViewVisionUpdate::ConstructMeasurementFunction / UpdateState")], None, ["PropagateQueue::items", "FrameManager::frames"])

prop("E02", "Estimators in one process do not influence each other",
 "What an estimator, or one of its parts (attitude estimation, propagation, triangulation, pose estimation), does depends only on its own configuration, own earlier input and the global gravity vector and random numbers: with any other instance constructed, fed and stepped before or in between it produces the same states, covariances, windows, landmarks and results as a fresh one given the same input.",
 ["inputs", "histories", "schedules"], "all interleavings of the listed kinds of two instances' steps, all inputs within the bounds",
 "Every test program holds exactly one estimator and runs it once.",
 [MU, BE, BI, SP, AE, TR, PN], [("function-local static buffers", "TrianglizeMultiFrame, TrianglizeMultiView, EstimateFramePose, UpdateState, ReduceCameraCovariance")], None, ["Backend::RunOnce"])

prop("S01", "No input makes the estimator touch memory it does not own",
 "For every submitted message history and configuration within the documented preconditions, the data loader, stores, estimators and solvers access only live memory they own and terminate normally.",
 ["inputs", "histories", "configurations"], "all paths of the operations explored for the other properties, plus sensor gaps and long queues, within the same bounds",
 "The recorded scenes have no gaps and queue boundaries are hit without any detection of invalid accesses.",
 [DL, FM, FR, AE, SP, CF, PN], [("container handling", "all modules")], None, ["process behaviour"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
