"""What each check runs: harness entries, modes, bounds."""
COMMON_ASSUMPTIONS = [
    'the analysed program is the clang -O1 LLVM IR of /repo/eskf_vio_backend (EIGEN_DONT_VECTORIZE, -ffp-contract=off); the replay build runs the same IR un-instrumented',
    'mode real: float/double arithmetic is exact real arithmetic (rounding and overflow are outside the claim); mode fp: IEEE-754 bit-precise',
    'memory addresses are concrete on every path; pointer-valued inputs come only from the harness',
    'z3 4.8.12 and the exact polynomial normaliser of the run time are trusted',
]


def E(harness, entry, mode='real', **kw):
    d = dict(harness=harness, entry=entry)
    opts = {'mode': mode}
    for k in ('budget', 'timeout', 'pathsec', 'maxpaths', 'maxbr', 'div0', 'enum', 'dump'):
        if k in kw:
            opts[k] = kw.pop(k)
    d['opts'] = opts
    d.update(kw)
    return d


SPECS = {}


def spec(pid, entries, bounds, **kw):
    SPECS[pid] = dict(entries=entries, bounds=bounds, **kw)


spec('D01', [E('H_data', 'd01_history', budget=25), E('H_data', 'd01_interleaved', budget=25), E('H_data', 'd01_stream_fp', 'fp', budget=25), E('H_data', 'd01_long', budget=30)],
     'histories of up to 4 (thorough 6) operations out of {camera push, inertial push, single read, camera push with mismatched lists of 4 kinds}, 5 (7) without the mismatched push, all drained at the end; every time stamp any real in [0, 2^20] s; one 4-push stream bit-precise in IEEE double; streams of 150 inertial and 30 camera messages with one stamp of each stream and the period symbolic, from 2^30 s on with a pause of 2^25 s')
spec('D02', [E('H_data', 'd02_merge', budget=30), E('H_data', 'd02_bundle_fp', 'fp', budget=20), E('H_data', 'd01_long', budget=30)],
     'up to 2 camera and 3 inertial messages (thorough 3 and 4) with any stamps in [0, 2^20] s and any period in [0,1] s; the bundling rule bit-precise in IEEE double for one message per stream; streams of 150 inertial and 30 camera messages with one stamp of each stream and the period symbolic, from 2^30 s on with a pause of 2^25 s')
spec('D03', [E('H_data', 'd03_packed', budget=30), E('H_data', 'd03_refused', budget=15), E('H_data', 'd03_history', budget=30), E('H_data', 'd03_long', budget=20)],
     'up to 2 images and 4 (thorough 5) inertial samples with any stamps in [0,64] s and symbolic measurements; interleaved histories of 5 (7) pushes and packed reads; 40 samples and 5 images (150 samples, 34 per image) with one image time and two measurements symbolic')
spec('D04', [E('H_data', 'd04_clear', budget=30), E('H_data', 'd04_two', budget=30), E('H_data', 'd04_long', budget=30)],
     'up to 3 operations on this or another loader before clearing, then up to 1 camera and 2 inertial messages; two loaders fed 4 (6) messages in any interleaving; a stream of 180 messages cleared after 20 or 130 samples')
spec('F01', [E('H_frames', 'f01_one', budget=35), E('H_frames', 'f01_pairs', budget=35), E('H_frames', 'f01_refused', budget=10), E('H_frames', 'f01_long', budget=20)],
     'histories of 4 (thorough 5) frames, 2 (3) removals of any frame and 1 more frame over two landmarks (one with any subset of two cameras, one with both or none); 2 (4) frames, 1 (2) removals, 1 (2) frames with any camera subsets for both landmarks; any first frame id in [1, 100000]; all observation values; 270 landmarks over 12 frames with two removals',
     outside='tracks with gaps (a landmark observed again after a surviving frame that did not see it), which the interface excludes')
spec('F02', [E('H_frames', 'f02_window', budget=35), E('H_frames', 'f02_full', budget=35), E('H_frames', 'f02_covisible', budget=20), E('H_frames', 'f02_long', budget=40)],
     'histories of 3 (thorough 5) appends, removals at any index (in or outside the window) from the empty window and 2 (3) from a window of 4 (5); all poses, stamps, looked-up ids and window limits up to 6; co-visibility of any subsets of 4 landmarks; windows of 14 frames with 31 landmarks each, two removals and any limit up to 40')
spec('F03', [E('H_frames', 'f03_keyframe', budget=35), E('H_frames', 'f03_policy', budget=30), E('H_frames', 'f03_effect', budget=35), E('H_frames', 'f03_long', budget=20)],
     'windows of up to 4 (thorough 5) frames, up to 3 (4) landmarks with any overlap, all positions in [-1000,1000]^3, all thresholds, limits 1..6, every drop decision; 300 landmarks in windows of 9 and 12 frames with limits 1..20')
spec('P01', [E('H_prop', 'p01_first', budget=20), E('H_prop', 'p01_steps', budget=60, timeout=5000), E('H_prop', 'p01_long', budget=40, timeout=5000)],
     'queues of up to 3 (thorough 4) samples with time steps in [0,1] s; every attitude a symbolic unit quaternion, samples in +-40 m/s2 and +-10 rad/s, biases in +-1, gravity any vector in +-20, positions +-1000, velocities +-20; up to 3 camera mountings; the 51st sample after any 50th state')
spec('P02', [E('H_prop', 'p02_transition', budget=60, timeout=5000), E('H_prop', 'p02_transition_after', budget=60, timeout=5000), E('H_prop', 'p02_transition_long', budget=60, timeout=5000), E('H_prop', 'p02_covariance', budget=60, timeout=5000), E('H_prop', 'p02_noise', budget=10)],
     'one step of length up to 1/16 s (linearisation, error bound 200 dt^2 per entry) or 1 s (covariance law), fresh, after another stretch or as the 50th; every cross-covariance column through the identity and 3 symbolic columns; every symmetric covariance made of one symbolic 3x3 block pair (15 of 15 pairs)')
spec('P03', [E('H_prop', 'p03_motion', budget=60, timeout=5000), E('H_prop', 'p03_covariance', budget=60, timeout=5000), E('H_prop', 'p03_empty', budget=10), E('H_prop', 'p03_long', budget=90)],
     'queues of up to 3 (thorough 4) samples; motion: corrected state, biases, the first two samples and the first time step symbolic, later ones in one component each, any cross-covariance diagonal of two widths, no prior inertial covariance; covariance: fixed motion, inertial covariances with 15 symbolic diagonal and 7 symbolic off-diagonal entries; 70 samples with any corrected position, velocity, accelerometer bias and cross-covariance diagonal')
spec('P04', [E('H_prop', 'p04_origin', 'fp', budget=40, timeout=10000), E('H_prop', 'p04_attitude', 'fp', budget=60, timeout=10000), E('H_prop', 'p04_origin_long', budget=20), E('H_prop', 'p04_attitude_long', budget=20)],
     'queues of up to 3 (thorough 4) entries, all increasing IEEE doubles in [0, 2^20] as time stamps, all times and tolerances up to 1000 s, bit-precise; 140 entries at fixed times in real arithmetic')
spec('A01', [E('H_est', 'a01_gate', budget=30), E('H_est', 'a01_tilt', budget=40, timeout=5000), E('H_est', 'a01_world', budget=40, timeout=5000), E('H_est', 'a01_axes', budget=20)],
     'any bias up to 1 m/s2; magnitudes from 0.5 to 40 m/s2 against gravity from 5 to 15 along the axes; every tilt up to 151 degrees at any accepted magnitude for vertical gravity; gravity in any direction up to 151 degrees from a reading along an axis; level, upside-down and all axis pairs exactly',
     outside='tilts between 151 and 180 degrees other than exactly 180 along the axes (Eigen switches to a singular value decomposition within 0.25 degrees of 180)')
spec('A02', [E('H_est', 'a02_step', budget=40, timeout=1500), E('H_est', 'a02_accel', budget=40, timeout=5000), E('H_est', 'a02_order', budget=30), E('H_est', 'a02_long', budget=60)],
     'one step from any attitude, rates, biases, accumulated error and time step up to 1 s, for three accelerometer readings and two gravity vectors; for four attitudes with any accelerometer reading of at least 1 m/s2; histories of 4 (thorough 5) samples with any time stamps, of 140 with one')
spec('A03', [E('H_est', 'a03_lookup', budget=40), E('H_est', 'a03_lookup_fp', 'fp', budget=40, timeout=10000), E('H_est', 'a03_long', budget=60)],
     'histories of up to 4 (thorough 5) estimates with any increasing time stamps in [0, 2^20] s, any requested time and tolerance up to 1000 s; up to 2 (3) estimates bit-precise in IEEE double; 140 estimates at fixed times',
     outside='ties that arise only by rounding of the difference of two time stamps')
ST = ('SYMI_STUBS',)
spec('M01', [E('H_math', x, budget=20, defs=ST) for x in ('m01_skew', 'm01_product', 'm01_small', 'm01_transform', 'm01_euler', 'm01_euler_axes', 'm01_inverse', 'm01_inverse_one')],
     'all vectors up to 1000, all quaternions (unit ones for rotations), single and double precision variants and vector expressions; symmetric matrices of size 1 to 3 given by any rotation and any eigenvalues in {at most 1e-12} or [2e-10, 1000]',
     assumptions=['the symmetric eigen decomposition is replaced by the exact one of the given matrix', 'asin, acos and atan2 are uninterpreted functions, compared at equal arguments'], outside='rotation magnitude of a rotation vector (its quaternion is not normalised); larger symmetric matrices')
spec('M02', [E('H_msg', x, budget=20) for x in ('m02_observation', 'm02_messages', 'm02_states', 'm02_frame', 'm02_landmarks')],
     'all values up to 1000 (time stamps up to 2^20 s); observations of any subset of 4 camera ids; lists of up to 3 ids, 3 observations and 4 flags, bundles of up to 4 samples; frames with up to 4 landmarks; stores of up to 3 (thorough 4) landmarks with any two removals')
spec('G01', [E('H_geo', 'g01_system', budget=40, defs=ST), E('H_geo', 'g01_exact', budget=40, defs=ST), E('H_geo', 'g01_result', budget=40, defs=ST), E('H_geo', 'g01_long', budget=40, defs=ST)],
     'up to 3 (thorough 4) views, any positions and observations, one view with any orientation and the others with one of 4; the answer of the singular value decomposition is any vector; 40 views, two of them with any position and observation',
     assumptions=['the singular value decomposition is replaced: its input is checked and its answer is arbitrary'])
spec('G02', [E('H_geo', x, budget=40, defs=ST) for x in ('g02_residual', 'g02_jacobian', 'g02_weight', 'g02_never_worse', 'g02_never_worse_two', 'g02_normal')],
     'residual and derivatives for any orientation, position, point and observation; cost descent for two configurations of two views with any first step proposed by the solver and any two consecutive steps along one axis',
     assumptions=['the linear solver is replaced: its input is checked and its answer is arbitrary'])
spec('G03', [E('H_geo', x, budget=40, defs=ST) for x in ('g03_plain', 'g03_robust', 'g03_sequence', 'g03_refused', 'g03_long')],
     'one iteration over up to 2 matches with any position, points and observations at 4 orientations, over 1 match at any orientation, with any solution; up to 3 iterations over 2 matches with any observations; one iteration over 280 matches, three with any first coordinate',
     assumptions=['the linear solver is replaced: its input is checked and its answer is arbitrary'])
spec('G04', [E('H_geo', x, budget=40, defs=ST) for x in ('g04_best', 'g04_sample', 'g04_long')],
     '3 to 4 matches with any first observed coordinate, up to 3 models of any of 3 displacements, any inlier rate in [1/4, 5/4] as threshold; up to 5 matches with every first four random draws; 280 matches and up to 4 models, two matches with any first coordinate',
     assumptions=['the linear solver is replaced: its answer is chosen by the check', 'after four arbitrary draws the random numbers count upwards'])

UP = 'windows of up to 3 (thorough 4) frames, 2 (3) cameras, any ids'
spec('U01', [E('H_upd', 'u01_rows', budget=60, defs=ST), E('H_upd', 'u01_long', budget=40, defs=ST)],
     'one landmark with 2 to 4 (thorough 5) observations in up to 3 (4) frames and up to 2 (3) cameras, tracked from any frame on, in front of or behind one of the views by at least 1/16; all positions, mounting positions, landmark positions and observations, at fixed orientations; or any orientation of one frame or one camera; tracks of 3 to 9 frames with the positions of one frame and one camera and the observations of one frame symbolic',
     assumptions=['the QR decomposition is replaced: its input is checked, its answer is a cyclic shift of the rows'])
spec('U02', [E('H_upd2', 'u02_one', budget=40), E('H_upd2', 'u02_stack', budget=40), E('H_upd2', 'u02_long', budget=60)],
     'one landmark with up to 6 views or 1 to 3 landmarks stacked (compressed: 63 rows against 51 columns), tracked from any frame on; up to three observations per landmark offset by any amount up to 1; two landmark positions and two camera arrangements; 3 or 9 landmarks over 8 frames and 2 cameras (225 rows against 69 columns)',
     outside='other landmark positions and arrangements (the decomposition is executed as it is, on concrete derivatives)')
spec('U03', [E('H_upd', 'u03_gain', budget=40, timeout=300, defs=ST), E('H_upd2', 'u03_single', budget=40, timeout=300)],
     'one measurement row: any residual, noise, two symbolic positions (20 pairs) of the measurement row and the covariance; two and three rows measuring uncoupled parts of the state: any residuals, noise, gains, variances and covariances with an unmeasured state (9 placements)',
     assumptions=['for several rows the decomposition of the (diagonal) innovation covariance is given exactly'], outside='several rows with a coupled innovation covariance')
spec('U04', [E('H_upd2', 'u04_apply', budget=40), E('H_upd2', 'u04_long', budget=40)],
     'every error component up to 1 (27 to 57 of them), all positions, velocities and biases; one of the orientations of the state, a frame or a camera symbolic, the others at fixed ones; up to 3 (thorough 4) frames, 2 cameras; 9 frames and 3 cameras at fixed orientations')
spec('U05', [E('H_upd', x, budget=30, defs=ST) for x in ('u05_assemble', 'u05_expand', 'u05_store')],
     'every symmetric covariance for up to 10 frames (storing: 6, thorough 10) and 3 (thorough 4) cameras, one or two samples, every drop decision, with and without leftovers of any earlier size')
spec('U06', [E('H_upd', x, budget=30, defs=ST) for x in ('u06_reduce', 'u07_none')],
     'every symmetric covariance for up to 10 frames and 3 (thorough 4) cameras and every drop decision; whole updates without landmarks for windows of 2 and 3 frames')
spec('U07', [E('H_upd', x, budget=40, defs=ST) for x in ('u07_select', 'u07_poses', 'u07_none', 'u07_long')],
     'up to 3 (thorough 4) landmarks, any subset triangulating, limits 0 to 3, random scores equal or not, and 300 landmarks against every limit up to 400; poses: up to 3 frames and 2 cameras, any observations, any positions, or any orientation of one frame or camera',
     assumptions=['the singular value decomposition is replaced: its input is checked and its answer is chosen by the check'])
spec('U08', [E('H_upd', x, budget=60, defs=ST) for x in ('u08_history', 'u08_refused')],
     'three (thorough four) propagate, image, update, drop rounds with 1 or 2 samples each, images up to one sample period before the newest sample, 1 or 2 cameras, window limits 1 to 3, landmarks lost at any round; refusals: up to 2 samples at any times, any tolerance, every stored block size',
     assumptions=['decompositions answer the identity, triangulation always succeeds'])

spec('C01', [E('H_back', x, budget=40, defs=ST) for x in ('c01_files', 'c01_cameras', 'c01_many')],
     'every subset of the seven parameter files, every value up to 1000 (window limit and landmark count fixed), one or two cameras; up to 3 (4 where another directory was loaded before) cameras with any mounting positions, the first with any orientation, with and without a gap in the numbering, and 9 or 11 cameras; 0 to 2 surplus lines',
     assumptions=["the standard library's text to number conversion is replaced by a table: token k of a file stands for the symbolic number k"], outside='malformed files (missing lines or columns, text)')
spec('B01', [E('H_back', 'b01_whole', budget=60, defs=ST), E('H_back', 'b01_views', budget=40, defs=ST)],
     'windows of 1, 2 or 4 frames, 10 to 11 or 270 landmarks of which up to 2 fail to triangulate or are lost by the first camera, 1 or 2 cameras; any time difference from 1/64 to 1 s or none, any estimated displacement, mounting positions up to 1/8 m, three attitudes, 3 to 5 attitude samples with any measurements and any start time; views: up to 3 cameras, any observations, any positions, or any orientation of the frame or one camera',
     assumptions=['the singular value decomposition and the linear solver are replaced: their answers are chosen by the check', 'one iteration of the pose solver (its iteration is decided by G03)'])
spec('B02', [E('H_back', 'b02_history', budget=75, defs=ST), E('H_back', 'b02_reset', budget=40, defs=ST), E('H_back', 'b02_long', budget=40, defs=ST)],
     'histories of 9 inertial samples (with or without a gap of 5 sample periods at three places, the first one unusable or not) and 4 (thorough 5) images, two of them at any time within 3/8 s after the previous one, all images full or one of them without known landmarks; window limits 2 and 3, both keyframe decisions; 6 images and 14 samples with a reset after any of the first four images; 9 images and 18 samples with a window limit of 5, one image at any time; thorough: a reset also in the first kind of histories',
     assumptions=['decompositions answer the identity, triangulation always succeeds, the pose solver keeps its start'])
spec('B03', [E('H_back', 'b03_publish', budget=30, defs=ST)], 'queues of up to 3 samples with any states, times and biases, both states of the estimator')
spec('E01', [E('H_full', 'e01_update', budget=80, defs=ST), E('H_full', 'e01_long', budget=90, defs=ST)],
     'windows of 2 or 3 (thorough 4) frames, 1 or 2 cameras, 1 to 3 (thorough 4) landmarks with full or partial tracks, two camera arrangements, every drop decision, samples before and after the image, leftovers of earlier updates; up to 8 observation coordinates offset by any amount up to 1/4 or none, up to 3 samples after the image, any velocity up to 5 m/s; windows of 6 frames with 5 or 9 landmarks',
     assumptions=['the singular value decomposition of the triangulation answers the true landmark of its observations'], outside='other arrangements and prior covariances (derivatives, decompositions and gain are executed as they are, on concrete matrices)')
spec('E02', [E('H_full', 'e02_parts', budget=40, defs=ST), E('H_back', 'e02_stepping', budget=70, defs=ST)]
     + [E('H_data', x, budget=15) for x in ('d01_history', 'd03_packed', 'd04_two')] + [E('H_frames', x, budget=15) for x in ('f01_one', 'f02_window', 'f03_keyframe')] + [E('H_est', x, budget=20, timeout=3000) for x in ('a01_world', 'a02_step', 'a03_lookup')]
     + [E('H_prop', x, budget=30, timeout=5000) for x in ('p01_first', 'p01_steps', 'p02_noise', 'p02_transition')] + [E('H_geo', x, budget=15, defs=ST) for x in ('g01_system', 'g02_residual', 'g02_jacobian', 'g03_plain', 'g04_sample')] + [E('H_upd', x, budget=20, defs=ST) for x in ('u01_rows', 'u05_expand', 'u06_reduce', 'u07_select', 'u07_poses')],
     'two estimators fed different cameras, clocks, landmarks and losses and stepped one after the other, in turn, or one in the middle of the other (11 messages of the one under comparison, two image times any within 3/8 s), then a fresh one with the same input; attitude, propagation, triangulation and pose objects with any inputs, the other one used before or in between; the listed entries of the other properties within their bounds, judged by their own oracles after other instances have run in the process',
     assumptions=['decompositions answer fixed values', 'random scores are a function of the step'], outside='estimators configured from different directories (the configuration object is a process-wide singleton)')
AS = dict(asan=True, crash_only=True, need=[])
spec('S01', [E('H_data', x, budget=20, **AS) for x in ('d01_history', 'd03_packed', 'd03_history', 'd04_clear', 'd03_long')] + [E('H_frames', x, budget=20, **AS) for x in ('f01_one', 'f01_refused', 'f02_window', 'f02_full', 'f03_effect', 'f01_long')]
     + [E('H_prop', x, 'fp', budget=20, timeout=5000, **AS) for x in ('p04_origin', 'p04_attitude')] + [E('H_est', 'a03_lookup', budget=20, **AS), E('H_est', 'a02_order', budget=20, **AS)]
     + [E('H_geo', x, budget=20, defs=ST, **AS) for x in ('g03_refused', 'g04_sample', 'g04_best', 'g01_long')] + [E('H_upd', x, budget=20, defs=ST, **AS) for x in ('u01_rows', 'u01_long', 'u07_select', 'u07_long', 'u08_history', 'u08_refused')] + [E('H_back', x, budget=20, defs=ST, **AS) for x in ('c01_cameras', 'c01_files', 'c01_many', 'b02_history', 'b02_reset', 'b01_whole')] + [E('H_msg', x, budget=10, **AS) for x in ('m02_observation', 'm02_messages', 'm02_frame', 'm02_landmarks')],
     'the paths of the listed entries of the other properties within their bounds; on each path every address and loop count is fixed, so its replay under AddressSanitizer and UndefinedBehaviorSanitizer stands for all inputs of the path; endless loops: paths that do not end within 20 s of native execution',
     assumptions=['solver proxies as in the entries of the other properties'])

NOT_APPLICABLE = {}
