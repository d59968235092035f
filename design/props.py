P=[
('C01','JobQueue','Drivers of 1-2 clients and 1-2 workers (thorough 3) run on the real `sm::JobQueue` under the controlled scheduler. Each job records its executions; futures, waitForEmptyQueue, stop, join, destruction are checked at every end of a schedule; the queue is unmapped after destruction, so a late access faults. Quick about 260k schedules, 12M transitions. Condition variables may wake spuriously (costs a deviation).'),
('C02','Thread, Mutex, Condition of incremental_calibration','As C01, with programs over one mutex (recursive or not), one condition, one or two thread objects, the registry. Timed waits may end at any moment for a deviation. Oracle: critical section occupancy, who signalled whom, the state machine of a thread. About 250k schedules.'),
('C03','Optimizer, Optimizer2 and trust region policies','The world outside the optimizer is a choice tree: each cost evaluation at a new point has one of six outcomes (better, little better, equal, worse, NaN, infinite), each linear solve succeeds or fails. All outcome sequences over 2-7 iterations are explored for each policy/solver pair; the oracle is the list of accepted states. In addition 960 least squares problems check step lengths, and initial lambda.'),
('C04','Linear system solvers','All structures of up to three design variables by three error terms, on all solvers (dense QR, sparse QR, sparse and block Cholesky), with all histories of init, build, solve, conditioner, right hand sides on three structures. Oracle: dense normal equations in the harness.'),
('C05','Threaded evaluation','Evaluation of Hessian, Jacobian and errors in 2-4 threads under the scheduler with race detection on the shared buffers; all sets of up to two throwing terms. Oracle: the serial result; the exception (type and message) of one of the throwing terms.'),
('C06','Design variables','All operation sequences of length 5 (6) over 21 kinds; oracle: group operations of the kind (vector sum, quaternion product with the exponential map) and finite differences for the Jacobians. `minimalDifference` of quaternions may be a rotation vector of up to two pi if the scalar product is negative: accepted as the code documents the tangent of the quaternion, not of the rotation.'),
('C07','Optimization problems','All sequences of operations on the three containers against maps and lists; refused operations must leave the state unchanged; all permutations and index vectors.'),
('C08','Block and compressed matrices, Jacobian containers, CHOLMOD','Histories on compressed column matrices, all block patterns up to 3x3 (5 for symmetric solves), slices, products and sums, against dense matrices. Excluded: `SparseBlockMatrixWrapper::toDense` (declared only), CSparse and PCG solvers (not compiled here). Indefinite matrices may be refused by CHOLMOD or solved correctly.'),
('C09','Marginalizer','All graphs over three (four) variables: the prior left behind must have, for all values of the remaining variables, the cost of the best choice of the removed ones (dense elimination).'),
('C10','Expressions','Every node kind at values of its operands, in nested combinations; values by formula, Jacobians by differences through `update`. Jacobians are those at the values of the last evaluation: callers must evaluate first (documented precondition), so the harness does. Excluded: MatrixTransformation (not instantiable), TransformationExpression times Euclidean, RotationExpression times Homogeneous and toTransformationExpression (declared, not defined).'),
('C11','Pose and focal length initialization','All 256 sets of observed corners on many views; boards, groups of views, wrong views at each position. Degenerate views (corners on a line, circles nearly touching) are left out: solvePnP has no unique answer there.'),
('C12','M-estimators','Formulas on a lattice; weights in every getter of an error term; robust means and lines over all data sets of three values. Stationarity is claimed for Gauss-Newton only: the trust region methods compare costs weighted at different states. A null policy pointer is a precondition of the caller.'),
('C13','Vector B-splines','Orders 2-6, all words of knot gaps, all editing histories; oracle: Cox-de Boor recursion, Gauss quadrature for integrals, dense least squares for fits. A last segment of zero length is excluded.'),
('C14','Pose splines','As C13 with rotations; time derivatives by differences. `BSplineMotionError` with quadratic integrals needs the missing OPTBSpline and is excluded. One known finding (below).'),
('C15','Rotations','Axes by angles including 0, tiny and pi; round trips, products, derivatives.'),
('C16','Transformations','All pairs of 55 transformations and six kinds of homogeneous points; covariance propagation by Jacobians of the formula.'),
('C17','Projection','Ten kinds of camera by 130 parameter sets (260): equations evaluated independently in long double; validity regions; back projection inverse where the model has one.'),
('C18','Camera Jacobians','Central differences of the projection with respect to point, intrinsics, distortion. DepthProjection back-projection Jacobians are marked as to do in the code and excluded.'),
('C19','Parameters, shutters, masks','Get/set/update/equality/serialization of every parameter; masks by all keypoints.'),
('C20','Keypoints, frames, landmarks','All sequences of attribute changes, copies, swaps and archives. Copies of a frame share images (by design); trace id and enabled flag are not archived (by design).'),
('C21','Targets, observations, detectors','All target sizes, histories, outlier patterns, and rendered boards with all sets of visible tags. Pose kept after setTarget or a failed findTarget is not claimed. Duplicate april ids (exit(0)) and windows are excluded.'),
('C22','Times and durations','All pairs of a lattice around the limits, against 128-bit integers.'),
('C23','Clock correction','All measurement sequences over a grid, against a brute-force lower hull.'),
('C24','Timers','All sequences on two timers with a virtual clock.'),
('C25','Property trees','All sequences of writes through five views, files of each tree.'),
('C26','Matrix archives','All histories; every truncation and every failing byte of each file (a write of which byte n fails, by a file size limit on a scratch file).'),
('C27','Serialization','Integers at powers of two, matrices of all shapes between types, every truncation of portable archives.'),
('C28','Helpers of sm_common','All strings over small alphabets, lattices of numbers, all pairs of hash ids.'),
('C29','Logging','The real library runs under a controlled scheduler: mutexes, once-flags and thread operations are replaced by stand-ins of which every operation is a scheduling point; all schedules within the preemption bound. The sequential part enumerates operation sequences on levels, streams and loggers against a reference, formats of every length around the buffer sizes, and throttled statements under a clock that is set.'),
 ('C30','AprilTag detector','All codes by rotations and errors; all union sequences; rendered tags. The legacy families contain symmetric codes, hence rotation is claimed only for codes that are unlike their own rotations.'),
('C32','IMU and reprojection errors','A lattice of values for each error term, all sets of active variables, eight cameras; information matrices, chain rules, rolling shutter.'),
('C33','Observation table and camera graph (Python)','The real modules are imported with stand-ins for igraph and the compiled modules. All sequences of observations (3-5), all graphs of up to 4 (5) cameras with weights. Rigs of one camera: neither connectivity nor baselines are claimed.'),
('C34','Configuration files (Python)','Every field absent, of a wrong kind, number, range; all combinations; write and read back; AslamCamera construction recorded by stand-ins.'),
('C35','Bag readers (Python)','All orders of stamps, windows, encodings. Stand-in bag with rosbag\'s private index interface as used.'),
('C37','Parallel extraction (Python)','`multiprocessing` is replaced by a controlled scheduler: processes become threads of which one runs at a time, with copied arguments; every queue operation, `is_alive`, `join` and sleep is a scheduling point. All schedules with at most 2-3 deviations. A process that dies (its image is then lost silently) is outside the claim.'),
('C39','Problems kalibr builds (Python)','Expressions of the stand-ins are evaluated late and numerically, so that an error term is judged by its prediction, for every view, sensor and chain. Pose motion terms (`doPoseMotionError`, which uses an undefined name and is off by default) are not claimed.'),
('C40','First guesses (Python)','Splines and optimizer are stand-ins (the latter a Gauss-Newton solver over the recorded error terms); measurements are generated from a known motion.'),
('C31','Camera calibration program','`kalibr_calibrate_cameras` is run whole, with an estimator that answers every new or corrected view with accepted, rejected or diverged: all sequences of answers are explored. Oracle: the views the estimator holds, and an independent filter of outliers (four standard deviations of each camera) over the answers given. Also all camera models, options, refusals and failing first guesses.'),
('C36','IMU-camera calibration program','`kalibr_calibrate_imu_camera` is run whole, with sensors that record what is asked of them (arguments bound to the signatures of the real methods) and an optimizer that succeeds, raises or reports a solver failure. Oracle: the problem as a list of variables and errors by sensor, the order of the steps, the numbers in the files written.'),
('C41','Incremental estimator','`IncrementalEstimator.cpp`, `LinearSolver.cpp` and `linalg.cpp` are compiled through `include/spqr5.h`, which passes calls of the templates of SuiteSparse 5 on to SuiteSparse 7 (the build of /repo leaves them out). Every history of operations is run on the real estimator next to a dense model that predicts decision, values, statistics and system.'),
 ('C38','rolling shutter calibration','The real `RsCalibrator` builds and solves its problems with stand-ins that keep what they were given; expressions are evaluated, so each error is compared with the corner it stands for, by value. The placement of knots is explored as a transition system: a state is knots, earlier errors and segments given up; a transition assigns an error level to each group of measurements; every reachable state within the rounds is compared with a reference and the updated spline is examined. The program is run with every set of options. `setup.py` of kalibr does not list the package `kalibr_rs_camera_calibration` (build configuration, left alone).'),
]
if __name__=='__main__':
    import sys,os,json
    sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))+'/../lib')
    import specs
    tit={}
    for l in open(os.path.dirname(os.path.abspath(__file__))+'/../properties.jsonl'):
        d=json.loads(l); tit[d['id']]=d['title']
    for i,what,txt in sorted(P):
        print('### %s %s\n\n*%s; %s.* %s\n\nBounds: %s.\n'%(i,tit[i],what,specs.SPECS[i]['level'],txt,specs.SPECS[i]['bounds']))
