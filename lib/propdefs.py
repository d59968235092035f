from props import prop
SM = 'Schweizer-Messer/'

prop('C01', 'The worker pool runs every job exactly once and always shuts down',
     'For every interleaving of its clients and workers, each piece of work given to a started worker pool is run exactly once and waiting for the empty queue returns only when every job scheduled before it (and every job those jobs scheduled) has finished; futures deliver the value or exception of their job. '
     'Stopping, joining and destroying the pool always terminate, whatever the workers are doing (including workers not yet running and pools never started), drop only jobs that have not begun, and return only when no worker can run a job or touch the pool any more. The pool never deadlocks, never loses a wake-up and has no data race on its own state.',
     ['schedules'], 'all schedules of 1-3 workers, 1-2 clients, 0-3 jobs, with a bounded number of preemptions and spurious wake-ups',
     'The one test starts a pool, sleeps in the jobs and waits; it sees one lucky interleaving, and it passed while join and the destructor could hang or free the pool under its workers.',
     [SM + 'sm_boost/src/JobQueue.cpp', SM + 'sm_boost/include/sm_boost/JobQueue.hpp', SM + 'sm_boost/include/sm_boost/implementation/JobQueue.hpp'],
     [('queue mutex and two conditions', 'sm_boost/src/JobQueue.cpp exec_loop, scheduleWork, waitForEmptyQueue'), ('kill flag set under the lock, join of the threads', 'JobQueue::stop/join/~JobQueue')],
     technique='stateless model checking: exhaustive schedule exploration of the real code under a controlled pthread scheduler with a preemption bound',
     level_note='Complete for the listed driver programs up to the deviation bound (2-3 preemptions, fewer for the larger drivers); scheduling points are the pthread operations, races on the members of the pool between them are found by vector clocks over instrumented accesses. Sequentially consistent memory is assumed; use after destruction is caught by unmapping the pool.',
     observe=['job execution counts', 'return of waitForEmptyQueue/join/destructor'])

IC = 'aslam_incremental_calibration/aslam_incremental_calibration/'
prop('C02', 'Threads, mutexes and conditions keep their contracts under every schedule',
     'Under every schedule of their clients: a Mutex is held by at most one thread, tryLock and timed locks succeed only when they have really taken it and fail without side effect otherwise, a recursive mutex is freed only by the last unlock, unlocking a mutex one does not hold and locking a non-recursive one twice are refused, waitUnlock returns true once the mutex is or becomes free. '
     'A Condition wait returns with the mutex held, true only when signalled, and no signal or broadcast to a waiting thread is lost. '
     'A Thread that is started works (exactly once if its cycle is negative, at least once otherwise, again after each trigger or until interrupted), is never run twice at the same time, and is not started again while busy; after interrupt() or wait() has returned true it is not busy, never works again, has the state interrupted or finished and is no longer in the registry Threads, whose interrupt() stops all threads; wait() and start() with a limited (or no) time fail on a thread that stays busy. Nothing deadlocks.',
     ['schedules'], 'all schedules of 2-3 threads using one mutex, condition, thread object or the registry, with a bounded number of deviations',
     'The library has no test of its thread classes at all.',
     [IC + 'src/base/Thread.cpp', IC + 'src/base/Threads.cpp', IC + 'src/base/Mutex.cpp', IC + 'src/base/Condition.cpp', IC + 'include/aslam_incremental_calibration/base/Thread.h'],
     [('mutex, owner and lock count', 'Mutex::lock/tryLock/unlock/waitUnlock'), ('state machine under mMutex, mCleaned and mStarted conditions', 'Thread::start/interrupt/run/cleanup/safeWait'), ('singleton registry', 'Threads::registerThread/unregisterThread/interrupt')],
     technique='stateless model checking: exhaustive schedule exploration of the real code under a controlled pthread scheduler with a deviation (delay) bound',
     level_note='Complete for the listed driver programs up to the deviation bound. Condition variables do not wake spuriously in the model and memory is sequentially consistent; time is abstract: a timed wait may end at any moment, at the cost of a deviation.',
     observe=['states and return values of the thread operations', 'critical section occupancy'])

prop('C22', 'Times and durations are exact integer nanoseconds, or refused',
     'Every Time, WallTime, Duration and WallDuration is a number of whole nanoseconds with 0 <= nsec < 1e9. For all operands the constructors, fromNSec, sums, differences, negation and the in-place forms give exactly the integer result when it fits the type (32-bit signed seconds for durations, 32-bit unsigned ones for times) and throw std::runtime_error when it does not; comparisons order by value; toNSec is exact; toSec, fromSec and scaling are right to half a nanosecond plus the rounding of a double; printing gives the decimal value with nine digits (a minus sign in front of the whole for negative durations); toBoost agrees to the microsecond (rounded down) and serialization restores the value.',
     ['inputs'], 'all values and pairs of a lattice around zero, one second, the sign change and the limits of each type',
     'aslam_time has only a placeholder test; the errors sit on carries and limits, such as exactly one second of nanoseconds.',
     ['aslam_cv/aslam_time/include/aslam_time/Time.hpp', 'aslam_cv/aslam_time/include/aslam_time/Duration.hpp', 'aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp', 'aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp', 'aslam_cv/aslam_time/src/time.cpp', 'aslam_cv/aslam_time/src/duration.cpp'],
     [('normalization with range check', 'normalizeSecNSec, normalizeSecNSecSigned, normalizeSecNSecUnsigned'), ('operators', 'TimeBase, DurationBase')],
     technique='exhaustive enumeration of a bounded input lattice on the real code, against 128-bit integer arithmetic',
     level_note='Complete on the lattice (all pairs); values between lattice points are not covered. Rounding of doubles is compared with a tolerance.',
     observe=['sec, nsec, exceptions', 'printed text'])
prop('C23', 'The timestamp corrector predicts the lower convex hull of what it has seen',
     'After every sequence of measurements with increasing remote times, the local time TimestampCorrector predicts is the line through that segment of the lower convex hull of all (remote, local) pairs which spans the middle of the remote times seen (the one segment when the hull has two points); a prediction for a remote time seen is never later than its reception, nor is the returned corrected time; the first measurement is returned as it is. Slope and offset describe the same line. A measurement that does not advance the remote time throws and changes nothing, a prediction without two measurements throws.',
     ['histories'], 'all measurement sequences up to a depth over a small grid of remote steps and delays, for double and 64-bit integer times',
     'The tests use one simulated clock with random delays and look at the final error; wrong hull or segment bookkeeping shows only after particular orders of delays.',
     [SM + 'sm_timing/include/sm_timing/TimestampCorrector.hpp', SM + 'sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp'],
     [('hull stack and midpoint segment', 'correctTimestamp, isAboveLine, getLocalTime')],
     technique='explicit-state exploration: all operation sequences up to a depth on the real class, against a brute-force hull',
     level_note='Complete up to the depth on the grid; collinear points included.',
     observe=['corrected and predicted times', 'slope, offset'])
prop('C24', 'Timers account exactly the time that passed between start and stop',
     'For every sequence of timer operations, the samples of a tag are exactly the times between each successful start and its stop (or the destruction of the running timer), whichever timers share the tag, since the last reset of the tag: count, total, mean, minimum, maximum, variance and rate (inverse mean of the last 50 samples) are those of this list, by tag and by handle. Starting a running timer, stopping a stopped one and using an unknown handle throw and change nothing; a tag keeps one handle for ever and handles of different tags differ. Nanosecond times convert to std::chrono and back unchanged, to seconds and back within one nanosecond plus double rounding; secondsToTimeString writes hours, minutes and seconds of the value.',
     ['histories'], 'all sequences of start, stop, passing time, reset and renewal on two timers up to a depth, on a virtual clock',
     'The timing tests only read the wall clock; the accumulated statistics are not tested.',
     [SM + 'sm_timing/src/Timer.cpp', SM + 'sm_timing/include/sm_timing/Timer.hpp', SM + 'sm_timing/src/NsecTimeUtilities.cpp'],
     [('tag map and accumulators', 'Timing::getHandle/addTime/get*'), ('start/stop state', 'Timer')],
     technique='explicit-state exploration: all operation sequences up to a depth on the real class with a virtual clock, against a list of samples',
     level_note='Complete up to the depth; two timers.',
     observe=['statistics by tag and handle', 'exceptions'])

PT = SM + 'sm_property_tree/'
prop('C25', 'A property tree is a map from absolute paths to values, whatever view asks',
     'After every sequence of writes through any namespace views of one property tree, each key resolves to one absolute path (a leading slash: from the root, else below the namespace of the view; namespaces nest the same way) and reads give the last value written there: doesKeyExist and the getters without default agree that a path exists if it or a path below it was written; a getter without default throws InvalidKeyException for a path that does not exist and InvalidValueException for a text that is not of its type; doubles come back exactly. '
     'A getter with default never throws: it returns the value, or the default if the path does not exist or its text is not of the type; in a modifiable tree it then also stores the default, in a constant tree it changes nothing. A key without a name (empty, or only a slash) throws InvalidKeyException. Saving as XML or INFO, or as INI for trees of at most two levels in which no entry has both a text and children, and loading gives exactly the same tree in place of the old one; unreadable, missing or unwritable files throw and leave the tree alone.',
     ['histories'], 'all sequences of writes up to a depth over a small set of views, keys and values',
     'The test writes eight keys and reads them back; doesKeyExist threw for every key and constant trees stored defaults without any test noticing.',
     [PT + 'src/PropertyTree.cpp', PT + 'src/BoostPropertyTreeImplementation.cpp', PT + 'include/sm_property_tree/BoostPropertyTreeImplementation.hpp', PT + 'src/BoostPropertyTree.cpp', PT + 'src/BoostPropertyTreeSupport.cpp'],
     [('qualified key names', 'PropertyTree::buildQualifiedKeyName and constructors'), ('typed access with defaults', 'BoostPropertyTreeImplementation::get/set'), ('file formats', 'load/save Xml, Ini, Info')],
     technique='explicit-state exploration: all operation sequences up to a depth on the real class, against a map from paths to texts',
     level_note='Complete up to the depth; texts of numbers are compared as numbers.',
     observe=['values and exceptions of every getter', 'files read back'])
MA = SM + 'sm_matrix_archive/'
prop('C26', 'A matrix archive file is complete, restores the archive exactly, or is refused',
     'A matrix archive maps each valid name (1 to 32 characters, a letter first, then letters, digits or underscores) to one matrix or one string, whichever was set last; setting under an invalid name, getting what is not there (or a vector or scalar of another shape), and createMatrix over an existing matrix without permission throw MatrixArchiveException and change nothing; clear(name) removes either kind and the sizes count matrices, strings and both. '
     'save, then load, restores every value bit for bit, including empty matrices and strings with any bytes; load adds to the archive and replaces entries of the same name; name sets restrict saving, loading and appending to these names; append adds to the end of the file the blocks save would write. '
     'Wherever the write of a file fails, save and append throw. A file cut off anywhere but after a complete block, or with a wrong byte at the start or end of a block, makes load throw, and the archive then holds exactly the complete blocks in front.',
     ['histories', 'faults'], 'all operation sequences up to a depth, and for each archive every truncation of its file and every number of bytes after which writing fails',
     'The tests save and load whole files on a disk that never fails.',
     [MA + 'src/MatrixArchive.cpp', MA + 'include/sm_matrix_archive/MatrixArchive.hpp'],
     [('two maps with disjoint names', 'set*/createMatrix/clear'), ('block format with start and end characters', 'writeMatrixBlock/writeStringBlock/readBlock'), ('stream state after each block and on close', 'save/append/load')],
     technique='explicit-state exploration of operation sequences plus exhaustive crash-point enumeration (every truncation, every failing write) on the real class',
     level_note='Complete up to the depth. Write failures are injected by a failing stream buffer, file size limits and a full device; truncation is at every byte.',
     observe=['contents of the archive', 'exceptions', 'bytes of the file'])
SB = SM + 'sm_boost/'
prop('C27', 'Serialized data comes back unchanged, or loading and saving say that it does not',
     'For every integer type, value and byte order, a portable binary archive stores the number of bytes of the magnitude (negative for negative numbers; unsigned 64-bit values are carried as signed ones) and then the magnitude in the byte order of the archive, and reading gives back exactly the value; reading into a type too narrow for the stored bytes throws. Characters, booleans, floating point numbers, strings, containers, class versions and shared pointers (identity included) come back unchanged. An archive cut off anywhere, or with another signature, throws instead of giving data; asking for both byte orders throws. '
     'Eigen matrices of every shape, including empty ones, and transformations come back unchanged from text, binary, XML and portable archives into any type their shape fits, reading exactly their own data; a type with another fixed size throws SerializationException. The save and load functions for files restore the object; files that cannot be opened throw, a save whose file cannot be written completely throws, and truncated binary files throw. ptimeToTimeval is exact to the microsecond.',
     ['inputs', 'faults'], 'all integers of a lattice in 8 types and 3 byte orders, all small matrix shapes between all stored and loaded types, every truncation and write limit',
     'The portable archives have no test; they could not be read back at all on little-endian machines.',
     [SB + 'src/portable_binary_iarchive.cpp', SB + 'src/portable_binary_oarchive.cpp', SB + 'include/sm_boost/serialization.hpp', SM + 'sm_eigen/include/sm_eigen/serialization.hpp', SB + 'include/sm_boost/ptime.hpp'],
     [('variable length integers', 'save_impl/load_impl'), ('shape checks per fixed dimension', 'sm_eigen/serialization.hpp load overloads'), ('stream state after closing', 'sm_boost/serialization.hpp')],
     technique='exhaustive enumeration of bounded inputs and crash points on the real code, against an independent encoder',
     level_note='Complete on the lattice of values and for all shapes up to 3x3; truncation is at every byte, write failures by file size limits and a full device.',
     observe=['bytes written', 'values read', 'exceptions'])
SC = SM + 'sm_common/include/sm_common/'
prop('C28', 'Text, identifier, rounding and comparison helpers do exactly what they say',
     'For every string: replace and replace_reverse change all occurrences of a character but the first (last) ones to skip, and always end; substituteEnvVars replaces each $(NAME), scanning from the left up to the next closing parenthesis, by the value of the variable if it is set and leaves everything else, including the replaced text itself, alone; padding, fixed and scientific formats, joining and tuples give the text of printf-like definitions. '
     'A HashId prints as 32 hexadecimal digits and is read back from exactly such texts in either case; anything else is refused and changes nothing; equality, order (a strict total order), validity (not all zero) and hash are those of its 128 bits. Ids compare, count, swap, clear, print and hash like their 64-bit value. '
     'round gives the nearest integer with halves away from zero for every finite number, rint and lrint the same in the range of their result; solveQuadratic (with a not zero) gives both real roots without cancellation or NaN and throws if there are none; approximatelyEqual, definitelyGreaterThan and definitelyLessThan compare the difference with the tolerance times the larger magnitude, exactly one of them holds, and a tolerance that is not positive throws.',
     ['inputs'], 'all strings up to a length over a small alphabet, lattices of identifiers and numbers',
     'The tests check a few values; wrong skipping, endless loops and NaN roots went unnoticed.',
     [SC + 'string_routines.hpp', SC + 'hash_id.hpp', SC + 'Id.hpp', SC + 'maths.hpp', SC + 'round.hpp', SC + 'numerical_comparisons.hpp'],
     [('scans over strings', 'string_routines.hpp'), ('byte-wise hexadecimal', 'HashId::fromHexString'), ('stable quadratic formula', 'solveQuadratic')],
     technique='exhaustive enumeration of all inputs up to a bound on the real code, against direct definitions',
     level_note='Complete for strings up to length 7 to 8 over the alphabets, and on the lattices.',
     observe=['results', 'exceptions'])
BE = 'aslam_optimizer/aslam_backend/'
BEI = BE + 'include/aslam_backend/backend/'
BS = 'aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/'
prop('C04', 'Every linear system solver solves the same normal equations, in any history',
     'For all design variables (each error term with at least one active one) and error terms, with or without M-estimator weights and column scaling, every linear system solver (block_cholesky, dense_qr, sparse_qr, and sparse_cholesky where it exists) reports as cost the weighted sum of squared errors; e() holds the weighted errors in their order, rhs() is -J^T e of the weighted, scaled Jacobian and rhsJtJrhs() is rhs^T J^T J rhs. '
     'solveSystem returns the dx that solves (J^T J + D) dx = rhs of the system that was built last, D the squares of the conditioner (nothing for sparse_qr, which takes none), or false if the system is singular; it gives the same result when it is called again, after later error evaluations at other values, or after other conditioners, solves that failed or rebuilt structures. The covariance blocks are those of the inverse Hessian.',
     ['histories', 'inputs'], 'all block structures up to a size and all histories of build, evaluate, condition and solve up to a depth, for every solver',
     'The tests solve one random system per solver, built and solved once; errors that need a second solve or evaluation in between are invisible.',
     [BE + 'src/BlockCholeskyLinearSystemSolver.cpp', BE + 'src/DenseQrLinearSystemSolver.cpp', BE + 'src/SparseQrLinearSystemSolver.cpp', BE + 'src/LinearSystemSolver.cpp', BS + 'linear_solver_cholmod.h', BEI + 'CompressedColumnJacobianTransposeBuilder.hpp'],
     [('build, condition, solve, restore', '*LinearSystemSolver::buildSystem/solveSystem'), ('error evaluation', 'LinearSystemSolver::evaluateError')],
     technique='explicit-state exploration: all operation histories up to a depth on the real solvers, over all small block structures, against dense double arithmetic',
     level_note='Complete up to the depth and the sizes. Numbers are fixed by the structure; results are compared with a tolerance.',
     observe=['cost, e, rhs, dx', 'return values'])

prop('C03', 'An optimization ends in its best accepted state and reports exactly that state',
     'Whatever costs the objective returns (equal, infinite and not-a-number included) and whichever linear solves fail, Optimizer2 with Levenberg-Marquardt or dog leg keeps a step exactly if the cost did not rise and otherwise takes it back exactly; each step solves the linear system built at the current state (LM: with the squared conditioner; dog leg: a point of the dog leg path), scaled by the design variable scaling; after a rejected step the next one starts from the same state and is shorter, with a larger conditioner for LM. A failed linear solve moves nothing. Gauss-Newton keeps every step. '
     'It stops exactly when the iterations or the failures reach maxIterations, or the last step or its change of cost is within the thresholds (after a failed linear solve it goes on). At the end the design variables are in the best state accepted (Gauss-Newton: the last one), JFinal and J() are its cost, JFinal <= JStart, and the counts, dXFinal, dJFinal and linearSolverFailure (the last solve failed) describe the run; inactive design variables are untouched. The older Optimizer likewise ends in its best state with JFinal and J() its cost. On regular least squares problems every optimizer and solver reaches the minimum, with or without Schur complement.',
     ['histories', 'faults', 'inputs'], 'all sequences of cost outcomes and linear solver failures up to a depth, for each policy and solver',
     'The tests optimize well-behaved problems, on which steps are hardly ever rejected and the solver never fails.',
     [BE + 'src/Optimizer2.cpp', BE + 'src/Optimizer.cpp', BE + 'src/TrustRegionPolicy.cpp', BE + 'src/DogLegTrustRegionPolicy.cpp', BE + 'src/LevenbergMarquardtTrustRegionPolicy.cpp', BE + 'src/GaussNewtonTrustRegionPolicy.cpp'],
     [('accept, revert, stop', 'Optimizer2::optimize, Optimizer::optimize, Optimizer::optimizeDogLeg'), ('step and trust region update', '*TrustRegionPolicy::solveSystemImplementation')],
     technique='explicit-state exploration of the real optimizers against an adversarial environment: all outcome sequences up to a depth, traces checked step by step against a model of the loop',
     level_note='Complete up to the depth. The kinds of cost are relative to the current one; Jacobians are fixed generic numbers.',
     observe=['states, steps, conditioners', 'returned summary'])

prop('C05', 'Threaded evaluation gives the serial result or exception on every schedule',
     'For every number of threads and error terms (none included) and every schedule of the threads, evaluating the errors and building the system with several threads evaluates each error term exactly once and gives exactly the error vector, Jacobian and right-hand side of the serial evaluation, and its cost up to the order of summation; no two threads access the same memory without order if one of them writes. If error terms throw, whatever they throw, all threads end and the caller gets the exception the serial evaluation would give, with its type and content; afterwards the solver works as before.',
     ['schedules', 'faults'], 'all schedules up to a deviation bound for all small numbers of terms and threads and all sets of throwing terms',
     'The tests run with threads at most once per solver and never throw; an exception in a thread lost its type or ended the process.',
     [BE + 'src/LinearSystemSolver.cpp', BE + 'src/DenseQrLinearSystemSolver.cpp', BEI + 'implementation/CompressedColumnJacobianTransposeBuilder.hpp'],
     [('division of the terms and join', 'setupThreadedJob'), ('partial sums', 'LinearSystemSolver::evaluateErrors')],
     technique='stateless model checking: exhaustive schedule exploration of the real code under a controlled pthread scheduler with a deviation (delay) bound and vector-clock race detection',
     level_note='Complete up to the deviation bound; scheduling points are synchronization operations and the evaluation of each term.',
     observe=['e, rhs, J, cost', 'exceptions', 'memory accesses to the shared buffers'])

prop('C07', 'Optimization problems hold exactly what was added and reject bad operations',
     'Under every sequence of operations the containers of design variables and error terms behave like ordered lists. Adding a design variable twice, an error term whose design variables are not all present (and, for calibration problems, an error term twice), and an index or group that does not exist throw and change nothing. Removing a design variable from an aslam_backend problem removes exactly the error terms that use it. An aslam_calibration problem keeps its design variables in groups; index order is the group ordering and within a group the order of addition; an ordering that is not a permutation of the groups is refused. '
     'An incremental problem is the concatenation of its batches: a batch is refused without effect if it is in already, shares an error term, or puts a design variable in another group; removing a batch drops its error terms and exactly the design variables no other batch uses; saving and restoring design variables gives back the saved values, and clear forgets everything. permute makes container[i] the old container[perm[i]] and refuses other index vectors unchanged. Objects handed over with ownership are deleted exactly once.',
     ['histories'], 'all operation sequences up to a depth on each container, compared step by step with a list model',
     'The tests run one sequence per container, without refused operations.',
     [BE + 'src/OptimizationProblem.cpp', BE + 'src/OptimizationProblemBase.cpp', BE + 'src/SimpleOptimizationProblem.cpp', IC + 'src/core/OptimizationProblem.cpp', IC + 'src/core/IncrementalOptimizationProblem.cpp', IC + 'include/aslam_incremental_calibration/algorithms/permute.tpp'],
     [('lists and multimaps from design variables to error terms', 'OptimizationProblem'), ('groups and counters of uses', 'IncrementalOptimizationProblem::add/remove')],
     technique='explicit-state exploration: all operation sequences up to a depth on the real classes against a list model',
     level_note='Complete up to the depth over 3 to 4 design variables and 3 to 6 error terms.',
     observe=['contents and order', 'exceptions', 'deletions'])

SK = SM + 'sm_kinematics/'
prop('C15', 'Rotation conversions and quaternion algebra are exact at every angle',
     'For every rotation vector v (of norm below 2 pi), at angle zero, at tiny angles and at pi included, axisAngle2quat, quat2r and axisAngle2R (negative angles too) give to machine precision the quaternion (sin(|v|/2) v/|v|, cos(|v|/2)) and the matrix exp(-[v]x); r2quat, quat2AxisAngle (double and float), R2AxisAngle, RotationVector and EulerRodriguez (below pi) invert them; r2quat gives q[3] >= 0. Rx, Ry, Rz, rph2R, rph2C and the three Euler angle classes are the products of elementary rotations they name and are inverted away from gimbal lock, where they still give finite angles. '
     'For every parametrization parametersToSMatrix maps parameter rates to angular velocities, angularVelocityAndJacobian gives S times the rate and its derivative, and the inverse S matrix is the inverse. qplus, qoplus and their matrices agree and multiply the rotations; inverse, rotation of vectors, update (exp(dq) from the left) and all Jacobians (update, S, inverse S, exp, log) are the derivatives of what they name. qslerp and lerp stop at the ends for t outside [0,1]; between, qslerp turns at constant rate on the shorter way.',
     ['inputs'], 'a lattice of axes by angles down to 1e-300 and up to 2 pi, and all pairs of quaternions',
     'The tests use random rotations, which are never tiny, zero or by pi; there the results were zero or not a number.',
     [SK + 'src/rotations.cpp', SK + 'src/quaternion_algebra.cpp', SK + 'src/RotationVector.cpp', SK + 'src/EulerRodriguez.cpp', SK + 'src/EulerAnglesYawPitchRoll.cpp', SK + 'src/EulerAnglesZYX.cpp', SK + 'src/EulerAnglesZXY.cpp'],
     [('series for small angles', 'isLessThenEpsilons4thRoot'), ('branches by the largest component', 'r2quat, quat2AxisAngle')],
     technique='exhaustive enumeration of a lattice of inputs on the real code against direct definitions in extended precision',
     level_note='Complete on the lattice. Derivatives are compared with fourth order differences.',
     observe=['matrices, quaternions and vectors returned'])
prop('C16', 'Transformations, homogeneous points and uncertainties follow matrix algebra',
     'For all transformations and points, products, inverses, transformed points, rotations, homogeneous conversions and sums equal those of the 4x4 matrices and of the Euclidean points; oplus adds the first three entries to the translation and turns by the other three. Interpolation moves translation and rotation linearly between the ends, stops at them, and does not depend on the order of the two ends. '
     'boxPlus, boxMinus, boxTimes, S and the point Jacobians are the derivatives with respect to a perturbation from the left. Every operation on uncertain transformations, homogeneous points (of any scale), vectors and scalars (sums, differences, products, quotients, normalization, dot products, inverses, transformed and rotated points) has as covariance J U J^T of the first derivatives of its result. The conversions between the forms of a covariance (3x3, 4x4, oplus) invert each other. threePointSvd and qMethod recover the exact transformation or rotation from transformed points.',
     ['inputs'], 'all pairs of a set of transformations and kinds of points, with full covariances, against numerical derivatives',
     'The tests use points of scale one and check few of the operators; the covariance of sums was wrong for other scales.',
     [SK + 'src/Transformation.cpp', SK + 'src/UncertainTransformation.cpp', SK + 'src/HomogeneousPoint.cpp', SK + 'src/UncertainHomogeneousPoint.cpp', SK + 'src/transformations.cpp', SK + 'src/homogeneous_coordinates.cpp', SK + 'include/sm_kinematics/implementation/UncertainVector.hpp', SK + 'src/three_point_methods.cpp'],
     [('first order propagation', 'UncertainTransformation::operator*, UncertainHomogeneousPoint::operator+')],
     technique='exhaustive enumeration of all pairs from a lattice of inputs on the real code against matrix arithmetic and finite differences',
     level_note='Complete on the lattice.', observe=['values and covariances'])

CA = 'aslam_cv/aslam_cameras/'
CAI = CA + 'include/aslam_cameras/cameras/implementation/'
CAMF = [CAI + 'CameraGeometry.hpp', CAI + 'PinholeProjection.hpp', CAI + 'OmniProjection.hpp', CAI + 'ExtendedUnifiedProjection.hpp', CAI + 'DoubleSphereProjection.hpp', CAI + 'RadialTangentialDistortion.hpp', CAI + 'EquidistantDistortion.hpp', CAI + 'FovDistortion.hpp']
CAMT = 'exhaustive enumeration of a lattice of cameras, points and keypoints on the real code against the model equations in extended precision'
prop('C17', 'Every camera model projects and back-projects by its equations',
     'For every camera model (pinhole and omni with no, radial-tangential, equidistant or field of view distortion; extended unified; double sphere) and every point in front of the border of its model, euclideanToKeypoint gives the keypoint of the published equations; it succeeds exactly if the point is in front of that border (z > 0 for pinhole) and the keypoint lies in [0, ru) x [0, rv). All variants (with Jacobian, virtual, homogeneous with any scale w, where w < 0 turns the point around, uncertain points, visibility tests) agree. '
     'Back-projecting a keypoint gives the direction it came from (homogeneous: a point at infinity) wherever the distortion can be inverted, at the image center too; for pinhole it succeeds exactly inside the image. distort and undistort invert each other.',
     ['inputs'], 'a lattice of parameters, directions from the optical axis to straight behind, and the edges of the sensor',
     'The tests use one parameter set per model and random keypoints; the optical axis, points behind and homogeneous points of negative scale with Jacobians were not covered.',
     CAMF, [('projection', '*Projection::euclideanToKeypoint, homogeneousToKeypoint'), ('back projection', '*Projection::keypointToEuclidean, *Distortion::undistort')],
     technique=CAMT, level_note='Complete on the lattice. Back projection is compared where the fixed number of iterations of undistort converges.', observe=['keypoints, points, return values'])
prop('C18', 'Camera Jacobians are the derivatives of the projection',
     'For every camera model and distortion the Jacobians of the keypoint by the point (Euclidean, homogeneous, any sign of the scale), by the projection parameters and by the distortion parameters, and those of the back-projected point by the keypoint, are the derivatives, at the image center too. The combined Jacobian holds, for every choice of projection, distortion and shutter, the columns of the chosen parts in this order. '
     'The Jacobians of distort, undistort and of the distortion parameters are the derivatives.',
     ['inputs'], 'a lattice of parameters and points and all sets of estimated parameters, against sixth order differences in extended precision',
     'The tests compare with finite differences at random points of one camera, mostly with equal focal lengths and loose tolerances.',
     CAMF, [('derivatives of the models', '*Projection::euclideanToKeypoint(p, k, J), euclideanToKeypointIntrinsicsJacobian'), ('combination', 'CameraGeometry::euclideanToKeypointIntrinsicsJacobian')],
     technique=CAMT, level_note='Complete on the lattice; the field of view distortion next to the center with a tolerance of 1e-3, as the code uses an approximation there.', observe=['Jacobians'])
prop('C19', 'Camera parameters, shutters, masks and copies stay consistent',
     'For every choice of projection, distortion and shutter, getParameters lists the parameters of the chosen parts in this order, setParameters sets them and update adds to them, and afterwards the camera behaves like one constructed with the new parameters; the dimensions match. A camera read back from an archive is equal and behaves the same; isBinaryEqual is true exactly if all parameters, sizes, shutter and mask (pixels and scale) are equal. resizeIntrinsics scales keypoints. '
     'A rolling shutter delays a keypoint by line delay times row, a global one not; the Jacobian by the line delay is the row. With a mask a keypoint is valid only if it falls (scaled) on a nonzero pixel of the mask, never outside; projection, back projection and visibility tests respect the mask.',
     ['inputs', 'histories'], 'all sets of parameters for many cameras, each single parameter changed, masks of three scales probed inside and outside',
     'The tests update one camera and compare one archive; comparisons stopped at the first equal member, and masks were read out of bounds.',
     CAMF + [CA + 'src/ImageMask.cpp', CA + 'src/RollingShutter.cpp', SM + 'sm_common/include/sm_common/serialization_macros.hpp'],
     [('parameters', 'CameraGeometry::update, setParameters, getParameters'), ('mask', 'ImageMask::isValid'), ('comparison', 'SM_CHECKMEMBERSSAME')],
     technique=CAMT, level_note='Complete on the lattice.', observe=['parameters, keypoints, comparisons'])

EXB = 'aslam_optimizer/aslam_backend_expressions/'
EXI = EXB + 'include/aslam_backend_expressions/'
prop('C06', 'Design variables add updates, revert one step, and know their difference',
     'For every kind of design variable (points, homogeneous points, rotations, directions, scalars, vectors, matrices with or without a pattern, unit quaternions, mapped ones, adapted camera parameters) and every history of updates, reverts and parameter changes: an update applies exactly its increment to the current parameters (added to vectors; rotation vector times quaternion for rotations and homogeneous points); revertUpdate restores exactly the parameters before the last update or setParameters, a second revert changes nothing more, and a revert before any update changes nothing; getParameters returns the current parameters and setParameters sets them; minimalDimensions is constant. Mapped variables keep their value in the memory they were given. '
     'minimalDifference is the increment that leads from the given parameters to the current ones (as rotation vector for quaternions), with its derivative by an update as Jacobian, also where both are equal. Flags, block index, column base and scaling are kept.',
     ['histories'], 'all sequences of updates, reverts and parameter changes up to a depth for 25 kinds of design variables',
     'The tests update a variable once and revert it; stale backups and differences to the previous value show only after longer histories.',
     [EXB + 'src/EuclideanPoint.cpp', EXB + 'src/RotationQuaternion.cpp', EXB + 'src/HomogeneousPoint.cpp', EXB + 'src/MappedRotationQuaternion.cpp', EXB + 'src/MatrixBasic.cpp', EXI + 'DesignVariableGenericVector.hpp', 'aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/DesignVariableAdapter.hpp'],
     [('backup of the value before an update', 'updateImplementation, revertUpdateImplementation, setParametersImplementation'), ('tangent space', 'minimalDifferenceAndJacobianImplementation')],
     technique='explicit-state model checking: exhaustive enumeration of operation sequences on the real objects against a reference model',
     level_note='Complete up to the depth for two or three increments and parameter values each.', observe=['parameters', 'differences and Jacobians'])
prop('C10', 'Expressions evaluate their formula and its derivatives',
     'For every expression (Euclidean, homogeneous, rotation, transformation, scalar, vector and matrix nodes, and the generic matrix, scalar and quaternion ones) and every value of its design variables, the value is that of the formula in plain matrix arithmetic (products, inverses, sums, differences, cross and dot products, scaling, division, norms, conversions between kinds). '
     'Once it has been evaluated there, its Jacobians are the derivatives of the value by an update of each design variable it contains, summed over all its occurrences; with a chain rule matrix of any number of rows they are that matrix times the derivatives. getDesignVariables returns exactly the design variables in it, and after an update the next evaluation gives the new value.',
     ['inputs'], 'all nodes and nested combinations of nodes over lattices of values, active sets and chain rule matrices',
     'The tests compare single nodes with finite differences at random points; division, left updates and several generic nodes were wrong or did not compile.',
     [EXB + 'src/EuclideanExpressionNode.cpp', EXB + 'src/RotationExpressionNode.cpp', EXB + 'src/HomogeneousExpressionNode.cpp', EXB + 'src/TransformationExpressionNode.cpp', EXB + 'src/ScalarExpressionNode.cpp', EXI + 'implementation/GenericMatrixExpression.hpp', EXI + 'implementation/GenericScalarExpressionNode.hpp'],
     [('chain rule', '*ExpressionNode*::evaluateJacobiansImplementation'), ('cached values', 'GenericMatrixExpressionNode::evaluate, _valueDirty')],
     technique='exhaustive enumeration of expressions and values on the real code against matrix arithmetic and finite differences',
     level_note='Complete on the lattice. Nodes declared but not implemented in the code are not covered.', observe=['values, Jacobians, sets of design variables'])
prop('C08', 'Sparse and block matrices do the arithmetic of the dense ones',
     'After every sequence of its operations (appending Jacobians, pushing, updating and popping the diagonal block, clearing, initializing, reading from dense or CHOLMOD data) a CompressedColumnMatrix has the size and elements of the dense matrix it stands for, with sorted, consistent columns; its products with vectors leave out an appended diagonal block. '
     'A JacobianContainer keeps one block per active design variable, in the order of the block indices, adds up what is added, and applies chain rules and builds Hessians as matrix arithmetic says. '
     'SparseBlockMatrix sums, products, transposes, scalings, copies, moves, views (slices), permutations, conversions and solves (CHOLMOD, dense, QR, covariance blocks) equal the dense ones for every set of blocks, results written to an existing matrix replace what it held, copies never share blocks and views always do. '
     'Error terms weight errors and Jacobians consistently with their covariance and M-estimator, and their checks of the Jacobians accept right ones and refuse wrong or infinite ones. The Schur complement equals the dense one.',
     ['histories', 'inputs'], 'all operation histories up to a depth, all sets of blocks of small matrices, all slices and permutations',
     'The tests use a few fixed patterns; clearing, re-initialized or viewed matrices and the checks of the Jacobians of dynamic error terms were wrong.',
     [BEI + 'implementation/CompressedColumnMatrix.hpp', BE + 'src/JacobianContainer.cpp', 'aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp', BE + 'src/ErrorTermDs.cpp', BEI + 'implementation/ErrorTerm.hpp', BE + 'src/sparse_matrix_functions.cpp'],
     [('column pointers, row indices, values', 'CompressedColumnMatrix'), ('maps of blocks, ownership flag', 'SparseBlockMatrix::block/slice/cloneInto'), ('map ordered by block index', 'JacobianContainer::add')],
     technique='explicit enumeration of all operation histories up to a depth on the real code against a dense model',
     level_note='Complete for histories of 4-5 operations and matrices of up to 3x3 blocks with one set of values per block.', observe=['elements, structure, products and solutions'])
prop('C09', 'Marginalization leaves a prior with the cost of the best removed variables',
     'For every least squares problem whose Jacobian has full column rank, marginalize(design variables, error terms, k) returns a prior error term on all but the first k design variables, in their order, whose cost at any values of these is the minimum of the weighted linearized cost over the removed ones, minus the total minimum; its Jacobians are the derivatives of its error, also for scaled design variables, and it can be marginalized again: for linear problems every order of eliminating variables, one or several at a time, gives the same cost up to a constant. '
     'The returned covariance is the leading block of the inverse of the information matrix, with the design variables it involves. Duplicate design variables or error terms, underdetermined problems and removing everything are refused by an exception; in every case the block indices, column and row bases and values are as before.',
     ['inputs', 'histories'], 'all small graphs of variables and errors, all orders, numbers of removed variables, and elimination histories',
     'The test marginalizes one planar problem with ideal measurements; the covariance aborted for every overdetermined problem and scaled variables gave a wrong prior.',
     [BE + 'src/Marginalizer.cpp', BE + 'src/MarginalizationPriorErrorTerm.cpp'],
     [('QR decomposition, lower right block', 'marginalize'), ('error R * difference - d', 'MarginalizationPriorErrorTerm::evaluateErrorImplementation')],
     technique='explicit enumeration of all problems and elimination histories up to a size on the real code against dense least squares',
     level_note='Complete for graphs of up to 3 (thorough: 4) design variables with one set of generic numbers per graph.', observe=['cost, gradient and information of the prior', 'indices'])

BSP = 'aslam_nonparametric_estimation/aslam_bsplines/'
prop('C13', 'Vector B-splines equal their definition and keep the curve when edited',
     'For every order, non-decreasing knot sequence and coefficients, value and derivatives of any order at every time in [t_min, t_max) equal the sum of coefficients times the (Cox - de Boor) basis functions; Jacobians, Phi, local basis matrices, U*M, bi vectors and the indices of the local coefficients agree with them; evalIntegral and the quadratic integrals (dense, sparse, diagonal, roots) are the integrals of these values. Times out of range, knots out of order, and wrong sizes are refused, without a change. '
     'Across every history of operations: addCurveSegment ends the spline at the new time and value, keeping the value at the old end and all but the last coefficient; addCurveSegment2 chooses the two last coefficients of least squared end point deviations and lambda weighted accelerations; removeCurveSegment takes off the first segment and leaves the remaining curve as it was; setting coefficients changes these only. initSpline makes a straight line with its end values, initSplineSparse / initSpline2 / initSpline3 / initSplineSparseKnots minimize the sum of squared deviations and the weighted regularization they are given, initConstantSpline makes a constant.',
     ['inputs', 'histories'], 'all words of knot gaps up to a length for all orders, all histories of edits up to a depth',
     'The tests use random uniform splines; matrices of removed segments were kept, and the regularization of an added segment left out all other coefficients.',
     [BSP + 'src/BSpline.cpp'],
     [('basis matrices from the recursion', 'BSpline::M'), ('knot span of a time', 'BSpline::computeTIndex'), ('adding a segment', 'BSpline::addCurveSegment2')],
     technique='explicit enumeration of all knot sequences and edit histories up to a size on the real code against the Cox - de Boor recursion',
     level_note='Complete for gaps out of {0, 1/4, 1, 3} and the stated numbers of segments and operations; the last segment has a length.', observe=['value', 'jacobian', 'coefficients', 'knots'])

ASP = 'aslam_nonparametric_estimation/aslam_splines/'
prop('C14', 'Pose splines, spline variables and motion errors match their curve',
     'For every pose spline, each order, rotation parameterization, knot sequence and time: transformation, orientation and position are those of the curve, inverses invert them, linear velocity and acceleration (world and body frame) are derivatives of the position, angular velocity (world and body frame) follows from the derivative of the orientation, the variants with Jacobians return the same values, and each Jacobian is the derivative by the coefficients listed with it. initPoseSpline, addPoseSegment and the fits pass through (or minimize the deviation from) the poses given. '
     'The expressions made by the spline design variables have exactly these values, Jacobians and design variables; those at a variable time also have the derivative by the time, inside the range given by its buffers, and are refused outside. After every history of added and removed segments, updates, reverts and parameter changes, design variable i holds coefficient i of the curve, the remaining variables are the same objects, and removed ones are no longer listed. '
     'The motion error terms (whole curve and per segment) equal the integral of the squared weighted derivative; their gradient and Hessian are the derivatives of it.',
     ['inputs', 'histories'], 'all orders, rotation parameterizations, knot sequences, times and derivative orders of a lattice; all histories of edits up to a depth',
     'The tests use random splines of one order and compare Jacobians for one rotation parameterization; body frame, variable time and multi-step histories were wrong or untested.',
     [BSP + 'src/BSplinePose.cpp', ASP + 'src/BSplineExpressions.cpp', ASP + 'src/BSplinePoseDesignVariable.cpp', ASP + 'src/EuclideanBSplineDesignVariable.cpp', ASP + 'include/aslam_splines/implementation/BSplineDesignVariable.hpp', ASP + 'include/aslam_splines/BSplineMotionError.hpp', ASP + 'include/aslam_splines/BSplineMotionErrorFactory.hpp'],
     [('curve to pose and its Jacobians', 'BSplinePose::*AndJacobian'), ('variables of a time', 'getActiveDesignVariableIndices'), ('segments', 'addSegment, removeSegment')],
     technique='explicit enumeration of curves, times and edit histories up to a size on the real code against derivatives of the curve',
     level_note='Complete on the lattice and up to the depth. The angular acceleration leaves out a term (known finding).', observe=['pose, velocity, acceleration', 'Jacobians', 'design variables'])

KAL = 'aslam_offline_calibration/kalibr/'
CVE = 'aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/'
CVB = 'aslam_cv/aslam_cv_backend/'
prop('C32', 'IMU, reprojection and prior errors equal their measurement model',
     'For every value of their variables: the gyroscope error is angular velocity + bias - measurement; the accelerometer error is C_b_w (a_w - g_w) + bias - measurement; the eccentric accelerometer is M C_i_b (C_b_w (a_w - g_w) + e) + bias - measurement, where component i of e is that of alpha x r_i + w x (w x r_i) for the lever arm of axis i; the eccentric gyroscope is M (C_i_b w + Ma C_i_b (C_b_w (a_w - g_w) + alpha x r + w x (w x r))) + bias - measurement. Reprojection errors (with or without camera variables, from a frame or a measurement) are measurement minus projection; priors on points, poses and expressions are their deviation (translation and axis angle of T times the inverse prior). '
     'The cost is the error squared with the information matrix given; design variables are exactly those of the expressions (and camera); Jacobians are the derivatives of the error by each active variable and nothing for others; measurement and prediction are returned as they are, updates of the measurement count from then on. '
     'Keypoint times are the time stamp plus line delay times row, with the row as derivative by the line delay. With a pose spline the information of a rolling shutter keypoint is (A R A^T)^-1, A being the derivative of the residual by the keypoint including the motion of the camera during read-out. The design variables of a calibration target are its points: an update of one moves this point of the target only.',
     ['inputs'], 'a lattice of values, information matrices and update patterns, all (or the extreme) sets of active variables, 8 camera types with and without distortion and rolling shutter',
     'The tests check one random Jacobian for each IMU error and no value; wrong frames of reference, missing terms and wrong weights with consistent Jacobians pass them.',
     [KAL + 'src/AccelerometerError.cpp', KAL + 'src/GyroscopeError.cpp', KAL + 'src/EuclideanError.cpp', CVE + 'ReprojectionError.hpp', CVE + 'SimpleReprojectionError.hpp', CVE + 'CovarianceReprojectionError.hpp', CVB + 'include/aslam_cv_backend/implementation/CameraDesignVariable.hpp', CVB + 'include/aslam_cv_backend/implementation/ScalarExpressionNodeKeypointTime.hpp', CVB + 'src/GridCalibrationTargetDesignVariableContainer.cpp', EXB + 'src/ErrorTermTransformation.cpp', EXB + 'src/ErrorTermEuclidean.cpp', EXI + 'ExpressionErrorTerm.hpp'],
     [('predicted measurement as an expression', 'AccelerometerErrorEccentric, GyroscopeErrorEccentric'), ('projection and its Jacobians', 'ReprojectionError::evaluateJacobiansImplementation'), ('covariance of a rolling shutter', 'CovarianceReprojectionError::covarianceMap')],
     technique='exhaustive enumeration of values and sets of active variables on the real code against the measurement equations and their derivatives',
     level_note='Complete on the lattice.', observe=['error, cost, information', 'Jacobians', 'design variables', 'keypoint times'])
APR = 'aslam_offline_calibration/aslam_apriltag2/'
prop('C29', 'A log message is printed whole and once exactly if its level and stream are on',
     'A log statement prints its message exactly once, complete (whatever its length), with its level, stream, place, time and by the logger set last, if its level is at least the level set and its named stream is enabled (the unnamed stream always is) and its condition holds (first time only for ONCE, at most once per period for THROTTLE); otherwise nothing is printed and the arguments are not evaluated. '
     'This follows every change of level, streams and logger, whether the statement was reached before or not. A logger that fails or itself logs loses that message only. Threads may log and change levels, streams and the logger at any time: messages are never mixed, lost or printed twice, each thread finds its own settings in force, and nothing deadlocks. Formats replace exactly the known ${...} tokens.',
     ['schedules', 'operation sequences'], 'all histories of settings and statements up to length 3, formats of up to three pieces, programs of 2-3 threads under all schedules with a bounded number of deviations',
     'The test prints some lines and checks nothing; deadlocks and missed settings need two threads at particular points.',
     [SM + 'sm_logging/src/LoggingGlobals.cpp', SM + 'sm_logging/src/Formatter.cpp', SM + 'sm_logging/src/Logger.cpp', SM + 'sm_logging/src/StdOutLogger.cpp', SM + 'sm_logging/include/sm_logging/logging/console.hpp', SM + 'sm_logging/include/sm_logging/logging/Tokens.hpp'],
     [('locations, streams and print mutexes', 'LoggingGlobals::initializeLogLocation/setLevel/enableNamedStream/disableNamedStream/print'), ('static state of a statement', 'SMCONSOLE_DEFINE_LOCATION and the SM_LOG macros')],
     technique='model checking of operation histories against a reference model, and stateless exploration of all schedules of the real code under a controlled pthread scheduler',
     level_note='Histories run in a process each (statements keep static state). Schedules are complete up to the deviation bound; scheduling points are the pthread operations and the inside of the logger; sequentially consistent memory. Statements whose level varies between calls, ONCE and THROTTLE are claimed on one thread only.',
     observe=['events given to the logger', 'evaluation of arguments'])

prop('C30', 'Tags are decoded and located correctly, and no tag is seen where none is',
     'For each tag family (36h11, 36h9, 25h9, 25h7, 16h5) any two codes, and a code and its own rotations, differ in at least the Hamming distance stated. Decoding a word that is a code with at most (distance-1)/2 wrong bits, turned by any number of quarter turns, gives its id, its number of wrong bits, the number of turns that restores it, the word and the code; it is good if and only if the wrong bits are at most errorRecoveryBits. rotate90, population counts and Hamming distances are exact for all words. '
     'A tag rendered in an image (any id, orientation, border width 1 or 2, perspective; zero or one wrong bit; image stored contiguously or as part of a larger one) is detected exactly once, with its id and distance; its corners are in the order lower left, lower right, upper right, upper left of the tag and within a pixel of where they are; the homography maps (-1,-1)..(1,1) to them; tags with two wrong bits and images without tags give no detection. '
     'Of the parts: union-find keeps exactly the partition of the connections made, with its sizes; the spatial grid returns every object within range and none twice; smoothing a row or image is the convolution with replicated borders, independent of where the row is stored; lines, fits of segments, intersections, wrapped angles, the bilinear gray model, homographies of four points and the pose of a tag are those of geometry.',
     ['inputs', 'histories'], 'all words up to 16 bits, all codes, rotations and single (of some: double and triple) bit errors, all sequences of unions up to a depth, rendered images of every id and orientation',
     'The package has no test; decoding must hold for every code, rotation and error pattern.',
     [APR + 'src/TagDetector.cc', APR + 'src/TagFamily.cc', APR + 'src/Quad.cc', APR + 'src/Homography33.cc', APR + 'src/UnionFindSimple.cc', APR + 'include/aslam_apriltag2/Gridder.h', APR + 'src/Gaussian.cc', APR + 'src/FloatImage.cc', APR + 'src/GLine2D.cc', APR + 'src/GLineSegment2D.cc', APR + 'src/GrayModel.cc', APR + 'src/TagDetection.cc', APR + 'src/Edge.cc', APR + 'include/aslam_apriltag2/Tag36h11.h'],
     [('decoding', 'TagFamily::decode'), ('detection', 'TagDetector::extractTags'), ('partition', 'UnionFindSimple::connectNodes')],
     technique='exhaustive enumeration of codes, rotations, bit errors and sequences of unions, and of rendered tags, on the real code against reference definitions',
     level_note='Complete over codes, rotations and single errors; images are rendered at one scale and a set of perspectives.', observe=['detections', 'codes', 'partition', 'smoothed images'])
prop('C11', 'Observations of a target give the right pose and first intrinsics',
     'estimateTransformation of every camera model finds the pose from which the observed corners of a target are the projections of its points, for every set of at least four observed corners that determines it; unobserved corners and those more than 80 degrees off the axis do not matter; with fewer than four usable corners it returns false and leaves the output alone. The reprojection error is the sum of distances over the observed corners that project, and their number is returned. '
     'initializeIntrinsics throws without observations; else image centre is ((cols-1)/2, (rows-1)/2), resolution that of the first observation, distortion reset, both focal lengths equal, positive and finite (also for rows imaged as straight lines) and derived quantities follow. Pinhole: the focal length is the median, over all complete views and all pairs of rows, of the distance of the two points in which the circles fitted to the rows meet, divided by pi (557 without any); the order of views and incomplete views do not matter. '
     'Omni: with views of rows of more than four corners by a unit sphere camera (xi=1) the focal length is exact, a wrong view among right ones does not change it, and it fails if no row has more than four corners; extended unified (alpha 0.5, beta 1) and double sphere (alpha 0.5, xi 0) get half of it.',
     ['inputs'], 'eight kinds of camera; all 256 sets of observed corners of many views; boards of five shapes, groups of one to three views, incomplete and wrong views at each position',
     'No test runs the initialization of intrinsics; a failure shows as a diverging calibration only.',
     [CAI + 'PinholeProjection.hpp', CAI + 'OmniProjection.hpp', CAI + 'ExtendedUnifiedProjection.hpp', CAI + 'DoubleSphereProjection.hpp', CA + 'src/GridCalibrationTargetObservation.cpp'],
     [('pose', 'estimateTransformation'), ('focal length of pinhole cameras', 'PinholeProjection::initializeIntrinsics'), ('focal length of omnidirectional cameras', 'OmniProjection::initializeIntrinsics')],
     technique='exhaustive enumeration of sets of observed corners and groups of views on the real code against the known pose and a reference computation of the focal length',
     level_note='Complete over the sets of corners of the listed views; the views are a lattice. Degenerate views (corners on a line, circles that nearly touch) are left out.', observe=['pose', 'focal length', 'image centre and resolution'])
CAT = 'aslam_cv/aslam_cameras/src/'
prop('C21', 'Targets, their observations and the detector index every corner correctly',
     'A calibration target has its points where its kind defines them: corner (r, c) has index cols*r + c and lies at (rowSpacing*r, colSpacing*c, 0) on checkerboards, at (s*r, s*c, 0) on symmetric and ((2c + r%2)s, r*s, 0) on asymmetric circle grids, and on april grids at the corners of tags of side size with gaps spacing*size, x along columns and y along rows. Index and grid coordinates (column, row) are inverse to each other; indices out of range throw; spacings and sizes that are not positive are refused. '
     'After every history of updates, removals, (re)sets of the target and copies, an observation holds exactly those image points updated and not removed since: the flags, the list of corners, their points on the target, the indices and the count agree, copies are independent, and image, size, time and pose are those last set. Reprojection statistics throw without a pose. '
     'The detector reports success if and only if the target was found (and its pose, when asked for); it removes exactly the corners whose reprojection error exceeds both the mean plus the given number of standard deviations and the minimum given. What it finds belongs to the image at hand only: in rendered boards (also with tags missing, near the border, or after other images with the same detector) each corner of a visible tag or board is reported at its index within a pixel, and no other (on april grids if the required number of tags is visible). Targets, observations and detectors survive serialization.',
     ['inputs', 'histories'], 'all sizes of targets up to 5 by 5, all histories of observation operations up to a depth, all outlier patterns, rendered boards with all sets of visible tags',
     'The tests of targets are a handful of constructions; the corners of an earlier image reported again by the same detector show only in sequences of images.',
     [CAT + 'GridCalibrationTargetObservation.cpp', CAT + 'GridCalibrationTargetBase.cpp', CAT + 'GridDetector.cpp', CAT + 'GridCalibrationTargetCheckerboard.cpp', CAT + 'GridCalibrationTargetCirclegrid.cpp', 'aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp'],
     [('points and indices', 'GridCalibrationTargetBase::gridCoordinatesToPoint'), ('observed corners', 'GridCalibrationTargetObservation::updateImagePoint'), ('detection and outliers', 'GridDetector::findTarget')],
     technique='explicit enumeration of targets, observation histories, outlier patterns and rendered boards on the real code against reference definitions',
     level_note='Complete over sizes, histories up to the depth and sets of visible tags; images rendered at one scale.', observe=['target points', 'observed corners', 'detection result'])
CAP = 'aslam_cv/aslam_cameras/'
prop('C20', 'Keypoints, frames and landmarks keep what was put in, and copies are equal',
     'After every history of changes, copies, assignments, swaps and archiving, a keypoint has the measurement, inverse covariance, octave, trace id, landmark (with its enabled flag and id), back projection and descriptor last given to it; a copy, an assigned or a swapped keypoint has all those of its source, and changing one leaves the other alone. Archiving restores all but trace id and enabled flag. isBinaryEqual holds exactly if the archived attributes are equal, for keypoints, frames, images, landmarks, identifiers. Wrong sizes, kinds, indices (checked access), null pointers and geometries of the wrong type are refused. '
     'A frame lists its keypoints in the order added (one by one, as lists, through the base class), with its geometry, stamp, id and image; the time of a keypoint is the stamp plus the temporal offset of the geometry; the squared reprojection errors are e^T R^-1 e of projection minus measurement (with R + J U J^T for uncertain points), computed and reported successful exactly if the point projects; back projections are unit rays with propagated covariance and view origin zero, the stored one if there is one. '
     'A landmark made from a keypoint has its (transformed) point, covariance, descriptor and id. Triangulation of two rays gives the closest points on both, the midpoint and their distance. Keypoint identifiers are ordered by frame, camera, keypoint.',
     ['histories', 'inputs'], 'all sequences of operations on two keypoints and on a frame up to a depth, lattices of points and rays',
     'The tests archive one random frame; assigning a keypoint lost its octave, copying enabled its landmark, and no test assigns or copies one.',
     [CAP + 'include/aslam_cameras/Keypoint.hpp', CAP + 'include/aslam_cameras/implementation/Keypoint.hpp', CAP + 'include/aslam_cameras/implementation/Frame.hpp', CAP + 'src/Landmark.cpp', CAP + 'src/KeypointBase.cpp', CAP + 'src/FrameBase.cpp', CAP + 'src/BackProjection.cpp', CAP + 'src/Triangulation.cpp', CAP + 'src/Image.cpp', CAP + 'include/aslam_cameras/implementation/utilities.hpp', CAP + 'include/aslam_cameras/KeypointIdentifier.hpp'],
     [('copying', 'Keypoint::Keypoint, swap, operator='), ('errors and back projections', 'Frame::computeReprojectionError*, getUncertainBackProjection'), ('closest points', 'triangulate')],
     technique='explicit-state exploration: all operation sequences up to a depth on the real classes against a record of the attributes',
     level_note='Complete up to the depth with one or two values for each attribute; two camera types.', observe=['attributes', 'archives', 'errors and rays'])
MES = 'aslam_optimizer/aslam_backend/'
prop('C12', 'M-estimators weight by their formula, and robust estimates minimize its cost',
     'For every squared error e >= 0 the weight of the Geman-McClure estimator is s/(s+e)^2, of Cauchy 1/(1+e/s), of Huber 1 below k^2 and k/sqrt(e) from there, of Blake-Zisserman exp(-e)/(exp(-e)+eps), where eps is such that the weight is wCut at the pCut-quantile of the chi-squared distribution with the given degrees of freedom, and 1 without estimator. Weights are finite, not negative and never increase with the error. '
     'An error term uses the policy set last (none after clearing): cost, weighted squared error, weighted error, weighted Jacobians (by the root of the weight of the current error) and normal equations are those of the formula if the estimator is asked for and unweighted otherwise; the raw squared error never changes. '
     'Gauss-Newton optimization of linear problems with robust terms ends where the gradient of the robust cost vanishes, never with a higher robust cost than it started from, with Huber at the global minimum, and reports the weighted cost there.',
     ['inputs'], 'a lattice of parameters and errors for each estimator; all data sets out of three values for robust means and lines',
     'No test computes a weight; a wrong one gives a plausible but biased calibration in the presence of outliers only.',
     [MES + 'src/MEstimatorPolicies.cpp', MES + 'src/ErrorTerm.cpp', MES + 'include/aslam_backend/backend/implementation/ErrorTerm.hpp', MES + 'include/aslam_backend/backend/MEstimatorPolicies.hpp'],
     [('weights', 'MEstimator::getWeight'), ('weighting of errors and Jacobians', 'ErrorTermFs/ErrorTermDs::buildHessianImplementation, getWeightedJacobians')],
     technique='exhaustive enumeration of estimators, errors and data sets on the real code against the formulas and the robust cost',
     level_note='Complete on the lattices. Only Gauss-Newton is claimed to end in a stationary point (the trust region methods compare weighted costs).', observe=['weights', 'costs, Jacobians', 'estimates'])
PY = 'aslam_offline_calibration/kalibr/python/'
prop('C33', 'Views of a camera rig are gathered and chained into the right initial baselines',
     'After every sequence of observations the observation table holds one view for each set of observations whose times agree within the tolerance, and in it at most one (the first) observation of each camera; the corners common to two cameras, the observations of a pair and all observations of a camera are those of the table. '
     'The graph of the cameras has an edge between two cameras, weighted by the number of corners they saw in common, if and only if they saw common corners in the same view. A rig that is not connected is refused before anything is calibrated. Otherwise the pairs calibrated are n-1 and form best paths from the first camera (cost 1/common corners); the initial baseline from camera i to i+1 is the composition, with the right directions, of the pairwise ones along the path between them, and is what the refinement starts from. '
     'The guess for the pose of the target in the first camera comes from the camera that saw most corners, carried over the baselines.',
     ['histories', 'inputs'], 'all sequences of observations up to a depth over cameras, times near the tolerance and sets of corners; all graphs over up to 4 cameras by numbers of common corners',
     'kalibr has no test of its Python programs; a wrong direction in the chain shows only for particular rigs, as a calibration that does not converge.',
     [PY + 'kalibr_camera_calibration/MulticamGraph.py', PY + 'kalibr_camera_calibration/ObsDb.py'],
     [('table of observations by approximate time', 'ObservationDatabase.addObservation'), ('graph and baselines', 'MulticamCalibrationGraph.initializeGraphFromObsDb, getInitialGuesses'), ('pose of the target', 'MulticamCalibrationGraph.getTargetPoseGuess')],
     technique='explicit-state exploration: all sequences of observations up to a depth and all camera graphs on the real Python code, against a reference table and path search',
     level_note='Complete up to the depth. The compiled modules and igraph are replaced by stand-ins; pairwise and full calibrations are stand-ins with known results.', observe=['table', 'graph', 'baselines'])
prop('C34', 'Configuration files are written as they are read, and invalid ones are refused',
     'A camera, camera chain, IMU or target configuration that is written and read again has the same content: model, intrinsics, distortion, resolution, topic, line delay, overlaps, extrinsics of each camera to its predecessor and to the IMU, time shifts, noise densities, update rate and target description. Each getter refuses (throws) what is missing, of the wrong type, number or sign, and unknown models and targets, in files as in values to be set; it never returns a partial result and never fails otherwise. '
     'The camera built from a configuration has the geometry, intrinsics, distortion and resolution of the file, for every combination of supported model and distortion, and the error term types that belong to it; combinations that are not supported are refused. The discrete noise is the density times the root of the update rate. '
     'The result of a camera calibration is a configuration that describes the estimated cameras and baselines. Details are printed for each kind.',
     ['inputs'], 'every field of every kind of file absent, of a wrong kind, number or range; all combinations of models, distortions and targets; chains of up to 3 cameras with all sets of fields',
     'No test reads a configuration; a field confused in one of the four kinds of files gives a wrong calibration that looks normal.',
     [PY + 'kalibr_common/ConfigReader.py', PY + 'kalibr_camera_calibration/CameraCalibrator.py'],
     [('checks and access', 'CameraParameters, CalibrationTargetParameters, ImuParameters, CameraChainParameters'), ('construction', 'AslamCamera.__init__, fromParameters'), ('results', 'saveChainParametersYaml')],
     technique='exhaustive enumeration of configurations on the real Python code against their description',
     level_note='Complete over single deviations from valid files and the listed combinations. Compiled modules are stand-ins that record what they were given.', observe=['contents', 'exceptions', 'cameras built'])
prop('C35', 'Reading a bag gives the messages of the window in the order of their stamps',
     'For every order of messages in the bag and every window, reading a topic gives exactly its messages whose header stamp lies within the window (seconds from the first message), each once, ordered by stamp (equal stamps in the order of the bag), with exact nanosecond stamps and the content of the message. A shuffled pass gives the same messages in some order and does not change later passes; iterators are independent. With time correction, the stamps are corrected by one common offset, the smallest delay between recording and header. '
     'Empty windows and absent topics are refused. Images come as gray images, converted as their encoding asks (16 bit ones by their upper byte); unknown encodings are refused.',
     ['inputs'], 'all bags of up to 4 (thorough: 5) messages by stamps, all windows of a lattice, both sensors, all encodings',
     'The readers have no test; messages out of order or windows with shifted indices show only with particular recordings.',
     [PY + 'kalibr_common/ImageDatasetReader.py', PY + 'kalibr_common/ImuDatasetReader.py'],
     [('sorting and windows', 'sortByTime, truncateIndicesFromTime'), ('iterators', 'BagImageDatasetReaderIterator, BagImuDatasetReaderIterator'), ('conversion', 'BagImageDatasetReader.getImage')],
     technique='exhaustive enumeration of bags, windows and encodings on the real Python code against a reference selection',
     level_note='Complete over the bags listed. rosbag, cv_bridge and the clock correction are stand-ins.', observe=['messages and stamps', 'exceptions'])
prop('C37', 'Parallel corner extraction gives the result of one process under any schedule',
     'For every schedule of the extracting processes, with any number of processes and images: the extraction ends, and returns exactly the observations of the images in which the target was found, one each, in the order of the images, with their time stamps, the image cleared if asked and pose estimated unless not asked for — the same as without parallel processes. No image is lost, reported twice, or mixed with another, also if fewer images than processes exist or none at all.',
     ['schedules', 'inputs'], 'all schedules with a bounded number of deviations from round robin over the operations of the queues and processes, for 1-3 processes, up to 3 (thorough: 4) images, every set of images with a target',
     'The extraction has no test; a lost image or a hang depends on which process drains the queue first.',
     [PY + 'kalibr_common/TargetExtractor.py'],
     [('task and result queues', 'extractCornersFromDataset, multicoreExtractionWrapper'), ('order of the results', 'extractCornersFromDataset')],
     technique='stateless model checking: exhaustive exploration of the schedules of the real Python code over queues and processes of a controlled scheduler',
     level_note='Complete up to the bound on deviations. Processes are modelled as threads with copied arguments; a process that crashes is not modelled.', observe=['observations returned', 'termination'])
prop('C39', 'Calibration problems have the right error term for every measurement',
     'Camera calibration: a view has exactly one error term for each corner observed by each camera, with the measured pixel, the camera of the observation and the target point carried over the chain of baselines into that camera, robust if asked; its design variables are those of target, baselines, cameras and pose, each in its group. Taking out corners leaves exactly the others. Reported errors and their statistics are those of the camera and corner named. '
     'Inertial sensors: each measurement within the spline gives one accelerometer and one gyroscope error, at its stamp plus offset, predicted by the motion of the body, gravity, pose, scale and misalignment, gravity sensitivity, lever arms and biases of the sensor, and weighted by its (scaled) noise; others give none. The pose, offset and intrinsics estimated are written as its result. '
     'Camera chain: each corner of each observation whose time lies within the spline (with padding) gives one error with the pose of the body at the shifted time of the camera, carried over the chain; time shifts and extrinsics are estimated only if asked; the time span, baselines, extrinsics and time shifts reported and written are those estimated.',
     ['inputs'], 'all sets of corners of one to three cameras; three sensor models by poses, scalings, offsets and spans; chains of one to four cameras by shifts and spans',
     'No test builds a problem; a swapped index or inverted transformation gives a plausible result with larger residuals.',
     [PY + 'kalibr_camera_calibration/CameraCalibrator.py', PY + 'kalibr_imu_camera_calibration/IccSensors.py', PY + 'kalibr_imu_camera_calibration/IccCalibrator.py'],
     [('views', 'CalibrationTargetOptimizationProblem.fromTargetViewObservations, removeCornersFromBatch'), ('inertial errors', 'IccImu.addAccelerometerErrorTerms, addGyroscopeErrorTerms and those of the scaled models'), ('camera errors', 'IccCamera.addCameraErrorTerms, IccCameraChain')],
     technique='exhaustive enumeration of views, sensors and chains on the real Python code, with late evaluated expressions, against direct differentiation of the motion',
     level_note='Complete over the listed sets. The compiled modules are stand-ins whose expressions are evaluated numerically.', observe=['error terms', 'predicted measurements', 'design variables', 'results written'])
prop('C40', 'First guesses of time shift, orientation, gravity and rate bias are right',
     'The spline through the poses seen by a camera is fitted to exactly these poses (of the body, at the times of the camera plus its shift), extended on both ends by twice the padding, with as many knots as asked for; consecutive rotation vectors never differ by a turn that could be avoided. '
     'The shift between a camera and the main inertial sensor, whose rates have one distinct peak, is found to one sample, with its sign (t_imu = t_cam + shift). From ideal measurements the orientation between camera and inertial sensor, the bias of its rates (the mean over all cameras so far), and the direction of gravity (length 9.80655) are exact, for every orientation; the translation is kept. '
     'For another inertial sensor the time offset (if it is to be estimated, else zero) and orientation to the main one are found. They are what the estimation starts from. Sensors without any overlap in time are refused.',
     ['inputs'], 'all words of poses of a lattice up to a length, shifts of up to 20 samples by motions and spans, orientations, biases and gravity directions',
     'No test covers the first guesses; a sign error appears only as an estimation that fails to converge on particular data.',
     [PY + 'kalibr_imu_camera_calibration/IccSensors.py'],
     [('pose spline', 'IccCamera.initPoseSplineFromCamera'), ('time shift', 'IccCamera.findTimeshiftCameraImuPrior'), ('orientation and gravity', 'IccCamera.findOrientationPriorCameraToImu'), ('further inertial sensors', 'IccImu.findOrientationPrior')],
     technique='exhaustive enumeration of poses, shifts and orientations on the real Python code against the truth from which the measurements were made',
     level_note='Complete over the lattices; ideal measurements. Splines and the optimizer are stand-ins (least squares by Gauss-Newton from several starts).', observe=['times and curve of the spline', 'shift', 'orientation', 'gravity and bias'])
prop('C31', 'Camera calibration reports exactly the accepted views with their good corners',
     'For every sequence of answers of the estimator (accepted, rejected, diverged) to the views offered, every set of views and of bad corners: the program offers each time of the data set once, with all cameras that saw the target then, and reports in the end exactly the views that the estimator holds. '
     'With enough views, each corner whose error exceeds four standard deviations of its camera in x or y is removed from newly accepted views (from all views the first time and in the final filtering), the view is corrected in the estimator, and dropped if it is no longer accepted; other corners stay, and the list of removed corners names exactly the missing ones. Without outlier removal or final filtering nothing else is taken out. '
     'A divergence restarts the calibration from new guesses of all cameras, at most twice; a third one ends the program without a result. Results go to the files named after the data set.',
     ['histories', 'inputs'], 'all sequences of answers of the estimator, for one and two cameras, up to four (thorough: five) times, seven patterns of bad corners, five sets of options, up to three divergences',
     'The main program has no test; a view kept in one list and dropped from the other shows only after a certain sequence of answers.',
     [PY + 'kalibr_camera_calibration/CameraCalibrator.py', PY + 'kalibr_calibrate_cameras'],
     [('main loop', 'kalibr_calibrate_cameras main()'), ('views and estimator', 'CameraCalibration.addTargetView'), ('corrected views', 'removeCornersFromBatch')],
     technique='explicit exploration of the program itself: all sequences of answers of a nondeterministic estimator on the real Python code, against a reference of the outlier filtering',
     level_note='Complete over the answers within the bounds. Estimator, cameras and detection are stand-ins; with divergences the views are checked for consistency only.', observe=['views reported', 'corners removed', 'restarts', 'files'])
prop('C38', 'Rolling shutter: one right error per corner, knots only where needed',
     'For every set of views, each with any subset of the corners of the target, rolling or global shutter, and every set of parameters to estimate: each observed corner gives exactly one error term, which compares it with the landmark of that corner seen from the pose of the spline at the time of its row; a rolling shutter uses the error with adaptive covariance. '
     'Each landmark and every other variable is in the problem once and active exactly if asked for; the spline of first guesses covers the views plus padding, passes through the estimated poses and has rotation vectors that do not jump. A pose that cannot be estimated does not end the calibration; one calibration does not change the settings of a later one. '
     'Knots: for every history of errors, a segment is split in the middle exactly if its error exceeds the number of its measurements, its halves are longer than half the time between two images, and it was not given up because it is without measurements or its error did not fall by a fifth since the last placement; inner knots between two segments without measurements are removed, all others stay, and the spline keeps its time range and shape. The calibration is repeated until the placement asks for no more, at most as often as configured. '
     'The program hands its options to these, refuses missing ones, and fails if the calibration fails.',
     ['histories', 'inputs'], 'three views of all subsets of 3 (thorough: 4) corners, all sets of estimated parameters, all histories of errors over three groups of segments and two to three (thorough: four) placements, words of answers of the placement',
     'Nothing of this program is tested; corners compared with landmarks of others or knots lost at the end of the spline appear as a bad calibration only.',
     [PY + 'kalibr_rs_camera_calibration/RsCalibrator.py', PY + 'kalibr_rs_camera_calibration/ReprojectionErrorKnotSequenceUpdateStrategy.py', PY + 'kalibr_calibrate_rs_cameras'],
     [('problem', 'RsCalibrator.__buildOptimizationProblem'), ('knots', 'ReprojectionErrorKnotSequenceUpdateStrategy.generateKnotList, getUpdatedSpline'), ('first guesses', 'RsCalibrator.__generateInitialSpline'), ('program', 'kalibr_calibrate_rs_cameras main()')],
     technique='explicit exploration on the real Python code: all histories of errors met by the placement of knots (breadth by rounds, states deduplicated) against a reference, and exhaustive enumeration of views and settings for the problem',
     level_note='Complete within the bounds. Splines, error terms, geometry and optimizer are stand-ins.', observe=['knots', 'problem', 'splines', 'configuration'])
prop('C36', 'IMU-camera calibration builds one whole problem and reports its solution only',
     'For every number of cameras and inertial sensors, word of sensor models and set of options: each file of an inertial sensor gives one sensor of the model named for it, in order, the first as reference; the others are first aligned with the reference. Numbers of models and files that differ, and unknown models, are refused (exit status 2) without results. '
     'The problem holds the variables and errors of every camera and every inertial sensor exactly once, on one pose spline and one direction of gravity, after time shifts (of every camera to the reference, unless time calibration is off), then orientation, spline and biases were found; extrinsics between cameras are free only if asked for. The padding, the number of iterations and the other options reach what they are for. '
     'If the optimization raises or its solver fails the program fails and writes nothing. Otherwise the files named after the data set hold the extrinsics, baselines, time shifts, gravity, sensors and residual statistics after the optimization; the standard deviations are those of the extrinsics of the first camera, then the time shifts.',
     ['inputs', 'faults'], '1-3 cameras, 1-2 (thorough: 3) inertial sensors with all words of models, all sets of four options, all outcomes of the optimization',
     'The main program has no test; a sensor left out of the problem or results from before the optimization look plausible.',
     [PY + 'kalibr_calibrate_imu_camera', PY + 'kalibr_imu_camera_calibration/IccCalibrator.py', PY + 'kalibr_imu_camera_calibration/IccUtil.py', PY + 'kalibr_imu_camera_calibration/IccSensors.py'],
     [('main program', 'kalibr_calibrate_imu_camera main()'), ('problem', 'IccCalibrator.buildProblem, initDesignVariables'), ('outcome', 'IccCalibrator.optimize, recoverCovariance'), ('results', 'IccCalibrator.saveCamChainParametersYaml, IccUtil.printResultTxt, IccCameraChain.getResult*')],
     technique='exhaustive enumeration of configurations, options and outcomes of the optimization on the real program with recording sensors, against a reference problem and result',
     level_note='Complete over the listed configurations. Sensors, splines and the optimizer are stand-ins; the errors themselves are the subject of C39, the first guesses of C40.', observe=['problem given to the optimizer', 'order of the steps', 'exit status', 'contents of the files'])
prop('C41', 'A batch is kept exactly if it informs; rejecting one leaves no trace',
     'Linear solver: for every sparse system A x = b of full rank in its left columns, with j the first marginalized column, LinearSolver::solve gives a least squares solution whose marginalized part is, with column scaling or not, that of minimal norm (of the scaled variables); singular values, rank, null and row space, covariance and log2 sum are those of the marginal information matrix, which uses every residual. A left part of deficient rank still gives a least squares solution. A solver can be used again after other systems. '
     'Estimator: across every history of addBatch (forced or not), removeBatch and reoptimize, a batch is accepted exactly if forced, or if half the change of the log2 sum exceeds infoGainDelta or the rank of the marginalized variables rises, and (with checkValidity) the optimization converged with lower cost. Accepted: all variables are at the optimum of the batches held, directions without information staying where they were. Rejected: every variable, the batches, the statistics and the linear system are exactly as before. '
     'Removing a batch gives the optimum and the statistics of the rest; removing the only one leaves an estimator as new; a batch unknown or added twice changes nothing. Statistics returned and kept are those of the batches held. Some information on a marginalized variable is assumed.',
     ['histories', 'inputs'], 'all histories of operations up to a depth over seven batches under several settings; all patterns of entries of small systems',
     'The estimator decides which views kalibr calibrates with; the tests of the solver use consistent right hand sides only and are not built here. The marginal system left out one residual combination: no step was a least squares solution.',
     [IC + 'src/core/IncrementalEstimator.cpp', IC + 'src/core/LinearSolver.cpp', IC + 'src/algorithms/linalg.cpp', IC + 'src/core/IncrementalOptimizationProblem.cpp'],
     [('decision', 'IncrementalEstimator::addBatch'), ('removal', 'IncrementalEstimator::removeBatch, reoptimize'), ('step', 'LinearSolver::solve'), ('marginal system', 'LinearSolver::analyzeMarginal, reduceLeftHandSide, reduceRightHandSide, solveQR')],
     technique='explicit exploration of all operation histories up to a depth on the real estimator and solver, each step compared with a dense reference model; exhaustive enumeration of sparsity patterns for the solver',
     level_note='Complete within the bounds for seven batches (linear and slightly nonlinear). The sources are written for SuiteSparse 5 and compiled through a header that passes its calls on to the installed SuiteSparse 7. Histories whose decision is within rounding are left out.', observe=['decision', 'variables', 'statistics', 'linear system'])
