"""What each check builds and runs."""
import vbuild, os
from vbuild import build, package_sources, VERIF, REPO
H = VERIF + '/harness/'
SPECS = {}


def pkg(*names, skip=()):
    out = []
    for n in names:
        out += [s for s in package_sources(n, skip) if s not in out]
    return out


def spec(pid, **kw):
    SPECS[pid] = kw


def simple(name, sources, args=(), shards=8, **kw):
    """One harness built from NAME.cpp and the given package sources."""
    def parts(tier):
        return [dict(build=lambda: build(name, [H + name + '.cpp'] + list(sources() if callable(sources) else sources), **kw),
                     args=list(args), shards=shards)]
    return parts


TSAN = ['-fsanitize=thread']
VSCHED = VERIF + '/include/vsched.cpp'


def sched(name, sources, **kw):
    """A harness run under the controlled scheduler, with memory accesses reported."""
    def parts(tier):
        def b():
            src = [H + name + '.cpp'] + list(sources() if callable(sources) else sources)
            return build(name, src + [VSCHED], per_source_flags={s: TSAN for s in src}, link_flags=['-rdynamic'], **kw)
        return [dict(build=b)]
    return parts


spec('C01', level='model_checking',
     parts=sched('jobqueue', lambda: pkg('sm_boost')),
     bounds='1-2 workers, 0-2 jobs (thorough: 3 and 3), one to two client threads; all schedules with at most 2-3 preemptions, early timeouts or spurious wake-ups',
     rule='')

IC = REPO + '/aslam_incremental_calibration/aslam_incremental_calibration/src/'
import glob
spec('C02', level='model_checking',
     parts=sched('threads', lambda: sorted(glob.glob(IC + 'base/*.cpp')) + sorted(glob.glob(IC + 'exceptions/*.cpp'))),
     bounds='2-3 clients of one mutex or condition, 1-2 thread objects with 1-2 other clients; all schedules with at most 3 (thorough: 4; one or two less for the larger programs) deviations from round-robin order (preemptions, early timeouts, other picks when a thread blocks); thorough stops a program after 300000 schedules')

spec('C22', level='exploration', parts=simple('time', lambda: pkg('aslam_time')),
     bounds='all pairs from a lattice of 77 times and 91 durations (thorough: 176 and 208) around the limits of their range, and all constructor arguments from 20 extreme values',
     rule='a scenario counts if the result is negative or out of range, so that normalization or refusal decides it')
spec('C23', level='model_checking', parts=simple('corrector', lambda: []),
     bounds='all measurement sequences of length 4-7 over grids of 2-3 remote steps and 2-5 delays, in floating point and integer nanoseconds',
     rule='')
spec('C24', level='model_checking', parts=simple('timer', lambda: pkg('sm_timing')),
     bounds='all sequences of 6 (thorough: 7) operations on two timers with equal or different tags; up to 150 samples for the rolling window',
     rule='')
spec('C25', level='model_checking', parts=simple('proptree', lambda: pkg('sm_property_tree')),
     bounds='all sequences of 2 mutations by 5 views, 5 keys and 14 kinds of value, and of 3 (thorough: 4) over 4 keys and 11 kinds; each distinct tree through the file formats')
spec('C26', level='model_checking', parts=simple('matarchive', lambda: pkg('sm_matrix_archive')),
     bounds='all sequences of 3 (thorough: 4) operations out of 45 on 3 names; for each archive reached every truncation of its file, every number of bytes after which writing fails, every subset of its names')
spec('C27', level='exploration', parts=simple('serial', lambda: pkg('sm_boost')),
     bounds='integers: all sign changes of powers of two plus or minus 3 and the limits, for 8 types and 3 byte orders; matrices of all shapes up to 3x3 between 9 stored and 8 loaded types in 4 archives; every truncation of each portable archive',
     rule='counted are the distinct archives written and read back')
spec('C28', level='exploration', parts=simple('strings', lambda: pkg('sm_common')),
     bounds='all strings up to length 7 over 3 characters and up to 8 over 5 (environment variables); 165 (thorough: 900) hash ids and all pairs; lattices of numbers',
     rule='counted are strings and numbers where replacement, tolerance or rounding decides the result')
SUITE = dict(suitesparse=True)
spec('C04', level='model_checking', parts=simple('solvers', lambda: pkg('aslam_backend', 'aslam_sparse_block_matrix', 'sm_timing', 'sm_property_tree', 'sm_logging', 'sm_random'), suitesparse=True),
     bounds='all structures of 1-3 design variables of 1-3 dimensions (at most one inactive) and 1-3 error terms of 1-3 dimensions over all subsets; on three of them all histories of 4 (thorough: 6) operations',
     rule='')
BACKEND = lambda: pkg('aslam_backend', 'aslam_sparse_block_matrix', 'sm_timing', 'sm_property_tree', 'sm_logging', 'sm_random')
spec('C03', level='model_checking', parts=simple('optimizer', BACKEND, suitesparse=True),
     bounds='all sequences of outcomes (6 kinds of cost at each new point, success or failure of each linear solve) over 2-7 (thorough: up to 8) iterations, for 8 pairs of policy and solver; 960 (thorough: 4800) least squares problems',
     rule='')
spec('C05', level='model_checking', parts=sched('evalthreads', BACKEND, suitesparse=True),
     bounds='0-4 (thorough: 5) error terms on 2-4 (5) threads, every set of up to two (thorough: all) throwing terms, three solvers; all schedules with at most 1-2 (thorough: 2-3) deviations from round-robin order; data races on the shared buffers by vector clocks',
     rule='')
INCR = lambda: sorted(f for d in ('base', 'core', 'exceptions') for f in glob.glob(IC + d + '/*.cpp') if not f.endswith(('IncrementalEstimator.cpp', 'core/LinearSolver.cpp')))
spec('C07', level='model_checking', parts=simple('problems', lambda: BACKEND() + INCR(), suitesparse=True),
     bounds='all sequences of 4-5 (thorough: 5-7) operations out of 8-18 per container, over 3-4 design variables and 3-6 error terms; all index vectors of up to 5 (6) elements',
     rule='')
spec('C15', level='exploration', parts=simple('rotations', lambda: pkg('sm_kinematics', 'sm_random', 'sm_boost', 'sm_property_tree')),
     bounds='30 (thorough: 33) axes by 34 (49) angles including 0, tiny ones and pi; 1331 Euler angle triples; all pairs of 45 (90) quaternions',
     rule='counted are the distinct rotations and pairs')
spec('C16', level='exploration', parts=simple('transforms', lambda: pkg('sm_kinematics', 'sm_random', 'sm_boost', 'sm_property_tree')),
     bounds='all pairs of 55 transformations, six kinds of homogeneous points and all their pairs, with full generic covariances',
     rule='counted are the distinct pairs of transformations and points')

CAM_SRC = [H + 'cam_pinhole.cpp', H + 'cam_pinhole2.cpp', H + 'cam_omni.cpp', H + 'cam_omni2.cpp', H + 'cam_other.cpp']
CAM_PKG = ('aslam_cameras', 'aslam_time', 'sm_kinematics', 'sm_random', 'sm_boost', 'sm_property_tree', 'sm_opencv', 'sm_logging')
for _id, _m, _b in (
        ('C17', 17, 'keypoints at 108 (thorough: 300) directions by three distances, five or six scales, the edges of the sensor'),
        ('C18', 18, 'derivatives at 108 (thorough: 300) directions by three distances and all eight sets of estimated parameters'),
        ('C19', 19, 'all eight sets of parameters, every single parameter changed, three masks by 169 keypoints')):
    spec(_id, level='exploration', parts=simple('cameras', lambda: CAM_SRC + pkg(*CAM_PKG), opencv=True, args=('--mode', str(_m))),
         bounds='ten kinds of camera (pinhole and omni with each distortion, extended unified, double sphere), 130 (thorough: 260) parameter sets; ' + _b,
         rule='counted are the distinct points that project into the image' if _m != 19 else 'counted are the distinct cameras')
EXPR = lambda: pkg('aslam_backend_expressions', 'aslam_backend', 'aslam_sparse_block_matrix', 'sm_kinematics', 'sm_timing', 'sm_property_tree', 'sm_logging', 'sm_random')
def c10(tier):
    return simple('expressions', EXPR, suitesparse=True)(tier) + simple('expr_generic', EXPR, suitesparse=True)(tier)
spec('C10', level='exploration', parts=c10, bounds='every expression node kind over 3-6 (thorough: up to 20) values of each operand, active and inactive operands, chain rule matrices of one to four rows, nested combinations of the nodes', rule='counted are distinct expressions with the values of their design variables')
spec('C06', level='model_checking', parts=simple('designvars', lambda: list(dict.fromkeys(EXPR() + pkg(*CAM_PKG) + INCR())), suitesparse=True, opencv=True),
     bounds='all sequences of 5 (thorough: 6) operations out of six (three updates, revert, two parameter changes) for 21 kinds of design variables', rule='')
spec('C08', level='model_checking', parts=simple('matrices', BACKEND, suitesparse=True),
     bounds='all histories of 4 (thorough: 5) operations out of 12 on a compressed column matrix; all Jacobian containers over 4 design variables and pairs of them; all sets of blocks of matrices of up to 3x3 blocks and all slices; all patterns of symmetric matrices of up to 4 (thorough: 5) blocks, all their permutations, five solvers',
     rule='')
spec('C09', level='model_checking', parts=simple('marginal', BACKEND, suitesparse=True),
     bounds='all graphs of single and pair errors over up to 3 (thorough: 4) design variables of dimensions 1-3, linear and not, weighted or not, scaled or not, all orders, numbers of removed ones and sizes of the covariance; all elimination histories of the linear ones, with and without moving between steps',
     rule='')
SPL = lambda: list(dict.fromkeys(pkg('aslam_bsplines', 'aslam_sparse_block_matrix', 'sm_kinematics', 'sm_timing', 'sm_property_tree', 'sm_logging', 'sm_random', 'sm_boost')))
spec('C13', level='model_checking', parts=simple('bspline', SPL, suitesparse=True),
     bounds='orders 2-6; all words of four knot gaps over up to 4 (thorough: 5) segments by four paddings; all histories of 4 (6) operations out of six from five starts; all fits of four time sequences by up to six segments',
     rule='')
spec('C14', level='model_checking', parts=simple('posespline', lambda: list(dict.fromkeys(pkg('aslam_splines', 'aslam_bsplines') + EXPR())), suitesparse=True),
     bounds='orders 2-6, four rotation parametrizations, up to four knot patterns; all segments, times and buffers of a grid; all histories of 4 (thorough: 6) operations out of six on spline design variables; all sets of active variables of motion errors',
     rule='')
spec('C32', level='exploration', parts=simple('errorterms', lambda: list(dict.fromkeys(pkg('kalibr', 'aslam_cv_backend', 'aslam_splines', 'aslam_bsplines', 'aslam_cameras', 'aslam_time', 'sm_opencv') + EXPR() + pkg(*CAM_PKG))), suitesparse=True, opencv=True),
     bounds='8 (thorough: 30) sets of values for each IMU error term with 4 patterns of matrices; 15 (60) priors; 8 camera types, 2 (6) points in 5 kinds; all or (beyond 3 variables in quick) the extreme sets of active variables',
     rule='all combinations of the listed values, kinds and sets of active variables')
spec('C29', level='model_checking', parts=sched('logging', lambda: pkg('sm_logging')),
     bounds='all histories of 2 (thorough: 3) of 37 operations, and of 3 (thorough: 4) settings between or after runs of every statement; messages of 0 to 20000 characters; all formats of up to 3 (thorough: 4) of 18 pieces; 27 programs of 2-3 threads under all schedules with at most 3 (thorough: 4) deviations from round-robin order',
     rule='a history counts if a setting changes after a statement has been reached')
spec('C30', level='exploration', parts=simple('apriltag', lambda: pkg('aslam_apriltag2'), opencv=True),
     bounds='all words of up to 16 bits, all with up to three bits of 64; five families of codes: all pairs in all rotations, all codes with all single errors and, of some (thorough: all), all double errors; all sequences of 3-6 unions of 2-5 nodes; rendered tags: a quarter of (thorough: all) the 587 ids in four rotations with two borders and 0-2 errors',
     rule='counted are decoded words with errors and rendered images')
spec('C11', level='exploration', parts=simple('initcam', lambda: pkg(*CAM_PKG), opencv=True),
     bounds='eight kinds of camera; 24 (thorough: 160) views by all 256 sets of observed corners; boards of five shapes by 27 (81) and 12 (36) groups of 1-3 views, incomplete views, a wrong view at each position, straight rows',
     rule='counted are sets of corners that determine a pose and groups of views that determine a focal length')
spec('C21', level='model_checking', parts=simple('targets', lambda: list(dict.fromkeys(pkg('aslam_apriltag2', 'aslam_cameras_april') + pkg(*CAM_PKG))), opencv=True),
     bounds='all sequences of 4 (thorough: 5) operations out of 14 on an observation; all boards of up to 6x6 corners; detector: sets of 9 corners by wrong corner and filter options; rendered boards: all sets of 6 tags in four orientations',
     rule='')
spec('C20', level='model_checking', parts=simple('frames', lambda: list(dict.fromkeys(pkg('aslam_time', 'sm_opencv') + pkg(*CAM_PKG))), opencv=True),
     bounds='all sequences of 4 (thorough: 5) out of 22 operations on two keypoints and out of 18 on a frame (two cameras); a lattice of points for the errors; 64 landmarks; pairs of rays',
     rule='')
spec('C12', level='exploration', parts=simple('robust', BACKEND, suitesparse=True),
     bounds='weights of 67 estimators at 180 squared errors; 6 error terms each with all four steps of setting and clearing; robust means of all 81 sets of 4 and lines through all 243 sets of 5 measurements out of 3 values, 10 estimators, three solvers (quick: one for lines), two starts',
     rule='counted are estimators, terms and different data sets')
import sys


def py(name, shards=8):
    """A harness in Python, for the Python programs."""
    def parts(tier):
        return [dict(build=lambda: [sys.executable, VERIF + '/py/' + name + '.py'], args=[], shards=shards)]
    return parts


spec('C33', level='model_checking', parts=py('rig'),
     bounds='all sequences of 3-4 (thorough: up to 5) observations out of 2-4 cameras, times and views; all graphs of up to 4 cameras',
     rule='')
spec('C34', level='exploration', parts=py('config'),
     bounds='every entry of each kind of configuration file missing, of the wrong kind or out of range, every combination of camera model, distortion and target; files written and read back',
     rule='counted are the distinct files that must be refused or that differ from the default')
spec('C35', level='exploration', parts=py('bags'),
     bounds='bags of up to 4 (thorough: 5) messages in every order of time stamps, all windows, frequencies and shuffles, all encodings of images',
     rule='counted are the distinct bags with a window, order or encoding that decides the result')
spec('C37', level='model_checking', parts=py('extraction'),
     bounds='1-4 images on 1-3 processes, every set of images with a target; all schedules with at most 2-3 deviations from round-robin order',
     rule='')
spec('C39', level='exploration', parts=py('calib'),
     bounds='views of 1-3 cameras with all sets of corners of the first, three inertial sensor models by poses, scalings, offsets and spans of the spline, chains of 1-4 cameras, sets of 1-3 inertial sensors',
     rule='counted are views, and sensors of which some measurement is left out')
spec('C40', level='exploration', parts=py('priors'),
     bounds='all words of 2-3 (thorough: 4) poses out of six, shifts of up to 20 samples, six rotations by biases, gravity directions and motions',
     rule='counted are shifted, rotated and turning scenarios')
spec('C31', level='model_checking', parts=py('camloop'),
     bounds='1-2 cameras, up to 4 (thorough: 5) views, seven patterns of bad corners, five sets of options; all sequences of answers of the estimator, with up to three divergences',
     rule='')
spec('C36', level='exploration', parts=py('imucam'),
     bounds='1-3 cameras, 1-2 (thorough: 3) inertial sensors with all words of models, all sets of four options, iterations and padding, three outcomes of the optimization',
     rule='counted are the runs that must be refused, fail, or recover covariances')
spec('C38', level='model_checking', parts=py('rscal'),
     bounds='three views of all subsets of 3 (thorough: 4) corners, rolling and global shutter, all sets of estimated parameters; placement of knots: 18 segments in three groups, three levels of error, 2-3 (thorough: 4) rounds, three rates',
     rule='counted are placements that change the knots, and problems')

def spqr5(name, sources, **kw):
    """For sources written for SuiteSparse 5 which the build of /repo leaves out."""
    def parts(tier):
        def b():
            src = [H + name + '.cpp'] + list(sources())
            fl = ['-include', VERIF + '/include/spqr5.h', '-I' + VERIF + '/include/spqr5']
            return build(name, src, per_source_flags={s: fl for s in src if IC in s or s == src[0]}, suitesparse=True, **kw)
        return [dict(build=b, args=[], shards=8)]
    return parts


spec('C41', level='model_checking', parts=spqr5('incremental', lambda: BACKEND() + sorted(f for d in ('base', 'core', 'exceptions') for f in glob.glob(IC + d + '/*.cpp')) + [IC + 'algorithms/linalg.cpp']),
     bounds='all sequences of 3-4 (thorough: 4) operations out of 21 (adding, forced or not, each of seven batches; removing the first, second, third, by pointer, one that is not there; optimizing again; moving the variables) under six settings (thorough: also of 5-6 out of nine); systems of 1-3 + 1-2 columns and up to 4 (thorough: 5) rows with every pattern of entries, scaled or not',
     rule='counted are histories with a rejected batch, and systems that determine something')
