"""The estimation problems kalibr builds: one error term per measurement, predicted with the right geometry (C39)."""
import contextlib, io, itertools, os, sys, tempfile, shutil, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vmc, stubs
import numpy as np, yaml
import sm_python, rosbag, cv_bridge
import aslam_backend_python as aopt
import aslam_incremental_calibration_python as ic
import aslam_cv_python as acv
import aslam_cv_backend_python as acvb
import aslam_splines_python as asp
import aslam_bsplines_python as absp
import kalibr_errorterms as ket
T = stubs.Transformation
vmc.init(sys.argv)
work = tempfile.mkdtemp(prefix='cal', dir=os.environ.get('VERIF_WORK', os.environ.get('TMPDIR', '/tmp')))


class Obj(object):
    pass


# ---- expressions that carry their value
class E(object):
    """A vector, a homogeneous point, a 3x3 or a 4x4 matrix, or a scalar; evaluated late, as the real expressions are."""

    def __init__(self, f):
        self.f = f

    def v(self):
        return np.asarray(self.f(), dtype=float)

    def __mul__(self, o):
        def f():
            a, b = self.v(), o.v()
            if a.shape == (4, 4) and b.shape == (3,):
                return a[:3, :3].dot(b) + a[:3, 3]
            return a * b if a.ndim == 0 or b.ndim == 0 else a.dot(b)
        return E(f)

    def __add__(self, o): return E(lambda: self.v() + (o.v() if isinstance(o, E) else np.asarray(o, dtype=float)))
    def __sub__(self, o): return E(lambda: self.v() - (o.v() if isinstance(o, E) else np.asarray(o, dtype=float)))
    def __radd__(self, o): return E(lambda: np.asarray(o, dtype=float) + self.v())
    def __rmul__(self, o): return E(lambda: np.asarray(o, dtype=float) * self.v())
    def __neg__(self): return E(lambda: -self.v())
    def cross(self, o): return E(lambda: np.cross(self.v(), o.v()))
    def inverse(self): return E(lambda: np.linalg.inv(self.v()))
    def toScalar(self): return float(self.v())
    def toEuclidean(self): return self.v().copy()
    def toRotationMatrix(self): return self.v().copy()
    toMatrix3x3 = toMatrix4x4 = toTransformationMatrix = toRotationMatrix


class Dv(object):
    """A design variable with a value that the scenario can change."""
    def __init__(self, value):
        self.value, self.active = value, None

    def setActive(self, a): self.active = a
    def isActive(self): return bool(self.active)
    def toExpression(self): return E(lambda: self.value)
    expression = property(toExpression)
    def toEuclidean(self): return np.array(self.value, dtype=float)
    def toScalar(self): return float(self.value)
    def toRotationMatrix(self): return np.array(self.value, dtype=float)
    toMatrix3x3 = toRotationMatrix


class TransformationDv(object):
    def __init__(self, T0, rotationActive=True, translationActive=True):
        self.value = T0.T()
        self.parts = [Dv(None), Dv(None)]
        self.parts[0].active, self.parts[1].active = rotationActive, translationActive

    def numDesignVariables(self): return 2
    def getDesignVariable(self, i): return self.parts[i]
    def toExpression(self): return E(lambda: self.value)
    expression = property(toExpression)
    def T(self): return self.value.copy()


aopt.TransformationDv = TransformationDv
aopt.RotationQuaternionDv = type('RotationQuaternionDv', (Dv,), {'__init__': lambda s, q: Dv.__init__(s, stubs.quat2r(q))})
aopt.EuclideanPointDv = type('EuclideanPointDv', (Dv,), {'__init__': lambda s, p: Dv.__init__(s, np.array(p, dtype=float))})
aopt.EuclideanDirection = type('EuclideanDirection', (Dv,), {'__init__': lambda s, p: Dv.__init__(s, np.array(p, dtype=float))})
aopt.HomogeneousPointDv = type('HomogeneousPointDv', (Dv,), {'__init__': lambda s, p: Dv.__init__(s, np.array(p, dtype=float).flatten())})
aopt.MatrixBasicDv = type('MatrixBasicDv', (Dv,), {'__init__': lambda s, m, p: Dv.__init__(s, np.array(m, dtype=float))})
aopt.Scalar = type('Scalar', (Dv,), {'__init__': lambda s, x: Dv.__init__(s, x)})
aopt.HomogeneousExpression = lambda p: E(lambda: np.array(p, dtype=float).flatten())
aopt.EuclideanExpression = lambda p: E(lambda: np.array(p, dtype=float).flatten())


class Problem(object):
    def __init__(self):
        self.dvs, self.terms = [], []

    def addDesignVariable(self, dv, group=None): self.dvs.append((dv, group))
    def addErrorTerm(self, e): self.terms.append(e)
    def errorTerm(self, i): return self.terms[i]
    def numErrorTerms(self): return len(self.terms)


ic.CalibrationOptimizationProblem = Problem
aopt.OptimizationProblem = Problem


class Spline(object):
    def __init__(self, a, b): self.a, self.b = a, b
    def t_min(self): return self.a
    def t_max(self): return self.b


class BSpline(Spline):
    def __init__(self, order): self.order = order
    def initConstantSpline(self, a, b, n, v): self.a, self.b, self.n, self.value = a, b, n, np.array(v, dtype=float)


absp.BSpline = BSpline


class BiasDv(object):
    """A bias that changes with time; the scenario gives its value at every time."""
    def __init__(self, spline): self.spl, self.fun = spline, (lambda t: np.zeros(3))
    def numDesignVariables(self): return 0
    def designVariable(self, i): raise IndexError(i)
    def spline(self): return self.spl
    def toEuclideanExpression(self, t, order): return E(lambda: self.fun(t) if order == 0 else np.full(3, 1e3))
    def toEuclidean(self, t, order): return self.fun(t)


asp.EuclideanBSplineDesignVariable = BiasDv


class Term(object):
    """A Euclidean error: measurement, weight, prediction."""
    def __init__(self, meas, invR, pred):
        self.meas, self.invR, self.pred, self.mest = np.array(meas, dtype=float), np.array(invR, dtype=float), pred, None

    def setMEstimatorPolicy(self, m): self.mest = m


ket.EuclideanError = Term
import kalibr_common as kc
import kalibr_camera_calibration as kcc
import kalibr_camera_calibration.CameraCalibrator as CC
import kalibr_imu_camera_calibration.IccSensors as sens
import kalibr_imu_camera_calibration.IccCalibrator
icc = sys.modules["kalibr_imu_camera_calibration.IccCalibrator"]
import kalibr_imu_camera_calibration as kic


def rnd(seed):
    r = np.random.RandomState(seed)
    q, _ = np.linalg.qr(r.randn(3, 3))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    M = np.eye(4)
    M[:3, :3], M[:3, 3] = q, r.randn(3)
    return T(M)


# ---- camera calibration
class GridObs(object):
    def __init__(self, cam, mask, n):
        self.cam, self.mask, self.n = cam, mask, n

    def pix(self, i): return np.array([100.0 * self.cam + i, 10.0 * i + 0.5])
    def imagePoint(self, i): return (bool(self.mask >> i & 1), self.pix(i) if self.mask >> i & 1 else np.zeros(2))
    def removeImagePoint(self, i): self.mask &= ~(1 << i)
    def getCornersIdx(self): return np.array([i for i in range(self.n) if self.mask >> i & 1])


class RTerm(object):
    def __init__(self, y, invR, P, dv):
        self.y, self.invR, self.P, self.dv, self.mest = np.array(y, dtype=float), np.array(invR, dtype=float), P, dv, None
        self.off = np.array([0.01 * self.y[0] - 0.3, 0.02 * self.y[1] - 0.7])

    def setMEstimatorPolicy(self, m): self.mest = m
    def getMeasurement(self): return self.y.copy()
    def getPredictedMeasurement(self): return self.y - self.off
    def error(self): return self.off.copy()
    def evaluateError(self): return float(self.off.dot(self.off))
    def getRawSquaredError(self): return float(self.off.dot(self.off))
    evaluateRawError = getRawSquaredError


class CamDv(object):
    def __init__(self): self.p, self.d, self.s = Dv(None), Dv(None), Dv(None)
    def projectionDesignVariable(self): return self.p
    def distortionDesignVariable(self): return self.d
    def shutterDesignVariable(self): return self.s


NP = 3


class Target(object):
    def size(self): return NP
    def point(self, i): return np.array([0.1 * i, 0.2 - 0.3 * i * i, 0.0])


def make_cameras(n):
    cams = []
    for c in range(n):
        k = Obj()
        k.isGeometryInitialized = True
        k.dv = CamDv()
        k.model = Obj()
        k.model.reprojectionError = RTerm
        k.setDvActiveStatus = lambda a, b, s, k=k: (k.dv.p.setActive(a), k.dv.d.setActive(b), k.dv.s.setActive(s))
        k.geometry = Obj()
        P = Obj()
        P.cu, P.cv = (lambda: 0.0), (lambda: 0.0)
        k.geometry.projection = lambda P=P: P
        k.geometry.keypointToEuclidean = lambda y: np.array([y[0], y[1], 300.0])
        cams.append(k)
    return cams


def check_view(view, cams, tgt, base, guess, obs, mest):
    """Exactly the observed corners, each with its own camera and the chain of transformations to it."""
    terms = list(view.terms)
    used = []
    for c, o in obs:
        rows = view.rerrs[c]
        vmc.expect(len(rows) == NP, 'rows', len(rows))
        X = guess.inverse()
        for b in base[:c]:
            X = T(b.T()) * X
        for i in range(NP):
            e = rows[i]
            if not o.mask >> i & 1:
                vmc.expect(e is None, 'term-for-missing-corner', (c, i))
                continue
            if not vmc.expect(e is not None, 'no-term-for-corner', (c, i)):
                continue
            used.append(e)
            p = X.T().dot(np.append(Target().point(i), 1.0))
            vmc.expect(np.array_equal(e.y, o.pix(i)), 'measurement', '%s for corner %d of cam%d' % (e.y, i, c))
            vmc.expect(np.allclose(e.P.v(), p, atol=1e-9), 'prediction', '%s instead of %s, corner %d of cam%d' % (e.P.v(), p, i, c))
            vmc.expect(e.dv is cams[c].dv, 'camera', (c, i))
            vmc.expect(np.allclose(e.invR, np.eye(2)), 'weight', e.invR)
            vmc.expect((e.mest is not None) == mest, 'm-estimator', (c, i))
    vmc.expect(sorted(map(id, used)) == sorted(map(id, terms)), 'terms', '%d terms for %d corners' % (len(terms), len(used)))
    vmc.expect(sorted(view.rerrs) == sorted(c for c, _ in obs), 'cameras', sorted(view.rerrs))
    want = [id(p) for p in tgt.P_t_dv] + [id(x) for b in base for x in b.parts] + [id(x) for c in cams for x in (c.dv.p, c.dv.d, c.dv.s)]
    want += [id(x) for x in view.dv_T_target_camera.parts]
    vmc.expect(sorted(id(d) for d, g in view.dvs) == sorted(want), 'design-variables', '%d instead of %d' % (len(view.dvs), len(want)))
    group = {id(d): g for d, g in view.dvs}
    for c in cams:
        vmc.expect(c.dv.p.active and c.dv.d.active and not c.dv.s.active, 'active', '')
        vmc.expect(all(group.get(id(x)) == CC.CALIBRATION_GROUP_ID for x in (c.dv.p, c.dv.d)), 'group', '')
    vmc.expect(all(group.get(id(x)) == CC.CALIBRATION_GROUP_ID for b in base for x in b.parts), 'group', '')
    vmc.expect(all(group.get(id(x)) == CC.TRANSFORMATION_GROUP_ID for x in view.dv_T_target_camera.parts), 'group', '')
    vmc.expect(all(group.get(id(x)) == CC.LANDMARK_GROUP_ID for x in tgt.P_t_dv), 'group', '')


def s_views(n, first, reverse, mest):
    def f():
        for rest in itertools.product([None] + list(range(2 ** NP)), repeat=n - 1):
            masks = (first,) + rest
            cams = make_cameras(n)
            tgt = kcc.CalibrationTarget(Target()) if hasattr(kcc, 'CalibrationTarget') else CC.CalibrationTarget(Target())
            base = [TransformationDv(rnd(11 + c)) for c in range(n - 1)]
            guess = rnd(5)
            obs = [(c, GridObs(c, m, NP)) for c, m in enumerate(masks) if m is not None]
            if reverse:
                obs = obs[::-1]
            vmc.transition()
            vmc.g.ctx = 'corners %s: ' % (masks,)
            with stubs.Quiet():
                view = CC.CalibrationTargetOptimizationProblem.fromTargetViewObservations(cams, tgt, base, guess, obs, useBlakeZissermanMest=mest)
            check_view(view, cams, tgt, base, guess, obs, mest)
            vmc.nontrivial((masks, reverse, mest))
            # the reported errors of every camera are its own
            cal = Obj()
            cal.views, cal.cameras, cal.target = [view], cams, tgt
            for c in range(n):
                mine = [o for k, o in obs if k == c]
                with stubs.Quiet():
                    cor, rep, err = CC.getReprojectionErrors(cal, c)
                vmc.expect(len(cor) == len(rep) == len(err) == 1, 'errors', len(cor))
                if not mine:
                    vmc.expect(cor[0] is None and err[0] is None, 'errors-of-absent', c)
                    continue
                vals = []
                for i in range(NP):
                    if mine[0].mask >> i & 1:
                        e = view.rerrs[c][i]
                        vmc.expect(np.array_equal(np.array(cor[0][i], dtype=float), e.y) and np.allclose(np.array(err[0][i], dtype=float), e.off)
                                   and np.allclose(np.array(rep[0][i], dtype=float), e.y - e.off), 'errors', (c, i))
                        vals.append(e.off)
                    else:
                        vmc.expect(err[0][i][0] is None and cor[0][i][0] is None, 'errors', (c, i))
                    with stubs.Quiet():
                        st = CC.getPointStatistics(cal, 0, c, i)
                    vmc.expect(bool(st.valid) == bool(mine[0].mask >> i & 1), 'statistics', (c, i))
                    if st.valid:
                        e = view.rerrs[c][i]
                        vmc.expect(np.allclose(st.e, e.off) and np.allclose(st.yhat, e.y - e.off) and abs(st.squaredError - e.off.dot(e.off)) < 1e-12,
                                   'statistics-of-corner', 'corner %d of cam%d: %s instead of %s' % (i, c, st.e, e.off))
                if vals:
                    me, se = CC.getReprojectionErrorStatistics(err + [None])
                    vmc.expect(np.allclose(me, np.mean(vals, 0)) and np.allclose(se, np.std(vals, 0)), 'mean', (me, se))
            # corners are taken out
            for c, o in obs:
                for i in range(NP):
                    if o.mask >> i & 1 and (vmc.thorough() or i == (c + sum(m or 0 for m in masks)) % NP):
                        o2 = [(k, GridObs(k, x.mask, NP)) for k, x in obs]
                        with stubs.Quiet():
                            v1 = CC.CalibrationTargetOptimizationProblem.fromTargetViewObservations(cams, tgt, base, guess, o2, useBlakeZissermanMest=mest)
                            v2 = CC.removeCornersFromBatch(v1, [(k, [i] if k == c else []) for k, _ in o2], useBlakeZissermanMest=mest)
                        vmc.transition()
                        left = {k: x.mask & ~((1 << i) if k == c else 0) for k, x in obs}
                        vmc.expect({k: x.mask for k, x in o2} == left, 'removed', left)
                        check_view(v2, cams, tgt, base, guess, [(k, GridObs(k, left[k], NP)) for k, _ in obs], mest)
            if vmc.g.violations:
                return
    return f


# ---- inertial measurements
class Motion(object):
    """A smooth motion of the body in the world; derivatives by central differences of positions and rotations."""
    def __init__(self, k):
        self.k = k

    def R(self, t):
        a, b, c = 0.7 * np.sin(1.1 * t + self.k), 0.9 * t + 0.2 * t * t, 0.4 * np.cos(0.8 * t)
        return stubs_rot(a, b, c)

    def p(self, t):
        return np.array([np.sin(1.3 * t), 0.5 * t * t - t, np.cos(0.9 * t + self.k)])

    def point(self, t, r): return self.p(t) + self.R(t).dot(r)

    def acc(self, t, r, h=1e-3): return (self.point(t + h, r) - 2 * self.point(t, r) + self.point(t - h, r)) / (h * h)

    def omega(self, t, h=1e-4):
        W = self.R(t).T.dot((self.R(t + h) - self.R(t - h)) / (2 * h))
        return np.array([W[2, 1] - W[1, 2], W[0, 2] - W[2, 0], W[1, 0] - W[0, 1]]) / 2

    def alpha(self, t, h=1e-3): return (self.omega(t + h) - self.omega(t - h)) / (2 * h)


def stubs_rot(a, b, c):
    X = np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])
    Y = np.array([[np.cos(b), 0, np.sin(b)], [0, 1, 0], [-np.sin(b), 0, np.cos(b)]])
    Z = np.array([[np.cos(c), -np.sin(c), 0], [np.sin(c), np.cos(c), 0], [0, 0, 1]])
    return X.dot(Y).dot(Z)


class PoseDv(object):
    def __init__(self, m, a, b): self.m, self.spl = m, Spline(a, b)
    def spline(self): return self.spl
    def numDesignVariables(self): return 0
    def inside(self, t):
        if not self.spl.a < t < self.spl.b:
            vmc.fail('outside-spline', 'the spline is asked at %g' % t)
    def orientation(self, t):
        self.inside(t)
        return E(lambda: self.m.R(t))
    def linearAcceleration(self, t): return E(lambda: self.m.acc(t, np.zeros(3)))
    def angularVelocityBodyFrame(self, t): return E(lambda: self.m.omega(t))
    def angularAccelerationBodyFrame(self, t): return E(lambda: self.m.alpha(t))
    def position(self, t): return E(lambda: self.m.p(t))
    def transformationAtTime(self, t, a=0.0, b=0.0):
        def f():
            x = float(t.v())
            return stubs.rt2Transform(self.m.R(x), self.m.p(x))
        return E(f)


class Stamp(object):
    def __init__(self, t): self.secs, self.nsecs = int(t * 1e9 + 0.5) // 10**9, int(t * 1e9 + 0.5) % 10**9
    def to_sec(self): return self.secs + self.nsecs / 1e9


class Time(object):
    def __init__(self, *a): self.t = a[0] if len(a) == 1 else a[0] + a[1] / 1e9
    def toSec(self): return self.t


acv.Time = Time


class Bag(object):
    content = {}
    def __init__(self, name, *a): pass
    def _get_connections(self, topics=None): return [topics if isinstance(topics, str) else topics[0]]
    def _get_indexes(self, conx):
        for c in conx:
            if c in Bag.content:
                out = []
                for i in range(len(Bag.content[c])):
                    e = Obj()
                    e.position = (c, i)
                    out.append(e)
                yield out

    def _read_message(self, pos, *a):
        m = Bag.content[pos[0]][pos[1]]
        return pos[0], m, m.header.stamp


rosbag.Bag = Bag


class Bridge(object):
    def imgmsg_to_cv2(self, d, *a): return d.pixels


cv_bridge.CvBridge = Bridge
count = [0]


def temp():
    count[0] += 1
    return os.path.join(work, 'c%d.yaml' % count[0])


def imu_message(t, om, al):
    d = Obj()
    d.header = Obj()
    d.header.stamp = Stamp(t)
    d.angular_velocity, d.linear_acceleration = Obj(), Obj()
    for v, x in ((d.angular_velocity, om), (d.linear_acceleration, al)):
        v.x, v.y, v.z = [float(y) for y in x]
    return d


SIG = dict(update_rate=100.0, accelerometer_noise_density=0.02, accelerometer_random_walk=0.003, gyroscope_noise_density=0.004, gyroscope_random_walk=0.0005)


def parsed():
    p = Obj()
    p.bagfile, p.bag_from_to, p.perform_synchronization = ['f.bag'], None, False
    p.showextraction, p.extractionstepping, p.reprojection_sigma = True, False, 0.5
    return p


MODELS = ['IccImu', 'IccScaledMisalignedImu', 'IccScaledMisalignedSizeEffectImu']
ROTS = [np.eye(3), stubs_rot(0.4, -0.9, 1.3), stubs_rot(3.0, 0.2, -1.2)]
LEVERS = [np.zeros(3), np.array([0.3, -0.2, 0.5])]
LOW = [np.eye(3), np.array([[1.1, 0, 0], [0.05, 0.9, 0], [-0.02, 0.03, 1.05]])]


def make_imu(model, times, ref=True, topic='/imu', meas=None):
    cfg = dict(SIG)
    cfg['rostopic'] = topic
    p = temp()
    yaml.safe_dump(cfg, open(p, 'w'))
    Bag.content[topic] = [imu_message(t, *(meas(i) if meas else ([i + 1.0, 0.5 * i, -i], [i - 3.0, 2.0 * i, 0.25]))) for i, t in enumerate(times)]
    with stubs.Quiet():
        return getattr(sens, model)(kc.ImuParameters(p), parsed(), isReferenceImu=ref)


def s_imu(model, mi, ref):
    def f():
        m = Motion(mi)
        times = [1.0, 1.25, 1.5, 1.75, 2.0, 2.5]
        Rs, rs = (ROTS, LEVERS) if not ref else (ROTS[:1], LEVERS[:1])
        Ms = LOW if model != 'IccImu' else LOW[:1]
        gw = np.array([0.5, -9.0, 3.8])
        for R, r, M, Mg, off, (a, b), scale in itertools.product(Rs, rs, Ms, Ms, (0.0, 0.25) if not ref else (0.0,),
                                                                 ((0.0, 5.0), (1.25, 2.5), (1.6, 2.1), (4.0, 5.0)), (1.0, 4.0)):
            if not vmc.thorough() and (Mg is not M) and (a, b) != (1.25, 2.5):
                continue
            vmc.transition()
            imu = make_imu(model, times, ref)
            pose = PoseDv(m, a, b)
            prob = Problem()
            with stubs.Quiet():
                imu.initBiasSplines(pose.spline(), 4, 10)
                imu.addDesignVariables(prob)
            vmc.expect(not ref or not imu.r_b_Dv.isActive() and not imu.q_i_b_Dv.isActive(), 'reference-active', '')
            vmc.expect(ref or imu.r_b_Dv.isActive() and imu.q_i_b_Dv.isActive(), 'pose-inactive', '')
            imu.timeOffset = off
            imu.q_i_b_Dv.value, imu.r_b_Dv.value = R, r
            ba, bg = (lambda t: np.array([0.1, 0.2 * t, -0.3])), (lambda t: np.array([t, 0.01, -0.5 * t]))
            imu.accelBiasDv.fun, imu.gyroBiasDv.fun = ba, bg
            Cg, A, lever = np.eye(3), np.zeros((3, 3)), [np.zeros(3)] * 3
            if model != 'IccImu':
                Cg, A = stubs_rot(0.02, -0.03, 0.05), np.array([[0.001, 0.002, 0.0], [0.0, -0.003, 0.001], [0.004, 0.0, 0.002]])
                imu.q_gyro_i_Dv.value, imu.M_accel_Dv.value, imu.M_gyro_Dv.value, imu.M_accel_gyro_Dv.value = Cg, M, Mg, A
            if model == 'IccScaledMisalignedSizeEffectImu':
                lever = [np.zeros(3), np.array([0.02, 0.01, -0.03]), np.array([-0.01, 0.04, 0.02])]
                imu.ry_i_Dv.value, imu.rz_i_Dv.value = lever[1], lever[2]
            ga, gg = Problem(), Problem()
            with stubs.Quiet():
                imu.addAccelerometerErrorTerms(ga, pose, E(lambda: gw), accelNoiseScale=scale)
                imu.addGyroscopeErrorTerms(gg, pose, gyroNoiseScale=scale, g_w=E(lambda: gw))
            inside = [i for i, t in enumerate(times) if a < t + off < b]
            if len(inside) < len(times):
                vmc.nontrivial((vmc.g.scen, tuple(inside), off, a, b))
            for name, g, sig in (('accelerometer', ga, SIG['accelerometer_noise_density']), ('gyroscope', gg, SIG['gyroscope_noise_density'])):
                if not vmc.expect(len(g.terms) == len(inside), 'terms', '%s: %d terms for %d measurements of %s in (%g, %g), offset %g' % (
                        name, len(g.terms), len(inside), times, a, b, off)):
                    continue
                for i, e in zip(inside, g.terms):
                    t = times[i] + off
                    Rt = m.R(t)
                    if name == 'accelerometer':
                        meas = [i - 3.0, 2.0 * i, 0.25]
                        f_i = np.array([R.dot(Rt.T).dot(m.acc(t, r + R.T.dot(lever[ax])) - gw)[ax] for ax in range(3)])
                        want = M.dot(f_i) + ba(t)
                    else:
                        meas = [i + 1.0, 0.5 * i, -i]
                        want = Mg.dot(Cg).dot(R).dot(m.omega(t)) + A.dot(Cg).dot(R).dot(Rt.T).dot(m.acc(t, r) - gw) + bg(t)
                    vmc.expect(np.array_equal(e.meas, np.array(meas, dtype=float)), 'measurement', '%s %s' % (name, e.meas))
                    vmc.expect(np.allclose(e.pred.v(), want, atol=2e-4), 'prediction', '%s at %g: %s instead of %s' % (name, t, e.pred.v(), want))
                    vmc.expect(np.allclose(e.invR, np.eye(3) / (sig * sig * 100.0) / scale), 'weight', '%s %s' % (name, e.invR[0]))
            vmc.expect(list(map(id, imu.accelErrors)) == list(map(id, ga.terms)) and list(map(id, imu.gyroErrors)) == list(map(id, gg.terms)), 'kept', '')
            # what is written for this sensor
            with stubs.Quiet():
                d = imu.getImuConfig().getYamlDict()
            X = np.eye(4)
            X[:3, :3], X[:3, 3] = R, -R.dot(r)
            vmc.expect(np.allclose(np.array(d['T_i_b']), X, atol=1e-9), 'T_i_b', '%s instead of %s' % (d['T_i_b'], X.tolist()))
            vmc.expect(d['time_offset'] == off and all(d[k] == SIG[k] for k in SIG), 'imu-result', d)
            if model != 'IccImu':
                vmc.expect(np.allclose(d['accelerometers']['M'], M) and np.allclose(d['gyroscopes']['M'], Mg) and np.allclose(d['gyroscopes']['A'], A)
                           and np.allclose(d['gyroscopes']['C_gyro_i'], Cg), 'intrinsics', d)
            if model == 'IccScaledMisalignedSizeEffectImu':
                vmc.expect(all(np.allclose(d['accelerometers']['r%s_i' % c], lever[k]) for k, c in enumerate('xyz')), 'lever-arms', d)
            # all that is printed goes where it is asked to go
            screen, to = io.StringIO(), io.StringIO()
            with contextlib.redirect_stdout(screen):
                imu.imuConfig.printDetails(to)
            vmc.expect(screen.getvalue() == '', 'printed-elsewhere', screen.getvalue()[:60])
            vmc.expect(len(to.getvalue().splitlines()) >= 15, 'printed', to.getvalue()[:200])
            if vmc.g.violations:
                return
    return f


# ---- camera chain with inertial sensors
class FakeDetector(object):
    found = {}
    def __init__(self, geometry, grid, options): self.geometry = geometry
    def findTarget(self, stamp, image, *a):
        cam, i = int(image[0, 0]), int(image[0, 1])
        return True, FrameObs(cam, i, stamp)
    findTargetNoTransformation = findTarget


class FrameObs(object):
    def __init__(self, cam, i, stamp): self.cam, self.i, self.stamp = cam, i, stamp
    def clearImage(self): pass
    def time(self): return self.stamp
    def corners(self): return [k for k in range(4) if (self.i + self.cam + k) % 3 or k == 0]
    def img(self, k): return np.array([10.0 * k + self.cam, 5.0 * self.i + k])
    def tgt(self, k): return np.array([0.1 * k, 0.05 * k * k, 0.0])
    def getCornersImageFrame(self): return [self.img(k) for k in self.corners()]
    def getCornersTargetFrame(self): return [self.tgt(k) for k in self.corners()]
    def getCornersIdx(self): return self.corners()


acv.GridDetector = FakeDetector


def image_message(t, cam, i):
    d = Obj()
    d.header = Obj()
    d.header.stamp = Stamp(t)
    d._type, d.encoding = 'sensor_msgs/Image', 'mono8'
    d.pixels = np.array([[cam, i]], dtype=np.uint8)
    return d


class CTerm(stubs.AutoObject):
    pass


for _n in ('DistortedPinholeReprojectionErrorSimple', 'PinholeReprojectionErrorSimple'):
    setattr(acvb, _n, type(_n, (CTerm,), {}))


def s_chain(n, shifts, spline, offs):
    def f():
        Bag.content.clear()
        m = Motion(n)
        p = temp()
        ch = kc.CameraChainParameters(p, createYaml=True)
        times = {}
        for c in range(n):
            k = kc.CameraParameters('x', createYaml=True)
            k.setRosTopic('/cam%d' % c)
            k.setIntrinsics('pinhole', [400.0, 400.0, 320.0, 240.0])
            k.setDistortion('radtan', [0.0, 0.0, 0.0, 0.0]) if c % 2 == 0 else k.setDistortion('none', [])
            k.setResolution([640, 480])
            ch.addCameraAtEnd(k)
            if c:
                ch.setExtrinsicsLastCamToHere(c, rnd(70 + c))
            times[c] = [1.0 + 0.5 * i + 0.125 * (c % 2) for i in range(4)]
            Bag.content['/cam%d' % c] = [image_message(t, c, i) for i, t in enumerate(times[c])]
        ch.writeYaml()
        tp = temp()
        yaml.safe_dump(dict(target_type='aprilgrid', tagRows=6, tagCols=6, tagSize=0.08, tagSpacing=0.3), open(tp, 'w'))
        with stubs.Quiet():
            chain = sens.IccCameraChain(kc.CameraChainParameters(p), kc.CalibrationTargetParameters(tp), parsed())
        vmc.expect(len(chain.camList) == n, 'cameras', len(chain.camList))
        # the span of time of all cameras
        for keep in itertools.product((0, 1, 3), repeat=n) if n < 3 else [(0,) * n, tuple(range(n))]:
            all_obs = [cam.targetObservations for cam in chain.camList]
            for cam, k in zip(chain.camList, keep):
                cam.targetObservations = cam.targetObservations[k:4 - (k == 1)]
            stamps = [o.time().toSec() for cam in chain.camList for o in cam.targetObservations]
            chain.findCameraTimespan()
            vmc.expect((chain.timeStart.toSec(), chain.timeEnd.toSec()) == (min(stamps), max(stamps)), 'time-span', (chain.timeStart.toSec(), chain.timeEnd.toSec(), keep))
            for cam, o in zip(chain.camList, all_obs):
                cam.targetObservations = o
        for c, cam in enumerate(chain.camList):
            vmc.expect([o.time().toSec() for o in cam.targetObservations] == times[c], 'observations', c)
            cam.timeshiftCamToImuPrior = shifts[c % len(shifts)]
        for notime, noext in itertools.product((False, True), repeat=2):
            vmc.transition()
            prob = Problem()
            pose = PoseDv(m, *spline)
            with stubs.Quiet():
                chain.addDesignVariables(prob, noTimeCalibration=notime, noChainExtrinsics=noext)
            X = [rnd(30 + c) if c == 0 else rnd(70 + c) for c in range(n)]
            for c, cam in enumerate(chain.camList):
                init = sm_python.Transformation().T() if c == 0 else rnd(70 + c).T()
                vmc.expect(np.allclose(cam.T_c_b_Dv.T(), init), 'initial-extrinsics', c)
                act = [x.active for x in cam.T_c_b_Dv.parts]
                vmc.expect(act == [True, True] if c == 0 else act == [not noext] * 2, 'extrinsics-active', '%d %s' % (c, act))
                vmc.expect(bool(cam.cameraTimeToImuTimeDv.active) == (not notime), 'time-active', c)
                grp = {id(d): g for d, g in prob.dvs}
                vmc.expect(all(grp.get(id(x)) == (icc.CALIBRATION_GROUP_ID if c == 0 else icc.HELPER_GROUP_ID) for x in cam.T_c_b_Dv.parts)
                           and grp.get(id(cam.cameraTimeToImuTimeDv)) == icc.CALIBRATION_GROUP_ID, 'group', c)
            vmc.expect(len(prob.dvs) == 3 * n, 'design-variables', len(prob.dvs))
            for bz in (-1, 2.0):
                for c, cam in enumerate(chain.camList):
                    cam.T_c_b_Dv.value = cam.T_c_b_Dv.value if c else np.eye(4)
                    cam.cameraTimeToImuTimeDv.value = 0.0
                ep = Problem()
                with stubs.Quiet():
                    chain.addCameraChainErrorTerms(ep, pose, blakeZissermanDf=bz, timeOffsetPadding=0.02)
                # afterwards the estimates move
                want, rows = [], []
                for c, cam in enumerate(chain.camList):
                    cam.T_c_b_Dv.value = X[c].T()
                    cam.cameraTimeToImuTimeDv.value = offs * (c + 1)
                cn = T()
                k = 0
                for c, cam in enumerate(chain.camList):
                    cn = X[c] * cn
                    per = []
                    for o in cam.targetObservations:
                        t0 = o.time().toSec() + shifts[c % len(shifts)]
                        if not spline[0] < t0 < spline[1]:
                            vmc.nontrivial((vmc.g.scen, c, o.i))
                            continue
                        t = t0 + offs * (c + 1)
                        B = cn.T().dot(np.linalg.inv(stubs.rt2Transform(m.R(t), m.p(t))))
                        per.append(len(o.corners()))
                        for j, q in enumerate(o.corners()):
                            if not vmc.expect(k < len(ep.terms), 'terms', '%d terms' % len(ep.terms)):
                                return
                            e = ep.terms[k]
                            k += 1
                            fr, idx, P = e.args[:3]
                            vmc.expect(type(e) is cam.camera.reprojectionErrorType and fr.called('setGeometry') == [(cam.camera.geometry,)], 'camera', (c, o.i))
                            vmc.expect(np.allclose(P.v(), B.dot(np.append(o.tgt(q), 1.0)), atol=1e-9), 'prediction', 'cam%d, image %d, corner %d: %s instead of %s' % (
                                c, o.i, q, P.v(), B.dot(np.append(o.tgt(q), 1.0))))
                            kp = fr.called('addKeypoint')
                            vmc.expect(idx == j and len(kp) == len(o.corners()), 'keypoint', (idx, len(kp)))
                            if idx < len(kp):
                                kk = kp[idx][0]
                                vmc.expect(np.array_equal(kk.called('setMeasurement')[-1][0], o.img(q)), 'measurement', (c, o.i, q))
                                vmc.expect(np.allclose(kk.called('setInverseMeasurementCovariance')[-1][0], np.eye(2) * 4.0), 'weight', '')
                            vmc.expect(bool(e.called('setMEstimatorPolicy')) == (bz > 0), 'm-estimator', bz)
                    vmc.expect([len(x) for x in cam.allReprojectionErrors] == per, 'kept', per)
                vmc.expect(k == len(ep.terms), 'terms', '%d terms for %d corners' % (len(ep.terms), k))
            # results
            cn = T()
            for c in range(n):
                cn = X[c] * cn
                vmc.expect(np.allclose(chain.getResultTrafoImuToCam(c).T(), cn.T(), atol=1e-9), 'imu-to-camera', c)
                vmc.expect(abs(chain.getResultTimeShift(c) - (shifts[c % len(shifts)] + offs * (c + 1))) < 1e-12, 'time-shift', c)
                if c:
                    A, l = chain.getResultBaseline(c - 1, c)
                    Bk, l2 = chain.getResultBaseline(c, c - 1)
                    vmc.expect(np.allclose(A.T(), X[c].T(), atol=1e-9) and np.allclose(Bk.T(), X[c].inverse().T(), atol=1e-9), 'baseline', c)
                    vmc.expect(abs(l - np.linalg.norm(X[c].t())) < 1e-9 and abs(l2 - l) < 1e-9, 'baseline-length', (l, l2))
            cal = kic.IccCalibrator()
            cal.registerCamChain(chain)
            cal.noTimeCalibration = notime
            q = temp()
            with stubs.Quiet():
                cal.saveCamChainParametersYaml(q)
            rd = kc.CameraChainParameters(q)
            cn = T()
            for c in range(n):
                cn = X[c] * cn
                vmc.expect(np.allclose(rd.getExtrinsicsImuToCam(c).T(), cn.T(), atol=1e-9), 'written-imu-to-camera', c)
                if c:
                    vmc.expect(np.allclose(rd.getExtrinsicsLastCamToHere(c).T(), X[c].T(), atol=1e-9), 'written-baseline', c)
                if not notime:
                    vmc.expect(abs(rd.getTimeshiftCamImu(c) - (shifts[c % len(shifts)] + offs * (c + 1))) < 1e-12, 'written-time-shift', c)
    return f


def s_imuset(models):
    def f():
        imus = []
        for i, k in enumerate(models):
            imu = make_imu(MODELS[k], [1.0, 2.0], i == 0, '/imu%d' % i)
            imu.initBiasSplines(Spline(0, 1), 4, 10) if False else None
            with stubs.Quiet():
                imu.initBiasSplines(Spline(0, 1), 4, 10)
                imu.addDesignVariables(Problem())
            imu.timeOffset = 0.1 * i
            imu.r_b_Dv.value, imu.q_i_b_Dv.value = np.array([0.5 * i, 0.0, 1.0 * i]), stubs_rot(0.3 * i, 0, 0)
            imus.append(imu)
        cal = kic.IccCalibrator()
        for i in imus:
            cal.registerImu(i)
        q = temp()
        vmc.transition()
        vmc.nontrivial(models)
        with stubs.Quiet():
            cal.saveImuSetParametersYaml(q)
        d = yaml.safe_load(open(q))
        vmc.expect(sorted(d) == ['imu%d' % i for i in range(len(models))], 'imu-set', sorted(d))
        for i, k in enumerate(models):
            e = d['imu%d' % i]
            X = np.eye(4)
            X[:3, :3] = stubs_rot(0.3 * i, 0, 0)
            X[:3, 3] = -X[:3, :3].dot([0.5 * i, 0.0, 1.0 * i])
            vmc.expect(e['rostopic'] == '/imu%d' % i and abs(e['time_offset'] - 0.1 * i) < 1e-12 and np.allclose(e['T_i_b'], X, atol=1e-9)
                       and e['model'] == ['calibrated', 'scale-misalignment', 'scale-misalignment-size-effect'][k], 'imu-set', e)
    return f


def main():
    for n in (1, 2, 3):
        for first in [None] + list(range(2 ** NP)):
            for rev, mest in itertools.product((False, True), repeat=2):
                if n == 3 and not vmc.thorough() and rev != mest:
                    continue
                vmc.run('rig of %d, corners of cam0 %s%s%s' % (n, first, ', reversed' if rev else '', ', robust' if mest else ''), s_views(n, first, rev, mest))
    for model in MODELS:
        for ref in (True, False):
            for mi in (0, 1) if vmc.thorough() else (0,):
                vmc.run('%s%s, motion %d' % (model, ', reference' if ref else '', mi), s_imu(model, mi, ref))
    for n in (1, 2, 3, 4):
        for shifts in ((0.0,), (0.125, -0.25, 0.5), (-1.0,)):
            for spline in ((0.0, 9.0), (1.0, 2.5), (1.125, 2.0), (1.5, 1.625)):
                for offs in (0.0, 0.01):
                    vmc.run('chain of %d, prior shifts %s, spline %s, shift %g' % (n, list(shifts), spline, offs), s_chain(n, shifts, spline, offs))
    for n in (1, 2, 3):
        for models in itertools.product(range(3), repeat=n):
            vmc.run('imu set %s' % list(models), s_imuset(models))
    shutil.rmtree(work, ignore_errors=True)
    vmc.finish()


if __name__ == '__main__':
    main()
