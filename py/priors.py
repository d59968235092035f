"""The first guesses of a calibration of cameras and inertial sensors (C40)."""
import itertools, math, sys
import calib
from calib import *
import kalibr_common as kc

MODES = dict(converge=True)


# ---- motions whose speed of rotation has one peak, so that a shift is visible
class Turn(object):
    """Orientation exp(phi(t) axis) exp(psi(t) other); world from body."""
    def __init__(self, centre, width, ax):
        self.c, self.w, self.ax = centre, width, ax

    def bump(self, t):
        x = (t - self.c) / self.w
        return math.exp(-x * x) * (1.0 + 0.3 * x)

    def omega(self, t):
        x = (t - self.c) / self.w
        d = np.array([1.0, 0.6 * math.sin(3 * x), 0.4 * math.cos(2 * x)])
        return np.roll(d, self.ax) * 2.0 * self.bump(t)


def rotvec(R):
    a = math.acos(max(-1.0, min(1.0, (np.trace(R) - 1) / 2)))
    if a < 1e-9:
        return np.zeros(3)
    if math.pi - a < 1e-6:
        w, V = np.linalg.eigh((R + R.T) / 2)
        return V[:, 2] * a
    return a / (2 * math.sin(a)) * np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])


def rotmat(r):
    a = np.linalg.norm(r)
    if a < 1e-12:
        return np.eye(3)
    k = r / a
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K.dot(K)


class PoseSpline(object):
    """Remembers what it was fitted to; its motion is given by the scenario."""
    motion = None
    made = []

    def __init__(self, order, rot):
        self.order = order
        PoseSpline.made.append(self)

    def transformationToCurveValue(self, T):
        T = np.asarray(T)
        return np.concatenate((T[:3, 3], rotvec(T[:3, :3])))

    def initPoseSplineSparse(self, times, curve, knots, lam):
        self.times, self.curve, self.knots = np.array(times).flatten(), np.array(curve), knots

    def t_min(self): return self.times[0]
    def t_max(self): return self.times[-1]

    def check(self, t):
        if not self.t_min() <= t <= self.t_max():
            vmc.fail('outside-spline', t)

    def angularVelocityBodyFrame(self, t):
        self.check(t)
        return PoseSpline.motion.omega(t)

    def orientation(self, t):
        self.check(t)
        return PoseSpline.motion.R(t)


absp.BSplinePose = PoseSpline


class Optimizer(object):
    """Least squares on the error terms and active design variables given, by Gauss-Newton with numerical derivatives."""
    solved = 0

    def __init__(self, options): self.options = options
    def setProblem(self, p): self.p = p

    def optimize(self):
        terms = [e for e in self.p.terms]
        dvs = [d for d, _ in self.p.dvs if isinstance(d, Dv) and d.active]
        free = [d for d, _ in self.p.dvs if isinstance(d, SplineKnot) and d.active]
        Optimizer.solved += 1
        if free:
            free[0].owner.fit(terms)

        terms = [e for e in terms if not hasattr(e.pred, 'rate')]  # the others fix the rate
        roots = [np.linalg.cholesky(e.invR).T for e in terms]

        def residual():
            return np.concatenate([L.dot(e.meas - e.pred.v() - (e.bias.v() if e.bias is not None else 0)) for e, L in zip(terms, roots)])

        def move(d, v, x):
            d.value = rotmat(x).dot(v) if v.shape == (3, 3) else v + x

        dvs = [d for d in dvs if d.value is not None]
        if not dvs or not terms or not [e for e in terms if not hasattr(e.pred, 'rate')]:
            return
        start = [d.value.copy() for d in dvs]
        best = None
        tries = [np.eye(3)] + [rotmat(np.array(x)) for x in ((0, 0, math.pi), (0, math.pi, 0), (math.pi, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2))]
        for s in tries:
            for d, v in zip(dvs, start):
                d.value = s.dot(v) if v.shape == (3, 3) else v.copy()
            r = residual()
            c, lam = r.dot(r), 1e-6
            for it in range(60):
                J, cur = [], [d.value.copy() for d in dvs]
                for d, v in zip(dvs, cur):
                    for k in range(3):
                        x = np.zeros(3)
                        x[k] = 1e-6
                        move(d, v, x)
                        J.append((residual() - r) / 1e-6)
                        d.value = v
                J = np.array(J).T
                H = J.T.dot(J)
                dx = np.linalg.solve(H + lam * (np.diag(np.diag(H)) + 1e-9 * np.eye(len(H))), -J.T.dot(r))
                for k, (d, v) in enumerate(zip(dvs, cur)):
                    move(d, v, dx[3 * k:3 * k + 3])
                rn = residual()
                if rn.dot(rn) <= c:
                    stop = np.abs(dx).max() < 1e-9
                    r, c, lam = rn, rn.dot(rn), lam * 0.2
                    if stop:
                        break
                else:
                    for d, v in zip(dvs, cur):
                        d.value = v
                    lam *= 10
                    if lam > 1e8:
                        break
            if best is None or c < best[0]:
                best = (c, [d.value.copy() for d in dvs])
            if c < 1e-6:
                break
        for d, v in zip(dvs, best[1]):
            d.value = v


aopt.Optimizer2 = Optimizer


class Gyro(object):
    def __init__(self, meas, invR, pred, bias):
        self.meas, self.invR, self.pred, self.bias, self.mest = np.array(meas, dtype=float), np.array(invR, dtype=float), pred, bias, None

    def setMEstimatorPolicy(self, m): self.mest = m


ket.GyroscopeError = Gyro


# ---- the spline of the rate of the reference sensor
class SplineKnot(object):
    def __init__(self, owner): self.owner, self.active = owner, None
    def setActive(self, a): self.active = a


class RateDv(object):
    """Estimated from the terms in which it appears alone."""
    made = []

    def __init__(self, spline):
        self.spl, self.fun, self.done = spline, (lambda t: np.zeros(3)), False
        RateDv.made.append(self)

    def numDesignVariables(self): return 1
    def designVariable(self, i): return SplineKnot(self)
    def spline(self): return self.spl

    def toEuclideanExpression(self, t, order):
        self.inside(t)
        e = E(lambda: self.fun(t) if order == 0 else np.full(3, 1e3))
        e.rate, e.t = self, t
        return e

    def inside(self, t):
        if not self.spl.a < t < self.spl.b:
            vmc.fail('outside-spline', 'rate at %g' % t)

    def toEuclidean(self, t, order):
        self.inside(t)
        return self.fun(t)

    def fit(self, terms):
        """The rate through the measurements of the reference sensor; its bias cannot be told from the rate."""
        if self.done:
            return
        self.done = True
        own = [e for e in terms if getattr(e.pred, 'rate', None) is self]
        self.terms = own
        ts = np.array([e.pred.t for e in own])
        ms = np.array([e.meas for e in own])
        if not len(ts):
            return
        o = np.argsort(ts)
        ts, ms = ts[o], ms[o]
        import scipy.interpolate as si
        cs = si.CubicSpline(ts, ms)
        memo = {}

        def fun(t):
            if t not in memo:
                memo[t] = cs(min(max(t, ts[0]), ts[-1]))
            return memo[t]
        self.fun = fun


def imu_from(rate, times, topic, ref=True, alpha=None):
    return make_imu('IccImu', times, ref, topic, lambda i: (rate(times[i]), alpha(times[i]) if alpha else np.zeros(3)))


class TargetObs(object):
    def __init__(self, t, T_t_c): self.t, self.T = t, T_t_c
    def time(self): return Time(self.t)
    def T_t_c(self): return self.T


def make_cam(times, poses, T_extrinsic=None):
    cam = sens.IccCamera.__new__(sens.IccCamera)
    cam.targetObservations = [TargetObs(t, p) for t, p in zip(times, poses)]
    cam.T_extrinsic = T_extrinsic or T()
    cam.timeshiftCamToImuPrior = 0.0
    cam.gravity_w = None
    return cam


# ---- the spline through the poses seen by a camera
LAT = [np.zeros(3), np.array([0.4, -0.2, 0.1]), np.array([3.0, 0.3, -0.2]), np.array([-3.1, -0.1, 0.1]), np.array([0, 3.13, 0.0]), np.array([0.05, -2.2, 2.2])]


def s_fit(word, ext, pad, shift, rate, order):
    def f():
        times = [1.0 + 0.25 * i + 0.05 * (i % 2) for i in range(len(word))]
        poses = [T(stubs.rt2Transform(rotmat(LAT[k]), [0.1 * i, -0.2 * k, 1.0 + i])) for i, k in enumerate(word)]
        cam = make_cam(times, poses, ext)
        cam.timeshiftCamToImuPrior = shift
        vmc.transition()
        with stubs.Quiet():
            s = cam.initPoseSplineFromCamera(order, rate, pad)
        want = np.array([times[0] + shift - 2 * pad] + [t + shift for t in times] + [times[-1] + shift + 2 * pad])
        vmc.expect(s.order == order, 'order', s.order)
        vmc.expect(s.times.shape == want.shape and np.allclose(s.times, want, atol=1e-12), 'times', '%s instead of %s' % (s.times, want))
        vmc.expect(s.knots == int(round((want[-1] - want[0]) * rate)), 'knots', s.knots)
        vmc.expect(s.curve.shape == (6, len(word) + 2), 'curve', s.curve.shape)
        for i in range(len(word) + 2):
            p = poses[min(max(i - 1, 0), len(word) - 1)]
            W = p.T().dot(ext.T())
            c = s.curve[:, i]
            vmc.expect(np.allclose(c[:3], W[:3, 3], atol=1e-9) and np.allclose(rotmat(c[3:]), W[:3, :3], atol=1e-6), 'pose', '%d: %s' % (i, c))
            if i:
                prev = s.curve[3:, i - 1]
                a = np.linalg.norm(c[3:])
                if a > 1e-6:
                    others = [c[3:] / a * (a + 2 * math.pi * k) for k in range(-3, 4)]
                    d = [np.linalg.norm(o - prev) for o in others]
                    vmc.expect(np.linalg.norm(c[3:] - prev) <= min(d) + 1e-9, 'jump', '%d: %s after %s' % (i, c[3:], prev))
                    if np.linalg.norm(rotvec(W[:3, :3]) - c[3:]) > 1:
                        vmc.nontrivial(word)
    return f


# ---- time shift
def s_shift(k, dt, motion, span, cover):
    def f():
        centre = 5.0
        m = Turn(centre, 0.35, motion)
        PoseSpline.motion = m
        n = int(round(span / dt))
        t0 = 5.0 - span / 2.0
        itimes = [t0 + dt * i for i in range(n)]
        shift = k * dt
        # the camera sees t, the inertial sensor calls the same moment t + shift
        imu = imu_from(lambda t: m.omega(t - shift) * 1.0, itimes, '/imu')
        ct = [5.0 + cover * (x - 0.5) for x in (0.0, 0.1, 0.5, 0.9, 1.0)]
        cam = make_cam(ct, [T()] * 5)
        vmc.transition()
        if k:
            vmc.nontrivial((k, dt, motion, span, cover))
        with stubs.Quiet():
            cam.findTimeshiftCameraImuPrior(imu)
        vmc.expect(abs(cam.timeshiftCamToImuPrior - shift) <= dt * 1.01, 'time-shift', '%g instead of %g' % (cam.timeshiftCamToImuPrior, shift))
        vmc.expect(abs(PoseSpline.made[-1].times[0] - ct[0]) < 1e-12 and abs(PoseSpline.made[-1].times[-1] - ct[-1]) < 1e-12, 'padded', '')
    return f


def expect_exit(fun, what):
    try:
        with stubs.Quiet():
            fun()
    except SystemExit as e:
        vmc.expect(e.code not in (0, None), 'exit-code', e.code)
        return
    vmc.fail('not-refused', what)


def s_apart(gap):
    def f():
        PoseSpline.motion = Turn(5.0, 0.3, 0)
        imu = imu_from(lambda t: np.ones(3), [1.0, 1.1, 1.2], '/imu')
        cam = make_cam([1.2 + gap, 1.5 + gap, 2.0 + gap], [T()] * 3)
        vmc.transition()
        vmc.nontrivial(gap)
        expect_exit(lambda: cam.findTimeshiftCameraImuPrior(imu), 'time shift without overlap')
        expect_exit(lambda: cam.findOrientationPriorCameraToImu(imu), 'orientation without overlap')
        a = imu_from(lambda t: np.ones(3), [1.2 + gap + 0.1 * i for i in range(9)], '/imu1', False)
        expect_exit(lambda: a.findOrientationPrior(imu), 'other inertial sensor without overlap')
    return f


# ---- orientation and gravity
ROT = [np.zeros(3), np.array([0.3, -0.2, 0.4]), np.array([math.pi / 2, 0, 0]), np.array([0, math.pi, 0]), np.array([1.2, -1.2, 1.2]), np.array([2.0, 2.0, -1.0])]
BIAS = [np.zeros(3), np.array([0.02, -0.01, 0.03]), np.array([-0.5, 0.4, 0.1])]
GRAV = [np.array([0.0, 9.81, 0.0]), np.array([0.0, 0.0, -9.7]), np.array([5.0, -6.0, 6.0])]


def s_orient(r, b, g, mi, ncalls, trans):
    def f():
        m = Motion(mi)
        PoseSpline.motion = m
        R_i_c = rotmat(ROT[r])
        times = [0.9 + 0.05 * i for i in range(24)]
        gw = GRAV[g]
        # the inertial sensor measures the specific force, gravity itself points along gw
        imus = [imu_from(lambda t: R_i_c.dot(m.omega(t)) + BIAS[(b + c) % 3], times, '/imu', True, lambda t: -R_i_c.dot(m.R(t).T).dot(gw)) for c in range(ncalls)]
        imu = imus[0]
        biases = []
        ext = T(stubs.rt2Transform(np.eye(3), [0.1, 0.2, -0.3] if trans else [0, 0, 0]))
        for c in range(ncalls):
            cam = make_cam([1.0, 1.3, 1.6, 2.0], [T()] * 4, ext)
            imu.imuData = imus[c].imuData
            chain = sens.IccCameraChain.__new__(sens.IccCameraChain)
            chain.camList = [cam]
            vmc.transition()
            with stubs.Quiet():
                chain.findOrientationPriorCameraChainToImu(imu)
            X = cam.T_extrinsic.T()
            vmc.expect(np.allclose(X[:3, :3], R_i_c.T, atol=1e-5), 'orientation', '%s instead of %s' % (X[:3, :3].tolist(), R_i_c.T.tolist()))
            vmc.expect(np.allclose(X[:3, 3], ext.t()), 'translation', X[:3, 3])
            G = chain.getEstimatedGravity()
            vmc.expect(abs(np.linalg.norm(G) - 9.80655) < 1e-9 and np.allclose(G / np.linalg.norm(G), gw / np.linalg.norm(gw), atol=1e-5), 'gravity', '%s instead of %s' % (G, gw))
            biases.append(BIAS[(b + c) % 3])
            vmc.expect(np.allclose(imu.GyroBiasPrior, np.mean(biases, axis=0), atol=1e-5), 'bias', '%s instead of %s' % (imu.GyroBiasPrior, np.mean(biases, axis=0)))
            vmc.nontrivial((r, b, g, mi, c))
        with stubs.Quiet():
            imu.initBiasSplines(Spline(1.0, 3.0), 4, 10)
        vmc.expect(np.allclose(imu.gyroBias.value, np.mean(biases, axis=0), atol=1e-5) and np.allclose(imu.accelBias.value, 0) and imu.gyroBias.n == 20 and imu.gyroBias.order == 4,
                   'bias-spline', imu.gyroBias.value)
    return f


class Wide(object):
    """A rate with one distinct peak."""
    def __init__(self, ax): self.m = Turn(3.0, 0.4, ax)
    def omega(self, t): return self.m.omega(t) + np.array([0.02, 0.01, 0.03]) * math.sin(5 * t)


def s_imus(r, b, shift, ax, dts, est):
    def f():
        m = Wide(ax)
        R = rotmat(ROT[r])
        n = int(round(4.0 / dts[0]))
        ref = imu_from(m.omega, [1.0 + dts[0] * i for i in range(n + 1)], '/imu0')
        k = int(round(4.0 / dts[1]))
        # t of the reference = t of the other + offset
        other = imu_from(lambda t: R.dot(m.omega(t + shift)) + BIAS[b], [1.0 + dts[1] * i for i in range(k + 1)], '/imu1', False)
        other.estimateTimedelay = est
        asp.EuclideanBSplineDesignVariable = RateDv
        try:
            vmc.transition()
            with stubs.Quiet():
                other.findOrientationPrior(ref)
        finally:
            asp.EuclideanBSplineDesignVariable = BiasDv
        rd = RateDv.made[-1]
        vmc.expect(rd.spl.a == 1.0 and abs(rd.spl.b - other.imuData[-1].stamp.toSec()) < 1e-9, 'rate-spline', (rd.spl.a, rd.spl.b))
        vmc.expect(len(rd.terms) == len([i for i in ref.imuData if rd.spl.a < i.stamp.toSec() < rd.spl.b]), 'reference-terms', len(rd.terms))
        if est:
            vmc.expect(abs(other.timeOffset - shift) < (1e-3 if b == 0 else 0.05), 'time-offset', '%g instead of %g' % (other.timeOffset, shift))
        else:
            vmc.expect(other.timeOffset == 0.0, 'time-offset', other.timeOffset)
        Q = stubs.quat2r(other.q_i_b_prior)
        if est or shift == 0.0:
            vmc.expect(np.allclose(Q, R, atol=2e-3 if b == 0 else 5e-2), 'imu-orientation', '%s instead of %s' % (Q.tolist(), R.tolist()))
        vmc.nontrivial((r, b, shift, ax, dts, est))
        with stubs.Quiet():
            other.initBiasSplines(Spline(1.0, 3.0), 4, 10)
            other.addDesignVariables(Problem())
        vmc.expect(np.allclose(other.q_i_b_Dv.value, Q), 'orientation-used', '')
    return f


def words():
    for n in (2, 3, 4) if vmc.thorough() else (2, 3):
        for w in itertools.product(range(len(LAT)), repeat=n):
            yield w


def main():
    exts = [T(), rnd(4)]
    for w in words():
        for e in (0, 1):
            vmc.run('poses %s, extrinsics %d' % (list(w), e), s_fit(w, exts[e], (0.0, 0.02, 0.5)[len(w) % 3], (0.0, 0.125)[e], (100, 70)[e], (6, 4)[e]))
    for k in range(-20, 21) if vmc.thorough() else (-20, -9, -3, -1, 0, 1, 2, 5, 13, 20):
        for dt in (0.02, 0.05):
            for ax in range(3):
                for span, cover in ((8.0, 7.0), (7.0, 9.0), (7.5, 7.5)):
                    vmc.run('time shift of %d samples of %g s, motion %d, %g s measured, %g s seen' % (k, dt, ax, span, cover), s_shift(k, dt, ax, span, cover))
    for gap in (0.0, 0.01, 5.0):
        vmc.run('no overlap by %g s' % gap, s_apart(gap))
    for r, b, g in itertools.product(range(6), range(3), range(3)):
        for mi in (0, 1):
            for ncalls, trans in ((1, False), (3, True)) if vmc.thorough() else ((1 + 2 * ((r + b + g) % 2), True),):
                vmc.run('rotation %d, bias %d, gravity %d, motion %d, %d cameras' % (r, b, g, mi, ncalls), s_orient(r, b, g, mi, ncalls, trans))
    for r, b in itertools.product(range(6), range(2)):
        for shift in (0.0, 0.05, -0.1, 0.313) if vmc.thorough() else (0.0, 0.05, -0.1):
            for ax in range(3):
                for dts in ((0.04, 0.04), (0.02, 0.04), (0.04, 0.02)) if vmc.thorough() else ((0.04, 0.04),):
                    for est in (True, False):
                        vmc.run('inertial sensors: rotation %d, bias %d, offset %g, motion %d, intervals %s%s' % (r, b, shift, ax, dts, '' if est else ', no offset wanted'),
                                s_imus(r, b, shift, ax, dts, est))
    shutil.rmtree(calib.work, ignore_errors=True)
    vmc.finish()


if __name__ == '__main__':
    main()
