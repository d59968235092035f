"""Rolling shutter calibration: the problem it builds and the placement of knots (C38)."""
import copy, importlib.machinery, importlib.util, itertools, math, sys
import calib
from calib import *
import types

acv.RollingShutter, acv.GlobalShutter = 'rolling', 'global'
import kalibr_rs_camera_calibration as rscc
from kalibr_rs_camera_calibration import RsCalibrator as _mod
rs = sys.modules['kalibr_rs_camera_calibration.RsCalibrator']
Strategy = rs.RsCalibratorConfiguration.knotUpdateStrategy
Calibrator = rs.RsCalibrator
np.seterr(all='ignore')


class W(object):
    """One run."""


w = W()


def rotvec(R):
    a = math.acos(max(-1.0, min(1.0, (np.trace(R) - 1) / 2)))
    if a < 1e-9:
        return np.zeros(3)
    v = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    if np.linalg.norm(v) < 1e-6:
        K = (R + np.eye(3)) / 2
        i = int(np.argmax(np.diag(K)))
        v = K[:, i]
    return v / np.linalg.norm(v) * a


def expm(r):
    a = np.linalg.norm(r)
    if a < 1e-12:
        return np.eye(3)
    K = np.array([[0, -r[2], r[1]], [r[2], 0, -r[0]], [-r[1], r[0], 0]]) / a
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K.dot(K)


def curve(t):
    return np.array([math.sin(0.3 * t + j) + j for j in range(6)])


class BSplinePose(object):
    def __init__(self, order, rotation):
        self.order, self.rot = order, rotation
        w.splines.append(self)

    def rotation(self): return self.rot
    def transformationToCurveValue(self, M):
        M = np.asarray(M, dtype=float)
        return np.concatenate((M[:3, 3], rotvec(M[:3, :3])))

    def initPoseSplineSparse(self, times, values, n, lam):
        self.times, self.values, self.n, self.lam = np.array(times, dtype=float), np.array(values, dtype=float), n, lam
        d = (self.times[-1] - self.times[0]) / n
        self.k = self.times[0] + d * (np.arange(n + 2 * self.order - 1) - (self.order - 1))

    def initPoseSplineSparseKnots(self, times, values, knots, lam):
        self.times, self.values, self.n, self.lam = np.array(times, dtype=float), np.array(values, dtype=float), None, lam
        self.k = np.array(knots, dtype=float)

    def knots(self): return self.k.copy()
    def t_min(self): return self.k[self.order - 1]
    def t_max(self): return self.k[-self.order]
    def eval(self, t): return curve(t)


absp.BSplinePose = BSplinePose
sm_python.RotationVector = lambda: 'rotation vector'


# ---- placement of knots
class Err(object):
    def __init__(self, t, cell): self.t, self.cell = t, cell
    def observationTime(self): return self.t
    def evaluateError(self): return w.level[self.cell]


SEG, N, ORDER = 0.125, 18, 4


def uniform():
    s = BSplinePose(ORDER, 'rotation vector')
    s.k = np.array([(i - ORDER + 1) * SEG for i in range(N + 2 * ORDER - 1)])
    return s


def spent(knots, errors):
    """Error and number of errors in every segment that the knots bound."""
    e, c = np.zeros(len(knots) - 1), np.zeros(len(knots) - 1)
    i = np.searchsorted(knots, [x.t for x in errors], side='right') - 1
    for x, j in zip(errors, i):
        e[j] += x.evaluateError()
        c[j] += 1
    return e, c


class Ref(object):
    """Which segments are to be split."""
    def __init__(self, rate):
        self.rate, self.prev, self.off, self.n = rate, None, [], None

    def step(self, errors, knots):
        e, c = spent(knots, errors)
        if self.prev is not None:
            k0, e0 = self.prev
            e1, _ = spent(k0, errors)
            self.off += [(k0[i], k0[i + 1]) for i in range(len(e0)) if 0.8 * e0[i] < e1[i]]
        left = []
        for i, k in enumerate(knots):
            if 6 < i < len(knots) - 6 and e[i - 1] == 0 and e[i] == 0:
                self.off.append((knots[i - 1], knots[i + 1]))
            else:
                left.append(k)
        e, c = spent(left, errors)
        new = []
        for i, k in enumerate(left):
            new.append(k)
            if i + 1 < len(left) and e[i] > c[i]:
                m = (k + left[i + 1]) / 2
                if m - k > 1.0 / (2 * self.rate) and not any(a <= m < b for a, b in self.off):
                    new.append(m)
        again = self.n is None or len(new) > 1.01 * self.n
        self.n, self.prev = len(new), (left, e)
        return new, again


def s_knots(present, per, shift, rate, rounds, levels, earlier):
    def f():
        w.splines = []
        if earlier:
            # another calibration in the same process, all of whose segments were given up
            w.level = [9.0] * 3
            o = Strategy(rate)
            es = [Err(SEG * (i + 0.5), 0) for i in range(N)]
            o.generateKnotList(es, uniform())
            o.generateKnotList(es, uniform())
        cells = N // 3
        errors = [Err(SEG * (i + shift + j / float(per)), i // cells) for i in range(N) for j in range(per) if present >> (i // cells) & 1]
        order = errors[::2] + errors[1::2][::-1]

        def go(strategy, ref, spline, depth, trace):
            if depth == rounds or vmc.g.violations:
                return
            used = [c for c in range(3) if present >> c & 1]
            for word in itertools.product(levels, repeat=len(used)):
                w.level = dict(zip(used, word))
                s, r = copy.deepcopy(strategy), copy.deepcopy(ref)
                vmc.transition()
                vmc.g.ctx = 'errors %s: ' % (trace + (word,),)
                old = spline.knots()
                want, again = r.step(errors, old)
                with stubs.Quiet():
                    have, flag = s.generateKnotList(list(order), spline)
                vmc.expect(np.array_equal(spline.knots(), old), 'knots-changed-in-place', '')
                if not vmc.expect(len(have) == len(want) and np.allclose(have, want, rtol=0, atol=1e-9), 'knots', lambda: 'too many %s, missing %s' % ([round(float(x), 5) for x in have if not np.any(np.abs(np.array(want) - x) < 1e-9)], [round(float(x), 5) for x in want if not np.any(np.abs(np.array(have) - x) < 1e-9)])):
                    return
                if not vmc.expect(bool(flag) == again, 'requires-update', (flag, again)):
                    return
                with stubs.Quiet():
                    n = s.getUpdatedSpline(spline, have, ORDER)
                vmc.expect(n is not spline and n.order == ORDER and n.rotation() == spline.rotation(), 'updated-spline', '')
                if not vmc.expect(len(n.k) == len(want) and np.allclose(n.k, want, rtol=0, atol=1e-9), 'knots-of-updated-spline', '%d instead of %d' % (len(n.k), len(want))):
                    return
                vmc.expect(abs(n.t_min() - spline.t_min()) < 1e-9 and abs(n.t_max() - spline.t_max()) < 1e-9, 'range', (n.t_min(), n.t_max()))
                t, v = n.times, n.values
                vmc.expect(v.shape == (6, len(t)) and len(t) >= len(n.k) - ORDER and abs(t[0] - spline.t_min()) < 1e-9 and abs(t[-1] - spline.t_max()) < 1e-9 and np.all(np.diff(t) >= 0), 'samples', (v.shape, len(t)))
                vmc.expect(v.shape[1] == len(t) and np.allclose(v, np.array([curve(x) for x in t]).T), 'values', '')
                if not np.array_equal(np.array(want), old):
                    vmc.nontrivial((present, per, shift, rate, tuple(np.round(want, 6))))
                if vmc.state((present, per, shift, rate, rounds - depth, tuple(np.round(want, 6)), tuple(np.round(r.prev[1], 6)), tuple(sorted(set((round(a, 6), round(b, 6)) for a, b in r.off))))) and again:
                    go(s, r, n, depth + 1, trace + (word,))
        with stubs.Quiet():
            s = Strategy(rate)
        go(s, Ref(rate), uniform(), 0, ())
    return f


# ---- the problem
class Stamp(object):
    def __init__(self, t): self.t = t
    def toSec(self): return self.t


class Obs(object):
    def __init__(self, k, t, mask, T_t_c, fails):
        self.k, self.t, self.mask, self.true, self.fails, self.T_ = k, t, mask, T_t_c, fails, T()

    def ids(self): return [i for i in range(8) if self.mask >> i & 1]
    def pix(self, i): return np.array([20.0 * self.k + i, 7.0 * i + 3.0 * self.k])
    def time(self): return Stamp(self.t)
    def imRows(self): return 480
    def imCols(self): return 640
    def T_t_c(self): return self.T_
    def set_T_t_c(self, X): self.T_ = X
    def hasSuccessfulObservation(self): return self.mask != 0
    def getCornersIdx(self): return np.array(self.ids(), dtype=int)
    def getCornersImageFrame(self): return np.array([self.pix(i) for i in self.ids()]).reshape(-1, 2)
    def getCornersTargetFrame(self): return np.array([corner(i) for i in self.ids()]).reshape(-1, 3)


def corner(i): return np.array([0.1 * (i % 2), 0.2 * (i // 2), 0.0])


class Keypoint(object):
    def setMeasurement(self, y): self.y = np.array(y, dtype=float)
    def setInverseMeasurementCovariance(self, C): self.invR = np.array(C, dtype=float)
    def setLandmarkId(self, i): self.landmark = i


acv.Keypoint2 = Keypoint


class Frame(object):
    def __init__(self): self.kp, self.g, self.t = [], None, None
    def setGeometry(self, g): self.g = g
    def setTime(self, t): self.t = t
    def time(self): return self.t
    def addKeypoint(self, k): self.kp.append(copy.copy(k))
    def numKeypoints(self): return len(self.kp)


class ReTerm(object):
    def __init__(self, kind, frame, i, p, dv, pose=None):
        self.kind, self.frame, self.i, self.p, self.dv, self.pose = kind, frame, i, p, dv, pose
    def observationTime(self): return self.frame.t.t + DELAY * self.frame.kp[self.i].y[1]
    def evaluateError(self): return w.error
    def error(self): return np.zeros(2)


DELAY = 1e-4


class RsDv(CamDv):
    def keypointTime(self, t, y): return E(lambda: t.t + DELAY * float(np.asarray(y).flatten()[1]))

    def setActive(self, a, b, c):
        for x, v in ((self.p, a), (self.d, b), (self.s, c)):
            x.setActive(v)


def at(t): return rnd(77).T().dot(T(np.vstack((np.hstack((expm(np.array([0.1 * t, 0.2, -0.05 * t])), [[t], [0.5 * t], [1.0]])), [[0, 0, 0, 1]]))).T())


class PoseDv(object):
    def __init__(self, spline):
        self.spl, self.dvs, self.pads = spline, [Dv(None) for i in range(3)], []
        w.poses.append(self)

    def spline(self): return self.spl
    def numDesignVariables(self): return len(self.dvs)
    def designVariable(self, i): return self.dvs[i]

    def transformationAtTime(self, time, a, b):
        self.pads.append((a, b))
        return E(lambda: at(time.toScalar()))


class Motion_(object):
    def __init__(self, pose, W): self.pose, self.W = pose, np.array(W, dtype=float)


class Optimizer(object):
    def __init__(self, options): self.options = options

    def setProblem(self, p): self.problem = p

    def optimize(self):
        w.runs.append(self)
        if w.raises and len(w.runs) == w.raises:
            raise RuntimeError('no convergence')
        return types.SimpleNamespace(linearSolverFailure=False, iterations=1)


asp.BSplineMotionError, asp.BSplinePoseDesignVariable = Motion_, PoseDv
aopt.Optimizer2, aopt.Optimizer2Options = Optimizer, Obj


class Geometry(object):
    def __init__(self): self.line, self.init = [], []
    def shutter(self): return types.SimpleNamespace(setParameters=lambda p: self.line.append(np.array(p, dtype=float).flatten()))
    def initializeIntrinsics(self, obs):
        self.init.append(list(obs))
        return True

    def estimateTransformation(self, o): return (False, T()) if o.fails else (True, o.true)


class Scripted(object):
    """A strategy that gives the answers of a word."""
    def __init__(self, rate):
        self.i = 0
        w.rate = rate

    def generateKnotList(self, errors, spline):
        w.asked.append((list(errors), spline))
        a = w.word[self.i] if self.i < len(w.word) else False
        self.i += 1
        return [list(spline.knots()) + [spline.knots()[-1] + 1.0], a]

    def getUpdatedSpline(self, spline, knots, order):
        with_order = BSplinePose(order, spline.rotation())
        with_order.k = np.array(knots)
        w.updated.append((spline, order, with_order))
        return with_order


def fresh():
    w.__dict__.clear()
    w.splines, w.poses, w.runs, w.asked, w.updated, w.word, w.raises, w.error, w.rate = [], [], [], [], [], (), 0, 1.0, None


def make_geometry(rolling):
    g = types.SimpleNamespace()
    g.dv, g.geometry = RsDv(), Geometry()
    val = types.SimpleNamespace(lineDelay=lambda: DELAY, getParameters=lambda: np.zeros((4, 1)))
    for x in (g.dv.p, g.dv.d, g.dv.s):
        x.value = lambda: val
    g.model = types.SimpleNamespace(shutterType=acv.RollingShutter if rolling else acv.GlobalShutter, frameType=Frame)
    g.model.reprojectionErrorAdaptiveCovariance = lambda f, i, p, dv, pose: ReTerm('adaptive', f, i, p, dv, pose)
    g.model.reprojectionError = lambda f, i, p, dv: ReTerm('plain', f, i, p, dv)
    return g


def s_problem(rolling, masks, times, poses, fails, est, word, limit, opts):
    def f():
        fresh()
        w.word = word
        g = make_geometry(rolling)
        obs = [Obs(k, t, m, p, bool(fails >> k & 1)) for k, (t, m, p) in enumerate(zip(times, masks, poses))]
        c = rs.RsCalibratorConfiguration()
        c.knotUpdateStrategy, c.maxKnotPlacementIterations = Scripted, limit
        if est is not None:
            c.estimateParameters = dict(est)
        for k, v in opts.items():
            setattr(c, k, v)
        vmc.transition()
        vmc.nontrivial((rolling, tuple(masks), fails, tuple(word), tuple(sorted(map(str, opts.items())))))
        with stubs.Quiet():
            Calibrator().calibrate(g, obs, c)
        act = dict(est or dict(shutter=True, intrinsics=True, distortion=True, pose=True, landmarks=False))
        if not rolling:
            act['shutter'] = False
        # later calibrations in the process
        d = rs.RsCalibratorConfiguration()
        vmc.expect(d.estimateParameters == dict(shutter=True, intrinsics=True, distortion=True, pose=True, landmarks=False) and d.adaptiveKnotPlacement, 'defaults-changed', d.estimateParameters)
        # first guesses
        vmc.expect(g.geometry.init == [obs], 'intrinsics', len(g.geometry.init))
        vmc.expect([list(x) for x in g.geometry.line] == ([[1.0 / c.framerate / 480.0]] if rolling else []), 'line-delay', g.geometry.line)
        sp = w.splines[0]
        pad = c.timeOffsetPadding
        vmc.expect(sp.order == c.splineOrder, 'order', sp.order)
        vmc.expect(sp.times[0] <= times[0] - pad and sp.times[-1] >= times[-1] + pad and np.all(np.diff(sp.times) >= 0), 'range', list(sp.times))
        n = c.numberOfKnots if c.numberOfKnots is not None else int(round((sp.times[-1] - sp.times[0]) * c.framerate / 3))
        vmc.expect(sp.n == n, 'segments', (sp.n, n))
        prev = None
        for k, o in enumerate(obs):
            j = int(np.argmin(np.abs(sp.times - o.t)))
            if not vmc.expect(abs(sp.times[j] - o.t) < 1e-9, 'times', o.t):
                continue
            v = sp.values[:, j]
            P = o.true if not o.fails else o.T_
            vmc.expect(np.allclose(v[:3], P.t(), atol=1e-9) and np.allclose(expm(v[3:]), P.C(), atol=1e-7), 'pose', k)
            if prev is not None:
                r = rotvec(P.C())
                a = np.linalg.norm(r)
                best = min(np.linalg.norm((r / a * (a + 2 * math.pi * s) if a > 0 else r) - prev) for s in range(-2, 3))
                vmc.expect(np.linalg.norm(v[3:] - prev) <= best + 1e-6, 'continuity', 'view %d: %s after %s' % (k, v[3:], prev))
            prev = v[3:]
        vmc.expect(np.allclose(sp.values[:, 0], sp.values[:, 1]) and np.allclose(sp.values[:3, -1], sp.values[:3, -2]) and np.allclose(sp.values[3:, -1], sp.values[3:, -2], atol=1e-6), 'ends', '')
        # optimizations and knots
        adaptive = rolling and c.adaptiveKnotPlacement
        yes = len(list(itertools.takewhile(lambda b: b, word)))
        want = 1 + (min(limit, yes) if adaptive else 0)
        if not vmc.expect(len(w.runs) == want, 'optimizations', '%d instead of %d' % (len(w.runs), want)):
            return
        vmc.expect(len(w.asked) == (min(limit, yes + 1) if adaptive else 0), 'asked', len(w.asked))
        vmc.expect(not adaptive or not w.asked or w.rate == c.framerate, 'rate', w.rate)
        for r, run in enumerate(w.runs):
            p, o = run.problem, run.options
            vmc.expect((o.maxIterations, o.convergenceDeltaJ, o.convergenceDeltaX) == (c.maxNumberOfIterations, c.deltaJ, c.deltaX), 'stopping', '')
            ter = [t for t in p.terms if isinstance(t, ReTerm)]
            mot = [t for t in p.terms if isinstance(t, Motion_)]
            if not vmc.expect(len(mot) == 1 and len(ter) + 1 == len(p.terms), 'terms', [len(ter), len(mot), len(p.terms)]):
                return
            pose = mot[0].pose
            spline = sp if r == 0 else w.updated[r - 1][2]
            vmc.expect(pose.spl is spline, 'spline-of-problem', r)
            if r:
                vmc.expect(w.updated[r - 1][0] is (sp if r == 1 else w.updated[r - 2][2]) and w.updated[r - 1][1] == c.splineOrder, 'updated-spline', r)
            if r < len(w.asked):
                vmc.expect(w.asked[r][1] is spline and sorted(map(id, w.asked[r][0])) == sorted(map(id, ter)), 'errors-for-strategy', r)
            Wm = c.W if c.W is not None else np.diag([1e-5] * 3 + [1e-2] * 3)
            vmc.expect(np.allclose(mot[0].W, Wm), 'motion-prior', mot[0].W)
            # variables
            ids = [id(x) for x, _ in p.dvs]
            vmc.expect(len(ids) == len(set(ids)), 'variable-twice', '')
            lms = [x for x, _ in p.dvs if type(x).__name__ == 'HomogeneousPointDv']
            seen = sorted(set(i for x in obs for i in x.ids()))
            vmc.expect(len(lms) == len(seen), 'landmarks', '%d instead of %d' % (len(lms), len(seen)))
            wanted = [id(x) for x in lms + pose.dvs + [g.dv.p, g.dv.d, g.dv.s]]
            vmc.expect(sorted(ids) == sorted(wanted), 'variables', '%d instead of %d' % (len(ids), len(wanted)))
            vmc.expect((bool(g.dv.p.active), bool(g.dv.d.active), bool(g.dv.s.active)) == (act['intrinsics'], act['distortion'], act['shutter']), 'active-camera', '')
            vmc.expect(all(bool(x.active) == act['landmarks'] for x in lms) and all(bool(x.active) == act['pose'] for x in pose.dvs), 'active', '')
            # one error for every corner, with its landmark
            left = {(x.k, i): x for x in obs for i in x.ids()}
            for t in ter:
                kp = t.frame.kp[t.i] if t.i < len(t.frame.kp) else None
                m = [k for k, x in left.items() if kp is not None and np.array_equal(kp.y, x.pix(k[1]))and t.frame.t.t == x.t]
                if not vmc.expect(len(m) == 1, 'error-without-corner', t.i):
                    return
                x, i = left.pop(m[0]), m[0][1]
                vmc.expect(t.frame.g is g.geometry and t.dv is g.dv, 'camera-of-error', m[0])
                vmc.expect(t.kind == ('adaptive' if rolling else 'plain') and (not rolling or t.pose is pose), 'kind', t.kind)
                vmc.expect(np.allclose(kp.invR, np.eye(2) * c.inverseFeatureCovariance), 'covariance', kp.invR)
                P = np.linalg.inv(at(x.t + DELAY * x.pix(i)[1])).dot(np.append(corner(i), 1.0))
                vmc.expect(np.allclose(t.p.v(), P, atol=1e-9), 'landmark-of-error', 'view %d corner %d: %s instead of %s' % (x.k, i, t.p.v(), P))
                # moves with its landmark
                mine = [l for l in lms if np.allclose(l.value, np.append(corner(i), 1.0))]
                vmc.expect(len(mine) == 1, 'landmark', i)
            vmc.expect(not left, 'corner-without-error', sorted(left))
            for a, b in pose.pads:
                vmc.expect(a == b == c.timeOffsetConstantSparsityPattern, 'time-padding', (a, b))
                break
    return f


# ---- the program
def load(name):
    loader = importlib.machinery.SourceFileLoader(name, stubs.KALIBR + '/' + name)
    m = importlib.util.module_from_spec(importlib.util.spec_from_loader(name, loader))
    with stubs.Quiet():
        loader.exec_module(m)
    return m


sm_python.LoggingLevel = types.SimpleNamespace(Debug=0, Info=1)
sm_python.setLoggingLevel = lambda l: None
MODELS = {'pinhole-radtan-rs': 'DistortedPinholeRs', 'pinhole-equi-rs': 'EquidistantPinholeRs', 'omni-radtan-rs': 'DistortedOmniRs',
          'pinhole-radtan': 'DistortedPinhole', 'pinhole-equi': 'EquidistantPinhole', 'omni-radtan': 'DistortedOmni'}


def s_main(model, drop, extra, outcome):
    def f():
        fresh()
        prog = load('kalibr_calibrate_rs_cameras')
        args = {'--model': model, '--frame-rate': '20', '--bag': 'x.bag', '--topic': '/cam0', '--target': 't.yaml', '--inverse-feature-variance': '4.0'}
        for d in drop:
            del args[d]
        saved, argv = {}, sys.argv
        got = types.SimpleNamespace(reader=[], geo=[], ext=[], cal=[])

        def patch(o, n, v):
            saved[(o, n)] = getattr(o, n)
            setattr(o, n, v)

        class Cal(object):
            def calibrate(self, *a):
                if outcome == 'raises':
                    raise RuntimeError('no convergence')
                got.cal.append(a)
        try:
            patch(kc, 'CalibrationTargetParameters', lambda f, *a: ('target', f))
            patch(kc, 'BagImageDatasetReader', lambda f, t, bag_from_to=None, **k: got.reader.append((f, t, bag_from_to)) or types.SimpleNamespace(numImages=lambda: 3, topic=t))
            patch(kcc, 'CameraGeometry', lambda m, t, d, **k: got.geo.append((m, t, d)) or types.SimpleNamespace(dataset=d, ctarget=types.SimpleNamespace(detector='detector'), verbose=k))
            patch(kc, 'extractCornersFromDataset', lambda d, det, **k: got.ext.append((d, det, k)) or ['observations'])
            patch(rscc, 'RsCalibrator', Cal)
            sys.argv = ['kalibr_calibrate_rs_cameras'] + [x for kv in args.items() for x in kv] + extra
            code = 0
            vmc.transition()
            with stubs.Quiet():
                try:
                    prog.main()
                except SystemExit as e:
                    code = e.code
                except Exception as e:
                    code = repr(e)
        finally:
            sys.argv = argv
            for (o, n), v in saved.items():
                setattr(o, n, v)
        vmc.nontrivial((model, tuple(drop), tuple(extra), outcome))
        if drop or model not in MODELS or outcome == 'raises':
            vmc.expect(code not in (0, None) and not got.cal, 'failure-ignored', code)
            return
        if not vmc.expect(code in (0, None) and len(got.cal) == 1, 'exit', code):
            return
        g, obs, c = got.cal[0]
        vmc.expect(obs == ['observations'] and len(got.ext) == 1 and got.ext[0][0] is g.dataset and got.ext[0][1] == 'detector' and got.ext[0][2].get('noTransformation') is True, 'observations', got.ext)
        vmc.expect(got.reader == [('x.bag', '/cam0', [1.0, 2.5] if '--bag-from-to' in extra else None)], 'bag', got.reader)
        vmc.expect(len(got.geo) == 1 and got.geo[0][0] is getattr(acvb, MODELS[model]) and got.geo[0][1] == ('target', 't.yaml'), 'model', got.geo)
        vmc.expect(c.framerate == 20 and c.maxNumberOfIterations == (7 if '--max-iter' in extra else 30) and c.inverseFeatureCovariance == 4.0, 'configuration', (c.framerate, c.maxNumberOfIterations, c.inverseFeatureCovariance))
    return f


def pose(axis, angle, t): return T(stubs.rt2Transform(expm(np.array(axis) / np.linalg.norm(axis) * angle), t))


def main():
    th = vmc.thorough()
    L = (0.5, 2.0, 3.0)
    for rate in (30, 16, 5):
        for present in range(1, 8):
            for per, shift in ((1, 0.5), (2, 0.0), (3, 0.1)):
                for rounds in ((2, 3) if not th else (2, 3, 4)):
                    if rounds == 3 and not th and (per != 2 or rate == 5 or present == 7 and rate != 16):
                        continue
                    if rounds == 4 and (per == 3 or present == 7):
                        continue
                    for earlier in ((0, 1) if rounds == 2 else (0,)):
                        vmc.run('knots: cells %d, %d per segment at %g, %d images per second, %d rounds%s' % (present, per, shift, rate, rounds, ', after another calibration' if earlier else ''),
                                s_knots(present, per, shift, rate, rounds, L, earlier))
    words = [x for n in range(4) for x in itertools.product((True, False), repeat=n)]
    P = [pose([1, 2, 2], 0.3, [0, 0, 1]), pose([1, 2, 2], 0.5, [0.1, 0, 1]), pose([1, 2, 2], 0.7, [0.2, 0, 1])]
    tm = (10.0, 10.25, 10.5)
    M = range(1, 16 if th else 8)
    for rolling in (True, False):
        for a in M:
            for b in M:
                for c in ((0, 7, 8, 15) if not th else range(16)):
                    vmc.run('problem: %s, corners %d %d %d' % ('rolling' if rolling else 'global', a, b, c), s_problem(rolling, (a, b, c), tm, P, 0, None, (), 3, {}))
        for word in words:
            for limit in (0, 1, 2, 3):
                for ad in (True, False):
                    vmc.run('knot iterations: %s, answers %s, limit %d, adaptive %s' % ('rolling' if rolling else 'global', word, limit, ad), s_problem(rolling, (7, 5, 6), tm, P, 0, None, word, limit, dict(adaptiveKnotPlacement=ad)))
        for fails in range(8):
            vmc.run('poses not found: %s, %d' % ('rolling' if rolling else 'global', fails), s_problem(rolling, (7, 5, 6), tm, P, fails, None, (True,), 2, {}))
        for bits in itertools.product((False, True), repeat=5):
            vmc.run('estimated: %s, %s' % ('rolling' if rolling else 'global', bits), s_problem(rolling, (7, 5, 6), tm, P, 0, dict(zip(('shutter', 'intrinsics', 'distortion', 'pose', 'landmarks'), bits)), (True,), 2, {}))
        for k, v in (('numberOfKnots', 5), ('framerate', 10), ('splineOrder', 6), ('timeOffsetPadding', 0.5), ('timeOffsetConstantSparsityPattern', 0.2), ('W', np.diag([1.0, 2, 3, 4, 5, 6])),
                     ('inverseFeatureCovariance', 9.0), ('maxNumberOfIterations', 3), ('deltaX', 1e-3), ('deltaJ', 1e-2)):
            vmc.run('option: %s, %s' % ('rolling' if rolling else 'global', k), s_problem(rolling, (7, 5, 6), tm, P, 0, None, (True,), 2, {k: v}))
        ang = (-3.1, -1.0, 0.0, 0.4, 2.0, 3.0, 3.13)
        for x in itertools.product(ang, repeat=4 if th else 3):
            for ax in ([0, 0, 1], [1, -2, 2]):
                n = len(x)
                vmc.run('rotations: %s, %s about %s' % ('rolling' if rolling else 'global', x, ax), s_problem(rolling, (7,) * n, [10.0 + 0.25 * i for i in range(n)], [pose(ax, y, [0.1 * i, 0, 1]) for i, y in enumerate(x)], 0, None, (), 2, {}))
    for model in sorted(MODELS) + ['pinhole']:
        for extra in ([], ['--max-iter', '7'], ['--bag-from-to', '1', '2.5'], ['--verbose'], ['--show-extraction', '--max-iter', '7']):
            for outcome in ('ok', 'raises'):
                vmc.run('program: %s %s, %s' % (model, ' '.join(extra), outcome), s_main(model, [], extra, outcome))
    for d in ('--model', '--frame-rate', '--topic', '--target', '--inverse-feature-variance'):
        vmc.run('program without %s' % d, s_main('pinhole-radtan-rs', [d], [], 'ok'))
    shutil.rmtree(calib.work, ignore_errors=True)
    vmc.finish()


if __name__ == '__main__':
    main()
