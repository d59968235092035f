"""The program that calibrates cameras against inertial sensors (C36)."""
import importlib.machinery, importlib.util, inspect, itertools, os, re, sys
import calib
from calib import *

aisp = sys.modules['aslam_incremental_calibration_python'] if 'aslam_incremental_calibration_python' in sys.modules else __import__('aslam_incremental_calibration_python')


def load(name):
    loader = importlib.machinery.SourceFileLoader(name, stubs.KALIBR + '/' + name)
    m = importlib.util.module_from_spec(importlib.util.spec_from_loader(name, loader))
    with stubs.Quiet():
        loader.exec_module(m)
    return m


sm_python = sys.modules['sm_python']
sm_python.LoggingLevel = types.SimpleNamespace(Debug=0, Info=1)
sm_python.setLoggingLevel = lambda l: None
prog = load('kalibr_calibrate_imu_camera')


class W(object):
    """One run of the program."""


w = W()


def log(name, who, args=None):
    w.log.append((name, who, args or {}))


def bound(cls, name, self, a, k):
    b = inspect.signature(getattr(cls, name)).bind(self, *a, **k)
    b.apply_defaults()
    d = dict(b.arguments)
    d.pop('self', None)
    return d


def fake(cls, names, kind):
    """A stand-in of a sensor: its methods are recorded, with arguments as those of the real one name them."""
    d = {}
    for n in names:
        def m(self, *a, _n=n, **k):
            args = bound(cls, _n, self, a, k)
            log(_n, self, args)
            return self.answer(_n, args)
        d[n] = m
    return type(cls.__name__, (cls,), d)


class Error(object):
    """An error term with a residual before and one after the optimization."""
    def __init__(self, before, after): self.v = (np.array(before), np.array(after))
    def error(self): return self.v[w.done]
    def evaluateError(self): return float(self.v[w.done].dot(self.v[w.done])) * 4.0


def terms(seed, n):
    r = np.random.RandomState(seed)
    return [Error(10 * r.randn(2), r.randn(2)) for i in range(n)]


CAM = ['findTimeshiftCameraImuPrior', 'findOrientationPriorCameraToImu', 'initPoseSplineFromCamera', 'addDesignVariables', 'addCameraErrorTerms', 'getEstimatedGravity']


class Cam(fake(sens.IccCamera, CAM, 'cam')):
    def __init__(self, k, camConfig, targetConfig):
        self.k, self.camConfig, self.targetConfig = k, camConfig, targetConfig
        self.T_extrinsic = T()
        now = lambda: (rnd(k + 1) if w.done else rnd(k + 50)).T()
        self.T_c_b_Dv = types.SimpleNamespace(T=now, toExpression=lambda: E(now))
        self.timeshiftCamToImuPrior = 0.0 
        self.cameraTimeToImuTimeDv = types.SimpleNamespace(toScalar=lambda: (0.001 * (k + 1) if w.done and not w.no_time else 0.0))
        self.allReprojectionErrors = [terms(10 * k + j, 2 + j) for j in range(1 + k)]
        self.targetObservations = []

    def answer(self, name, args):
        if name == 'findTimeshiftCameraImuPrior':
            self.timeshiftCamToImuPrior = 0.1 * (self.k + 1)
        if name == 'getEstimatedGravity':
            return w.gravity
        if name == 'initPoseSplineFromCamera':
            return w.spline


class Chain(sens.IccCameraChain):
    def __init__(self, chainConfig, targetConfig, parsed):
        w.chain, w.chain_args = self, (chainConfig, targetConfig, parsed)
        self.chainConfig = chainConfig
        self.camList = [Cam(i, chainConfig.getCameraParameters(i), targetConfig) for i in range(chainConfig.numCameras())]


IMU = ['findOrientationPrior', 'initBiasSplines', 'addDesignVariables', 'addAccelerometerErrorTerms', 'addGyroscopeErrorTerms', 'addBiasMotionTerms', 'getImuConfig']


def imu_class(name):
    real = getattr(sens, name)

    class Imu(fake(real, IMU, 'imu')):
        def __init__(self, *a, **k):
            self.made = bound(real, '__init__', self, a, k)
            self.k, self.model = len(w.imus), name
            self.accelErrors, self.gyroErrors = terms(500 + self.k, 4), terms(600 + self.k, 5)
            self.imuConfig = self.made['imuConfig']
            w.imus.append(self)

        def answer(self, n, args):
            if n == 'getImuConfig':
                if w.done:
                    self.imuConfig.setAccelerometerStatistics(0.5 + self.k, 0.25)
                return self.imuConfig
    return Imu


class PoseDv(object):
    def __init__(self, spline):
        w.pose.append((self, spline))
        self.dvs = [Dv(np.zeros(6)) for i in range(3)]

    def numDesignVariables(self): return 3
    def designVariable(self, i): return self.dvs[i]


class Optimizer(object):
    def __init__(self, options): self.options = options

    def setProblem(self, p): self.problem = p

    def optimize(self):
        log('optimize', self)
        if w.outcome == 'raises':
            raise RuntimeError('no convergence')
        w.done = w.outcome == 'ok'
        return types.SimpleNamespace(linearSolverFailure=w.outcome == 'solver', iterations=3)


class Estimator(object):
    def __init__(self, group): self.group = group

    def addBatch(self, p, force=False): log('covariance', self, dict(problem=p, force=force, group=self.group))

    def getSigma2Theta(self): return np.diag((np.arange(6 + len(w.chain.camList)) + 1.0) ** 2) + 0.001 * (1 - np.eye(6 + len(w.chain.camList)))


GROUPS = (icc.CALIBRATION_GROUP_ID, icc.HELPER_GROUP_ID)
CLASSES = {'calibrated': 'IccImu', 'scale-misalignment': 'IccScaledMisalignedImu', 'scale-misalignment-size-effect': 'IccScaledMisalignedSizeEffectImu'}
FAKES = {c: imu_class(c) for c in CLASSES.values()}


def camera_yaml(k, shift):
    d = dict(camera_model='pinhole', intrinsics=[400.0 + k, 401.0, 320.0, 240.0], distortion_model='radtan', distortion_coeffs=[0.0, 0.0, 0.0, 0.0], resolution=[640, 480], rostopic='/cam%d' % k)
    if k:
        d['T_cn_cnm1'] = rnd(200 + k).T().tolist()
    if shift:
        d['timeshift_cam_imu'] = 0.75
    return d


def run_program(ncams, models, nimus, opts, outcome, bag='dir/data.bag', shift=False):
    w.__dict__.clear()
    w.log, w.imus, w.pose, w.done, w.outcome, w.no_time = [], [], [], 0, outcome, '--no-time-calibration' in opts
    w.gravity, w.spline = np.array([1.0, -9.0, 3.0]), Spline(0, 1)
    count[0] += 1
    d = os.path.join(work, 'run%d' % count[0])
    os.makedirs(d)
    cams, target = os.path.join(d, 'cams.yaml'), os.path.join(d, 'target.yaml')
    yaml.safe_dump({'cam%d' % k: camera_yaml(k, shift) for k in range(ncams)}, open(cams, 'w'))
    yaml.safe_dump(dict(target_type='checkerboard', targetCols=3, targetRows=4, rowSpacingMeters=0.1, colSpacingMeters=0.1), open(target, 'w'))
    files = []
    for i in range(nimus):
        files.append(os.path.join(d, 'imu%d.yaml' % i))
        c = dict(SIG)
        c['rostopic'], c['update_rate'] = '/imu%d' % i, 100.0 + i
        yaml.safe_dump(c, open(files[-1], 'w'))
    saved = {}

    def patch(o, n, v):
        saved[(o, n)] = getattr(o, n)
        setattr(o, n, v)
    before = set(os.listdir(d))
    argv, cwd = sys.argv, os.getcwd()
    w.exit, w.report = None, []
    try:
        os.chdir(d)
        for c, f in FAKES.items():
            patch(sens, c, f)
        patch(sens, 'IccCameraChain', Chain)
        patch(asp, 'BSplinePoseDesignVariable', PoseDv)
        patch(aopt, 'Optimizer2', Optimizer)
        patch(ic, 'IncrementalEstimator', Estimator)
        patch(prog.util, 'generateReport', lambda cal, filename='report.pdf', showOnScreen=True: w.report.append((filename, showOnScreen, cal)))
        w.options = []
        patch(aopt, 'Optimizer2Options', lambda: w.options.append(Obj()) or w.options[-1])
        sys.argv = ['kalibr_calibrate_imu_camera', '--bag', bag, '--cams', cams, '--target', target, '--imu'] + files + (['--imu-models'] + models if models else []) + opts
        with stubs.Quiet():
            try:
                prog.main()
                w.exit = 'done'
            except SystemExit as e:
                w.exit = ('exit', e.code)
            except RuntimeError as e:
                w.exit = ('error', str(e))
    finally:
        sys.argv = argv
        os.chdir(cwd)
        for (o, n), v in saved.items():
            setattr(o, n, v)
    w.files = {f: open(os.path.join(d, f)).read() for f in set(os.listdir(d)) - before}
    shutil.rmtree(d, ignore_errors=True)


def calls(name, who=None):
    return [(i, x[1], x[2]) for i, x in enumerate(w.log) if x[0] == name and (who is None or x[1] is who)]


def numbers(text):
    return [float(x) for x in re.findall(r'[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?', text)]


def holds(text, want, tol=2e-8):
    """Are the numbers WANT somewhere, one after the other, in TEXT?"""
    have, want = np.array(numbers(text)), np.array(want, dtype=float)
    return any(np.allclose(have[i:i + len(want)], want, rtol=1e-6, atol=tol) for i in range(len(have) - len(want) + 1))


def opt(opts, name, default):
    return type(default)(opts[opts.index(name) + 1]) if name in opts else default


def s_main(ncams, models, nimus, opts, outcome, shift=False):
    def f():
        run_program(ncams, models, nimus, opts, outcome, shift=shift)
        vmc.transition()
        key = (ncams, tuple(models or ()), nimus, tuple(opts), outcome, shift)
        use = models or (['calibrated'] if nimus == 1 else None)
        if use is None or len(use) != nimus or any(m not in CLASSES for m in use):
            vmc.nontrivial(key)
            vmc.expect(w.exit == ('exit', 2), 'not-refused', w.exit)
            vmc.expect(not w.files and not w.report and not calls('optimize'), 'result-despite-error', sorted(w.files))
            return
        no_time, free = '--no-time-calibration' in opts, '--recompute-camera-chain-extrinsics' in opts
        pad = opt(opts, '--timeoffset-padding', 0.03)
        # the sensors
        vmc.expect([i.model for i in w.imus] == [CLASSES[m] for m in use], 'imu-models', [i.model for i in w.imus])
        vmc.expect([i.made['imuConfig'].getRosTopic() for i in w.imus] == ['/imu%d' % i for i in range(nimus)], 'imu-order', '')
        vmc.expect([bool(i.made['isReferenceImu']) for i in w.imus] == [i == 0 for i in range(nimus)], 'reference-imu', '')
        vmc.expect(all(bool(i.made['estimateTimedelay']) == ('--imu-delay-by-correlation' in opts) for i in w.imus), 'imu-delay', '')
        vmc.expect(all(i.made['parsed'].bagfile == ['dir/data.bag'] for i in w.imus), 'bag', '')
        ref = w.imus[0]
        pri = calls('findOrientationPrior')
        vmc.expect([p[1] for p in pri] == w.imus[1:] and all(p[2]['referenceImu'] is ref for p in pri), 'imu-prior', [p[1].k for p in pri])
        p = w.chain_args[2]
        vmc.expect(p.reprojection_sigma == opt(opts, '--reprojection-sigma', 1.0) and p.bagfile == ['dir/data.bag'] and all(i.made['parsed'].bag_from_to == p.bag_from_to for i in w.imus)
                   and p.bag_from_to == ([1.0, 2.5] if '--bag-from-to' in opts else None) and p.perform_synchronization == ('--perform-synchronization' in opts), 'options', opts)
        # the shift of every camera, then the orientation, the spline, the biases, the variables, the errors
        ts = calls('findTimeshiftCameraImuPrior')
        vmc.expect([t[1] for t in ts] == ([] if no_time else w.chain.camList) and all(t[2]['imu'] is ref for t in ts), 'time-shift', [t[1].k for t in ts])
        ori = calls('findOrientationPriorCameraToImu')
        vmc.expect([o[1] for o in ori] == w.chain.camList[:1] and ori[0][2]['imu'] is ref, 'orientation', len(ori))
        sp = calls('initPoseSplineFromCamera')
        if not vmc.expect([s[1] for s in sp] == w.chain.camList[:1] and abs(sp[0][2]['timeOffsetPadding'] - pad) < 1e-12, 'pose-spline', len(sp)):
            return
        vmc.expect(max([t[0] for t in ts] + [-1]) < ori[0][0] < sp[0][0], 'order', 'time shift, orientation, spline')
        vmc.expect(len(w.pose) == 1 and w.pose[0][1] is w.spline, 'pose-variables', len(w.pose))
        pose = w.pose[0][0]
        o = calls('optimize')
        if not vmc.expect(len(o) == 1, 'optimize', len(o)):
            return
        prob = o[0][1].problem
        for i in w.imus:
            b, dv = calls('initBiasSplines', i), calls('addDesignVariables', i)
            ac, gy, mo = calls('addAccelerometerErrorTerms', i), calls('addGyroscopeErrorTerms', i), calls('addBiasMotionTerms', i)
            if not vmc.expect(all(len(x) == 1 for x in (b, dv, ac, gy, mo)), 'imu-terms', (i.k, [len(x) for x in (b, dv, ac, gy, mo)])):
                return
            vmc.expect(b[0][2]['poseSpline'] is w.spline and b[0][2]['splineOrder'] == sp[0][2]['splineOrder'], 'bias-spline', i.k)
            vmc.expect(sp[0][0] < b[0][0] < dv[0][0] < min(ac[0][0], gy[0][0], mo[0][0]) and max(ac[0][0], gy[0][0], mo[0][0]) < o[0][0], 'order', 'sensor %d' % i.k)
            vmc.expect(all(x[0][2]['problem'] is prob for x in (dv, ac, gy, mo)), 'other-problem', i.k)
            vmc.expect(all(x[0][2]['poseSplineDv'] is pose for x in (ac, gy)), 'pose-of-errors', i.k)
            vmc.expect(all(np.allclose(x[0][2]['g_w'].toEuclidean(), w.gravity) for x in (ac, gy)), 'gravity-of-errors', i.k)
            vmc.expect(all(x[0][2]['mSigma'] <= 0 for x in (ac, gy)) and ac[0][2]['accelNoiseScale'] == gy[0][2]['gyroNoiseScale'] == 1.0, 'noise', i.k)
        T_c_b = np.eye(4)
        for c in w.chain.camList:
            dv, er = calls('addDesignVariables', c), calls('addCameraErrorTerms', c)
            if not vmc.expect(len(dv) == len(er) == 1, 'camera-terms', (c.k, len(dv), len(er))):
                return
            d = dv[0][2]
            vmc.expect(d['problem'] is prob and bool(d['noTimeCalibration']) == no_time and bool(d['noExtrinsics']) == (c.k > 0 and not free)
                       and d['baselinedv_group_id'] == GROUPS[c.k > 0], 'camera-variables', (c.k, d))
            e = er[0][2]
            vmc.expect(e['problem'] is prob and e['poseSplineDv'] is pose and abs(e['timeOffsetPadding'] - pad) < 1e-12 and e['blakeZissermanDf'] <= 0, 'camera-errors', (c.k, e))
            T_c_b = (rnd(c.k + 1) if w.done else rnd(c.k + 50)).T().dot(T_c_b)
            vmc.expect(np.allclose(e['T_cN_b'].toTransformationMatrix(), T_c_b, atol=1e-9), 'camera-chain', c.k)
            vmc.expect(dv[0][0] < er[0][0] < o[0][0], 'order', 'camera %d' % c.k)
        ids = [id(x) for x, g in prob.dvs]
        vmc.expect(len(ids) == len(set(ids)) == 4 and all(g == GROUPS[1] and x.isActive() for x, g in prob.dvs), 'variables', len(ids))
        vmc.expect(all(id(x) in ids for x in pose.dvs), 'pose-variables', '')
        vmc.expect([x for x, g in prob.dvs if x not in pose.dvs][0].__class__.__name__ == 'EuclideanDirection', 'gravity-length-estimated', '')
        vmc.expect(o[0][1].options.maxIterations == opt(opts, '--max-iter', 30), 'iterations', o[0][1].options.maxIterations)
        if outcome != 'ok':
            vmc.nontrivial(key)
            vmc.expect(w.exit != 'done' and w.exit != ('exit', 0), 'failure-ignored', w.exit)
            vmc.expect(not w.files and not w.report, 'result-of-failure', sorted(w.files))
            return
        vmc.expect(w.exit == 'done', 'exit', w.exit)
        co = calls('covariance')
        rec = '--recover-covariance' in opts
        vmc.expect(len(co) == rec, 'covariance', len(co))
        cal = w.report[0][2] if w.report else None
        if rec and cal is not None and len(co) == 1:
            vmc.nontrivial(key)
            vmc.expect(co[0][2]['problem'] is prob and co[0][2]['force'] and co[0][2]['group'] == GROUPS[0] and co[0][0] > o[0][0], 'covariance', '')
            vmc.expect(np.allclose(cal.std_trafo_ic, np.arange(6) + 1.0) and np.allclose(cal.std_times, np.arange(ncams) + 7.0), 'deviations', '%s %s' % (cal.std_trafo_ic, cal.std_times))
        names = ['camchain-imucam-dirdata.yaml', 'imu-dirdata.yaml', 'results-imucam-dirdata.txt']
        if not vmc.expect(sorted(w.files) == names, 'files', sorted(w.files)):
            return
        vmc.expect([r[:2] for r in w.report] == [('report-imucam-dirdata.pdf', False)], 'report', w.report)
        # what they say
        Tci = [rnd(1)]
        for k in range(1, ncams):
            Tci.append(rnd(k + 1) * Tci[-1])
        shifts = [(0.0 if no_time else 0.1 * (k + 1) + 0.001 * (k + 1)) for k in range(ncams)]
        d = yaml.safe_load(w.files[names[0]])
        vmc.expect(sorted(d) == ['cam%d' % k for k in range(ncams)], 'chain', sorted(d))
        for k in range(ncams):
            e = d['cam%d' % k]
            vmc.expect(np.allclose(e['T_cam_imu'], Tci[k].T(), atol=1e-9), 'chain-extrinsics', k)
            if k:
                vmc.expect(np.allclose(e['T_cn_cnm1'], rnd(k + 1).T(), atol=1e-9), 'chain-baseline', k)
            if not no_time:
                vmc.expect(abs(e['timeshift_cam_imu'] - shifts[k]) < 1e-9, 'chain-time-shift', e['timeshift_cam_imu'])
            elif not shift:
                vmc.expect('timeshift_cam_imu' not in e, 'chain-time-shift', e)
            else:
                vmc.expect(e['timeshift_cam_imu'] == 0.75, 'chain-time-shift', e)
            vmc.expect(e['intrinsics'] == camera_yaml(k, 0)['intrinsics'] and e['rostopic'] == '/cam%d' % k, 'chain-camera', e)
        d = yaml.safe_load(w.files[names[1]])
        vmc.expect(sorted(d) == ['imu%d' % i for i in range(nimus)] and all(d['imu%d' % i]['rostopic'] == '/imu%d' % i and d['imu%d' % i]['accelerometer_noise_density'] == 0.5 + i for i in range(nimus)), 'imu-set', d)
        t = w.files[names[2]]
        for k in range(ncams):
            vmc.expect(holds(t, Tci[k].T().flatten()) and holds(t, Tci[k].inverse().T().flatten()), 'text-extrinsics', k)
            vmc.expect(holds(t, [shifts[k]]), 'text-time-shift', k)
            if k:
                vmc.expect(holds(t, list(rnd(k + 1).T().flatten())) and holds(t, [np.linalg.norm(rnd(k + 1).t())]), 'text-baseline', k)
        vmc.expect(holds(t, w.gravity), 'text-gravity', '')
        for name, sets in (('camera', [sum(c.allReprojectionErrors, []) for c in w.chain.camList]), ('gyroscope', [i.gyroErrors for i in w.imus]), ('accelerometer', [i.accelErrors for i in w.imus])):
            for k, s in enumerate(sets):
                for weighted in (True, False):
                    x = [np.sqrt(e.evaluateError()) if weighted else np.linalg.norm(e.error()) for e in s]
                    line = [l for l in t.split('\n') if holds(l, [np.mean(x)])]
                    vmc.expect(any(holds(l.split(':', 1)[1], [np.mean(x), np.median(x), np.std(x)]) and ('%d' % k) in l.split(':')[0] and {'camera': 'Reproj', 'gyroscope': 'Gyro', 'accelerometer': 'Accel'}[name] in l for l in line), 'text-residuals', (name, k, weighted))
    return f


def main():
    th = vmc.thorough()
    M = sorted(CLASSES)
    OPT = ['--no-time-calibration', '--recompute-camera-chain-extrinsics', '--recover-covariance', '--imu-delay-by-correlation']
    sets = [[o for o, b in zip(OPT, bits) if b] for bits in itertools.product((0, 1), repeat=4)]
    words = [None] + [list(x) for n in (1, 2) + ((3,) if th else ()) for x in itertools.product(M, repeat=n)]
    base = ['--dont-show-report']
    for ncams in (1, 2, 3):
        for models in words:
            for s in sets if th or len(models or ()) < 2 else sets[::5]:
                vmc.run('%d cameras, models %s, %s' % (ncams, models, ' '.join(s)), s_main(ncams, models, len(models or [0]), base + s, 'ok'))
    for ncams in (1, 2):
        for s in sets:
            for outcome in ('raises', 'solver'):
                vmc.run('%d cameras, %s, optimization: %s' % (ncams, ' '.join(s), outcome), s_main(ncams, None, 1, base + s, outcome))
            for extra in (['--max-iter', '7'], ['--timeoffset-padding', '0.25'], ['--max-iter', '0', '--timeoffset-padding', '0'], ['--reprojection-sigma', '0.5', '--bag-from-to', '1', '2.5'], ['--perform-synchronization']):
                vmc.run('%d cameras, %s' % (ncams, ' '.join(s + extra)), s_main(ncams, None, 1, base + s + extra, 'ok'))
            vmc.run('%d cameras with time shifts, %s' % (ncams, ' '.join(s)), s_main(ncams, None, 1, base + s, 'ok', True))
    for nimus in (1, 2, 3):
        for n in (0, 1, 2, 3):
            for x in itertools.product(M[:1] + ['unknown'], repeat=n):
                if n != nimus or 'unknown' in x:
                    if not (n == 0 and nimus == 1):
                        vmc.run('%d inertial sensors, models %s' % (nimus, x), s_main(1, list(x), nimus, base, 'ok'))
    shutil.rmtree(calib.work, ignore_errors=True)
    vmc.finish()


if __name__ == '__main__':
    main()
