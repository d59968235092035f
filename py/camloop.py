"""The program that calibrates cameras: views accepted, outliers removed, restarts (C31)."""
import importlib.machinery, importlib.util, itertools, os, sys
import calib
from calib import *
import aslam_cv_backend_python as acvb
import sm_python
import igraph, igraph_stub
for _n in ('Graph', 'plot', 'InternalError'):
    setattr(igraph, _n, getattr(igraph_stub, _n))

def load(name):
    loader = importlib.machinery.SourceFileLoader(name, stubs.KALIBR + '/' + name)
    m = importlib.util.module_from_spec(importlib.util.spec_from_loader(name, loader))
    with stubs.Quiet():
        loader.exec_module(m)
    return m


sm_python.LoggingLevel = types.SimpleNamespace(Debug=0, Info=1)
sm_python.setLoggingLevel = lambda l: None
prog = load('kalibr_calibrate_cameras')
N = 20
calib.NP = N


class Obs(GridObs):
    """What one camera saw at one time."""
    def __init__(self, cam, t, mask=2 ** N - 1):
        GridObs.__init__(self, cam, mask, N)
        self.t = t

    def time(self): return Time(self.t)


ERR = {}


class MTerm(RTerm):
    """The reprojection error is a property of the corner seen."""
    def __init__(self, y, invR, P, dv):
        RTerm.__init__(self, y, invR, P, dv)
        cam, i = dv.cam, int(round((y[1] - 0.5) / 10.0))
        self.cam, self.i = cam, i

    def where(self, view): self.view = view


class Batches(object):
    """The estimator: a list of views; what becomes of a new one is a choice of the scenario."""
    made = []
    choose = None

    def __init__(self, group):
        self.batches, self.asked, self.opts = [], [], types.SimpleNamespace(maxIterations=10)
        self.iopts = Obj()
        Batches.made.append(self)

    def getLinearSolverOptions(self): return Obj()
    def getOptimizerOptions(self): return self.opts
    def getOptions(self): return self.iopts
    def getNumBatches(self): return len(self.batches)

    def addBatch(self, problem, force=False):
        r = Obj()
        what = Batches.choose(problem)
        self.asked.append((problem, what))
        r.numIterations = self.opts.maxIterations if what == 'diverge' else 3
        r.batchAccepted = force or what == 'accept'
        if any(problem is b for b in self.batches):
            vmc.fail('added-twice', '')
        if r.batchAccepted and what != 'diverge':
            self.batches.append(problem)
        return r

    def removeBatch(self, problem):
        k = [i for i, b in enumerate(self.batches) if b is problem]
        if not vmc.expect(len(k) == 1, 'removed-unknown', len(k)):
            return
        del self.batches[k[0]]


calib.ic.IncrementalEstimator = Batches


def errors(cam, t, i, bad):
    """The x and y error of a corner: small, unless it is a bad one."""
    k = 7 * cam + 3 * int(round(t * 10)) + i
    s = 0.1 if k % 2 else -0.1
    if (cam, int(round(t * 10)), i) in bad and i in (9, 11):
        return np.array([2.0, 0.1] if i == 9 else [0.1, 2.0])
    e = np.array([s, -s]) if (cam, int(round(t * 10)), i) not in bad else np.array([30.0, 0.2]) if i % 2 else np.array([0.1, -25.0])
    return e


class Dataset(object):
    def __init__(self, bag, topic, bag_from_to=None): self.topic, self.window = topic, bag_from_to
    def numImages(self): return 0


class Camera(object):
    made = []
    fails = None

    def __init__(self, model, target, dataset, verbose=False):
        self.k = len(Camera.made)
        base = make_cameras(1)[0]
        self.__dict__.update(base.__dict__)
        self.dv.cam = self.k
        self.setDvActiveStatus = lambda a, b, s: (self.dv.p.setActive(a), self.dv.d.setActive(b), self.dv.s.setActive(s))
        self.model = Obj()
        self.model.reprojectionError = self.term
        self.kind, self.dataset, self.inits = model, dataset, []
        self.ctarget = Obj()
        self.ctarget.detector = Obj()
        self.ctarget.detector.target = Target20
        P = self.geometry.projection()
        D = Obj()
        P.getParameters = lambda: np.zeros(4)
        D.getParameters = lambda: np.zeros(4)
        P.distortion = lambda: D
        Camera.made.append(self)

    def term(self, y, invR, P, dv):
        e = MTerm(y, invR, P, dv)
        e.off = errors(self.k, Camera.now, e.i, Camera.bad)
        e.t = Camera.now
        return e

    def initGeometryFromObservations(self, obs):
        self.inits.append(list(obs))
        self.isGeometryInitialized = Camera.fails != (self.k, len(self.inits))
        return self.isGeometryInitialized


class Target20(object):
    def size(self): return N
    def point(self, i): return np.array([0.1 * (i % 5), 0.1 * (i // 5), 0.0])


TIMES = [0.1, 0.2, 0.3, 0.4, 0.5]


class Stop(Exception):
    pass


def kept(view, o):
    return frozenset(i for i in range(N) if o.mask >> i & 1)


def run_program(ncams, seen, bad, outcome, opts, models=None, topics=None):
    """Runs the program once; returns what it has given out. seen: list of sets of cameras per time."""
    Camera.made, Batches.made = [], []
    Camera.bad = bad
    allobs = {c: [Obs(c, t + (0.001 * c)) for t, s in zip(TIMES, seen) if c in s] for c in range(ncams)}
    out = dict(results=[], guesses=[], inits=[])
    log = []
    # the times of the problem whose error terms are made
    orig = CC.CalibrationTargetOptimizationProblem.fromTargetViewObservations

    def from_view(*a, **k):
        obs = a[4] if len(a) > 4 else k['rig_observations']
        Camera.now = round(min(o.t - 0.001 * c for c, o in obs), 6)
        return orig(*a, **k)
    Batches.choose = outcome
    kcc_, kc_ = prog.kcc, prog.kc
    save = {n: getattr(kcc_, n) for n in ('CameraGeometry', 'saveChainParametersYaml', 'saveResultTxt', 'generateReport', 'printParameters')}
    savekc = {n: getattr(kc_, n) for n in ('BagImageDatasetReader', 'extractCornersFromDataset', 'CalibrationTargetParameters')}
    init, pose = kcc_.MulticamCalibrationGraph.getInitialGuesses, kcc_.MulticamCalibrationGraph.getTargetPoseGuess
    argv = sys.argv
    try:
        CC.CalibrationTargetOptimizationProblem.fromTargetViewObservations = staticmethod(from_view)
        kcc_.CameraGeometry = Camera
        kcc_.saveChainParametersYaml = lambda cal, f, g: out['results'].append(('yaml', f, cal))
        kcc_.saveResultTxt = lambda cal, filename=None, **k: out['results'].append(('txt', filename, cal))
        kcc_.generateReport = lambda cal, f, **k: out['results'].append(('report', f, cal, k))
        kcc_.printParameters = lambda *a, **k: None
        kc_.BagImageDatasetReader = Dataset
        kc_.CalibrationTargetParameters = lambda f: f
        kc_.extractCornersFromDataset = lambda ds, det, **k: allobs[int(ds.topic[-1])]

        def guesses(self, cams):
            out['guesses'].append(list(cams))
            return [rnd(11 + c) for c in range(ncams - 1)]

        def pose_guess(self, t, cams, base):
            out.setdefault('order', []).append(min(TIMES, key=lambda x: abs(x - t)))
            for c, b in enumerate(base):
                vmc.expect(np.allclose(b.T(), rnd(11 + c).T()), 'pose-guess-baselines', c)
            return rnd(int(round(t * 1000)) % 97)
        kcc_.MulticamCalibrationGraph.getInitialGuesses, kcc_.MulticamCalibrationGraph.getTargetPoseGuess = guesses, pose_guess
        sys.argv = ['kalibr_calibrate_cameras', '--models'] + (models or ['pinhole-radtan'] * ncams) + ['--topics'] + (topics or ['/cam%d' % c for c in range(ncams)]) + \
            ['--bag', 'data.bag', '--target', 'target.yaml', '--dont-show-report'] + opts
        with stubs.Quiet():
            try:
                prog.main()
            except Stop:
                pass
            except SystemExit as e:
                out['exit'] = ('exit', e.code)
            except RuntimeError as e:
                out['exit'] = ('error', str(e))
    finally:
        sys.argv = argv
        CC.CalibrationTargetOptimizationProblem.fromTargetViewObservations = orig
        for n, f in save.items():
            setattr(kcc_, n, f)
        for n, f in savekc.items():
            setattr(kc_, n, f)
        kcc_.MulticamCalibrationGraph.getInitialGuesses, kcc_.MulticamCalibrationGraph.getTargetPoseGuess = init, pose
    out['obs'] = allobs
    return out


MODEL = {'pinhole-radtan': 'DistortedPinhole', 'pinhole-equi': 'EquidistantPinhole', 'pinhole-fov': 'FovPinhole', 'omni-none': 'Omni', 'omni-radtan': 'DistortedOmni', 'eucm-none': 'ExtendedUnified', 'ds-none': 'DoubleSphere'}


def s_setup(models, topics, opts, fails, seen=[[0, 1], [0, 1], [0]]):
    """Options, models and the guesses of the intrinsics."""
    def f():
        Camera.fails = fails
        answers = []

        def outcome(problem):
            answers.append('diverge' if fails and fails[1] == 2 and not answers else 'accept')
            return answers[-1]
        try:
            n = min(2, len(topics))
            out = run_program(n, [[c for c in s if c < n] for s in seen], frozenset(), outcome, opts, models, topics)
        finally:
            Camera.fails = None
        vmc.transition()
        vmc.state((tuple(models), tuple(topics), tuple(opts), fails))
        vmc.nontrivial((tuple(models), tuple(topics), tuple(opts), fails))
        views = [opts[i + 1] for i, x in enumerate(opts) if x == '--min-views-outlier']
        if len(models) != len(topics) or views and int(views[0]) < 1:
            vmc.expect(out.get('exit') == ('exit', 2) and not out['results'] and not Batches.made, 'not-refused', out.get('exit'))
            return
        if any(m not in MODEL for m in models) or fails and fails[0] < len(topics):
            vmc.expect(out.get('exit', ('', ''))[0] == 'error' and not out['results'], 'not-refused', out.get('exit'))
            return
        vmc.expect('exit' not in out and len(out['results']) == 3, 'no-result', out.get('exit'))
        vmc.expect([c.kind.__name__ for c in Camera.made] == [MODEL[m] for m in models], 'models', [c.kind.__name__ for c in Camera.made])
        num = lambda name, k, default: [float(opts[i + j]) for i, x in enumerate(opts) if x == name for j in range(1, k + 1)] or default
        w = num('--bag-from-to', 2, None)
        vmc.expect(all((None if c.dataset.window is None else list(c.dataset.window)) == w for c in Camera.made), 'window', [c.dataset.window for c in Camera.made])
        vmc.expect(all(e.iopts.infoGainDelta == num('--mi-tol', 1, [0.2])[0] and e.iopts.checkValidity for e in Batches.made), 'information', '')
        together = num('--approx-sync', 1, [0.02])[0] > 0.0011
        vmc.expect(len(answers) - (answers[0] == 'diverge') == sum(1 if together else len([c for c in x if c < n]) for x in seen if any(c < n for c in x)), 'synchronization', answers)
        vmc.expect(all((t.mest is not None) == ('--use-blakezisserman' in opts) for v in Batches.made[-1].batches for c in v.rerrs for t in v.rerrs[c] if t is not None), 'm-estimator', '')
    return f


def reference(ncams, seen, bad, script, opts, order):
    """The views in the end, as the documentation of the options has it: {time: {cam: corners}}."""
    minv = 1
    for a, b in zip(opts, opts[1:]):
        if a == '--min-views-outlier':
            minv = int(b)
    it = iter(script)
    views, removed, first = [], [], True
    vmc.expect(sorted(order) == [t for t, s in zip(TIMES, seen) if s], 'order', order)
    times = order
    for n, t in enumerate(times):
        v = (t, {c: set(range(N)) for c in seen[TIMES.index(t)]})
        ok = next(it) == 'accept'
        if ok:
            views.append(v)
        last = n == len(times) - 1 and '--no-final-filtering' not in opts
        if (ok or last) and len(views) > minv * ncams and '--no-outliers-removal' not in opts:
            check = list(range(len(views))) if first or last else [len(views) - 1]
            first = False
            for k in reversed(check):
                t, cams = views[k]
                gone = {}
                for c in cams:
                    es = np.array([errors(c, tt, i, bad) for tt, cc in views if c in cc for i in sorted(cc[c])])
                    lim = 4 * np.std(es, 0)
                    gone[c] = [i for i in sorted(cams[c]) if (np.abs(errors(c, t, i, bad)) > lim).any()]
                if any(gone.values()):
                    for c in gone:
                        removed += [(c, t, i) for i in gone[c]]
                        cams[c] -= set(gone[c])
                    if next(it) != 'accept':
                        del views[k]
    return views, removed


def content(views):
    return sorted((round(min(o.t - 0.001 * c for c, o in v.rig_observations), 6), tuple(sorted((c, tuple(i for i in range(N) if o.mask >> i & 1)) for c, o in v.rig_observations))) for v in views)


def s_loop(ncams, seen, bad, opts, diverge):
    def f():
        ch = vmc.Chooser()
        n = 0
        while ch.next():
            script = []
            state = dict(div=0)

            def outcome(problem):
                kinds = ['accept', 'reject'] + (['diverge'] if state['div'] < diverge else [])
                k = kinds[ch.pick(len(kinds))]
                state['div'] += k == 'diverge'
                script.append(k)
                if len(script) > 40:
                    raise Stop()
                return k
            out = run_program(ncams, seen, bad, outcome, opts)
            vmc.transition()
            n += 1
            vmc.state((ncams, tuple(map(tuple, seen)), tuple(sorted(bad)), tuple(script), tuple(opts)))
            vmc.g.ctx = 'outcomes %s: ' % script
            ndiv = script.count('diverge')
            new = [i for i, (p, w) in enumerate(sum([e.asked for e in Batches.made], []))]
            # a diverged correction of a view is not noticed by the program; only new views restart it
            vmc.expect(len(Camera.made) == ncams and [c.dataset.topic for c in Camera.made] == ['/cam%d' % c for c in range(ncams)], 'cameras', len(Camera.made))
            restarts = len(Batches.made) - 1
            vmc.expect(restarts <= 2 and restarts <= ndiv, 'restarts', '%d after %d divergences' % (restarts, ndiv))
            for c in Camera.made:
                vmc.expect(all([id(o) for o in x] == [id(o) for o in out['obs'][c.k]] for x in c.inits), 'reinitialized', c.k)
            given_up = not out['results']
            vmc.expect(all(len(c.inits) == 1 + restarts for c in Camera.made), 'reinitialized', [len(c.inits) for c in Camera.made])
            if given_up:
                vmc.expect(ndiv >= 3, 'no-result', script)
                continue
            vmc.expect([r[0] for r in out['results']] == ['yaml', 'txt', 'report'], 'results', [r[:2] for r in out['results']])
            vmc.expect([r[1] for r in out['results']] == ['camchain-data.yaml', 'results-cam-data.txt', 'report-cam-data.pdf'], 'names', [r[1] for r in out['results']])
            cal = out['results'][0][2]
            est = Batches.made[-1]
            vmc.expect(cal.estimator is est, 'old-estimator', '')
            vmc.expect(sorted(map(id, cal.views)) == sorted(map(id, est.batches)), 'views-and-estimator', '%s and %s' % (content(cal.views), content(est.batches)))
            # the views hold what their observations say
            for v in cal.views:
                for c, o in v.rig_observations:
                    vmc.expect([e is not None for e in v.rerrs[c]] == [bool(o.mask >> i & 1) for i in range(N)], 'stale-view', (c, o.t))
            ts = [x[0] for x in content(cal.views)]
            vmc.expect(len(set(ts)) == len(ts), 'view-twice', ts)
            gone = [(c, o.t - 0.001 * c, i) for c in out['obs'] for o in out['obs'][c] for i in range(N) if not o.mask >> i & 1]
            vmc.expect(all((c, int(round(t * 10)), i) in bad for c, t, i in gone), 'good-corner-removed', gone)
            rem = out['results'][2][3].get('removedOutlierCorners')
            vmc.expect(sorted((c, round(float(y[1] - 0.5) / 10)) for c, y in rem) == sorted((c, i) for c, t, i in gone), 'removed-list', rem)
            if ndiv == 0:
                views, removed = reference(ncams, seen, bad, script, opts, out['order'])
                want = sorted((t, tuple(sorted((c, tuple(sorted(s))) for c, s in cams.items()))) for t, cams in views)
                vmc.expect(all((t.mest is not None) == ('--use-blakezisserman' in opts) for v in cal.views for c in v.rerrs for t in v.rerrs[c] if t is not None), 'm-estimator', '')
                vmc.expect(content(cal.views) == want, 'views', '%s instead of %s' % (content(cal.views), want))
                if removed:
                    vmc.nontrivial((ncams, tuple(map(tuple, seen)), tuple(sorted(bad)), tuple(script), tuple(opts)))
            if vmc.g.violations:
                return
        vmc.note_add('runs', n)
    return f


BADS = [frozenset(), frozenset([(0, 1, 3)]), frozenset([(0, 3, 4), (0, 1, 5)]), frozenset([(0, 2, 0), (1, 3, 7)]), frozenset([(0, 1, 3), (0, 2, 9)]), frozenset([(0, 1, 4), (0, 2, 11)]), frozenset([(1, 1, 19), (1, 4, 2), (0, 4, 6)])]


def main():
    th = vmc.thorough()
    one = [[[0]] * n for n in (1, 2, 3, 4)] + ([[[0]] * 5] if th else [])
    two = [[[0, 1]] * 4, [[0, 1], [0], [0, 1], [1]], [[1], [0, 1], [0, 1], [0, 1]]] + ([[[0, 1]] * 5] if th else [])
    OPT = [['--no-shuffle', '--min-views-outlier', '1'], ['--no-shuffle', '--min-views-outlier', '1', '--no-final-filtering'], ['--no-shuffle', '--min-views-outlier', '1', '--no-outliers-removal'],
           ['--no-shuffle', '--min-views-outlier', '2'], ['--no-shuffle', '--min-views-outlier', '1', '--use-blakezisserman']]
    for ncams, lists in ((1, one), (2, two)):
        for seen in lists:
            for bad in BADS:
                for opts in OPT if th or len(seen) < 5 else OPT[:2]:
                    vmc.run('%d cameras, views %s, bad corners %s, %s' % (ncams, seen, sorted(bad), ' '.join(opts)), s_loop(ncams, seen, bad, opts, 0))
    for ncams, seen in ((1, [[0]] * 2), (1, [[0]] * 3), (2, [[0, 1]] * 3)):
        for bad in BADS[1:3]:
            for nd in (1, 2, 3):
                vmc.run('%d cameras, %d views, bad corners %s, %d divergences' % (ncams, len(seen), sorted(bad), nd), s_loop(ncams, seen, bad, OPT[0], nd))
    OTHER = [[], ['--bag-from-to', '1.5', '4'], ['--approx-sync', '0.0005'], ['--mi-tol', '-1'], ['--mi-tol', '0.7', '--use-blakezisserman']]
    for opts in OTHER:
        for m in sorted(MODEL) + ['unknown']:
            vmc.run('model %s, %s' % (m, ' '.join(opts)), s_setup([m], ['/cam0'], opts, None))
            for m2 in sorted(MODEL) + ['unknown'] if th else ['ds-none', 'unknown']:
                vmc.run('models %s, %s, %s' % (m, m2, ' '.join(opts)), s_setup([m, m2], ['/cam0', '/cam1'], opts, None))
    for v in (-1, 0, 1):
        vmc.run('at least %d views' % v, s_setup(['ds-none'], ['/cam0'], ['--min-views-outlier', str(v)], None))
    for nm in (1, 2, 3):
        for nt in (1, 2, 3):
            if nm != nt:
                vmc.run('%d models for %d topics' % (nm, nt), s_setup(['ds-none'] * nm, ['/cam%d' % (k % 2) for k in range(nt)], [], None))
    for k in (0, 1, 2):
        for when in (1, 2):
            vmc.run('guess %d of cam%d fails' % (when, k), s_setup(['ds-none', 'omni-none'], ['/cam0', '/cam1'], ['--no-shuffle'], (k, when)))
    shutil.rmtree(calib.work, ignore_errors=True)
    vmc.finish()


if __name__ == '__main__':
    main()
