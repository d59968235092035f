"""Configuration files: what is written is read back, what is invalid is refused (C34)."""
import itertools, os, sys, tempfile, shutil, io
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vmc, stubs
import numpy as np, yaml
import kalibr_common as kc
import sm_python
T = stubs.Transformation
vmc.init(sys.argv)
work = tempfile.mkdtemp(prefix='cfg', dir=os.environ.get('VERIF_WORK', os.environ.get('TMPDIR', '/tmp')))
counter = [0]


def fresh():
    counter[0] += 1
    return os.path.join(work, 'f%d.yaml' % counter[0])


def outcome(f, *a):
    """('ok', value) or ('refused', '') or ('other', what)."""
    vmc.transition()
    try:
        with stubs.Quiet():
            return 'ok', f(*a)
    except RuntimeError:
        return 'refused', ''
    except Exception as e:
        return 'other', '%s: %s' % (type(e).__name__, e)


def verdict(valid, r, what, value=None):
    """A valid request gives the value; an invalid one is refused with the error of the readers."""
    vmc.saw('outcome', r[0])
    if valid:
        vmc.expect(r[0] == 'ok', 'valid-refused', '%s: %s' % (what, r))
        if r[0] == 'ok' and value is not None:
            vmc.expect(same(r[1], value), 'value-changed', '%s: got %s instead of %s' % (what, r[1], value))
    else:
        vmc.nontrivial((vmc.g.scen, what))
        vmc.expect(r[0] == 'refused', 'invalid-not-refused', '%s: %s' % (what, r))


def same(a, b):
    if isinstance(a, T): a = a.T()
    if isinstance(b, T): b = b.T()
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and any(isinstance(x, (str, list)) for x in a):
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
    return a == b


# ---- cameras
N_INTR = dict(pinhole=4, omni=5, eucm=6, ds=6)
N_DIST = dict(radtan=4, equidistant=4, fov=1, none=0)
GOOD = dict(pinhole=[400.5, 401.25, 320.125, 240.75], omni=[1.5, 400.5, 401.25, 320.125, 240.75],
            eucm=[0.6, 1.25, 400.5, 401.25, 320.125, 240.75], ds=[-0.25, 0.55, 400.5, 401.25, 320.125, 240.75])
COEFFS = [0.1, -0.05, 0.001, -0.002, 0.5]
# (index from the end for the pinhole part, first parameters of the model) -> values that are refused or allowed at the limit
BAD = [(-4, -1.0, False), (-3, -1.0, False), (-2, -1.0, False), (-1, -0.5, False), (-4, 400, False), (-3, 400, False),
       (-2, 320, False), (-1, 240, False), (-4, 0.0, True), (-1, 0.0, True), (-4, '400.0', False)]
MODELBAD = dict(pinhole=[], omni=[(0, -0.1, False), (0, 0.0, True)],
                eucm=[(0, -0.01, False), (0, 1.0, False), (0, 0.0, True), (1, -0.1, False), (1, 0.0, True), (0, 0.999, True)],
                ds=[(1, -0.01, False), (1, 1.0, False), (1, 0.0, True), (1, 0.999, True), (0, -0.9, True), (0, 0.9, True)])


def intrinsics_variants(model):
    n = N_INTR[model]
    yield GOOD[model], True
    for k in range(0, 8):
        if k != n:
            yield (GOOD[model] * 2)[:k], False
    for i, v, ok in BAD + MODELBAD[model]:
        if isinstance(v, str):
            continue
        x = list(GOOD[model])
        x[i] = v
        yield x, ok


def camera_params(model, intr, dist, coeffs, res, topic):
    return dict(camera_model=model, intrinsics=list(intr), distortion_model=dist, distortion_coeffs=list(coeffs),
                resolution=list(res), rostopic=topic)


def read_camera(d):
    p = fresh()
    with open(p, 'w') as f:
        yaml.safe_dump({'cam0': d}, f)
    return kc.CameraChainParameters(p).getCameraParameters(0)


def s_camera(model):
    def f():
        for intr, ok in intrinsics_variants(model):
            d = camera_params(model, intr, 'none', [], [640, 480], '/cam')
            verdict(ok, outcome(lambda: read_camera(d).getIntrinsics()), 'read intrinsics %s' % intr, (model, intr))
            c = kc.CameraParameters('new', createYaml=True)
            r = outcome(c.setIntrinsics, model, intr)
            verdict(ok, r, 'set intrinsics %s' % intr)
            if ok:
                verdict(True, outcome(c.getIntrinsics), 'get back %s' % intr, (model, intr))
            else:
                verdict(False, outcome(c.getIntrinsics), 'get after refusal')
        for dist in list(N_DIST) + ['plumb_bob', '']:
            for n in range(0, 6):
                ok = dist in N_DIST and N_DIST[dist] == n
                co = COEFFS[:n]
                d = camera_params(model, GOOD[model], dist, co, [640, 480], '/cam')
                verdict(ok, outcome(lambda: read_camera(d).getDistortion()), 'read distortion %s %s' % (dist, co), (dist, co))
                c = kc.CameraParameters('new', createYaml=True)
                verdict(ok, outcome(c.setDistortion, dist, co), 'set distortion %s %s' % (dist, co))
                if ok:
                    verdict(True, outcome(c.getDistortion), 'get back %s' % dist, (dist, co))
        for res, ok in (([640, 480], True), ([640], False), ([640, 480, 3], False), ([640.0, 480], False), ([640, 480.0], False), ([], False)):
            d = camera_params(model, GOOD[model], 'none', [], res, '/cam')
            verdict(ok, outcome(lambda: read_camera(d).getResolution()), 'read resolution %s' % res, res)
            c = kc.CameraParameters('new', createYaml=True)
            verdict(ok, outcome(c.setResolution, res), 'set resolution %s' % res)
        for topic, ok in (('/cam0/image_raw', True), (3, False), (None, False), (['/a'], False)):
            d = camera_params(model, GOOD[model], 'none', [], [640, 480], topic)
            verdict(ok, outcome(lambda: read_camera(d).getRosTopic()), 'read topic %s' % topic, topic)
    return f


def s_unknown():
    for m in ('fisheye', '', 'Pinhole'):
        d = camera_params(m, [1.0, 1.0, 1.0, 1.0], 'none', [], [640, 480], '/c')
        verdict(False, outcome(lambda: read_camera(d).getIntrinsics()), 'model ' + m)
        verdict(False, outcome(lambda: kc.AslamCamera(m, [1.0, 1.0, 1.0, 1.0], 'none', [], [640, 480])), 'camera ' + m)
    for missing in ('camera_model', 'intrinsics', 'distortion_model', 'distortion_coeffs', 'resolution', 'rostopic'):
        d = camera_params('pinhole', GOOD['pinhole'], 'none', [], [640, 480], '/c')
        del d[missing]
        for name, needs in (('getIntrinsics', ('camera_model', 'intrinsics')), ('getDistortion', ('distortion_model', 'distortion_coeffs')),
                            ('getResolution', ('resolution',)), ('getRosTopic', ('rostopic',))):
            verdict(missing not in needs, outcome(lambda: getattr(read_camera(d), name)()), '%s without %s' % (name, missing))
    for cls in (kc.CameraChainParameters, kc.CameraParameters, kc.ImuParameters, kc.CalibrationTargetParameters):
        verdict(False, outcome(cls, os.path.join(work, 'no such file.yaml')), 'no file')
        for text in ('a: [1, 2', 'a: b: c', '\t- x', '"'):
            p = fresh()
            open(p, 'w').write(text)
            verdict(False, outcome(cls, p), 'malformed %r' % text)


# what AslamCamera makes of a configuration: the names of geometry, projection, distortion, frame and error
CLASSES = {
    ('pinhole', 'radtan'): ('DistortedPinholeCameraGeometry', 'DistortedPinholeProjection', 'RadialTangentialDistortion', 'DistortedPinholeFrame', 'DistortedPinholeReprojectionErrorSimple'),
    ('pinhole', 'equidistant'): ('EquidistantDistortedPinholeCameraGeometry', 'EquidistantPinholeProjection', 'EquidistantDistortion', 'EquidistantDistortedPinholeFrame', 'EquidistantDistortedPinholeReprojectionErrorSimple'),
    ('pinhole', 'fov'): ('FovDistortedPinholeCameraGeometry', 'FovPinholeProjection', 'FovDistortion', 'FovDistortedPinholeFrame', 'FovDistortedPinholeReprojectionErrorSimple'),
    ('pinhole', 'none'): ('PinholeCameraGeometry', 'PinholeProjection', None, 'PinholeFrame', 'PinholeReprojectionErrorSimple'),
    ('omni', 'radtan'): ('DistortedOmniCameraGeometry', 'DistortedOmniProjection', 'RadialTangentialDistortion', 'DistortedOmniFrame', 'DistortedOmniReprojectionErrorSimple'),
    ('omni', 'none'): ('OmniCameraGeometry', 'OmniProjection', None, 'OmniFrame', 'OmniReprojectionErrorSimple'),
    ('eucm', 'none'): ('ExtendedUnifiedCameraGeometry', 'ExtendedUnifiedProjection', None, 'ExtendedUnifiedFrame', 'ExtendedUnifiedReprojectionErrorSimple'),
    ('ds', 'none'): ('DoubleSphereCameraGeometry', 'DoubleSphereProjection', None, 'DoubleSphereFrame', 'DoubleSphereReprojectionErrorSimple'),
}


def check_camera(cam, model, dist, intr, coeffs, res):
    g, p, d, fr, e = CLASSES[(model, dist)]
    if not vmc.expect(hasattr(cam, 'geometry'), 'no-geometry', '%s %s' % (model, dist)):
        return
    vmc.expect(type(cam.geometry).__name__ == g, 'geometry', type(cam.geometry).__name__)
    vmc.expect(cam.frameType.__name__ == fr, 'frame', cam.frameType.__name__)
    vmc.expect(cam.reprojectionErrorType.__name__ == e, 'error-term', cam.reprojectionErrorType.__name__)
    vmc.expect(cam.keypointType.__name__ == 'Keypoint2', 'keypoint', cam.keypointType.__name__)
    proj = cam.geometry.args[0]
    vmc.expect(type(proj).__name__ == p, 'projection', type(proj).__name__)
    want = list(intr) + list(res)
    vmc.expect(list(proj.args[:len(want)]) == want, 'parameters', '%s instead of %s' % (proj.args, want))
    if d is None:
        vmc.expect(len(proj.args) == len(want), 'parameters', '%s' % (proj.args,))
    else:
        vmc.expect(len(proj.args) == len(want) + 1 and type(proj.args[-1]).__name__ == d and list(proj.args[-1].args) == list(coeffs),
                   'distortion', lambda: '%s' % (proj.args[-1],))


def s_build():
    for model in N_INTR:
        for dist in N_DIST:
            co = COEFFS[:N_DIST[dist]]
            r = outcome(kc.AslamCamera.fromParameters, read_camera(camera_params(model, GOOD[model], dist, co, [752, 480], '/c')))
            verdict((model, dist) in CLASSES, r, 'build %s %s' % (model, dist))
            if r[0] == 'ok':
                check_camera(r[1], model, dist, GOOD[model], co, [752, 480])
        r = outcome(kc.AslamCamera, model, GOOD[model], 'plumb_bob', COEFFS[:4], [752, 480])
        verdict(False, r, 'build %s plumb_bob' % model)


# ---- chains
def rot(a, b, c):
    ca, sa, cb, sb = np.cos(a), np.sin(a), np.cos(b), np.sin(b)
    R = np.array([[ca, -sa, 0], [sa, ca, 0], [0, 0, 1.]]).dot(np.array([[1., 0, 0], [0, cb, -sb], [0, sb, cb]]))
    t = np.eye(4)
    t[:3, :3] = R
    t[:3, 3] = [c, a - b, 0.1 * b]
    return T(t)


def s_chain(n, setmask, tshifts):
    """A chain of n cameras; the mask says which extrinsics are set; all is compared after writing and reading."""
    def f():
        p = fresh()
        ch = kc.CameraChainParameters(p, createYaml=True)
        models = list(CLASSES)
        for i in range(n):
            m, d = models[(i + setmask + len(tshifts)) % len(models)]
            c = kc.CameraParameters('x', createYaml=True)
            c.setRosTopic('/cam%d/image' % i)
            c.setIntrinsics(m, GOOD[m])
            c.setDistortion(d, COEFFS[:N_DIST[d]])
            c.setResolution([640 + i, 480 - i])
            ch.addCameraAtEnd(c)
            vmc.expect(ch.numCameras() == i + 1, 'count', ch.numCameras())
        lc, ic = {}, {}
        for i in range(n):
            if setmask >> (2 * i) & 1:
                X = rot(0.3 + i, -0.2, 0.11 * (i + 1))
                verdict(i > 0, outcome(ch.setExtrinsicsLastCamToHere, i, X), 'baseline of cam%d' % i)
                if i > 0:
                    lc[i] = X
            if setmask >> (2 * i + 1) & 1:
                X = rot(-0.4 * i, 0.7, 0.01 + i)
                verdict(True, outcome(ch.setExtrinsicsImuToCam, i, X), 'imu to cam%d' % i)
                ic[i] = X
        verdict(False, outcome(ch.setExtrinsicsImuToCam, 0, np.eye(4)), 'a matrix is no transformation')
        if n > 1:
            verdict(False, outcome(ch.setExtrinsicsLastCamToHere, 1, np.eye(4)), 'a matrix is no transformation')
        ts = {}
        for i, v in enumerate(tshifts):
            ok = i < n and isinstance(v, float)
            verdict(ok, outcome(ch.setTimeshiftCamImu, i, v), 'time shift %s of cam%d' % (v, i))
            if ok:
                ts[i] = v
        ov = {}
        for i in range(n):
            o = [k for k in range(n) if k != i and (setmask + i + k) % 2]
            verdict(True, outcome(ch.setCamOverlaps, i, o), 'overlaps %s' % o)
            ov[i] = o
            verdict(False, outcome(ch.setCamOverlaps, i, o + [n]), 'overlap with a camera that does not exist')
        verdict(False, outcome(ch.setCamOverlaps, n, []), 'overlaps of a camera that does not exist')
        verdict(True, outcome(ch.writeYaml), 'write')
        for how in ('same', 'file', 'rewritten'):
            rd = ch
            if how != 'same':
                rd = kc.CameraChainParameters(p)
            if how == 'rewritten':
                q = fresh()
                rd.writeYaml(q)
                rd = kc.CameraChainParameters(q)
            vmc.expect(rd.numCameras() == n, 'count', '%s: %d' % (how, rd.numCameras()))
            for i in range(n + 1):
                verdict(i < n, outcome(rd.getCameraParameters, i), how + ' camera %d' % i)
                if i < n:
                    m, d = models[(i + setmask + len(tshifts)) % len(models)]
                    c = rd.getCameraParameters(i)
                    verdict(True, outcome(c.getIntrinsics), how, (m, GOOD[m]))
                    verdict(True, outcome(c.getDistortion), how, (d, COEFFS[:N_DIST[d]]))
                    verdict(True, outcome(c.getResolution), how, [640 + i, 480 - i])
                    verdict(True, outcome(c.getRosTopic), how, '/cam%d/image' % i)
                    verdict(True, outcome(rd.getCamOverlaps, i), how + ' overlaps', ov[i])
                verdict(i in lc, outcome(rd.getExtrinsicsLastCamToHere, i), how + ' baseline of cam%d' % i, lc.get(i))
                verdict(i in ic, outcome(rd.getExtrinsicsImuToCam, i), how + ' imu to cam%d' % i, ic.get(i))
                verdict(i in ts, outcome(rd.getTimeshiftCamImu, i), how + ' time shift of cam%d' % i, ts.get(i))
            out = io.StringIO()
            verdict(True, outcome(rd.printDetails, out), how + ' details')
            text = out.getvalue()
            for i in range(n):
                m = models[(i + setmask + len(tshifts)) % len(models)][0]
                vmc.expect('Camera model: ' + m in text and str(GOOD[m][-4:-2]) in text and str(GOOD[m][-2:]) in text, 'details', text)
    return f


# ---- imu
VALUES = [1e-4, 0.02, 0.0, -0.1]


def s_imu(rate):
    def f():
        for an, aw, gn, gw in itertools.product(VALUES, repeat=4):
            d = dict(rostopic='/imu', update_rate=rate, accelerometer_noise_density=an, accelerometer_random_walk=aw,
                     gyroscope_noise_density=gn, gyroscope_random_walk=gw)
            p = fresh()
            yaml.safe_dump(d, open(p, 'w'))
            c = kc.ImuParameters(p)
            okr, oka, okg = rate > 0, an > 0 and aw > 0, gn > 0 and gw > 0
            verdict(okr, outcome(c.getUpdateRate), 'rate', rate)
            for who, ok, get, nd, rw in (('accel', oka, c.getAccelerometerStatistics, an, aw), ('gyro', okg, c.getGyroStatistics, gn, gw)):
                r = outcome(get)
                verdict(ok and okr, r, '%s %s' % (who, d))
                if r[0] == 'ok':
                    disc, walk, dens = r[1]
                    vmc.expect(abs(disc - nd * rate ** 0.5) <= 1e-12 * abs(disc) and walk == rw and dens == nd, 'statistics',
                               '%s: %s for density %g, walk %g at %g Hz' % (who, r[1], nd, rw, rate))
            verdict(True, outcome(c.getRosTopic), 'topic', '/imu')
            q = fresh()
            n = kc.ImuParameters(q, createYaml=True)
            n.setRosTopic('/imu')
            verdict(okr, outcome(n.setUpdateRate, rate), 'set rate')
            verdict(oka, outcome(n.setAccelerometerStatistics, an, aw), 'set accel')
            verdict(okg, outcome(n.setGyroStatistics, gn, gw), 'set gyro')
            n.writeYaml()
            back = kc.ImuParameters(q)
            verdict(okr, outcome(back.getUpdateRate), 'rate after writing', rate)
            verdict(okr and oka, outcome(back.getAccelerometerStatistics), 'accel after writing', (an * rate ** 0.5, aw, an) if False else None)
            if okr and oka and okg:
                vmc.expect(back.getAccelerometerStatistics()[1:] == (aw, an) and back.getGyroStatistics()[1:] == (gw, gn), 'after-writing', d)
                s = kc.ImuSetParameters(fresh(), True)
                s.addImuParameters(n)
                s.addImuParameters(back)
                s.addImuParameters(n, 'other')
                s.writeYaml()
                got = yaml.safe_load(open(s.yamlFile))
                vmc.expect(got == {'imu0': n.getYamlDict(), 'imu1': back.getYamlDict(), 'other': n.getYamlDict()}, 'imu-set', got)
            for miss in d:
                e = dict(d)
                del e[miss]
                c = kc.ImuParameters(q, createYaml=True)
                c.setYamlDict(e)
                if okr and oka and okg:
                    verdict(miss not in ('update_rate', 'accelerometer_noise_density', 'accelerometer_random_walk'),
                            outcome(c.getAccelerometerStatistics), 'accel without ' + miss)
                    verdict(miss not in ('update_rate', 'gyroscope_noise_density', 'gyroscope_random_walk'),
                            outcome(c.getGyroStatistics), 'gyro without ' + miss)
                    verdict(miss != 'rostopic', outcome(c.getRosTopic), 'topic without ' + miss)
    return f


# ---- targets
INTS = [(3, True), (7, True), (2, False), (0, False), (-3, False), (6.0, False), ('6', False), (None, False)]
FLOATS = [(0.05, True), (1e-6, True), (0.0, False), (-0.1, False), (1, False), ('0.1', False), (None, False)]
BOOLS = [(True, True), (False, True), (1, False), ('yes', False), (None, False)]
TARGETS = dict(checkerboard=[('targetRows', INTS), ('targetCols', INTS), ('rowSpacingMeters', FLOATS), ('colSpacingMeters', FLOATS)],
               circlegrid=[('targetRows', INTS), ('targetCols', INTS), ('spacingMeters', FLOATS), ('asymmetricGrid', BOOLS)],
               aprilgrid=[('tagRows', INTS), ('tagCols', INTS), ('tagSize', FLOATS), ('tagSpacing', FLOATS)])


def s_target(kind, first):
    fields = TARGETS[kind]

    def f():
        rest = [x[1] for x in fields[1:]]
        for combo in itertools.product(*rest):
            vals = (first,) + combo
            d = {'target_type': kind}
            d.update({n[0]: v[0] for n, v in zip(fields, vals)})
            ok = all(v[1] for v in vals)
            p = fresh() if ok or vmc.thorough() else None
            if p:
                yaml.safe_dump(d, open(p, 'w'))
                c = kc.CalibrationTargetParameters(p)
            else:
                c = kc.CalibrationTargetParameters('direct', createYaml=True)
                c.setYamlDict(d)
            r = outcome(c.getTargetParams)
            verdict(ok, r, str(d))
            if r[0] == 'ok':
                want = dict(d)
                want['targetType'] = want.pop('target_type')
                vmc.expect(r[1] == want, 'target', '%s instead of %s' % (r[1], want))
                out = io.StringIO()
                verdict(True, outcome(c.printDetails, out), 'details')
                vmc.expect(kind in out.getvalue() and str(d[fields[0][0]]) in out.getvalue() and str(d[fields[1][0]]) in out.getvalue(), 'details', out.getvalue())
            if p:
                os.remove(p)
        for miss in range(len(fields)):
            d = {'target_type': kind}
            d.update({fields[i][0]: fields[i][1][0][0] for i in range(len(fields)) if i != miss})
            c = kc.CalibrationTargetParameters('direct', createYaml=True)
            c.setYamlDict(d)
            verdict(False, outcome(c.getTargetParams), 'without ' + fields[miss][0])
        for kindname in ('chessboard', '', None):
            c = kc.CalibrationTargetParameters('direct', createYaml=True)
            c.setYamlDict({} if kindname is None else {'target_type': kindname})
            verdict(False, outcome(c.getTargetType), 'type %s' % kindname)
            verdict(False, outcome(c.getTargetParams), 'type %s' % kindname)
    return f


# ---- the result file of a camera calibration
def s_result(models):
    import kalibr_camera_calibration as kcc
    import aslam_cv_backend_python as acvb
    import kalibr_camera_calibration.CameraCalibrator as CC
    names = dict(DistortedPinhole=('pinhole', 'radtan'), EquidistantPinhole=('pinhole', 'equidistant'), FovPinhole=('pinhole', 'fov'),
                 Omni=('omni', 'none'), DistortedOmni=('omni', 'radtan'), ExtendedUnified=('eucm', 'none'), DoubleSphere=('ds', 'none'))
    keys = sorted(names)

    class Obj(object):
        pass

    def f():
        cams, want = [], []
        for i, k in enumerate(models):
            m, d = names[keys[k]]
            intr = [v + 0.001 * i for v in GOOD[m]]
            co = [v * (1 + i) for v in COEFFS[:N_DIST[d]]]
            P = Obj()
            head = {'pinhole': [], 'omni': ['xi'], 'eucm': ['alpha', 'beta'], 'ds': ['xi', 'alpha']}[m]
            for nme, v in zip(head + ['fu', 'fv', 'cu', 'cv'], intr):
                setattr(P, nme, (lambda v: lambda: v)(v))
            P.ru, P.rv = (lambda i=i: 640 + i), (lambda i=i: 480 + 2 * i)
            dist = Obj()
            dist.getParameters = lambda co=co: np.array(co, dtype=float).reshape(-1, 1)
            P.distortion = lambda dist=dist: dist
            cam = Obj()
            cam.model = getattr(acvb, keys[k])
            cam.dataset = Obj()
            cam.dataset.topic = '/cam%d' % i
            cam.geometry = Obj()
            cam.geometry.projection = lambda P=P: P
            cams.append(cam)
            want.append((m, d, intr, co, [640 + i, 480 + 2 * i]))
        base = [rot(0.1 * i, 0.5, 0.2 + i) for i in range(len(models) - 1)]
        cal = Obj()
        cal.cameras, cal.baselines = cams, base
        graph = Obj()
        graph.getCamOverlaps = lambda c: [x for x in range(len(models)) if x != c]
        p = fresh()
        CC.saveChainParametersYaml(cal, p, graph)
        ch = kc.CameraChainParameters(p)
        vmc.expect(ch.numCameras() == len(models), 'count', ch.numCameras())
        for i, (m, d, intr, co, res) in enumerate(want):
            vmc.transition()
            c = ch.getCameraParameters(i)
            verdict(True, outcome(c.getRosTopic), 'topic', '/cam%d' % i)
            r = outcome(kc.AslamCamera.fromParameters, c)
            verdict(True, r, 'read back')
            if r[0] == 'ok':
                check_camera(r[1], m, d, intr, co, res)
            verdict(True, outcome(ch.getCamOverlaps, i), 'overlaps', [x for x in range(len(models)) if x != i])
            verdict(i > 0, outcome(ch.getExtrinsicsLastCamToHere, i), 'baseline', base[i - 1] if i else None)
        vmc.nontrivial(models)
    return f


for m in N_INTR:
    vmc.run('camera ' + m, s_camera(m))
vmc.run('unknown models, missing fields and files', s_unknown)
vmc.run('cameras of all models', s_build)
for n in range(1, 4 if vmc.thorough() else 4):
    for mask in range(4 ** n):
        for tsh in ((), (0.01,), (0.0, -0.5), (1, 0.25), (0.1, 0.2, 0.3, 0.4)):
            vmc.run('chain of %d, extrinsics %d, time shifts %s' % (n, mask, list(tsh)), s_chain(n, mask, tsh))
for rate in (200.0, 1, 0.25, 1000, 0.0, -5.0):
    vmc.run('imu at %g Hz' % rate, s_imu(rate))
for kind in TARGETS:
    for v in TARGETS[kind][0][1]:
        vmc.run('target %s, %s %r' % (kind, TARGETS[kind][0][0], v[0]), s_target(kind, v))
for n in range(1, 4 if vmc.thorough() else 3):
    for models in itertools.product(range(7), repeat=n):
        vmc.run('result with models %s' % (models,), s_result(models))
shutil.rmtree(work, ignore_errors=True)
vmc.finish()
