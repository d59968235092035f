"""Stand-ins for the compiled and missing modules that kalibr's Python code imports."""
import importlib.abc, importlib.machinery, os, sys, types
import numpy as np
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
KALIBR = REPO + '/aslam_offline_calibration/kalibr/python'


class AutoObject(object):
    """Remembers how it was made; every method exists and returns None."""

    def __init__(self, *args, **kwargs):
        self.__dict__['args'] = args
        self.__dict__['kwargs'] = kwargs

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: self.__dict__.setdefault('calls', []).append((name, a))

    def called(self, name):
        return [a for n, a in self.__dict__.get('calls', []) if n == name]


class AutoModule(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        c = type(name, (AutoObject,), {})
        setattr(self, name, c)
        return c


class Log:
    messages = []


def r2quat(R):
    """x, y, z, w of a rotation matrix."""
    K = np.array([[R[0, 0] - R[1, 1] - R[2, 2], 0, 0, 0], [R[0, 1] + R[1, 0], R[1, 1] - R[0, 0] - R[2, 2], 0, 0],
                  [R[0, 2] + R[2, 0], R[1, 2] + R[2, 1], R[2, 2] - R[0, 0] - R[1, 1], 0],
                  [R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1], R[0, 0] + R[1, 1] + R[2, 2]]]) / 3.0
    w, V = np.linalg.eigh(K)
    return V[:, 3]


def quat2r(q):
    x, y, z, w = np.asarray(q, dtype=float).flatten() / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def rt2Transform(R, t):
    M = np.eye(4)
    M[:3, :3], M[:3, 3] = R, np.asarray(t, dtype=float).flatten()
    return M


class Transformation(object):
    """A rigid transformation, T_to_from."""

    def __init__(self, T=None, t=None):
        if T is None:
            T = np.eye(4)
        if t is not None:
            T = rt2Transform(quat2r(T), t)
        T = np.array(T, dtype=float)
        if T.shape != (4, 4):
            raise RuntimeError('Transformation: a 4x4 matrix is needed')
        self._T = T.copy()

    def T(self):
        return self._T.copy()

    def C(self):
        return self._T[:3, :3].copy()

    def t(self):
        return self._T[:3, 3].copy()

    def q(self):
        return r2quat(self._T[:3, :3])

    def inverse(self):
        C, t = self._T[:3, :3], self._T[:3, 3]
        T = np.eye(4)
        T[:3, :3] = C.T
        T[:3, 3] = -C.T.dot(t)
        return Transformation(T)

    def __mul__(self, other):
        if isinstance(other, Transformation):
            return Transformation(self._T.dot(other._T))
        return self._T.dot(np.asarray(other))


AUTO = ('sm_python', 'sm_numpy_eigen', 'numpy_eigen', 'aslam_backend_python', 'aslam_cv_python', 'aslam_cv_backend_python',
        'aslam_cameras_april', 'aslam_incremental_calibration_python', 'aslam_splines_python', 'aslam_splines', 'aslam_bsplines_python', 'bsplines',
        'incremental_calibration', 'incremental_calibration_python', 'kalibr_errorterms', 'libkalibr_errorterms_python', 'igraph', 'rosbag', 'cv_bridge', 'cv2',
        'pylab', 'PIL', 'Image', 'matplotlib', 'mpl_toolkits', 'PlotCollection', 'sm', 'aslam_cv', 'aslam_backend',
        'wx', 'snappy', 'rospy', 'sensor_msgs', 'std_msgs', 'message_filters')


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in AUTO:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        m = AutoModule(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, module):
        pass


sys.meta_path.insert(0, Finder())
sys.path.insert(0, KALIBR)

import sm_python
sm_python.Transformation = Transformation
sm_python.r2quat, sm_python.quat2r, sm_python.rt2Transform = r2quat, quat2r, rt2Transform
for _l in ('logDebug', 'logInfo', 'logWarn', 'logError', 'logFatal', 'logVerbose', 'logFine', 'logFiner', 'logFinest', 'logAll'):
    setattr(sm_python, _l, (lambda l: lambda *a: Log.messages.append((l, a)))(_l))


class Progress(object):
    def __init__(self, *a): pass
    def sample(self, *a): pass
    def reset(self, *a): pass


sm_python.Progress = sm_python.Progress2 = Progress


def toHomogeneous(p):
    return np.append(np.asarray(p, dtype=float), 1.0)


sm_python.toHomogeneous = toHomogeneous


class Quiet:
    """Discards what the code under test prints."""

    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = open(os.devnull, 'w')

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.old


def hide_pycache():
    pass
