"""Bag readers: the messages of the window, in the order of their header stamps (C35)."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vmc, stubs
import numpy as np
import rosbag, cv_bridge, cv2, sm_python
import aslam_cv_python as acv
vmc.init(sys.argv)


class Obj(object):
    pass


class Stamp(object):
    def __init__(self, ns):
        self.secs, self.nsecs = int(ns // 10**9), int(ns % 10**9)

    def to_sec(self):
        return self.secs + self.nsecs / 1e9

    def to_nsec(self):
        return self.secs * 10**9 + self.nsecs


class Entry(object):
    def __init__(self, pos):
        self.position = pos


class Bag(object):
    """Two topics; their messages are at interleaved positions of the file."""
    content = None

    def __init__(self, name, *a, **k):
        self.name = name
        self.reads = 0

    def _get_connections(self, topics=None):
        topics = [topics] if isinstance(topics, str) else topics
        return [t for t in sorted(Bag.content) if topics is None or t in topics]

    def _get_indexes(self, connections):
        for c in connections:
            yield [Entry((c, i)) for i in range(len(Bag.content[c]))]

    def _read_message(self, position, *a, **k):
        vmc.transition()
        t, i = position
        m = Bag.content[t][i]
        return t, m.data, m.stamp


rosbag.Bag = Bag


class Time(object):
    def __init__(self, *a):
        self.v = a[0] if len(a) == 1 else a[0] + a[1] / 1e9
        self.ns = int(a[0]) * 10**9 + int(a[1]) if len(a) == 2 else None

    def toSec(self):
        return self.v


acv.Time = Time


class Corrector(object):
    """Stands for the timestamp corrector: the receive time at the smallest offset seen."""

    def __init__(self):
        self.offset = None
        self.seen = []

    def correctTimestamp(self, remote, local):
        self.seen.append((remote, local))
        d = local - remote
        self.offset = d if self.offset is None else min(d, self.offset)
        return remote + self.offset

    def getLocalTime(self, remote):
        return remote + self.offset


sm_python.DoubleTimestampCorrector = Corrector


class Bridge(object):
    def imgmsg_to_cv2(self, data, *a, **k):
        return data.pixels


cv_bridge.CvBridge = Bridge
for _n in ('COLOR_BGR2GRAY', 'COLOR_RGB2GRAY', 'COLOR_BGRA2GRAY', 'COLOR_BAYER_BG2GRAY'):
    setattr(cv2, _n, _n)
cv2.cvtColor = lambda img, code: ('converted', code, img.tobytes())
import kalibr_common as kc

BASES = [0, 1500000000 * 10**9]
STEP = 10**8
OFFS = [5, -300, 12, 0, 80, 40]   # receive delays in ms


def message(kind, ns, i, encoding='mono8'):
    m = Obj()
    m.stamp = Stamp(ns + 10**6 * (400 + OFFS[i % len(OFFS)]))
    d = Obj()
    d.header = Obj()
    d.header.stamp = Stamp(ns)
    d._type = 'sensor_msgs/Image' if kind == 'image' else 'sensor_msgs/Imu'
    d.encoding = encoding
    d.pixels = np.full((2, 3), i + 1, dtype=np.uint8)
    d.width, d.height = 3, 2
    for n, s in (('angular_velocity', 1), ('linear_acceleration', -1)):
        v = Obj()
        v.x, v.y, v.z = s * (i + 1.0), s * (i + 0.25), s * (i + 0.5)
        setattr(d, n, v)
    m.data = d
    return m


def open_reader(kind, **k):
    if kind == 'image':
        return kc.BagImageDatasetReader('file.bag', '/x', **k)
    return kc.BagImuDatasetReader('file.bag', '/x', **k)


def size(r):
    return r.numImages() if hasattr(r, 'numImages') else r.numMessages()


def read(kind, it):
    out = []
    for rec in it:
        if kind == 'image':
            t, img = rec
            out.append((t, int(img[0][0]) - 1, img))
        else:
            t, om, al = rec
            i = int(om[0]) - 1
            vmc.expect(list(om) == [i + 1.0, i + 0.25, i + 0.5] and list(al) == [-(i + 1.0), -(i + 0.25), -(i + 0.5)], 'imu-values', '%s %s' % (om, al))
            out.append((t, i, None))
    return out


def s_order(kind, base, slots, window, sync, step=STEP):
    """Messages with the stamps base + slot * step in this order in the file."""
    def f():
        ns = [base + s * step for s in slots]
        Bag.content = {'/x': [message(kind, t, i) for i, t in enumerate(ns)], '/a': [message(kind, base + 7 * STEP, 50)], '/z': [message(kind, base + 3, 51)]}
        order = sorted(range(len(ns)), key=lambda i: (ns[i], i))
        stubs.Log.messages = []
        refused = None
        try:
            with stubs.Quiet():
                r = open_reader(kind, bag_from_to=window, perform_synchronization=sync)
        except RuntimeError as e:
            refused = str(e)
        if window is not None and window[0] >= window[1]:
            vmc.expect(refused is not None, 'empty-window-accepted', window)
            vmc.nontrivial((kind, base, slots, window))
            return
        if not vmc.expect(refused is None, 'refused', refused):
            return
        t0 = min(slots)
        if window is not None:
            # the limits of the windows used lie between the stamps
            want = [i for i in order if window[0] <= (slots[i] - t0) * 0.1 <= window[1]]
        else:
            want = order
        if want != list(range(len(want))):
            vmc.nontrivial((kind, base, slots, window, sync, step))
        vmc.expect(size(r) == len(want), 'count', '%d instead of %d' % (size(r), len(want)))
        off = None
        for i in range(len(ns)):
            d = Bag.content['/x'][i].stamp.to_sec() - Bag.content['/x'][i].data.header.stamp.to_sec()
            off = d if off is None else min(d, off)

        def check(got, what, sortit=False):
            ids = [g[1] for g in got]
            if sortit:
                vmc.expect(sorted(ids) == sorted(want), what, '%s instead of %s' % (ids, want))
            else:
                vmc.expect(ids == want, what, '%s instead of %s' % (ids, want))
            for t, i, _ in got:
                if sync:
                    vmc.expect(abs(t.toSec() - (Stamp(ns[i]).to_sec() + off)) < 1e-6, 'corrected-stamp', '%.9f for message %d' % (t.toSec(), i))
                else:
                    vmc.expect(t.ns == ns[i], 'stamp', '%s for message %d' % (t.ns, i))
        check(read(kind, r.readDataset()), 'order')
        check(read(kind, r), 'order-iter')
        np.random.seed(1)
        check(read(kind, r.readDatasetShuffle()), 'shuffled', True)
        check(read(kind, r.readDatasetShuffle()), 'shuffled', True)
        check(read(kind, r.readDataset()), 'order-after-shuffle')
        a, b = r.readDataset(), r.readDataset()
        x = read(kind, a)
        check(x, 'two-iterators')
        check(read(kind, b), 'two-iterators')
    return f


def s_topics():
    Bag.content = {'/x': [message('imu', 0, 0), message('imu', 5, 1)]}
    for kind in ('image', 'imu'):
        for topic in (None, '/absent'):
            try:
                with stubs.Quiet():
                    (kc.BagImageDatasetReader if kind == 'image' else kc.BagImuDatasetReader)('f.bag', topic)
                vmc.fail('absent-topic', '%s %s' % (kind, topic))
            except RuntimeError:
                vmc.nontrivial((kind, topic))


def s_encoding(enc):
    def f():
        gray = {'mono8': None, '8UC1': None, 'mono16': 16, '16UC1': 16, 'bgr8': 'COLOR_BGR2GRAY', '8UC3': 'COLOR_BGR2GRAY', 'rgb8': 'COLOR_RGB2GRAY',
                'bgra8': 'COLOR_BGRA2GRAY', '8UC4': 'COLOR_BGRA2GRAY', 'bayer_rggb8': 'COLOR_BAYER_BG2GRAY'}
        for shape in ((1, 1), (2, 3), (3, 2)):
            m = message('image', 10**9 + 5, 0, enc)
            n = shape[0] * shape[1]
            if enc in ('mono16', '16UC1'):
                m.data.pixels = (np.arange(n).reshape(shape) * 11111 % 65536).astype(np.uint16)
            elif enc in gray and isinstance(gray[enc], str) and 'BAYER' not in gray[enc]:
                c = 4 if 'BGRA' in gray[enc] else 3
                m.data.pixels = (np.arange(n * c).reshape(shape + (c,)) * 7 % 256).astype(np.uint8)
            else:
                m.data.pixels = (np.arange(n).reshape(shape) * 37 % 256).astype(np.uint8)
            Bag.content = {'/x': [m]}
            with stubs.Quiet():
                r = open_reader('image')
            vmc.nontrivial((enc, shape))
            try:
                t, img = r.getImage(0)
            except RuntimeError:
                vmc.expect(enc not in gray, 'encoding-refused', enc)
                continue
            if not vmc.expect(enc in gray, 'encoding-accepted', enc):
                continue
            vmc.expect(t.ns == 10**9 + 5, 'stamp', t.ns)
            g = gray[enc]
            if g is None:
                vmc.expect(np.array_equal(img, m.data.pixels), 'pixels', img)
            elif g == 16:
                vmc.expect(img.dtype == np.uint8 and np.array_equal(img, m.data.pixels // 256), 'pixels', img)
            else:
                vmc.expect(img == ('converted', g, m.data.pixels.tobytes()), 'conversion', '%s %s' % (enc, img[1] if isinstance(img, tuple) else img))
    return f


for kind in ('imu', 'image'):
    for base in BASES:
        nmax = 6 if vmc.thorough() else 5
        for n in range(1, nmax):
            for slots in itertools.product(range(n if n > 2 else 3), repeat=n):
                if n >= 5 and len(set(slots)) < 4:
                    continue
                for window in (None, (-1.0, 100.0), (0.05, 0.25), (-0.05, 0.15), (0.15, 1.0), (0.05, 0.15), (0.3, 0.3), (0.4, 0.2)):
                    # windows with stamps in them
                    if window is not None and window[0] < window[1] and not any(window[0] <= (s - min(slots)) * 0.1 <= window[1] for s in slots):
                        continue
                    for sync in ((False, True) if window is None or window[0] == 0.05 else (False,)):
                        vmc.run('%s, base %d s, stamps %s, window %s%s' % (kind, base // 10**9, list(slots), window, ', corrected' if sync else ''),
                                s_order(kind, base, slots, window, sync))
        # stamps close to each other, and on both sides of a full second
        for step in (1, 100, 255, 1000, 10**6 // 3, 10**6, 10**9, 10**9 + 1, 10**9 - 1):
            for b in (base, base + 10**9 - (step if step < 10**8 else 1)):
                for n in range(2, 5 if vmc.thorough() else 4):
                    for slots in itertools.product(range(n), repeat=n):
                        vmc.run('%s, base %d ns, steps of %d ns, stamps %s' % (kind, b, step, list(slots)), s_order(kind, b, slots, None, False, step))
vmc.run('topics', s_topics)
for enc in ('mono8', '8UC1', 'mono16', '16UC1', 'bgr8', '8UC3', 'rgb8', 'bgra8', '8UC4', 'bayer_rggb8', 'yuv422', '32FC1', ''):
    vmc.run('encoding ' + enc, s_encoding(enc))
vmc.finish()
