"""Corner extraction by several processes, under every order of their queue operations (C37)."""
import itertools, os, sys, copy, threading, time, queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vmc, stubs
import multiprocessing
import numpy as np


class Abort(BaseException):
    pass


class Sched(object):
    """One thread runs at a time; at every queue operation the next one is chosen."""

    def __init__(self, chooser, budget):
        self.ch, self.budget = chooser, budget
        self.sems, self.alive, self.asleep, self.blocked = [threading.Semaphore(0)], [True], [None], [None]
        self.current, self.steps, self.abort, self.trace = 0, 0, None, []

    def spawn(self, f):
        me = len(self.sems)
        self.sems.append(threading.Semaphore(0))
        self.alive.append(True)
        self.asleep.append(None)
        self.blocked.append(None)

        def body():
            self.sems[me].acquire()
            try:
                if not self.abort:
                    f()
            except Abort:
                pass
            except Exception as e:
                self.died = e
            self.alive[me] = False
            self.steps += 1
            self.switch(me, True)
        t = threading.Thread(target=body)
        t.daemon = True
        t.start()
        return me

    def enabled(self, i):
        if not self.alive[i]:
            return False
        if self.blocked[i] is not None:
            return self.blocked[i]()
        if self.asleep[i] is not None:
            return self.steps > self.asleep[i] or not any(self.alive[j] for j in range(1, len(self.alive)) if j != i)
        return True

    def switch(self, me, dead=False):
        if self.abort:
            if dead:
                # let the others end too
                for j in range(len(self.sems)):
                    if j != me:
                        self.sems[j].release()
                return
            raise Abort()
        en = [i for i in range(len(self.sems)) if self.enabled(i)]
        if not en:
            self.abort = 'deadlock'
            for s in self.sems:
                s.release()
            if dead:
                return
            raise Abort()
        if me in en and not dead:
            en.remove(me)
            en.insert(0, me)
            n = len(en) if self.budget > 0 else 1
        else:
            n = len(en)
        k = self.ch.pick(n) if n > 1 else 0
        if me == en[0] and k > 0:
            self.budget -= 1
        nxt = en[k]
        vmc.transition()
        if len(self.trace) > 5000:
            self.abort = 'endless'
            for s in self.sems:
                s.release()
            if dead:
                return
            raise Abort()
        self.trace.append(nxt)
        if nxt != me:
            self.current = nxt
            self.sems[nxt].release()
            if dead:
                return
            self.sems[me].acquire()
            if self.abort:
                raise Abort()
        self.asleep[nxt] = None

    def point(self):
        me = self.me()
        self.steps += 1
        self.switch(me)

    def me(self):
        return self.current

    def sleep(self):
        me = self.me()
        self.asleep[me] = self.steps
        self.switch(me)
        self.asleep[me] = None

    def block(self, cond):
        me = self.me()
        self.blocked[me] = cond
        self.switch(me)
        self.blocked[me] = None


S = None


class Queue(object):
    def __init__(self, *a):
        self.q = []

    def put(self, x, *a, **k):
        S.point()
        self.q.append(copy.deepcopy(x))
    put_nowait = put

    def get_nowait(self):
        S.point()
        if not self.q:
            raise queue.Empty()
        return self.q.pop(0)

    def get(self, block=True, timeout=None):
        S.point()
        if not self.q and (not block or timeout is not None):
            raise queue.Empty()
        if not self.q:
            S.block(lambda: bool(self.q))
        return self.q.pop(0)

    def qsize(self):
        S.point()
        return len(self.q)

    def empty(self):
        S.point()
        return not self.q

    def full(self):
        return False

    def close(self): pass
    def join_thread(self): pass
    def cancel_join_thread(self): pass


class Manager(object):
    def Queue(self, *a): return Queue()
    JoinableQueue = Queue
    def list(self, *a): return list(*a)
    def dict(self, *a): return dict(*a)
    def shutdown(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass


class Process(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
        self.target, self.args, self.kwargs, self.id, self.daemon = target, args, kwargs, None, daemon

    def start(self):
        # the memory of the process is a copy, the queues are shared
        args = [a if isinstance(a, Queue) else copy.deepcopy(a) for a in self.args]
        self.id = S.spawn(lambda: self.target(*args, **self.kwargs))

    def is_alive(self):
        S.point()
        return self.id is not None and S.alive[self.id]

    def join(self, timeout=None):
        if timeout is not None:
            S.sleep()
        elif S.alive[self.id]:
            S.block(lambda: not S.alive[self.id])

    @property
    def exitcode(self): return None if self.is_alive() else 0
    def terminate(self): pass
    kill = close = terminate


multiprocessing.Manager, multiprocessing.Process, multiprocessing.Queue = Manager, Process, Queue
multiprocessing.cpu_count = lambda: 3
os.cpu_count = lambda: 3
real_sleep = time.sleep
time.sleep = lambda *a: S.sleep() if S is not None else real_sleep(*a)
import kalibr_common as kc
vmc.init(sys.argv)


class Obs(object):
    def __init__(self, stamp, pixel, method):
        self.stamp, self.pixel, self.method, self.cleared = stamp, pixel, method, 0

    def clearImage(self): self.cleared = 1
    def time(self): return self.stamp
    def key(self): return (self.stamp, self.pixel, self.method, self.cleared)


class Detector(object):
    """Keeps what it found last, as the real detector does."""

    def __init__(self, found):
        self.found, self.last = found, None

    def findTarget(self, stamp, image, *a):
        return self.find(stamp, image, 'pose')

    def findTargetNoTransformation(self, stamp, image, *a):
        return self.find(stamp, image, 'corners')

    def find(self, stamp, image, method):
        assert isinstance(image, np.ndarray)
        i = int(image[0, 0])
        o = Obs(stamp, i, method)
        self.last = o
        return bool(self.found[i]), o


class Dataset(object):
    topic = '/cam'

    def __init__(self, n, stamps): self.n, self.stamps = n, stamps
    def numImages(self): return self.n

    def readDataset(self):
        return iter([(self.stamps[i], np.full((2, 2), i, dtype=np.uint8)) for i in range(self.n)])

    __iter__ = readDataset


def expected(found, stamps, clear, notrafo):
    return [(stamps[i], i, 'corners' if notrafo else 'pose', int(clear)) for i in range(len(found)) if found[i]]


def s_single(found, clear, notrafo):
    def f():
        stamps = [10 + i for i in range(len(found))]
        with stubs.Quiet():
            r = kc.extractCornersFromDataset(Dataset(len(found), stamps), Detector(found), multithreading=False, clearImages=clear, noTransformation=notrafo)
        vmc.transition()
        vmc.state(('single', found, clear, notrafo))
        vmc.expect([o.key() for o in r] == expected(found, stamps, clear, notrafo), 'single', [o.key() for o in r])
    return f


def s_multi(found, workers, clear, notrafo, budget, stamps):
    def f():
        global S
        ch = vmc.Chooser()
        orders = set()
        while ch.next():
            S = Sched(ch, budget)
            err = None
            try:
                with stubs.Quiet():
                    r = kc.extractCornersFromDataset(Dataset(len(found), stamps), Detector(found), multithreading=True, numProcesses=workers,
                                                     clearImages=clear, noTransformation=notrafo)
            except Abort:
                err = S.abort
            except RuntimeError as e:
                err = 'RuntimeError: %s' % e
            t, n = S.trace, len(S.sems)
            S = None
            vmc.note_add('schedules')
            vmc.state((found, workers, clear, notrafo, tuple(t)))
            if not vmc.expect(err is None, 'failed', 'schedule %s: %s' % (t, err)):
                return
            vmc.expect(workers is None or n == workers + 1, 'processes', '%d started' % (n - 1))
            got = [o.key() for o in r]
            if not vmc.expect(got == expected(found, stamps, clear, notrafo), 'result', 'schedule %s: %s instead of %s' % (
                    t, got, expected(found, stamps, clear, notrafo))):
                return
    return f


nmax = 5
for n in range(0, nmax):
    for found in itertools.product((0, 1), repeat=n):
        for clear in (False, True):
            for notrafo in (False, True):
                vmc.run('one process, found %s, clear %d, corners only %d' % (list(found), clear, notrafo), s_single(found, clear, notrafo))
th = vmc.thorough()
for n in range(0, 4 if not th else 5):
    for found in itertools.product((0, 1), repeat=n):
        for workers in (1, 2, 3, None):
            for k, (clear, notrafo) in enumerate(itertools.product((False, True), repeat=2)):
                b = {1: 4, 2: 2, 3: 1, None: 1}[workers] + (1 if th and not (workers == 3 and (n > 2 or n and not all(found))) else 0)
                if k not in (sum(found) % 2, 2 + sum(found) % 2) and n > 1:
                    b = 1
                for stamps in ([10 + i for i in range(n)], [10 + (i * 3) % 4 for i in range(n)]):
                    if stamps == [10 + i for i in range(n)] or (n == 3 and k == 0):
                        vmc.run('%s processes, found %s, clear %d, corners only %d, stamps %s, %d deviations' % (
                            workers, list(found), clear, notrafo, stamps, b), s_multi(found, workers, clear, notrafo, b, stamps))
vmc.finish()
