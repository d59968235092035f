"""Views of a camera rig, the graph of its cameras and the initial baselines (C33)."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vmc, stubs
import numpy as np
import igraph, igraph_stub, sm_python
for _n in ('Graph', 'plot', 'InternalError'):
    setattr(igraph, _n, getattr(igraph_stub, _n))
import kalibr_camera_calibration as kcc
T = stubs.Transformation
vmc.init(sys.argv)


class Time(object):
    def __init__(self, t): self.t = t
    def toSec(self): return self.t


class Obs(object):
    def __init__(self, cam, t, corners, serial):
        self.cam, self.t, self.corners, self.serial = cam, t, list(corners), serial

    def time(self): return Time(self.t)
    def getCornersIdx(self): return np.array(self.corners, dtype=int)
    def __repr__(self): return 'obs%d(cam%d, %g)' % (self.serial, self.cam, self.t)


CORNERS = [(0, 1), (1, 2, 3), (5,), ()]


class Reference(object):
    """Allowed contents of the table: views by time, each with one observation per camera."""

    def __init__(self, tol):
        self.tol, self.views, self.stored = tol, {}, {}

    def copy(self):
        r = Reference(self.tol)
        r.views = {t: dict(v) for t, v in self.views.items()}
        r.stored = {c: list(v) for c, v in self.stored.items()}
        return r

    def add(self, cam, obs):
        """All the tables allowed after this observation."""
        base = self.copy()
        base.stored.setdefault(cam, []).append(obs)
        out = []
        if base.views:
            d = min(abs(t - obs.t) for t in base.views)
            near = [t for t in base.views if abs(t - obs.t) == d] if d <= self.tol else []
        else:
            near = []
        for t in near or [None]:
            r = base.copy()
            r.views.setdefault(obs.t if t is None else t, {}).setdefault(cam, obs)
            out.append(r)
        return out


def table(db):
    out = {}
    for t in db.getAllViewTimestamps():
        out[t] = {c: db.getObservationAtTime(t, c) for c in db.getCamIdsAtTimestamp(t)}
    return out


def check_db(db, ref, tracked):
    ts = list(db.getAllViewTimestamps())
    vmc.expect(len(ts) == len(set(ts)), 'times', ts)
    vmc.expect(db.numCameras() == len(ref.stored), 'cameras', db.numCameras())
    for t in ts:
        want = ref.views[t]
        got = db.getAllObsAtTimestamp(t)
        vmc.expect(sorted((c, o.serial) for c, o in got) == sorted((c, o.serial) for c, o in want.items()), 'observations-at-time', got)
        for c, o in want.items():
            vmc.expect(set(db.getCornerIdsAtTime(t, c)) == set(o.corners), 'corners', db.getCornerIdsAtTime(t, c))
            vmc.expect(db.observations[c][db.getObsIdForCamAtTime(t, c)] is o, 'observation-id', db.getObsIdForCamAtTime(t, c))
            vmc.expect(abs(o.t - t) <= ref.tol, 'tolerance', '%r in the view of %g' % (o, t))
        for c in ref.stored:
            if c not in want:
                try:
                    db.getObservationAtTime(t, c)
                    vmc.fail('absent-observation', (t, c))
                except KeyError:
                    pass
    for c in ref.stored:
        vmc.expect([o.serial for o in db.observations[c]] == [o.serial for o in ref.stored[c]], 'archive', c)
        got = db.getAllObsCam(c)
        vmc.expect([o.serial for o in got] == [ref.views[t][c].serial for t in ts if c in ref.views[t]], 'observations-of-camera', got)
    cams = sorted(ref.stored)
    for a, b in itertools.permutations(cams, 2):
        got = db.getAllObsTwoCams(a, b)
        want = [(ref.views[t].get(a), ref.views[t].get(b)) for t in ts if a in ref.views[t] or b in ref.views[t]]
        vmc.expect(len(got) == len(want) and all(x is y for g, w in zip(got, want) for x, y in zip(g, w)), 'pairs', '%s instead of %s' % (got, want))


def s_db(tol, seq):
    def f():
        db = kcc.ObservationDatabase(tol)
        ref = Reference(tol)
        for i, (cam, t, k) in enumerate(seq):
            o = Obs(cam, t, CORNERS[k], i)
            vmc.transition()
            with stubs.Quiet():
                db.addObservation(cam, o)
            got = {t: {c: o.serial for c, o in v.items()} for t, v in table(db).items()}
            for cand in ref.add(cam, o):
                if got == {t: {c: o.serial for c, o in v.items()} for t, v in cand.views.items()}:
                    break
            else:
                vmc.fail('table', 'after observation %d: %s instead of %s' % (i, got, cand.views))
                return
            ref = cand
            if not vmc.state((tol, sorted((t, sorted(v.items())) for t, v in got.items()), sorted((c, len(v)) for c, v in ref.stored.items()))):
                pass
        check_db(db, ref, None)
        if len(ref.views) < len(seq):
            vmc.nontrivial((tol, seq))
        # everything is still there after the table is printed
        with stubs.Quiet():
            if sorted(ref.stored) == list(range(len(ref.stored))):
                db.printTable()
        check_db(db, ref, None)
        if sorted(ref.stored) == list(range(len(ref.stored))):
            check_graph(db, ref)
    return f


def common(ref, a, b):
    return [(t, len(set(v[a].corners) & set(v[b].corners))) for t, v in ref.views.items()
            if a in v and b in v and set(v[a].corners) & set(v[b].corners)]


def check_graph(db, ref):
    n = len(ref.stored)
    with stubs.Quiet():
        g = kcc.MulticamCalibrationGraph(db)
    ts = list(db.getAllViewTimestamps())
    adj = {a: set() for a in range(n)}
    for a, b in itertools.combinations(range(n), 2):
        w = common(ref, a, b)
        if w:
            adj[a].add(b)
            adj[b].add(a)
        for x, y in ((a, b), (b, a)):
            vmc.transition()
            with stubs.Quiet():
                ox, oy = g.getAllMutualObsBetweenTwoCams(x, y)
            got = sorted((p.serial, q.serial) for p, q in zip(ox, oy))
            want = sorted((ref.views[t][x].serial, ref.views[t][y].serial) for t, _ in w)
            vmc.expect(len(ox) == len(oy) and got == want, 'mutual-observations', 'cam%d, cam%d: %s instead of %s' % (x, y, got, want))
        e = g.G.get_eid(a, b, error=False)
        vmc.expect((e >= 0) == bool(w), 'edge', (a, b))
        if e >= 0 and w:
            vmc.expect(g.G.es[e]['weight'] == sum(k for _, k in w), 'weight', g.G.es[e]['weight'])
    reach, todo = set(), [0]
    while todo:
        v = todo.pop()
        if v not in reach:
            reach.add(v)
            todo += adj[v]
    vmc.expect(n < 2 or bool(g.isGraphConnected()) == (len(reach) == n), 'connected', g.isGraphConnected())
    for a in range(n):
        vmc.expect(sorted(g.getCamOverlaps(a)) == sorted(adj[a]), 'overlaps', g.getCamOverlaps(a))
    return g


def rnd(seed):
    r = np.random.RandomState(seed)
    q, _ = np.linalg.qr(r.randn(3, 3))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    M = np.eye(4)
    M[:3, :3], M[:3, 3] = q, r.randn(3)
    return T(M)


class Cam(object):
    pass


def s_rig(n, weights, flip, refine):
    """n cameras; weights gives the number of common corners of every pair."""
    pairs = list(itertools.combinations(range(n), 2))

    def f():
        igraph_stub.Graph.flip = flip
        db = kcc.ObservationDatabase(0.0)
        ref = Reference(0.0)
        t, serial = 0.0, 0
        for c in range(n):          # every camera sees the target once, alone
            o = Obs(c, t, [90 + c], serial)
            with stubs.Quiet():
                db.addObservation(c, o)
            ref = ref.add(c, o)[0]
            serial += 1
            t += 1.0
        for (a, b), w in zip(pairs, weights):
            # the common corners come in two views, the higher camera is added first in one of them
            for part, order in ((w // 2, (b, a)), (w - w // 2, (a, b))):
                if part == 0 and w > 0:
                    continue
                for c in order:
                    o = Obs(c, t, list(range(part)) + [50 + c], serial)
                    with stubs.Quiet():
                        db.addObservation(c, o)
                    ref = ref.add(c, o)[0]
                    serial += 1
                t += 1.0
        g = check_graph(db, ref)
        truth = {p: rnd(7 * i + n) for i, p in enumerate(pairs)}
        cams = [Cam() for _ in range(n)]
        calls, batches = [], []

        def stereo(cl, ch, obs, distortionActive=False):
            a, b = cams.index(cl), cams.index(ch)
            calls.append((a, b))
            want = [(ref.views[t].get(a), ref.views[t].get(b)) for t in db.getAllViewTimestamps() if a in ref.views[t] or b in ref.views[t]]
            vmc.expect(len(obs) == len(want) and all(x is y for p, q in zip(obs, want) for x, y in zip(p, q)), 'stereo-observations', obs)
            B = truth[(min(a, b), max(a, b))]
            return True, T((B if a < b else B.inverse()).T())

        def full(cameras, baselines, graph):
            batches.append([b for b in baselines])
            if refine:
                return True, ['refined %d' % i for i in range(len(baselines))]
            return False, baselines
        kcc.stereoCalibrate, kcc.solveFullBatch = stereo, full
        edges = {p: w for p, w in zip(pairs, weights) if w}
        reach, todo = set(), [0]
        while todo:
            v = todo.pop()
            if v not in reach:
                reach.add(v)
                todo += [x for p in edges if v in p for x in p if x != v]
        vmc.state((n, weights, flip))
        vmc.transition()
        if n == 1:
            return
        if len(reach) < n:
            try:
                with stubs.Quiet():
                    r = g.getInitialGuesses(cams)
            except (SystemExit, Exception):
                r = None
            vmc.expect(r is None, 'unconnected-accepted', r)
            vmc.expect(not calls and not batches, 'unconnected-calibrated', calls)
            return
        with stubs.Quiet():
            r = g.getInitialGuesses(cams)
        used = sorted(set(tuple(sorted(c)) for c in calls))
        vmc.expect(len(used) == len(calls) and len(used) == n - 1 and all(u in edges for u in used), 'pairs-calibrated', calls)
        # the pairs used form shortest paths from cam0 for costs 1 / common corners

        def dists(es):
            d = {0: 0.0}
            for _ in range(n):
                for (a, b) in es:
                    for x, y in ((a, b), (b, a)):
                        if x in d:
                            d[y] = min(d.get(y, 1e9), d[x] + 1.0 / edges[(a, b)])
            return d
        best, got = dists(edges), dists(used)
        vmc.expect(all(abs(best[c] - got.get(c, 1e9)) < 1e-9 for c in range(n)), 'best-pairs', '%s of %s' % (used, edges))
        # T_{i+1,i} along the only path over the pairs used

        def path(a, b, seen=()):
            if a == b:
                return [a]
            for u in used:
                if a in u:
                    x = u[0] + u[1] - a
                    if x not in seen:
                        p = path(x, b, seen + (a,))
                        if p:
                            return [a] + p
            return None
        vmc.expect(len(batches) == 1 and len(batches[0]) == n - 1, 'baselines', len(batches))
        for i in range(n - 1):
            p = path(i, i + 1)
            if not vmc.expect(p is not None, 'path', used):
                return
            if len(p) > 2:
                vmc.nontrivial((n, weights, i))
            want = T()
            for x, y in zip(p, p[1:]):
                B = truth[(min(x, y), max(x, y))]
                want = (B if x < y else B.inverse()) * want
            vmc.expect(np.allclose(batches[0][i].T(), want.T(), atol=1e-9), 'baseline', 'cam%d to cam%d over %s' % (i, i + 1, p))
        if refine:
            vmc.expect(list(r) == ['refined %d' % i for i in range(n - 1)], 'refined', r)
        else:
            vmc.expect(len(r) == n - 1, 'refined', r)
    return f


def s_pose(n, counts, chain):
    """The guess for the pose of the target in the first camera."""
    def f():
        db = kcc.ObservationDatabase(0.0)
        for c in range(n):
            o = Obs(c, 100.0, [1], c)
            with stubs.Quiet():
                db.addObservation(c, o)
        order = list(range(n))[::-1] if chain else list(range(n))
        for c in order:
            if counts[c] is not None:
                with stubs.Quiet():
                    db.addObservation(c, Obs(c, 5.0, range(counts[c]), 10 + c))
        with stubs.Quiet():
            g = kcc.MulticamCalibrationGraph(db)
        seen = [c for c in range(n) if counts[c] is not None]
        if not seen:
            return
        cams, asked = [], []
        Tt = [rnd(40 + c) for c in range(n)]
        for c in range(n):
            k = Cam()
            k.geometry = Cam()

            def est(obs, c=c):
                asked.append((c, obs.serial))
                return True, T(Tt[c].T())
            k.geometry.estimateTransformation = est
            cams.append(k)
        base = [rnd(60 + c) for c in range(n - 1)]
        vmc.transition()
        vmc.state((n, counts, chain))
        with stubs.Quiet():
            r = g.getTargetPoseGuess(5.0, cams, base)
        m = max(counts[c] for c in seen)
        ok = False
        for c in seen:
            if counts[c] == m and asked == [(c, 10 + c)]:
                X = T()
                for b in base[:c]:
                    X = b * X
                ok = np.allclose(r.T(), (Tt[c] * X).T(), atol=1e-9)
        vmc.nontrivial((n, counts))
        vmc.expect(ok, 'pose-guess', 'asked %s with corners %s' % (asked, counts))
    return f


TIMES = [0.0, 0.5, 1.0, 1.75]
import random
length = 5 if vmc.thorough() else 4
for tol in (0.0, 0.5, 0.75):
    opts = [(c, t, k) for c in range(3) for t in TIMES for k in (0, 1)]
    for n in range(1, length + 1):
        if n < 4:
            seqs = itertools.product(opts, repeat=n)
        else:
            o4 = [(c, t, k) for c in range(3) for t in (TIMES if vmc.thorough() else TIMES[:3]) for k in ((c % 2,) if not vmc.thorough() else (0, 1))]
            if vmc.thorough():
                o4 = [x for x in o4 if x[2] == 1 or x[0] == 0]
            if n == 5:
                o4 = [(c, t, 1) for c in range(3) for t in TIMES[:3]]
            seqs = itertools.product(o4, repeat=n)
        # one scenario per first two observations
        groups = {}
        for s in seqs:
            groups.setdefault(s[:2], []).append(s)
        for head, ss in sorted(groups.items()):
            def go(ss=ss, tol=tol):
                for s in ss:
                    vmc.g.ctx = 'after %s: ' % (s,)
                    s_db(tol, s)()
                    if vmc.g.violations:
                        return
            vmc.run('tolerance %g, %d observations that begin with %s' % (tol, n, list(head)), go)
# sequences with corner sets that do not overlap, three cameras
for tol in (0.0, 0.5):
    for ks in itertools.product(range(4), repeat=3):
        for perm in itertools.permutations(range(3)):
            for ts in itertools.product((0.0, 0.5), repeat=3):
                seq = tuple((c, ts[c], ks[c]) for c in perm)
                vmc.run('tolerance %g, %s' % (tol, list(seq)), s_db(tol, seq))
for n in (1, 2, 3, 4, 5) if vmc.thorough() else (1, 2, 3, 4):
    np_ = n * (n - 1) // 2
    vals = {1: (0,), 2: (0, 1, 5), 3: (0, 1, 2, 5), 4: (0, 2, 5) if not vmc.thorough() else (0, 1, 2, 5), 5: (0, 5)}[n]
    for weights in itertools.product(vals, repeat=np_):
        if n == 5 and sum(w > 0 for w in weights) > 6:
            continue
        if n == 5:
            weights = tuple(w and 1 + (3 * i) % 7 for i, w in enumerate(weights))
        for flip in (False, True):
            vmc.run('rig of %d with common corners %s%s' % (n, list(weights), ', edges reversed' if flip else ''), s_rig(n, weights, flip, sum(weights) % 2 == 0))
for n in (1, 2, 3, 4):
    for counts in itertools.product((None, 1, 2, 5), repeat=n):
        for chain in (False, True):
            vmc.run('pose guess with corners %s%s' % (list(counts), ', last camera first' if chain else ''), s_pose(n, counts, chain))
vmc.finish()
