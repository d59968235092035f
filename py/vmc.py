"""What include/vmc.hpp does, for harnesses that drive kalibr's Python code."""
import json, os, signal, struct, sys, hashlib, traceback


class _G:
    pass


g = _G()
g.shard, g.nshards, g.thorough, g.out, g.only, g.hang = 0, 1, False, None, None, 60
g.index = g.evaluations = g.transitions = 0
g.next_sample = 1
g.samples, g.violations, g.keys = [], [], set()
g.states, g.nontrivial, g.notes, g.seen = set(), set(), {}, {}
g.scen, g.cur, g.capped, g.cap_text = '', None, False, ''
g.ctx = ''
g.idle = 0
g.beat = 0
g.last = -1


def _alarm(sig, frame):
    if g.beat == g.last:
        g.idle += 1
        if g.idle > g.hang:
            os._exit(97)
    else:
        g.idle, g.last = 0, g.beat


def init(argv):
    a = iter(argv[1:])
    for x in a:
        if x == '--shard': g.shard = int(next(a))
        elif x == '--nshards': g.nshards = int(next(a))
        elif x == '--tier': g.thorough = next(a) == 'thorough'
        elif x == '--out': g.out = next(a)
        elif x == '--hang': g.hang = int(next(a))
        elif x == '--only': g.only = next(a)
    if g.out:
        g.cur = open(g.out + '.cur', 'wb', 0)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 1, 1)


def thorough():
    return g.thorough


def run(text, f):
    """Runs f as scenario TEXT if this process is the one for it."""
    i = g.index
    g.index += 1
    if g.only is not None:
        if text != g.only:
            return
    elif i % g.nshards != g.shard:
        return
    if too_many():
        return
    g.scen, g.ctx = text, ''
    g.beat += 1
    if g.cur:
        g.cur.seek(0)
        g.cur.write(text.encode()[:60000] + b'\0')
    g.evaluations += 1
    if g.evaluations == g.next_sample and len(g.samples) < 12:
        g.samples.append(text)
        g.next_sample = g.next_sample * 5 + 1
    try:
        f()
    except (KeyboardInterrupt, SystemExit):
        fail('exit', 'the code under test ended the process: ' + traceback.format_exc()[-900:])
    except Exception:
        fail('exception', traceback.format_exc()[-900:])


def fail(key, detail=''):
    if len(g.violations) >= 40 or (key, g.scen) in g.keys:
        return
    g.keys.add((key, g.scen))
    g.violations.append(dict(key=key, scenario=g.scen, detail=g.ctx + str(detail)))


def expect(ok, key, detail=''):
    if not ok:
        fail(key, detail() if callable(detail) else detail)
    return bool(ok)


def too_many():
    return len(g.violations) >= 40


def h64(x):
    return struct.unpack('<Q', hashlib.blake2b(repr(x).encode(), digest_size=8).digest())[0]


def state(x):
    h = h64(x)
    if h in g.states:
        return False
    g.states.add(h)
    return True


def nontrivial(x):
    g.nontrivial.add(h64(x))


def transition(n=1):
    g.transitions += n
    g.beat += 1


def note_add(k, v=1):
    g.notes[k] = g.notes.get(k, 0) + v


def saw(k, v):
    s = g.seen.setdefault(k, set())
    if len(s) < 64:
        s.add(str(v))


def finish():
    signal.setitimer(signal.ITIMER_REAL, 0)
    out = dict(extra_states=0, evaluations=g.evaluations, transitions=g.transitions, nstates=len(g.states),
               nnontrivial=len(g.nontrivial), capped=g.capped, cap_text=g.cap_text, samples=g.samples,
               notes=g.notes, seen={k: sorted(v) for k, v in g.seen.items()}, violations=g.violations)
    if g.out:
        for s, v in (('.states', g.states), ('.nontrivial', g.nontrivial)):
            with open(g.out + s, 'wb') as f:
                f.write(struct.pack('<%dQ' % len(v), *v))
        with open(g.out, 'w') as f:
            json.dump(out, f)
    else:
        for v in g.violations:
            print('%(key)s\n  %(scenario)s\n  %(detail)s' % v)
        print({k: out[k] for k in ('evaluations', 'transitions', 'nstates', 'nnontrivial', 'notes', 'seen')})
    sys.stdout.flush()
    os._exit(1 if g.violations else 0)


class Chooser:
    """All ways to resolve a sequence of choices, depth first."""

    def __init__(self):
        self.path, self.lim, self.pos, self.started = [], [], 0, False

    def next(self):
        if not self.started:
            self.started = True
            self.pos = 0
            return True
        while self.path and self.path[-1] + 1 >= self.lim[-1]:
            self.path.pop()
            self.lim.pop()
        if not self.path:
            return False
        self.path[-1] += 1
        self.pos = 0
        return True

    def pick(self, n):
        if self.pos == len(self.path):
            self.path.append(0)
            self.lim.append(n)
        if self.lim[self.pos] != n:
            raise RuntimeError('harness: nondeterministic choice')
        r = self.path[self.pos]
        self.pos += 1
        return r
