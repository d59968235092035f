"""Runs one check: builds, explores in parallel shards, reports, writes evidence."""
import json, os, sys, subprocess, time, shutil, struct, importlib.util, re, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
VERIF = vbuild.VERIF
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def known(pid):
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def unkey(k):
    return re.sub(r'\s+', '_', k)


class Proc:
    """A shard running; its result is collected by wait()."""

    def __init__(self, cmd, out, limit, env=None):
        self.cmd, self.out, self.t0, self.limit = cmd, out, time.time(), limit
        for s in ('', '.cur', '.states', '.nontrivial'):
            try:
                os.remove(out + s)
            except OSError:
                pass
        self.err = open(out + '.err', 'wb')
        self.p = subprocess.Popen(cmd + ['--out', out], stdout=subprocess.DEVNULL, stderr=self.err,
                                  stdin=subprocess.DEVNULL, env=env, start_new_session=True)

    def wait(self):
        try:
            rc = self.p.wait(timeout=max(1, self.limit - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                pass
            self.p.wait()
            rc = 'timeout'
        self.err.close()
        cur = ''
        try:
            cur = open(self.out + '.cur', 'rb').read().split(b'\0')[0].decode('latin1')
        except OSError:
            pass
        res = None
        if rc in (0, 1):
            try:
                res = json.load(open(self.out))
            except Exception:
                res = None
        err = open(self.out + '.err', 'rb').read()[-3000:].decode('latin1')
        return rc, res, cur, err


def u64set(path, into):
    try:
        b = open(path, 'rb').read()
        into.update(struct.unpack('<%dQ' % (len(b) // 8), b))
    except OSError:
        pass


def run(pid, spec, tier, seed):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir=os.environ.get('TMPDIR', '/tmp'))
    try:
        return _run(pid, spec, tier, seed, t0, work)
    except vbuild.BuildError as e:
        print('ERROR: the harness of %s does not build\n%s' % (pid, e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def describe(rc, err):
    if rc == 97:
        return 'hang', 'the scenario does not finish'
    if rc == 98:
        return 'deadlock', 'the threads of the scenario are deadlocked'
    if rc == 'timeout':
        return 'timeout', 'the time limit of the run was reached'
    if isinstance(rc, int) and rc < 0:
        return 'crash', 'killed by signal %d' % -rc
    return 'crash', 'exit status %s' % rc


def _run(pid, spec, tier, seed, t0, work):
    jobs = []           # (label, cmd, env)
    parts = spec['parts'](tier)
    nsh_default = spec.get('shards', 8)
    for i, p in enumerate(parts):
        cmd = p['build']()
        if isinstance(cmd, str):
            cmd = [cmd]
        n = p.get('shards', nsh_default)
        env = dict(os.environ)
        env.update({'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'VERIF_WORK': work,
                    'OMP_THREAD_LIMIT': '1'})
        env.update(p.get('env', {}))
        for s in range(n):
            jobs.append((i, cmd + p.get('args', []) + ['--tier', tier, '--shard', str(s), '--nshards', str(n)], env,
                         p.get('limit', 700 if tier == 'quick' else 7200)))
    build_s = time.time() - t0
    running, results, todo = [], [], list(enumerate(jobs))
    from concurrent.futures import ThreadPoolExecutor

    def go(item):
        k, (i, cmd, env, limit) = item
        return k, i, cmd, env, Proc(cmd, os.path.join(work, 'r%d' % k), limit, env).wait()
    with ThreadPoolExecutor(max_workers=8) as ex:
        results = list(ex.map(go, todo))
    ev = tr = xs = 0
    states, nontriv = set(), set()
    samples, notes, seen, viol, caps = [], {}, {}, [], []
    incomplete = None
    for k, i, cmd, env, (rc, res, cur, err) in results:
        if res is None:
            if rc == 3:
                print('ERROR: harness: ' + err)
                return 2
            key, what = describe(rc, err)
            viol.append(dict(key=key, scenario=cur, detail='%s; stderr: %s' % (what, err[-1500:]), cmd=cmd, env=env,
                             rc=rc, job=i))
            continue
        ev += res['evaluations']
        tr += res['transitions']
        xs += res.get('extra_states', 0)
        u64set(os.path.join(work, 'r%d.states' % k), states)
        u64set(os.path.join(work, 'r%d.nontrivial' % k), nontriv)
        samples += res['samples'][:4]
        for n, v in res['notes'].items():
            if n.startswith('max') or n.startswith('bound'):
                notes[n] = max(notes.get(n, v), v)
            else:
                notes[n] = notes.get(n, 0) + v
        for n, v in res['seen'].items():
            seen.setdefault(n, set()).update(v)
        if res.get('capped'):
            caps.append(res['cap_text'])
        for v in res['violations']:
            v.update(cmd=cmd, env=env, rc=rc, job=i)
            viol.append(v)
    # Replay every kind of violation once before it is believed.
    kn = known(pid)
    confirmed, knownhit, unconfirmed = [], {}, []
    seenkeys = {}
    for v in viol:
        key = unkey(v['key'])
        if key in kn:
            knownhit.setdefault(key, v)
            continue
        if seenkeys.get(key, 0) >= 2 or len(confirmed) >= 5:
            continue
        base = v['cmd'][:v['cmd'].index('--tier')]
        ok = False
        rp = Proc(base + ['--tier', tier, '--hang', '120', '--only', v['scenario']], os.path.join(work, 'replay'), 400, v['env'])
        rc, res, cur, err = rp.wait()
        if res is None and rc != 3:
            ok = True
            v['replay_kind'] = 'alone: ' + describe(rc, err)[1]
        elif res and res['violations']:
            ok = True
            v['replay_kind'] = 'alone: the same scenario fails'
        else:
            # depends on the process history: the whole shard again
            rp = Proc(v['cmd'], os.path.join(work, 'replay'), 800, v['env'])
            rc, res, cur, err = rp.wait()
            if (res is None and rc != 3) or (res and any(x['scenario'] == v['scenario'] for x in res['violations'])):
                ok = True
                v['replay_kind'] = 'only after the scenarios before it in its shard'
        (confirmed if ok else unconfirmed).append(v)
        if ok:
            seenkeys[key] = seenkeys.get(key, 0) + 1
    rc = 0
    for key, v in sorted(knownhit.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[key]))
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for n, v in enumerate(confirmed):
        path = os.path.join(rdir, '%s-%d.txt' % (pid, n))
        base = v['cmd'][:v['cmd'].index('--tier')]
        with open(path, 'w') as f:
            f.write('property %s, %s tier\nwhat fails: %s\nscenario: %s\ndetail: %s\nreplayed: %s\n'
                    'replay: %s\n' % (pid, tier, v['key'], v['scenario'], v['detail'], v.get('replay_kind'),
                                      ' '.join("'%s'" % c for c in base + ['--tier', tier, '--only', v['scenario']])))
        print('  %s: %s\n    scenario: %s' % (v['key'], v['detail'][:600], v['scenario'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    if unconfirmed and not confirmed:
        v = unconfirmed[0]
        print('ERROR: a failure did not replay: %s\n  scenario: %s\n  %s' % (v['key'], v['scenario'], v['detail'][:2000]))
        rc = 2
    samples = samples[:40]
    cov = dict(samples=samples, exhaustive=not caps and not viol, bounds=spec['bounds'](tier) if callable(spec.get('bounds')) else spec.get('bounds', ''),
               rule=spec.get('rule', ''), build_s=round(build_s, 1))
    if caps:
        cov['caps'] = sorted(set(caps))
    if spec['level'] == 'model_checking':
        cov.update(states=len(states) + xs, transitions=tr, traces_validated_against_impl=ev)
        if nontriv:
            cov['distinct_outcomes'] = len(nontriv)
    else:
        cov.update(evaluations=ev, distinct_nontrivial=len(nontriv))
        if states:
            cov['states'] = len(states)
        if tr:
            cov['transitions'] = tr
    if notes:
        cov['notes'] = {k: round(v, 12) for k, v in notes.items()}
    if seen:
        cov['outcomes_seen'] = {k: sorted(v) for k, v in seen.items()}
    evd = dict(property=pid, tier=tier, seed=seed, level=spec['level'], coverage=cov,
               assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2),
               violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evd, f, indent=1)
    print('%s %s: %s; build %.1fs, wall %.1fs' % (
        pid, tier, ', '.join('%s=%s' % (k, cov[k]) for k in
                             ('states', 'transitions', 'traces_validated_against_impl', 'evaluations', 'distinct_nontrivial') if k in cov),
        build_s, time.time() - t0))
    if rc == 0 and (ev == 0 or (spec['level'] == 'model_checking' and not states and not xs)):
        print('ERROR: nothing was explored')
        rc = 2
    return rc
