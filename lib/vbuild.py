"""Compiles the harnesses of /verif together with the sources of /repo.

Objects are cached under /verif/build by content: the key of an object is the
compile command and the contents of its source and of every non-system file
the compiler read, so a stale object is never used, whatever the time stamps.
"""
import hashlib, json, os, subprocess, sys, glob, re, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
OBJ = os.path.join(BUILD, 'obj')
MANI = os.path.join(BUILD, 'mani')
SUITESPARSE_H = os.path.join(VERIF, 'include', 'suitesparse7.h')


def pkg_dirs():
    out = {}
    for d in sorted(glob.glob(REPO + '/*/*/CMakeLists.txt')):
        d = os.path.dirname(d)
        out[os.path.basename(d)] = d
    return out


PK = pkg_dirs()
INC = [d + '/include' for d in PK.values() if os.path.isdir(d + '/include')]
SYS_INC = ['/usr/include/eigen3', '/usr/include/suitesparse', '/usr/include/opencv4']
CXXFLAGS = ['-std=gnu++14', '-fPIC', '-w', '-DBOOST_TIMER_ENABLE_DEPRECATED', '-DVERIF_HARNESS',
            '-include', SUITESPARSE_H]
LIBS = ['-lboost_system', '-lboost_filesystem', '-lboost_serialization', '-lboost_thread',
        '-lboost_regex', '-lboost_atomic', '-lboost_chrono', '-lpthread', '-lrt', '-ldl']
SUITESPARSE_LIBS = ['-lamd', '-lbtf', '-lcamd', '-lccolamd', '-lcholmod', '-lcolamd', '-lcxsparse',
                    '-lklu', '-lumfpack', '-lspqr', '-ltbb']
OPENCV_LIBS = ['-lopencv_core', '-lopencv_imgproc', '-lopencv_calib3d', '-lopencv_highgui',
               '-lopencv_imgcodecs', '-lopencv_features2d', '-lopencv_video', '-lopencv_objdetect']

_hash_lock = threading.Lock()
_hash = {}


def fhash(p):
    with _hash_lock:
        if p in _hash:
            return _hash[p]
    try:
        with open(p, 'rb') as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = 'missing'
    with _hash_lock:
        _hash[p] = h
    return h


def _words(text, start):
    text = re.sub(r'#[^\n]*', '', text)
    m = re.search(start + r'([^()]*)\)', text)
    return re.sub(r'\$\{\w+\}', '', m.group(1)).split() if m else []


class BuildError(Exception):
    pass


def package_sources(name, skip=()):
    """The library sources of a package, read from its CMakeLists.txt."""
    d = PK[name]
    text = open(d + '/CMakeLists.txt').read()
    m = re.search(r'file\(GLOB SOURCE_FILES "([^"]+)"\)', text)
    srcs = _words(text, r'add_library\(\$\{PROJECT_NAME\}[ \t\r\n]') or \
        _words(text, r'add_library\(\$\{PROJECT_NAME\}_errorterms[ \t\r\n]')
    srcs = [d + '/' + s for s in srcs]
    if m:
        srcs += sorted(glob.glob(d + '/' + m.group(1)))
    for g in glob.glob(d + '/autogen_cameras.cmake'):
        t = re.sub(r'#[^\n]*', '', open(g).read())
        for s in re.findall(r'\S+\.cpp', t):
            s = s.replace('${CMAKE_CURRENT_SOURCE_DIR}/', '').replace('${PROJECT_SOURCE_DIR}/', '')
            srcs.append(d + '/' + s.strip('"'))
    out = []
    for s in srcs:
        if s not in out and not any(s.endswith('/' + k) for k in skip):
            out.append(s)
    return out


def _deps(dfile):
    t = open(dfile).read().replace('\\\n', ' ')
    t = t.split(':', 1)[1]
    fs = t.split()
    return [f for f in fs if not f.startswith('/usr/')]


def compile_one(src, flags, cxx='g++'):
    os.makedirs(OBJ, exist_ok=True)
    os.makedirs(MANI, exist_ok=True)
    iscc = src.endswith('.c')
    if iscc:
        cmd = ['gcc'] + [f for f in flags if not f.startswith('-std=')]
        cmd = [c for i, c in enumerate(cmd) if c != SUITESPARSE_H and not (c == '-include' and cmd[i + 1] == SUITESPARSE_H)]
    else:
        cmd = [cxx] + flags
    base = hashlib.sha256(json.dumps([cmd, src]).encode()).hexdigest()[:24]
    mf = os.path.join(MANI, base + '.json')
    entries = []
    if os.path.exists(mf):
        try:
            entries = json.load(open(mf))
        except Exception:
            entries = []
        for e in entries:
            if all(fhash(f) == h for f, h in e['deps'].items()) and os.path.exists(os.path.join(OBJ, e['obj'])):
                return os.path.join(OBJ, e['obj'])
    tmp = os.path.join(OBJ, base + '.%d.tmp' % os.getpid())
    r = subprocess.run(cmd + ['-MMD', '-MF', tmp + '.d', '-c', src, '-o', tmp + '.o'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd + [src]), r.stdout[-6000:]))
    deps = {f: fhash(f) for f in _deps(tmp + '.d')}
    key = hashlib.sha256(json.dumps([cmd, src, sorted(deps.items())]).encode()).hexdigest()[:32]
    obj = key + '.o'
    os.replace(tmp + '.o', os.path.join(OBJ, obj))
    os.remove(tmp + '.d')
    entries = ([{'deps': deps, 'obj': obj}] + [e for e in entries if e['obj'] != obj])[:6]
    with open(mf + '.%d' % os.getpid(), 'w') as f:
        json.dump(entries, f)
    os.replace(mf + '.%d' % os.getpid(), mf)
    return os.path.join(OBJ, obj)


def build(name, sources, opt='-O1', extra_flags=(), libs=(), inc=(), per_source_flags=None, cxx='g++',
          suitesparse=False, opencv=False, link_flags=(), shared=False):
    """Builds /verif/build/bin/NAME from the given absolute sources."""
    flags = CXXFLAGS + [opt] + list(extra_flags) + ['-I' + VERIF + '/include'] + ['-I' + i for i in inc] + \
        ['-I' + i for i in INC] + [x for i in SYS_INC for x in ('-isystem', i)]
    psf = per_source_flags or {}

    def one(s):
        return compile_one(s, flags + list(psf.get(s, [])), cxx)
    # big files first
    order = sorted(sources, key=lambda s: -os.path.getsize(s) if os.path.exists(s) else 0)
    with ThreadPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', '8'))) as ex:
        futs = {s: ex.submit(one, s) for s in order}
        objs = [futs[s].result() for s in sources]
    bindir = os.path.join(BUILD, 'bin')
    os.makedirs(bindir, exist_ok=True)
    ll = list(libs) + (OPENCV_LIBS if opencv else []) + (SUITESPARSE_LIBS if suitesparse else []) + LIBS
    cmd = [cxx, opt] + (['-shared'] if shared else []) + list(link_flags) + objs + ll
    key = hashlib.sha256(json.dumps(cmd).encode()).hexdigest()[:16]
    out = os.path.join(bindir, name + '-' + key)
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(bindir, name + '-' + '?' * 16)):
            try:
                os.remove(old)
            except OSError:
                pass
        rsp = out + '.%d.rsp' % os.getpid()
        open(rsp, 'w').write('\n'.join(cmd[1:]))
        r = subprocess.run([cxx, '@' + rsp, '-o', out + '.tmp%d' % os.getpid()],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        os.remove(rsp)
        if r.returncode:
            raise BuildError('link %s\n%s' % (name, r.stdout[-6000:]))
        os.replace(out + '.tmp%d' % os.getpid(), out)
    return out
