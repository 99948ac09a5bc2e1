#!/usr/bin/env python3
"""Builds the conformance driver from /repo's working tree (content-addressed
cache in /verif/.build, which git ignores; works from nothing)."""
import threading, hashlib, os, subprocess, sys, glob, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BRSKI_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
OUT = os.path.join(ROOT, '.build')
SAN = {'asan': ['-fsanitize=address', '-fno-omit-frame-pointer'],
       'conc': ['-fsanitize=address', '-fno-omit-frame-pointer'],
       'tsan': ['-fsanitize=thread'], 'plain': []}
WRAPS = ('sign_masa_pledge_voucher fopen time gmtime localtime asctime ctime strtok rand random strerror setlocale setenv rename fflush write read '
         'pthread_mutex_lock pthread_rwlock_rdlock pthread_rwlock_wrlock').split()
DEFS = ['-D_BSD_SOURCE', '-D_DEFAULT_SOURCE', '-D_XOPEN_SOURCE', '-DNDEBUG',
        '-DWITH_CPPHTTPLIB_LIB']

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise SystemExit('build failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))

def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]

def src_files(exts):
    o = []
    for d, _, fs in os.walk(SRC):
        o += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return sorted(o)

_lock = threading.RLock(); _done = {}
def build(kind='driver', san='asan'):
    with _lock:
        if (kind, san) not in _done: _done[kind, san] = _build(kind, san)
        return _done[kind, san]
def _build(kind, san):
    """kind 'driver': library + harness with the transport replaced;
    kind 'app': the whole program including the HTTP layer;
    kind 'net': the HTTP layer with handlers of the harness."""
    os.makedirs(OUT, exist_ok=True)
    hdrs = src_files(('.h', '.hpp'))
    # the single-header HTTP library is third-party; hash it only where used
    small = [h for h in hdrs if not h.endswith('httplib.h')]
    code = [f for f in src_files(('.c', '.cpp')) if not f.endswith('crypto_wssl.c')]
    if kind == 'driver':
        code = [f for f in code if '/http/' not in f and not f.endswith('/brski.cpp')]
        harn = sorted(glob.glob(ROOT + '/harness/*.cpp'))
        harn = [f for f in harn if not os.path.basename(f).startswith(('app_', 'net_'))]
    elif kind == 'net':
        code = [f for f in code if not f.endswith('/brski.cpp')]
        harn = sorted(glob.glob(ROOT + '/harness/app_*.cpp') + glob.glob(ROOT + '/harness/net_*.cpp'))
    else:
        harn = sorted(glob.glob(ROOT + '/harness/app_*.cpp'))
    hh = sorted(glob.glob(ROOT + '/harness/*.hpp'))
    gen = os.path.join(OUT, 'gen')
    os.makedirs(gen, exist_ok=True)
    vh = os.path.join(gen, 'version.h')
    if not os.path.exists(vh):
        with open(vh, 'w') as f:
            f.write('#ifndef VERSION_H\n#define VERSION_H\n#define BRSKI_VERSION "0.0.0"\n#endif\n')
    flags = DEFS + SAN[san] + ['-O1', '-g1', '-w', '-I' + SRC, '-I' + gen,
                               '-I' + ROOT + '/harness', '-I' + SRC + '/brski', '-I' + SRC + '/brski/http']
    jobs, objs = [], []
    hdr_key = digest(small + hh, ' '.join(flags) + REPO + ('clang' if san == 'conc' else ''))
    lib_key = digest([h for h in hdrs if h.endswith('httplib.h')])
    for f in code + harn:
        key = digest([f], hdr_key + (lib_key if '/http/' in f else ''))
        o = os.path.join(OUT, '%s-%s.o' % (os.path.basename(f).replace('.', '_'), key))
        objs.append(o)
        if os.path.exists(o):
            continue
        clang = san == 'conc' # the one that can tell each load and store
        cc = [('clang' if clang else 'gcc'), '-std=gnu11'] if f.endswith('.c') else [('clang++' if clang else 'g++'), '-std=gnu++17']
        cov = ['-fsanitize-coverage=trace-loads,trace-stores'] if clang and f in code else []
        jobs.append((o, cc + flags + cov + ['-c', f, '-o', o + '.tmp%d' % os.getpid()]))
    def run(j):
        sh(j[1])
        os.replace(j[1][-1], j[0])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    exe = os.path.join(OUT, '%s-%s-%s' % (kind, san, digest([], ' '.join(objs))))
    if not os.path.exists(exe):
        wrap = ['-Wl,--wrap=' + x for x in (WRAPS if kind == 'driver' else ['fopen'])]
        sh(['clang++' if san == 'conc' else 'g++'] + SAN[san] + objs + wrap + ['-lssl', '-lcrypto', '-lminIni', '-lpthread',
            '-o', exe + '.tmp%d' % os.getpid()])
        os.replace(exe + '.tmp%d' % os.getpid(), exe)
    return exe

if __name__ == '__main__':
    print(build(*(sys.argv[1:] or ['driver'])))
