"""Running TLC: model checking, case generation and trace validation."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class TlcError(Exception): pass

def _err(out):
    i = min([x for x in (out.find('Error:'), out.find('*** '), out.find('Parse Error')) if x >= 0] or [max(0, len(out) - 3000)])
    t = out[i:]
    return t if len(t) < 3500 else t[:1500] + '\n[...]\n' + t[-2000:]

def _run(module, cfg, env=None, args=(), heap='2g', workers='1', timeout=600):
    """One TLC run in a scratch directory that is removed afterwards."""
    d = tempfile.mkdtemp(prefix='tlc')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, 'run.cfg'), 'w') as f:
            f.write(cfg)
        e = dict(os.environ); e.update(env or {})
        cmd = ['timeout', '-k', '5', str(timeout), 'java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
               '-XX:TieredStopAtLevel=1' if heap == '1g' else '-XX:+TieredCompilation',
               '-Xss64m', '-Xmx' + heap, '-Djava.io.tmpdir=' + d, '-cp', CP, 'tlc2.TLC', '-workers', workers,
               '-metadir', os.path.join(d, 'states'), '-config', 'run.cfg', *args, module + '.tla']
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)

def stats(out):
    m = None
    for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct states found', out): pass
    if not m: return 0, 0
    return int(m.group(2).replace(',', '')), int(m.group(1).replace(',', ''))

def model_check(module, cfg, expect=None, **kw):
    """Exhaustive run. expect: None = no error may be found, or the name of an
    invariant/property that must be violated (a deliberately broken design)."""
    kw.setdefault('heap', '6g'); kw.setdefault('workers', '4')
    cover = kw.pop('cover', True)
    rc, out = _run(module, cfg, args=(['-coverage', '1'] if cover else []) + list(kw.pop('args', [])), **kw)
    distinct, gen = stats(out)
    if expect is None:
        if rc != 0 or 'No error has been found' not in out:
            raise TlcError('%s: %s' % (module, _err(out)))
    else:
        if ('Invariant %s is violated' % expect) not in out and \
           ('property %s' % expect) not in out and ('Action property %s' % expect) not in out:
            raise TlcError('%s: expected a violation of %s\n%s' % (module, expect, _err(out)))
    # actions never taken mean that part of the model was not exercised
    acts = {}
    for m in re.finditer(r'^<(\w+) line.*?>: (\d+):(\d+)', out, re.M):
        acts[m.group(1)] = max(acts.get(m.group(1), 0), int(m.group(3)))
    return dict(states=distinct, transitions=gen, actions=acts, out=out)

def generate(module, const='', env=None, **kw):
    """Evaluates a constant-level module that writes its cases as NDJSON."""
    d = tempfile.mkdtemp(prefix='gen')
    try:
        o = os.path.join(d, 'out.ndjson')
        kw.setdefault('heap', '4g')
        rc, out = _run(module, const, env=dict(env or {}, OUT=o), **kw)
        if rc != 0 or not os.path.exists(o):
            raise TlcError('generating %s: %s' % (module, _err(out)))
        with open(o) as f:
            return [json.loads(l) for l in f if l.strip()]
    finally:
        shutil.rmtree(d, ignore_errors=True)

def simulate(module, cfg, num, depth, seed, env=None, **kw):
    """Random behaviours of a specification; the module prints them as BEH lines."""
    rc, out = _run(module, cfg, env=env, args=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)], **kw)
    if 'Error:' in out and 'BEH' not in out: raise TlcError(_err(out))
    return out

TCFG = 'SPECIFICATION TraceSpec\nCONSTRAINT Progress\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n'

def _chunk(module, sessions, const, timeout, extra):
    d = tempfile.mkdtemp(prefix='trc')
    try:
        t = os.path.join(d, 't.ndjson')
        with open(t, 'w') as f:
            for s in sessions: f.write(json.dumps(s, ensure_ascii=True) + '\n')
        rc, out = _run(module, (TCFG if 'SPECIFICATION' not in const else TCFG.split('\n', 1)[1]) + const, env=dict(extra or {}, TRACE=t), heap='3g', timeout=timeout)
        m = re.search(r'"PROGRESS"\s*,\s*"([^"]*)"', out)
        if not m:
            raise TlcError('%s gave no verdict: %s' % (module, _err(out)))
        prog = [int(x) for x in m.group(1).split()]
        if len(prog) != len(sessions): raise TlcError('verdict size')
        if 'No error has been found' not in out and all(p == len(s['ev']) + 1 for p, s in zip(prog, sessions)):
            raise TlcError(_err(out))
        return prog, stats(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def validate(module, sessions, const='', chunks=None, timeout=500, extra=None):
    """Each session {..., 'ev': [...]} must be a behaviour of the trace module.
    Returns the list of (session index, event index) that it does not allow, and
    the numbers of states and transitions TLC explored."""
    if not sessions: return [], (0, 0)
    tot = sum(len(s['ev']) for s in sessions)
    n = chunks or max(1, min(6, tot // 150))
    parts = [list(range(i, len(sessions), n)) for i in range(n)]
    parts = [p for p in parts if p]
    bad, st, tr = [], 0, 0
    with cf.ThreadPoolExecutor(6) as ex:
        res = list(ex.map(lambda p: _chunk(module, [sessions[i] for i in p], const, timeout, extra), parts))
    for p, (prog, (a, b)) in zip(parts, res):
        st += a; tr += b
        for i, g in zip(p, prog):
            if g != len(sessions[i]['ev']) + 1:
                bad.append((i, g - 1))
    return sorted(bad), (st, tr)
