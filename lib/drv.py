"""Client of the conformance driver."""
import json, os, subprocess, sys, tempfile, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import build as _build

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:'
           'allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0:fast_unwind_on_malloc=1:malloc_context_size=6:quarantine_size_mb=16',
           TSAN_OPTIONS='exitcode=98:halt_on_error=1', TZ='XST-9:30')

def b(x):
    if isinstance(x, bytes): return x
    if isinstance(x, bool): return b'1' if x else b'0'
    return str(x).encode()

def line(op, kw):
    out = [op]
    for k, v in kw:
        out.append('%s=%s' % (k, b(v).hex()))
    return '\t'.join(out)

def flat(kw):
    o = []
    for k, v in kw.items():
        if v is None: continue
        if isinstance(v, (list, tuple)):
            o += [(k, e) for e in v]
        else:
            o.append((k, v))
    return o

class Driver:
    def __init__(self, san='asan', loglevel=0, exe=None, env=None):
        self.exe = exe or _build.build('driver', san)
        self.err = tempfile.NamedTemporaryFile(prefix='drv', suffix='.err')
        e = dict(ENV); e.update(env or {})
        self.p = subprocess.Popen([*(self.exe if isinstance(self.exe, list) else [self.exe]), self.err.name, str(loglevel)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=e)
    def raw(self, text):
        self.p.stdin.write(text.encode() + b'\n'); self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l: raise RuntimeError('driver ended: ' + text[:300])
        return json.loads(l)
    def call(self, op, **kw):
        return self.raw(line(op, flat(kw)))
    def calll(self, op, pairs):
        return self.raw(line(op, pairs))
    def ok(self, op, **kw):
        r = self.call(op, **kw)
        if r['st'] != 'ok': raise RuntimeError('%s: %s' % (op, r))
        return r['r']
    def close(self):
        try:
            self.p.stdin.close(); self.p.wait(10)
        except Exception: self.p.kill()

def valgrind(ctx, n=8):
    """A pool whose calls run under valgrind: it also sees what the libraries do with memory
    that the code under test gave them or freed, which the address sanitizer does not"""
    return Pool(n, exe=['valgrind', '-q', '--undef-value-errors=no', '--error-exitcode=77', '--leak-check=no', '--gen-suppressions=no', _build.build('driver', 'plain')])
class Pool:
    """Runs many (op, pairs) on several driver processes, keeping order."""
    def __init__(self, n=8, **kw):
        self.ds = [Driver(**kw) for _ in range(n)]
    def map(self, jobs, batch=1):
        """batch: that many consecutive jobs share a process, unless it fails."""
        if batch > 1:
            gs = [jobs[i:i + batch] for i in range(0, len(jobs), batch)]
            rs = self.map([('batch', [('timeout', 120)] + [('x', line(*j)) for j in g]) for g in gs])
            out = []
            for g, r in zip(gs, rs):
                out += [dict(st='ok', r=x) for x in r['r']] if r['st'] == 'ok' else self.map(g)
            return out
        res = [None] * len(jobs)
        it = iter(range(len(jobs))); lock = threading.Lock(); errs = []
        def work(d):
            while True:
                with lock:
                    i = next(it, None)
                if i is None: return
                try: res[i] = d.calll(jobs[i][0], jobs[i][1])
                except Exception as e:
                    errs.append(e); return
        ts = [threading.Thread(target=work, args=(d,)) for d in self.ds]
        [t.start() for t in ts]; [t.join() for t in ts]
        if errs: raise errs[0]
        return res
    def close(self):
        for d in self.ds: d.close()
