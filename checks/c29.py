"""C29 the command-line tool does what it is told and tells success from failure"""
import base64, concurrent.futures as cf, os, select, socket, subprocess, threading
import build, dep, drv, flow, net, stack
from dep import Dep
from flow import Flow
B64 = base64.b64encode
MC = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Lax = {%s}\nN = %d\n'
CMDS = ['epvr', 'preq', 'vmasa', 'sign', 'serial', 'registrar', 'masa']
# -- command lines
class Desk:
    """A directory with two configurations and two certificates, and somebody at every address"""
    def __init__(self, ctx, D, exe):
        self.dir = ctx.scratch(); self.exe = exe; self.D = D
        while True:
            ps = [net.port(), net.port()]; self.socks = {}
            try:
                for a, h in (('A1', '127.0.0.1'), ('A2', '127.0.0.2')):
                    for p, n in zip(('P1', 'P2'), ps):
                        s = socket.socket(); s.bind((h, n)); s.listen(20); s.setblocking(False); self.socks[s] = dict(a=list(a), p=list(p))
                break
            except OSError: continue
        self.sub = dict(P1=str(ps[0]), P2=str(ps[1]), A1='127.0.0.1', A2='127.0.0.2')
        self.lock = threading.Lock(); self.tried = []; self.stop = False
        D = self.D
        for n, (sn, a, p) in dict(C1=('one', 'A1', 'P1'), C2=('two', 'A2', 'P2')).items():
            D.p_serial = sn; D.c['r'].update(bind=self.sub[a], port=int(self.sub[p]), tlskey='unset'); D.c['m'].update(tlskey='unset')
            with open(os.path.join(self.dir, n), 'w') as g: g.write(D.ini())
        for n, c in dict(F1='P', F2='Q').items():
            with open(os.path.join(self.dir, n), 'wb') as g: g.write(dep.pem('CERTIFICATE', D.W.der[c]))
        self.keep = set(os.listdir(self.dir))
        threading.Thread(target=self.serve, daemon=True).start()
    def drain(self):
        with self.lock:
            for s, at in self.socks.items():
                while True:
                    try: c, _ = s.accept()
                    except OSError: break
                    self.tried.append(at); c.close()
    def serve(self):
        while not self.stop:
            try: select.select(list(self.socks), [], [], .5)
            except (OSError, ValueError): return
            self.drain()
    def close(self):
        self.stop = True
        for s in self.socks: s.close()
    def run(self, line):
        self.tried = []
        def put(t):
            for k, v in self.sub.items(): t = t.replace(k, v)
            return t
        o = subprocess.run([self.exe] + [put(t) for t in line], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.dir, env=net.ENV, timeout=120)
        self.drain(); t = o.stdout
        if o.returncode < 0 or o.returncode == 99 or b'Sanitizer' in o.stderr or b'runtime error' in o.stderr: return dict(op='line', args=[list(x) for x in line], kind='crash', err=str(o.returncode) + o.stderr.decode('latin1')[-1500:])
        kind = 'usage' if t.startswith(b'Command-line usage error: ') else 'help' if t.startswith(b'brski version ') and b'\nUsage:' in t and all(('\t%s\t' % c).encode() in t for c in CMDS) and all(('\t-%s' % c).encode() in t for c in 'ciopadhv') \
            else 'version' if t.startswith(b'brski version ') and t.count(b'\n') == 1 else 'run'
        files = []
        for f in sorted(set(os.listdir(self.dir)) - self.keep):
            p = os.path.join(self.dir, f); b = open(p, 'rb').read(); os.unlink(p); m = stack.smime(b)
            files.append(dict(name=list(f), **{'is': self.what(m if m is not None else b'')}))
        w = [] if not t or kind != 'run' else [dict(what='serial', of=list(f)) for f, c in (('F1', 'P'), ('F2', 'Q')) if t == self.D.w[c]['sn'].encode()] or [self.what(t[:-1] if t[-1:] == b'\n' else b'')]
        return dict(op='line', args=[list(x) for x in line], kind=kind, exit=o.returncode, printed=w, files=files, tried=list(self.tried), err=o.stderr != b'')
    def what(self, t):
        x = dep.unb64(t) if dep.std64(t) else None
        for c, n in (('C1', b'"one"'), ('C2', b'"two"')):
            if x is not None and b'"serial-number":' + n in x.replace(b' ', b''): return dict(what='pvr', of=list(c))
        return dict(what='odd', of=list(t[:60].hex()))
PH = [['-c', 'C1'], ['-c', 'C2'], ['-cC1'], ['-dcC2'], ['-i', 'F1'], ['-i', 'F2'], ['-iF1'], ['-diF2'], ['-o', 'O1'], ['-oO2'], ['-o', 'X/O'], ['-p', 'P1'], ['-p', 'P2'], ['-pP1'], ['-dpP2'], ['-a', 'A1'], ['-a', 'A2'], ['-aA2'], ['-d'], ['-dd'], ['-o', '-c'], ['-i', '-'], ['-o', '--'],
      ['-c', 'F1'], ['-i', 'C1'], ['-p', ''], ['-a', ''], ['-o', ''], ['-i', ''], ['-c', '']]
ODD = [['--'], ['-'], ['-x'], ['-h'], ['-v'], [''], ['nothing'], ['-c'], ['-dv'], ['--help'], ['-p', 'C1'], ['-a', 'C1']]
def lines(ctx, rnd, n):
    o = []
    for _ in range(n):
        ph = [rnd.choice(PH) for _ in range(rnd.choice([1, 2, 3, 4, 5, 8]))]
        if rnd.random() < .3: ph.append(rnd.choice(ODD))
        if rnd.random() < .95: ph.append([rnd.choice(['epvr', 'serial', 'epvr', 'serial', 'preq', 'sign', 'vmasa'])])
        if rnd.random() < .1: ph.append([rnd.choice(CMDS)])
        rnd.shuffle(ph); o.append([t for x in ph for t in x])
    return o
def command(ctx, exe):
    rnd = ctx.rnd
    g = [list(x) for x in ctx.gen('GenCommand')]
    ls = (g if ctx.thorough else rnd.sample(g, min(len(g), 1800))) + lines(ctx, rnd, 12000 if ctx.thorough else 900)
    base = Dep(ctx, rnd, p='ec', r='ec', m='ec'); desks = [Desk(ctx, base.clone(), exe) for _ in range(8)]
    free = list(desks); lock = threading.Lock()
    def one(l):
        with lock: d = free.pop()
        try: return d.run(l)
        finally:
            with lock: free.append(d)
    try:
        with cf.ThreadPoolExecutor(8) as ex: evs = list(ex.map(one, ls))
        size = 50
        ss = [evs[i:i + size] for i in range(0, len(evs), size)]
        def redo(i): return dict(ev=[one([''.join(t) for t in e['args']]) for e in ss[i]])
        ctx.conform('TraceCommand', [dict(ev=s) for s in ss], redo=redo, lenient=True)
        ctx.assume.append('command lines: %d of %d of two phrases (with a whole command), %d of up to 9 phrases' % (len(ls) if ctx.thorough else 1800, len(g), len(ls)))
    finally:
        for d in desks: d.close()
# -- what commands obtain
OUT = ['', '', '', 'o', 'a b', 'out.crt', '-o', 'x' * 200, 'y' * 245, 'z' * 249]
FILES = ['missing', 'empty', 'junk', 'der', 'swap', 'both', 'text']
def run(ctx):
    rnd = ctx.rnd; T = ctx.thorough
    m = lambda inv='', lax='': lambda: ctx.model('MCCommand', MC % (lax and '"%s"' % lax, 4 if T and not inv else 3) + ('INVARIANT %s\n' % inv if inv else 'INVARIANTS LastWins OrderFree Spelling\nPROPERTY Ends\n'), expect=inv or None, cover=False)
    exe = build.build('app', 'asan')
    got = ctx.par(lambda: {op: flow.cases(ctx, op, q, 40) for op, q in (('attack', 40), ('sign', 40))}, m(), m('LastWins', 'first'), m('OrderFree', 'posix'), m('NobodyRuns'), m('NobodyErrs'))[0]
    command(ctx, exe)
    keys = {}; fl = [Flow(ctx, rnd, keys, odd=True, ldevid='root') for _ in range(6 if T else 3)]
    work = []
    def add(D, make, honest=None, over=False, n=1):
        work.append((D, make, {k: dict(out=rnd.choice(OUT), over=over) for k in range(n)}, honest))
    # pledges in all situations
    sit = [('voucher', lambda f, c: f.pledge(c), c) for c in got['attack']] + [('sign', lambda f, c: f.sign(c), c) for c in got['sign']]
    if not T: sit = rnd.sample(sit, 150)
    for op, make, c in sit:
        f = rnd.choice(fl); x = make(f, c)
        if x is None: continue
        D, job = x; st = [v for k, v in job[1] if k == 's']; ivs = [v for k, v in job[1] if k == 'iv']
        def mk(D=D, st=st, ivs=ivs):
            j = D.job(st); return (j[0], j[1] + [('iv', v) for v in ivs])
        add(D, mk, over=rnd.random() < .4)
    # honest ones, several commands in a row
    for _ in range(60 if T else 16):
        f = rnd.choice(fl); D = f.D.clone(); st = [rnd.choice(['voucher', 'voucher', 'sign']) for _ in range(rnd.choice([1, 2, 3]))]
        add(D, lambda D=D, st=st: D.job(st + ['log']), 0, over=rnd.random() < .4, n=3)
    # vouchers given on standard input
    for _ in range(60 if T else 14):
        f = rnd.choice(fl); D = f.D.clone(); st, o = [], {}
        if rnd.random() < .35: D.set('nonce', rnd.choice(list(flow.NONCE.values())))
        for n in range(10):
            k = rnd.choice(['old', 'old', 'old', 'q', 'nonceless', 'othernonce', 'pinx', 'pinsub', 'byxs', 'both', 'tamper', 'pinunset', 'pinjunk', 'text', 'garbage', 'empty', 'rvr', 'byrs']); v = f.VOUCHER(k)
            if rnd.random() < .1: D.spoil(rnd.choice(['p.store0', 'p.idcert', 'p.signcert']), rnd.choice(FILES)) if n == 0 and 'p.store0' in D.f0 else None
            t = f.enc(v, rnd.choice(['plain', 'plain', 'plain', 'lines', 'nopad', 'garbage', 'cut', 'nul', 'tail', 'notcms', 'one', 'empty']))
            if rnd.random() < .15: t = t + b'\n' * (rnd.choice([4094, 4095, 4096, 4097, 9000]) - len(t))
            st.append('verify|%s|%s|%s' % ((dep.unb64(t.replace(b'\0', b'')) or b'').hex(), D.W.der[rnd.choice(['RT', 'RT', 'RT', 'RT2', 'XT', 'DR'])].hex(), t.hex())); o[n] = dict(out=rnd.choice(OUT))
        work.append((D, lambda D=D, st=st: D.job(st), o, None))
    # voucher requests and serial numbers, whatever is in the files
    for _ in range(90 if T else 24):
        f = rnd.choice(fl); D = f.D.clone(); st, o = [], {}
        for _ in range(rnd.choice([0, 0, 1, 1, 2])):
            p = rnd.choice([p for p in D.f0 if p[0] == 'p' or p == 'r.tlscert'])
            h = rnd.choice(FILES + ['unset'] * (p[-1] != '0'))
            if h != 'unset': D.spoil(p, h)
            elif not p[-1].isdigit(): D.spoil(p, 'unset')
        n = D.c['r']['tlscert']; t = D.f0.get(n, {}).get('cert', '') if n != 'unset' else ''
        st += ['pvr|' + (D.W.der[t].hex() if t else 'NULL')] * 2; o[0], o[1] = dict(out=''), dict(out=rnd.choice(OUT[3:]))
        for p in rnd.sample(list(D.f0), 5): st.append('serial|' + p)
        for _ in range(6): st.append('serial|=' + rnd.choice(list(D.w)))
        st += ['serial|?']
        work.append((D, lambda D=D, st=st: D.job(st), o, None))
    stack.conform(ctx, work)
