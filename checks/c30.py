"""C30 requests and calls use up nothing"""
import collections, importlib, os, socket, ssl, threading, time
import check, dep, drv, flow, net, rulecheck, stack
import c28
from flow import Flow, ENROL, VOUCHER
MC = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Stages = %d
 Rounds = %d
 Ring = 3
 Errs <- SomeErrs
 Slips = {%s}
'''
WHAT = ('memory', 'descriptors', 'threads')
def rounds(held, about):
    """what was held after each round, as events"""
    o = []
    for w, h in zip(WHAT, zip(*held)): o.append(dict(op='rounds', what=w, about=about, held=[min(x - min(h), 2**30) for x in h]))
    return dict(ev=o)
class Collect(check.Ctx):
    """The calls another check makes, instead of that check"""
    def __init__(self, ctx, pid):
        super().__init__(pid, 'quick', ctx.seed); self.calls = []; self.dirs = ctx.dirs
    def model(self, *a, **kw): return {}
    def conform(self, *a, **kw): return []
    def careful(self, *a, **kw): pass
    def reject(self, *a, **kw): pass
    def pool(self, **kw):
        p = super().pool(**kw)
        if not hasattr(p, 'real'):
            p.real = p.map
            def note(jobs, batch=1):
                self.calls += jobs; return p.real(jobs, batch)
            p.map = note
        return p
    def grouped(self, module, calls, *a, **kw): return [] if kw.get('pool') else super().grouped(module, calls, *a, **kw)
    def close(self):
        if self._pool: self._pool.close()
        if self._d: self._d.close()
def calls_of(ctx, pid):
    C = Collect(ctx, pid)
    try:
        if pid[0] == 'c': importlib.import_module(pid).run(C)
        else: rulecheck.run(C, pid, [], quick=250, rand=100, happy=60)
    finally: C.close()
    o = []
    for op, kw in C.calls:
        if op == 'batch': o += [('', x) for k, x in kw if k == 'x']
        elif op not in ('conc', 'flow'): o.append((op, drv.line(op, kw)))
    return o
LIB = ['verify', 'rvr', 'masa', 'c06', 'c07', 'c08', 'c19', 'c20', 'c21', 'c22', 'c23', 'c24', 'c25', 'c26']
def library(ctx, n):
    """every function, many times over"""
    rnd = ctx.rnd; jobs = []; about = {}
    old = ctx.dirs
    for pid, cs in zip(LIB, ctx.par(*[lambda p=p: calls_of(ctx, p) for p in LIB])):
        by = collections.defaultdict(list)
        for op, l in cs: by[op].append(l)
        for op, ls in by.items():
            for l in rnd.sample(ls, min(len(ls), max(12, n // len(by)))):
                j = ('many', [('x', l), ('rounds', ctx.rounds), ('timeout', 120)]); jobs.append(j); about[id(j)] = '%s %s' % (pid, l.split('\t')[0])
    rnd.shuffle(jobs)
    ctx.check_jobs('TraceHoldings', jobs, lambda j, r: rounds(r['held'], about[id(j)]))
def handlers(ctx, n):
    """every situation of requests and of the pledge's commands, many times over"""
    rnd = ctx.rnd; keys = {}
    fl = [Flow(ctx, rnd, keys, odd=True, ldevid='root') for _ in range(4 if ctx.thorough else 2)]
    B = {id(f): f.make_bodies() for f in fl}; jobs = []; about = {}
    peer = {'odd': 'ODD', 'big': 'BIG'}
    for op, make in (('reg', Flow.reg), ('masa', Flow.masa), ('enrol', lambda f, c: f.enrol(dict(c, peer=peer.get(c['peer'], c['peer'])), B[id(f)])), ('attack', Flow.pledge), ('sign', Flow.sign), ('pins', Flow.pins)):
        cs = flow.cases(ctx, op, n, n // 2, dev='2'); b = rulecheck.base(cs)
        k = min(len(cs), n * 2 // 3)
        for c in rnd.sample(cs, k):
            x = make(rnd.choice(fl), c)
            if x is None: continue
            D, (_, kw) = x; s = [(k, v) for k, v in kw if k != 's']
            j = ('meter', s + [(k, v) for k, v in kw if k == 's' and v != 'log'] + [('rounds', ctx.rounds), ('timeout', 120)]); jobs.append(j)
            about[id(j)] = '%s %s' % (op, {k: v for k, v in c.items() if v != b[k]})
    # servers started and stopped again
    for f in fl:
        for D in [f.D.clone() for _ in range(4)]:
            if D is None: continue
            if rnd.random() < .7: D.spoil(rnd.choice(['r.tlsca', 'r.tlscakey', 'r.signcert', 'm.signcert', 'm.ldevid']), rnd.choice(['missing', 'junk', 'empty']))
            j = ('meter', D.job(['restart'])[1] + [('rounds', ctx.rounds), ('timeout', 120)]); jobs.append(j); about[id(j)] = 'restart'
    def session(j, r): return rounds(r['held'], about[id(j)]) if r['first'] is not None else None
    ctx.check_jobs('TraceHoldings', jobs, session)
# -- over the network: descriptors and threads
def settled(fn, aim, end=.6):
    """what is held once the last connection is done with"""
    t = time.time() + end
    while True:
        h = fn()
        if aim is None or time.time() > t or all(a <= b for a, b in zip(h, aim)): return h
        time.sleep(.004)
def metered(ctx, act, fns, n, name):
    """n rounds of act; fns: name -> what is held"""
    aim = {}; hist = collections.defaultdict(list)
    for r in range(n):
        act(r)
        for k, fn in fns.items():
            h = settled(fn, aim.get(k), .6 if r < n // 2 else .25); hist[k].append(h)
            aim[k] = h if r < 2 else [max(a, b) for a, b in zip(h, aim[k])] if r < n // 4 else aim[k]
    return [dict(ev=[dict(op='rounds', what=w, about='%s: %s' % (k, name), held=list(h)) for w, h in zip(WHAT[1:], zip(*hh))]) for k, hh in hist.items()]
def proc(pid): return [len(os.listdir('/proc/%d/%s' % (pid, x))) for x in ('fd', 'task')]
def raw(host, p, data, wait=False):
    try: s = socket.create_connection((host, p), 5)
    except OSError: return
    try:
        if data: s.sendall(data)
        if wait:
            s.shutdown(socket.SHUT_WR)
            while s.recv(4096): pass
    except OSError: pass
    finally: s.close()
def drop(host, p, c, data=b'', rst=False):
    """a connection that ends without an answer"""
    try: s = net.connect(host, p, c)
    except (OSError, ssl.SSLError): return
    try:
        if data: s.sendall(data)
        if rst: s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b'\1\0\0\0\0\0\0\0')
    except OSError: pass
    finally: s.close()
def layer(ctx, n):
    """the HTTPS layer, as a server and as a client"""
    rnd = ctx.rnd; N = c28.Net(ctx); px = {}; M = net.Net(env=dict(SSL_CERT_FILE=N.ca(['SYS']), SSL_CERT_DIR='/nonexistent')); ss = []
    try:
        N.serve('open', 'L1', None); N.serve('ca1', 'Lic', ['CA1']); N.servers['ca1']['cert'] = 'Li'
        srv = dict(server=lambda: N.n.call('held')[0][1:])
        def asks(id, k, reqs, tls=None):
            for t in reqs: N.n.call('answer', tag=t['tag'], status=t['h']['status'], body=t['h']['raw'], ct=t['h']['ct'], exc=t['h']['exc'] or None)
            f = None if k == 'none' else N.p(k); kf = None if k == 'none' else N.k(k)
            net.ask(*N.at[id], net.cctx(f, kf, tls), [(net.http(r['method'], r['path'] + r['query'], r['raw'], r['ct'] or None, [('X-Tag', r['tag'])], r['framing']), r['method'] == 'HEAD') for r in reqs], 10)
            N.n.call('taken')
        acts = []
        for i in range(14 if ctx.thorough else 6):
            rq = [c28.request(rnd, 'c%d' % i) for _ in range(rnd.choice([1, 2, 5]))]; id = rnd.choice(['open', 'ca1']); k = rnd.choice(['L1', 'none', 'L2', 'Li', 'Lf', 'S', 'L1e']); tls = rnd.choice([None, 12])
            acts.append(('requests of %s at %s' % (k, id), lambda r, a=(id, k, rq, tls): asks(*a)))
        for id in ('open', 'ca1'):
            h, p = N.at[id]; c = net.cctx(N.p('L1'), N.k('L1')); q = net.http('POST', '/a', b'x' * 3000, 'text/plain')
            acts += [(id + ' no TLS', lambda r, h=h, p=p: raw(h, p, b'GET / HTTP/1.1\r\n\r\n', True)), (id + ' nothing', lambda r, h=h, p=p: raw(h, p, b'')), (id + ' half a hello', lambda r, h=h, p=p: raw(h, p, b'\x16\x03\x01\x02\x00\x01', True)),
                     (id + ' no request', lambda r, h=h, p=p, c=c: drop(h, p, c)), (id + ' cut request', lambda r, h=h, p=p, c=c: drop(h, p, c, q[:len(q) // 2])), (id + ' no answer wanted', lambda r, h=h, p=p, c=c: drop(h, p, c, q, True)),
                     (id + ' old TLS', lambda r, h=h, p=p: drop(h, p, old()))]
        for name, act in acts: ss += metered(ctx, act, srv, n, name)
        # as a client
        cl = dict(client=lambda: M.call('held')[0][1:])
        for tls in (12, 13):
            for c in ('L1', 'Lf'): px[c, tls] = net.Server(N.p(c), N.k(c), tls=tls)
        def post(s, a, reply, first):
            s.reply = reply; s.got.clear(); M.call('post', host='127.0.0.1', port=s.port, **a)
        dead = net.port()
        kinds = ['length', 'chunked', 'close', 'nothing', 'garbage', 'cut', 'status', 'headers']
        for i in range(40 if ctx.thorough else 16):
            c, tls = rnd.choice(['L1', 'L1', 'Lf']), rnd.choice([12, 13]); kind = kinds[i % len(kinds)]; rp = c28.reply(rnd, kind)['bytes']
            a = dict(path='/a', body=rnd.randbytes(rnd.choice([0, 30, 20000])), ct='text/plain', key=N.k('L1'), cert=N.p('L1'))
            t = rnd.choice(['no', 'no', 'sys', 'CA1', 'CA2', 'junk'])
            if t == 'sys': a['verify'] = '1'
            elif t != 'no': a['ca'] = b'no certificate' if t == 'junk' else N.pems([t])
            ss += metered(ctx, lambda r, x=(px[c, tls], a, rp, t): post(*x), cl, n, 'post, %s, trusts %s, %s' % (c, t, kind))
        for name, over in (('nobody there', dict(port=dead)), ('no key', dict(key=N.dir + '/no.key', port=px['L1', 13].port)), ('wrong key', dict(key=N.k('L2'), port=px['L1', 13].port)), ('nobody there, trusts', dict(port=dead, ca=N.pems(['CA1'])))):
            a = dict(path='/a', body=b'x', ct='text/plain', key=N.k('L1'), cert=N.p('L1'), host='127.0.0.1'); a.update(over)
            px['L1', 13].reply = b'HTTP/1.1 200 x\r\nContent-Length: 0\r\n\r\n'
            ss += metered(ctx, lambda r, a=a: M.call('post', **a), cl, n, 'post, ' + name)
        # servers that cannot start
        busy = N.at['open'][1]
        for name, over in (('port in use', dict(port=busy)), ('no certificate', dict(cert=N.dir + '/no.pem')), ('no key', dict(key=N.dir + '/no.key')), ('wrong key', dict(key=N.k('L2'))), ('no address', dict(bind='203.0.113.9'))):
            a = dict(bind='127.0.0.1', port=dead, cert=N.p('L1'), key=N.k('L1'), id='x', route=['POST /a']); a.update(over)
            if name == 'port in use': continue # (the library shares ports)
            ss += metered(ctx, lambda r, a=a: M.call('serve', **a), cl, n, 'start, ' + name)
    except net.Died as e: ctx.reject('the HTTPS layer crashed', err=str(e))
    finally:
        N.n.close(); M.close()
        for s in px.values(): s.close()
    return ss
def old():
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); c.check_hostname = False; c.verify_mode = ssl.CERT_NONE
    c.set_ciphers('AES128-SHA'); c.maximum_version = ssl.TLSVersion.TLSv1_2
    return c
def program(ctx, n):
    """the program: registrar and MASA, asked over and over"""
    rnd = ctx.rnd; ss = []
    f = Flow(ctx, rnd, {}, odd=True, ldevid='root'); D = f.D.clone(); bodies = f.make_bodies()
    S = stack.Stack(D)
    try:
        S.start()
        if not (S.up['reg'] and S.up['masa']): raise RuntimeError('servers not up')
        fns = {s: lambda p=S.procs[s][0].pid: proc(p) for s in ('reg', 'masa')}
        peers = ['RT', 'RT', 'none', 'P', 'DR', 'XP']
        acts = []
        for op, q in (('reg', 14), ('masa', 10), ('enrol', 10)):
            cs = [c for c in flow.cases(ctx, op, q, q) if c.get('file', 'none') == 'none']
            for c in rnd.sample(cs, min(len(cs), 20 if ctx.thorough else 5)):
                if op == 'reg': b, p, path, side = f.enc(f.pvr(**c), c['enc']), c['peer'], VOUCHER, 'reg'
                elif op == 'masa': b, p, path, side = f.enc(f.rvr(f.pvr(), **{k: c[k] for k in ('serial', 'nonce', 'signer', 'intact', 'content')}), c['enc']), c['peer'], VOUCHER, 'masa'
                else: b, p, path, side = f.enc(bodies[c['body']], c['enc']), c['peer'], ENROL, 'reg'
                if p not in D.w and p != 'none': p = 'RT'
                acts.append(('%s %s %s' % (op, path, c), lambda r, a=(side, 'POST', path, b, p): S.ask(*a)))
        good = f.enc(f.pvr(), 'plain')
        acts.append(('reg ' + VOUCHER + ' good', lambda r: S.ask('reg', 'POST', VOUCHER, good, f.PS)))
        for side in ('reg', 'masa'):
            p = S.real[side]; c = net.cctx(S.pair('RT'), S.pair('RT')); q = net.http('POST', VOUCHER, good, 'application/voucher-cms+json')
            acts += [(side + ' no TLS', lambda r, p=p: raw('127.0.0.1', p, b'GET / HTTP/1.1\r\n\r\n', True)), (side + ' cut', lambda r, p=p, c=c, q=q: drop('127.0.0.1', p, c, q[:-50])), (side + ' gone', lambda r, p=p, c=c, q=q: drop('127.0.0.1', p, c, q, True)),
                     (side + ' elsewhere', lambda r, side=side: S.ask(side, 'POST', '/.well-known/brski/voucher_status', b'x', 'RT'))]
        for name, act in acts: ss += metered(ctx, act, fns, n, name)
        S.halt()
    except stack.Crash as e: ctx.reject(str(e))
    finally: S.close()
    return ss
def run(ctx):
    T = ctx.thorough; ctx.rounds = 60 if T else 40
    A = '"refusal", "success"'; m = MC % (4 if T else 3, 24 if T else 16, '%s')
    ctx.par(lambda: ctx.model('Holdings', m % A + 'INVARIANT Judged\n', must=('Begin', 'Take', 'End')),
            lambda: ctx.model('Holdings', m % '' + 'INVARIANTS Judged Steady Bounded\nPROPERTY Finishes\n', cover=False),
            lambda: ctx.model('Holdings', m % A + 'INVARIANT Steady\n', expect='Steady', cover=False),
            lambda: ctx.model('Holdings', m % A + 'INVARIANT Bounded\n', expect='Bounded', cover=False))
    handlers(ctx, 300 if T else 60)
    library(ctx, 400 if T else 50)
    n = 32 if T else 16
    for part in (layer, program):
        ss = part(ctx, n)
        fresh = {}
        def redo(i):
            if 'x' not in fresh: fresh['x'] = part(ctx, n * 2)
            return ([s for s in fresh['x'] if s['ev'][0]['about'] == ss[i]['ev'][0]['about']] or [dict(ev=[])])[0]
        ctx.conform('TraceHoldings', ss, redo=redo, lenient=True)
    ctx.assume.append('memory is what the allocator has given out and not got back, read after every round; over the network only descriptors and threads (sessions of TLS are kept for a while by the library)')
