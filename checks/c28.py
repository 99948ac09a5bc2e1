"""C28 the HTTPS layer delivers what was sent, from and to whom it says"""
import hashlib, json, os, threading
import dep, net
from msg import rec
from world import World
from check import tlc
MC = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Lax = {%s}\nConns = {%s}\n'
ALL = 'OnlyAdmitted AsThemselves OnlyRoutes OnlyTrusted OwnAnswer'
ROUTES = [('POST', '/.well-known/brski/requestvoucher'), ('POST', '/.well-known/est/simpleenroll'), ('GET', '/.well-known/est/cacerts'), ('POST', '/a'), ('PUT', '/a'), ('DELETE', '/a'), ('PATCH', '/a'), ('OPTIONS', '/a'), ('GET', '/a'), ('POST', '/a/b'), ('GET', '/get'), ('PUT', '/put')]
CT = ['application/voucher-cms+json', 'application/pkcs7-mime', 'text/plain', 'application/json', '']
CAS = dict(open=None, ca1=['CA1'], ca2=['CA2'], both=['CA1', 'CA2'], sub=['CAi'], none=[])
TRUST = dict(no=None, sys=['SYS'], CA1=['CA1'], CA2=['CA2'], both=['CA1', 'CA2'], CAi=['CAi'], S=['S'], junk=[], empty=[])
def world(): return dict(
    CA1=rec('CA1', 'CA1', 'ca1', 'ca1', True), CA2=rec('CA2', 'CA2', 'ca2', 'ca2', True), CAi=rec('CAi', 'CA1', 'cai', 'ca1', True), SYS=rec('SYS', 'SYS', 'sys', 'sys', True),
    L1=rec('L1', 'CA1', 'l1', 'ca1'), L1e=dict(rec('L1e', 'CA1', 'l1e', 'ca1'), val=False), Li=rec('Li', 'CAi', 'li', 'cai'), L2=rec('L2', 'CA2', 'l2', 'ca2'), Lf=rec('Lf', 'CA1', 'lf', 'ca2'),
    S=rec('S', 'S', 's', 's'), Ln=rec('Ln', 'L1', 'ln', 'l1'), LS=rec('LS', 'SYS', 'ls', 'sys'), R1=rec('R1', 'CA1', 'rsa_r1', 'ca1'))
class Net:
    def __init__(self, ctx):
        self.ctx = ctx; self.w = world(); self.W = World(ctx.d(), self.w); self.dir = ctx.scratch(); self.nm = {v: k for k, v in self.W.der.items()}
        for n in self.w: self.file(n, [n], n)
        self.file('Lic', ['Li', 'CAi'], 'Li'); self.file('Lnc', ['Ln', 'L1'], 'Ln')
        self.n = net.Net(env=dict(SSL_CERT_FILE=self.ca(['SYS']), SSL_CERT_DIR='/nonexistent'))
        self.servers = {}
    def file(self, name, certs, key):
        o = b''.join(dep.pem('CERTIFICATE', self.W.der[c]) for c in certs)
        with open('%s/%s.pem' % (self.dir, name), 'wb') as f: f.write(o)
        with open('%s/%s.key' % (self.dir, name), 'wb') as f: f.write(dep.keypem(self.W.key(self.w[key]['key'])))
    def p(self, name): return '%s/%s.pem' % (self.dir, name)
    def k(self, name): return '%s/%s.key' % (self.dir, name)
    def pems(self, names): return b''.join(dep.pem('CERTIFICATE', self.W.der[c]) for c in names)
    def ca(self, names):
        p = '%s/ca_%s.pem' % (self.dir, '_'.join(names))
        with open(p, 'wb') as f: f.write(self.pems(names))
        return p
    def who(self, k): # what a client shows: [cert, chain]
        return dict(cert={'Lic': 'Li'}.get(k, k), chain=['CAi'] if k == 'Lic' else ['L1'] if k == 'Ln' else [])
    def serve(self, id, cert, ca, host='127.0.0.1', routes=ROUTES, over={}):
        p = net.port(host); a = dict(bind=host, port=p, cert=self.p(cert), key=self.k(cert), id=id, route=['%s %s' % r for r in routes], bg=id)
        if ca is not None: a['ca'] = self.ca(ca) if ca else self.dir + '/nowhere.pem'
        a.update(over); a = {k: v for k, v in a.items() if v is not None}
        self.n.call('serve', **a); up = self.n.up(host, p, id)
        self.servers[id] = dict(cert=cert, ca=dict(given=ca is not None, set=ca or []), routes=[list(r) for r in routes])
        self.at = getattr(self, 'at', {}); self.at[id] = (host, p)
        return up
    def name(self, der): return 'none' if not der else self.nm.get(der, 'unknown')
    def text(self, b):
        return b.decode() if len(b) < 60 and all(32 <= c < 127 for c in b) else 'x' + hashlib.sha256(b).hexdigest()[:16]
    # -- as a server
    def ask(self, id, k, reqs, tls):
        """reqs: dicts with raw fields. Returns an event"""
        host, p = self.at[id]; n = self.n
        for r in reqs: n.call('answer', tag=r['tag'], status=r['h']['status'], body=r['h']['raw'], ct=r['h']['ct'], exc=r['h']['exc'] or None, wait=r.get('wait'))
        f = None if k == 'none' else self.p('Lnc' if k == 'Ln' else k); kf = None if k == 'none' else self.k('Lnc' if k == 'Ln' else k)
        shown, got = net.ask(host, p, net.cctx(f, kf, tls), [(net.http(r['method'], r['path'] + r['query'], r['raw'], r['ct'] or None, [('X-Tag', r['tag'])] + r['more'], r['framing']), r['method'] == 'HEAD') for r in reqs], 15)
        return dict(op='use', server=id, k=self.who(k), tls=tls, shown=self.name(shown), got=[self.answer(a) for a in got], calls=[self.calls(r['tag']) for r in reqs],
                    reqs=[dict(method=r['method'], path=r['path'], body=self.text(r['raw']), ct=r['ct'], h=dict(status=r['h']['status'], text=self.text(r['h']['raw']), ct=r['h']['ct'], exc={'int': 'Unknown Exception'}.get(r['h']['exc'], r['h']['exc']))) for r in reqs])
    def answer(self, a):
        if a is None: return []
        return [dict(status=a.status, text=self.text(a.body), ct=' AND '.join(a.get('Content-Type')))]
    def calls(self, tag):
        o = []
        for c in self.n.call('taken', tag=tag):
            h = lambda k: bytes.fromhex(c[k])
            o.append(dict(server=h('server').decode(), route=h('route').decode().split(' ', 1), body=self.text(h('body')), ct=h('ct').decode('latin1'), peer=self.name(h('peer'))))
        return o
    # -- as a client
    def post(self, c, body, ct, path, reply, first, px):
        """c: a case; px: the other server, which answers so"""
        ctx, n = self.ctx, self.n
        cert = 'Li' if c['cert'] == 'Lic' else c['cert']
        s = px[c['cert'], c['tls']]; s.reply = reply['bytes']; s.got.clear()
        kf = dict(none=('', ''), mismatch=(self.k('L2'), self.p('L1')), missing=(self.dir + '/no.key', self.dir + '/no.pem')).get(c['k']) or (self.k(c['k']), self.p(c['k']))
        t = TRUST[c['trust']]; first = c['trust'] in ('no', 'sys')
        a = dict(key=kf[0], cert=kf[1], host='127.0.0.1', port=s.port, path=path, body=body, ct=ct)
        if c['trust'] == 'sys': a['verify'] = '1'
        elif c['trust'] != 'no': a['ca'] = dict(junk=b'no certificate', empty=b'').get(c['trust'], self.pems(t))
        r = n.call('post', **a)
        sent = []
        for g in list(s.got):
            l = g['head'].split(b'\r\n'); m, pth, _ = (l[0].decode('latin1').split(' ') + ['', ''])[:3]
            h = {x.split(b':', 1)[0].lower(): x.split(b':', 1)[1].strip().decode('latin1') for x in l[1:] if b':' in x}
            if 'done' not in g and reply['kind'] not in ('nothing', 'garbage', 'cut'): continue
            sent.append(dict(method=m, path=pth, ct=h.get(b'content-type', ''), body=self.text(g['body']) if reply['bytes'] is not None else self.text(body), client=self.name(g['client'])))
        return dict(op='post', trust=dict(given=t is not None, set=t or []), cert=cert, chain=['CAi'] if c['cert'] == 'Lic' else [], kok=c['k'] not in ('mismatch', 'missing'), k=c['k'] if c['k'] in self.w else 'none', path=path, ct=ct, body=self.text(body), sent=sent,
                    reply=dict(whole=reply['whole'], status=reply['status'], text=self.text(reply['text'])), first=c['trust'] == 'no', res=dict(status=r['status'], text=self.text(bytes.fromhex(r['body'])), peer=self.name(bytes.fromhex(r.get('peer', '')))), what=[c['trust'], c['cert'], c['k'], c['reply'], c['tls']])
def rbytes(rnd, n): return bytes(rnd.randrange(256) for _ in range(n)) if n < 5000 else rnd.randbytes(n)
STRANGE = ('FOO', 'TRACE', 'get')
SIZES = [0, 1, 2, 30, 100, 1000, 4095, 4096, 8191, 8192, 8193, 16383, 16384, 16385, 40000, 200000]
def request(rnd, tag):
    m, p = rnd.choice(ROUTES) if rnd.random() < .7 else (rnd.choice(['GET', 'POST', 'PUT', 'HEAD', 'DELETE', 'PATCH', 'OPTIONS', 'FOO', 'TRACE', 'get']), rnd.choice([x[1] for x in ROUTES] + ['/', '/a/', '/A', '/aa', '/a/b/c', '/nothing', '/.well-known/brski', '/.well-known/brski/requestvoucher/', '/.well-known/brski/requestvoucherx', '//a', '/.well-known/est/cacert', '/xwell-known/est/cacerts', '//well-known/brski/requestvoucher', '/x/a']))
    if m == 'GET' and rnd.random() < .2: m = 'HEAD'
    has = m in ('POST', 'PUT', 'PATCH')
    raw = rnd.choice([lambda: rbytes(rnd, rnd.choice(SIZES)), lambda: b'MIIB' * rnd.randrange(1, 900), lambda: b'\r\n\r\n0\r\n\r\nHTTP/1.1 200 OK\r\n\r\n', lambda: bytes(rnd.randrange(1, 40)), lambda: b'{"a": "b"}'])() if has else b''
    st = rnd.choice([200, 200, 200, 201, 202, 299, 400, 400, 401, 403, 404, 413, 418, 499, 500, 502, 503, 504, 599])
    t = rnd.choice([lambda: b'', lambda: rbytes(rnd, rnd.choice(SIZES)), lambda: b'MIIC' * rnd.randrange(1, 900), lambda: b'sorry', lambda: b'a\0b', lambda: b'\r\n'])()
    return dict(tag=tag, method=m, path=p, query=rnd.choice(['', '', '', '?x=1', '?']) if p != '/' else '', raw=raw, ct=rnd.choice(CT) if raw else '', more=rnd.choice([[], [('Accept', '*/*')], [('X-Many', 'a'), ('X-Many', 'b')], [('Authorization', 'Basic eA==')]]),
                framing=rnd.choice(['length'] * 3 + ['chunked']) if raw else 'length', h=dict(status=st, raw=t, ct=rnd.choice(['text/plain', 'application/voucher-cms+json', 'application/json']), exc=rnd.choice(['boom', 'int']) if rnd.random() < .06 else ''))
def reply(rnd, kind):
    st = 200; t = rnd.choice([lambda: b'', lambda: rbytes(rnd, rnd.choice(SIZES)), lambda: b'MIIC' * rnd.randrange(1, 900), lambda: b'\0\0x', lambda: b'HTTP/1.1 404 Nope\r\n\r\n'])()
    if kind == 'status': st = rnd.choice([201, 202, 299, 301, 302, 307, 400, 401, 403, 404, 408, 418, 500, 502, 503, 599])
    more = b'Location: /elsewhere\r\n' if st in (301, 302, 307) else b''
    if kind == 'headers': more = b'X-A: ' + b'b' * rnd.randrange(1, 4000) + b'\r\nContent-Type: text/html\r\nSet-Cookie: a=b\r\n'
    H = b'HTTP/1.1 %d Something\r\n%s' % (st, more)
    b = dict(chunked=lambda: H + b'Transfer-Encoding: chunked\r\n\r\n' + b''.join(b'%X\r\n%s\r\n' % (len(x), x) for x in (t[i:i + 777] for i in range(0, len(t), 777))) + b'0\r\n\r\n',
             close=lambda: H + b'Connection: close\r\n\r\n' + t, nothing=lambda: b'', garbage=lambda: rnd.choice([b'220 mail.example.org ESMTP\r\n', b'HTTP/1.1\r\n\r\n', bytes(range(1, 200)), b'\r\n\r\n\r\n']),
             cut=lambda: H + b'Content-Length: %d\r\n\r\n%s' % (len(t) + 1 + rnd.randrange(300), t)).get(kind, lambda: H + b'Content-Length: %d\r\n\r\n%s' % (len(t), t))()
    return dict(kind=kind, bytes=b, status=st, text=t, whole=kind not in ('nothing', 'garbage', 'cut'))
def run(ctx):
    rnd = ctx.rnd
    m = lambda inv=None, lax='', conns='1, 2', **kw: lambda: ctx.model('MCHttps', MC % (lax and '"%s"' % lax, conns) + ('INVARIANT %s\n' % inv if inv else 'INVARIANTS ' + ALL + '\nPROPERTY Answered\n'), expect=inv, cover=False, **kw)
    g = ctx.par(lambda: ctx.gen('GenHttps'), m(), m('OnlyAdmitted', 'admit'), m('OnlyTrusted', 'trust'), m('AsThemselves', 'peer'), m('OnlyRoutes', 'prefix'), m('NobodyCalls'), m('NobodyRefused'))[0]
    if ctx.thorough: m(conns='1, 2, 3')()
    N = Net(ctx)
    px = {}
    try:
        try: work(ctx, rnd, N, px, g)
        except net.Died as e: ctx.reject('the HTTPS layer crashed', err=str(e))
    finally:
        N.n.close()
        for s in px.values(): s.close()
def work(ctx, rnd, N, px, g):
    for id in CAS: N.serve(id, dict(open='L1', ca1='Lic', ca2='R1').get(id, 'L2'), CAS[id])
    for id, s in N.servers.items(): s['cert'] = {'Lic': 'Li'}.get(s['cert'], s['cert'])
    todo = []; n = 0
    # as a server: the cases of the specification, then many requests of friends
    uses = [c for o, c in g if o == 'use'] * (4 if ctx.thorough else 1)
    uses += [dict(server=rnd.choice(['open', 'open', 'ca1', 'both']), k=rnd.choice(['L1', 'Lic', 'R1']), tls=rnd.choice([12, 13])) for _ in range(2500 if ctx.thorough else 250)]
    for c in uses:
        reqs = []
        for _ in range(rnd.choice([1, 2, 4])): n += 1; reqs.append(request(rnd, 't%d' % n))
        reqs.sort(key=lambda r: r['method'] in STRANGE); reqs = reqs[:1 + len([r for r in reqs if r['method'] not in STRANGE])] # (nothing is asked after a method unknown to HTTP)
        todo.append(lambda c=c, reqs=reqs: [N.ask(c['server'], c['k'], reqs, c['tls'])])
    # together: all of them inside at once
    for _ in range(120 if ctx.thorough else 12):
        ks = rnd.sample(['L1', 'L1e', 'Li', 'Lic', 'L2', 'Lf', 'S', 'LS', 'R1', 'CA1'], rnd.choice([2, 4, 6])); reqs = []
        for k in ks:
            n += 1; r = request(rnd, 't%d' % n); r.update(method='POST', path=rnd.choice(['/a', '/a/b', ROUTES[0][1]]), wait=len(ks)); r['h']['exc'] = ''; reqs.append(r)
        todo.append(lambda ks=ks, reqs=reqs: together(N, ks, reqs))
    # as a client
    posts = [c for o, c in g if o == 'post'] * (8 if ctx.thorough else 1)
    for cert in sorted({c['cert'] for c in posts}):
        for tls in (12, 13):
            px[cert, tls] = Facing(N.p(cert), N.k(cert), N.ca(['CA1', 'CA2']), tls)
    for c in posts:
        a = (rbytes(rnd, rnd.choice(SIZES)), rnd.choice(CT[:4]), rnd.choice([ROUTES[0][1], ROUTES[1][1], '/a']), reply(rnd, c['reply']))
        todo.append(lambda c=c, a=a: [N.post(c, *a, False, px)])
    sess = lambda ev: dict(w=N.w, servers=N.servers, ev=ev)
    evs = [t() for t in todo]
    ctx.conform('TraceHttps', [sess(e) for e in evs], redo=lambda i: sess(todo[i]()), lenient=True)
    # starting
    evs = starts(ctx, rnd, N)
    ctx.conform('TraceHttps', [sess([e[0]]) for e in evs], redo=lambda i: sess([evs[i][1]()]), lenient=True)
def together(N, ks, reqs):
    out = [None] * len(ks)
    def one(i):
        out[i] = N.ask('open', ks[i], [reqs[i]], 13)
    ts = [threading.Thread(target=one, args=(i,)) for i in range(len(ks))]
    [t.start() for t in ts]; [t.join() for t in ts]
    return out
def starts(ctx, rnd, N):
    """servers with files and addresses of all kinds"""
    n = [0]
    def one(kind):
        n[0] += 1; id = 'start%d' % n[0]; host = '127.0.0.1'; kw = {}
        kw.update(dict(nocert=dict(cert=N.dir + '/no.pem'), nokey=dict(key=N.dir + '/no.key'), unsetcert=dict(cert=None), unsetkey=dict(key=None), mismatch=dict(key=N.k('L2')), junkcert=dict(cert=N.k('L1')), junkkey=dict(key=N.p('L1'))).get(kind, {}))
        if kind == 'lo2': host = '127.0.0.2'
        if kind == 'name': host = 'localhost'
        if kind == 'noaddr': host = '192.0.2.1'
        if kind == 'taken': kw['port'] = N.at['open'][1]
        if kind in ('noaddr', 'taken'):
            p = kw.get('port') or net.port(); a = dict(bind=host, port=p, cert=N.p('L1'), key=N.k('L1'), id=id, route=['POST /a'], bg=id)
            N.n.call('serve', **a); import time; end = time.time() + 10
            while time.time() < end and N.n.call('ended', bg=id) is None: time.sleep(.02)
            return dict(op='start', kind=kind, possible=False, listens=False, elsewhere=False, ended=N.n.call('ended', bg=id) is not None)
        up = N.serve(id, 'L1', None, host, over=kw); del N.servers[id]
        h, p = N.at.pop(id); other = '127.0.0.1' if host == '127.0.0.2' else '127.0.0.3'
        return dict(op='start', kind=kind, possible=kind in ('ok', 'lo2', 'name'), listens=bool(up), elsewhere=up and net.listening(other, p), ended=not up and N.n.call('ended', bg=id) is not None)
    return [(one(k), lambda k=k: one(k)) for k in ('ok', 'nocert', 'nokey', 'unsetcert', 'unsetkey', 'mismatch', 'junkcert', 'junkkey', 'lo2', 'name', 'noaddr')]
class Facing(net.Server):
    """that also notes who the client is (certificates of the given CAs)"""
    def __init__(self, cert, key, ca, tls):
        self.ca = ca; super().__init__(cert, key, tls=tls)
        import ssl
        self.ctx.load_verify_locations(ca); self.ctx.verify_mode = ssl.CERT_OPTIONAL
