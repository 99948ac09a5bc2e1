"""C07 signing and verifying messages: exact bytes, exact signers"""
import drv
from der import Cms, enc
from pki import Pki
MC = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Bodies = {b1, b2}\nHonest = {h, g}\nAttacker = a\nMax = %d\n'
class Names:
    def __init__(self): self.m = {}
    def __call__(self, b, hint='u'):
        if b not in self.m: self.m[b] = '%s%d' % (hint, len(self.m))
        return self.m[b]
def run(ctx):
    rnd = ctx.rnd
    def models():
        for inv in ('OneIsEnough', 'Unbound', 'NoSigner'): ctx.model('MCCms', MC % 1 + 'INVARIANT %s\n' % inv, expect=inv, cover=False)
        ctx.model('MCCms', (MC if ctx.thorough else MC.replace('{h, g}', '{h}').replace('Max = %d', 'Max = %d')) % (1 if ctx.thorough else 2) + 'INVARIANTS Safe Trusted Live\n', must=('Honestly', 'Attack', 'Damage', 'Splice'))
    d = ctx.d(); P = Pki(d)
    R = P.cert('CN=root', ca=True); O = P.cert('CN=other', ca=True)
    RSA = P.cert('CN=rsaroot', ca=True, typ='rsa')
    who = {'h': P.cert('CN=h', issuer=R), 'g': P.cert('CN=g', issuer=R, typ='rsa'), 'a': P.cert('CN=a', issuer=R)}
    more = {'k': P.cert('CN=k', issuer=RSA), 'kr': P.cert('CN=kr', issuer=RSA, typ='rsa')}
    nm = Names()
    for k, c in list(who.items()) + list(more.items()): nm.m[c.der] = k
    for k, c in (('R', R), ('O', O), ('RSA', RSA)): nm.m[c.der] = k
    g, _ = ctx.par(lambda: ctx.gen('GenCmsMsg'), models)
    # -- what this library signs
    sizes = [0, 1, 2, 3, 15, 16, 17, 127, 128, 255, 256, 1023, 4096, 65535, 65536, 100000] + ([1 << 20, 3000001] if ctx.thorough else [])
    contents = [bytes(rnd.randrange(256) for _ in range(min(n, 70000))) + b'z' * max(0, n - 70000) for n in sizes]
    contents += [b'\r\n', b'a\nb\n', b'\0', b'\0' * 40, b'Content-Type: text/plain\r\n\r\nhello', b'\xff' * 9, b'{"a":1}\n']
    calls, meta = [], []
    for x in contents:
        for w in ('h', 'g', 'k', 'kr'):
            c = who.get(w) or more[w]
            rsa = w in ('g', 'kr')
            for kind in ('auto', 'rsa' if rsa else 'ec'):
                add = rnd.choice([None, [], [R], [R, O], [c], [O, R, RSA]])
                if len(x) > 5000 and kind != 'auto': continue
                p = [('data', x), ('cert', c.der), ('key', c.key), ('kind', kind)]
                p += [] if add is None else [('certs', y.der) for y in add] or [('certs0', 1)]
                calls.append(('c_sign_cms', p)); meta.append((x, w, add or [], True))
    for w, kind, key in (('h', 'auto', 'g'), ('g', 'auto', 'h'), ('h', 'ec', 'a'), ('h', 'rsa', 'h'), ('g', 'ec', 'g'), ('a', 'auto', 'h')):
        calls.append(('c_sign_cms', [('data', b'x'), ('cert', who[w].der), ('key', who[key].key), ('kind', kind)])); meta.append((b'x', w, [], False))
    def session(j, r):
        x, w, add, fit = meta[idx[id(j)]]
        e = dict(op='sign', body=nm(x, 'b'), who=w, add=[nm(y.der) for y in add], fit=fit, n=min(r['n'], 1 << 30), sigok=False, content='', signers=[], certs=[])
        ev = [e]
        if r['n'] >= 0:
            m = bytes.fromhex(r['cms'])
            f = d.ok('fx_cms_parse', der=m)
            e.update(sigok=f['sigok'], content=nm(bytes.fromhex(f['content'])) if f['content'] is not None else 'none', signers=[nm(bytes.fromhex(s)) for s in f['signers']], certs=[nm(bytes.fromhex(s)) for s in f['certs']])
            mine.append((m, x, w))
            for st in (None, [R, RSA]): # and verifies it again
                v = d.ok('c_verify_cms', cms=m, **({} if st is None else dict(store=[y.der for y in st])))
                ev.append(dict(op='verify', body=nm(x), sis=[dict(who=w, over=nm(x), ok=True)], emb=[w] + [nm(y.der) for y in add], more=[], ok=v['n'] >= 0,
                               data=nm(bytes.fromhex(v['data'])) if v['n'] >= 0 else '', out=[nm(bytes.fromhex(o)) for o in v['out'] or []] if v['n'] >= 0 else []))
        return dict(ev=ev)
    mine = []; idx = {id(c): i for i, c in enumerate(calls)}
    ctx.check_jobs('TraceCms', calls, session)
    # -- messages put together from parts
    bodies = {'b1': b'{"first":1}', 'b2': b'the second body, longer than the first'}
    for b, x in bodies.items(): nm.m[x] = b
    parts = {}
    for w, c in who.items():
        for b, x in bodies.items():
            if w == 'h': m = bytes.fromhex(d.ok('c_sign_cms', data=x, cert=c.der, key=c.key)['cms'])
            else: m = P.cms(x, c)
            parts[w, b] = Cms(m)
    def build(c):
        m = Cms(parts['h', c['body']].der())
        m.certs = [who[x].der for x in c['certs']]
        m.algs = sorted({a for p in parts.values() for a in p.algs})
        m.sis = []
        for s in c['sis']:
            si = bytearray(parts[s['who'], s['over']].sis[0])
            if not s['ok']: si[-1 - rnd.randrange(20)] ^= 1 << rnd.randrange(8)
            m.sis.append(bytes(si))
        return m.der()
    pick = [c for c in g if c['valid']] + rnd.sample([c for c in g if not c['valid']], 2600 if ctx.thorough else 700)
    prel = [dict(op='made', body=b, who=['h', 'g', 'a']) for b in bodies]
    calls, cm = [], {}
    for c in pick:
        for st in (False, True):
            if st and not ctx.thorough and rnd.random() < .5: continue
            j = ('c_verify_cms', [('cms', build(c))] + [('certs', who[x].der) for x in c['more']] + ([('store', R.der)] if st else []))
            calls.append(j); cm[id(j)] = c
    def vev(j, r):
        c = cm[id(j)]
        return dict(op='verify', body=c['body'], sis=c['sis'], emb=c['certs'], more=c['more'], ok=r['n'] >= 0,
                    data=nm(bytes.fromhex(r['data'])) if r['n'] >= 0 else '', out=[nm(bytes.fromhex(o)) for o in r['out'] or []] if r['n'] >= 0 else [])
    ctx.grouped('TraceCms', calls, vev, head=lambda j: {}, batch=50, size=40, prelude=prel)
    # -- and what the libraries do with it
    V = drv.valgrind(ctx)
    try:
        some = rnd.sample(calls, 400 if ctx.thorough else 48)
        ctx.grouped('TraceCms', some, vev, head=lambda j: {}, batch=6, size=40, prelude=prel, pool=V)
    finally: V.close()
    # -- damage of every kind to real messages
    base = [(m, x, w) for m, x, w in mine if len(x) < 300]
    base = rnd.sample(base, 12 if ctx.thorough else 3)
    two = P.cms(b'two signers', who['h']); t2 = Cms(two)
    two = bytes.fromhex(d.ok('fx_cms', content=b'two signers', cert=[who['h'].der, who['g'].der], key=[who['h'].key, who['g'].key])['der'])
    base += [(two, b'two signers', None), (P.cms(b'no attributes', who['h'], noattr=1), b'no attributes', 'h')]
    prel = [dict(op='made', body=nm(x), who=[w] if w else ['h', 'g']) for m, x, w in base]
    X = []
    for n, (m, x, w) in enumerate(base):
        pos = range(len(m)) if ctx.thorough or n == 0 else rnd.sample(range(len(m)), 250)
        for i in pos:
            for bit in (range(8) if ctx.thorough else [rnd.randrange(8)]):
                y = bytearray(m); y[i] ^= 1 << bit; X.append(bytes(y))
        for i in (range(len(m)) if ctx.thorough else rnd.sample(range(len(m)), 60)): X.append(m[:i])
        X.append(m + b'\0'); X.append(m + m); X.append(b'\0' + m)
        for _ in range(400 if ctx.thorough else 60):
            i, j = sorted(rnd.sample(range(len(m) + 1), 2)); o = rnd.choice(base)[0]
            k = rnd.randrange(4)
            X.append(m[:i] + m[j:] if k == 0 else m[:j] + m[i:] if k == 1 else m[:i] + o[i:j] + m[j:] if k == 2 else m[:i] + bytes(rnd.randrange(256) for _ in range(j - i)) + m[j:])
        c = Cms(m) # with lengths made to fit
        for z in (b'', x[:-1], x + b'!', x.replace(x[:1], b'Q', 1), b'another'):
            c2 = Cms(m); c2.econt = enc(0x30, val_oid() + enc(0xa0, enc(4, z))); X.append(c2.der())
        c2 = Cms(m); c2.econt = enc(0x30, val_oid()); X.append(c2.der())          # detached
        c2 = Cms(m); c2.sis = []; X.append(c2.der())
        c2 = Cms(m); c2.sis = c2.sis * 2; X.append(c2.der())
        c2 = Cms(m); c2.certs = [who['a'].der]; X.append(c2.der())
    X += [b'', b'\0', b'0\x80', b'0\x80\0\0', b'\x30\x84\xff\xff\xff\xff', R.der, b'A' * 5000]
    calls = [('c_verify_cms', [('cms', y)] + ([('store', R.der), ('store', RSA.der)] if rnd.random() < .5 else [('certs', who['h'].der)] if rnd.random() < .3 else [])) for y in X]
    ctx.grouped('TraceCms', calls, lambda j, r: dict(op='bytes', store=any(k == 'store' for k, _ in j[1]), ok=r['n'] >= 0, data=nm(bytes.fromhex(r['data'])) if r['n'] >= 0 else '',
                out=[nm(bytes.fromhex(o)) for o in r['out'] or []] if r['n'] >= 0 else []), head=lambda j: {}, batch=50, size=100, prelude=prel)
    ctx.assume.append('no collision or forgery of SHA-256, ECDSA or RSA is attempted')
def val_oid(): return bytes.fromhex('06092a864886f70d010701')
