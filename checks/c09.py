"""C09 a pledge request states exactly what the pledge knows"""
import base64, os, random
import rulecheck
from rulecheck import brski
from dep import Dep
MODEL = [('cms', 'PinsOnlyVouched')]
TIMES = dict(good=['2020-02-29T23:59:58Z', '1999-12-31T23:59:59Z', '9999-01-01T00:00:00Z', '1970-01-01T00:00:00Z'], bad=['2020-13-01T00:00:00Z', 'yesterday', '2020-02-29', '2020-02-29T24:61:00Z', '2020-02-30x'])
NONCES = dict(good=[b'\0', b'n' * 3, b'\xff' * 16, bytes(range(200))], bad=['!!!!', 'A', 'QUJDR', '=='])
HOW = ['missing', 'empty', 'junk', 'der', 'swap', 'both', 'text', 'unset']
def run(ctx):
    rnd = ctx.rnd
    rulecheck.run(ctx, 'pvr', [brski(ctx, 'PinsOnlyVouched', lax='pledge.nonce'), brski(ctx, 'EndorsesOnlyOwn', lax='reg.proximity', net=2), brski(ctx, 'EndorsesOnlyOwn', net=2, tries=2)])
    # with a configuration
    keys = {}; base = [Dep(ctx, rnd, keys, extra=e) for e in ((0, 3, 1, 0, 2) if ctx.thorough else (0, 3))]
    jobs, at = [], {}
    def add(D, tls='RT', op='pvr'):
        t = dict(RT=D.W.der['RT'], none=None, ca=D.W.der['DR'], junk=b'whatever it sent').get(tls)
        if tls == 'junk': D.nm.add(t, 'junk')
        h = 'NULL' if t is None else t.hex()
        f = os.path.join(D.dir, 'out.smime')
        j = D.job(['pvr|' + h] if op == 'pvr' or t is None else ['pvr|' + h, 'pvrfile|%s|%s' % (h, f.encode().hex())])
        jobs.append(j); at[id(j)] = (D, f)
    def change(D, what, v):
        if what in ('created', 'nonce', 'serial'): D.set(what, v)
        else: D.spoil(what, v)
        return D
    each = [('created', t) for t in [None] + TIMES['good'] + TIMES['bad']] + [('nonce', n) for n in [None] + NONCES['good'] + NONCES['bad']] \
        + [('serial', s) for s in (None, 'x', 'a b', 's' * 127, 's' * 128, 's' * 200)] + [(f, h) for f in ('p.signcert', 'p.signkey', 'p.add0', 'p.idcert', 'p.store0', 'r.tlscert') for h in HOW if not (h == 'unset' and '0' in f)]
    for B in base:
        for t in ('RT', 'none', 'ca', 'junk'): add(B.clone(), t)
        add(B.clone(), op='pvrfile')
        for what, v in each:
            if what in ('p.add0', 'p.store0') and what not in B.f0: continue
            add(change(B.clone(), what, v), op=rnd.choice(['pvr', 'pvrfile']))
        for _ in range(120 if ctx.thorough else 12):
            D = B.clone()
            for what, v in rnd.sample(each[:26], 3):
                change(D, what, v)
            add(D, rnd.choice(['RT', 'RT', 'ca']))
    def session(j, r):
        D, f = at[id(j)]
        ev = D.events(j, r)
        if len(r['steps']) == 2: # the same, written to a file
            e = dict(op='pvr', tls=ev[0]['tls'], m=[], std=True)
            if r['steps'][1]['rc'] >= 0: e['m'] = D.m(smime(open(f, 'rb').read()))
            ev.append(e)
        return D.session(ev)
    ctx.check_jobs('TraceFlow', jobs, session)
def smime(b):
    from dep import unb64
    t = b.split(b'\n\n', 1)
    if b.startswith(b'-----BEGIN'): t = ['', b''.join(b.split(b'\n')[1:-2])]
    elif len(t) < 2: return b
    return unb64(t[1])
