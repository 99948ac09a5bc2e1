"""C08 certificate verification"""
from world import World, random_world
MC = 'SPECIFICATION Spec\nCONSTANT MaxCerts = %d\nCHECK_DEADLOCK FALSE\n'
WRONG = ('NamesOnly', 'AnyIssuer', 'NoRevocation', 'AnyAnchor')
GOODINV = 'INVARIANTS Sound Full Consistent PinOnly\n'
def models(ctx):
    return [lambda inv=inv: ctx.model('MCPki', MC % 3 + 'INVARIANT %s\n' % inv, expect=inv, cover=False, workers='1') for inv in WRONG] + \
        [lambda: ctx.model('MCPki', MC % 3 + GOODINV, must=('HonestIssue', 'AdvIssue', 'Revoke'))] + \
        [lambda: ctx.model('MCPki', MC % 4 + GOODINV, cover=False, workers='6', timeout=400)] * ctx.thorough
def args(W, c):
    p = [('cert', W.der[c['t']])]
    if c.get('nocerts'): pass
    elif c['certs']: p += [('certs', W.der[x]) for x in c['certs']]
    else: p.append(('certs0', 1))
    if not c['nostore']: p += [('store', W.der[x]) for x in c['store']] or [('store0', 1)]
    return p
def event(c, ok):
    return dict(op='cert', t=c['t'], certs=c['certs'], store=c['store'], nostore=c['nostore'], nocerts=bool(c.get('nocerts')), ok=ok)
def rand_case(rnd, w):
    n = list(w)
    return dict(t=rnd.choice(n), certs=rnd.sample(n, rnd.randint(0, min(4, len(n)))), nostore=rnd.random() < .4, store=rnd.sample(n, rnd.randint(0, 2)))
def run(ctx):
    rnd = ctx.rnd
    g = ctx.par(lambda: ctx.gen('GenPki'), *models(ctx))[0]
    w, cs = g[0]['w'], g[1:]
    may = [c for c in cs if c['may']]; no = [c for c in cs if not c['may']]
    n = 30000 if ctx.thorough else 2600
    cs = (may if ctx.thorough else rnd.sample(may, min(len(may), 1500))) + rnd.sample(no, min(n, len(no)))
    cs += [dict(c, nocerts=True, certs=[]) for c in rnd.sample(may, 40)]
    jobs = []
    W = World(ctx.d(), w)
    for c in cs: jobs.append((W, c))
    keys = dict(W.keys)
    for k in range(400 if ctx.thorough else 40):
        if k % 4 == 0: keys['rsaT'] = keys.get('rsaT') or bytes.fromhex(ctx.d().ok('fx_key', type='rsa')['der'])
        x = random_world(rnd)
        if k % 4 == 0: # an RSA key among them
            ks = rnd.choice(sorted({r['key'] for r in x.values()}))
            for r in x.values():
                for f in ('key', 'by'):
                    if r[f] == ks: r[f] = 'rsaT'
        X = World(ctx.d(), x, keys)
        for _ in range(25): jobs.append((X, rand_case(rnd, x)))
    # same-world questions share a session, a few at a time
    calls = [('c_verify_cert', args(X, c)) for X, c in jobs]
    meta = {id(c): j for c, j in zip(calls, jobs)}
    ctx.grouped('TracePki', calls, lambda call, r: event(meta[id(call)][1], r['rc'] == 0),
                head=lambda call: dict(w=meta[id(call)][0].w), batch=60, size=40)
    ctx.careful('TracePki', calls, lambda c, r: dict(w=meta[id(c)][0].w, ev=[event(meta[id(c)][1], r['rc'] == 0)]), 40)
    ctx.assume.append('a chain is only required to be found where names leave no choice (see module Pki, Plain)')
