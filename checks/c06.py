"""C06 trust in signed messages"""
import c08
from world import World, random_world
class Msgs:
    """Signed messages of a world, made once each."""
    def __init__(self, W): self.W, self.m = W, {}
    def get(self, signers, emb, mode):
        k = (tuple(signers), tuple(emb), mode)
        if k not in self.m:
            extra = [e for e in emb if e not in signers]
            if mode == 'nocerts': extra = []
            self.m[k] = self.W.cms(b'content', signers, extra, **({mode: 1} if mode else {}))
        return self.m[k]
def call(M, c):
    W = M.W
    m = bytearray(M.get(c['signers'], c['emb'], c['mode']))
    if not c['intact']: m[-3] ^= 4 # in the signature value
    p = [('cms', bytes(m))]
    if c['certs'] is None: pass
    elif c['certs']: p += [('certs', W.der[x]) for x in c['certs']]
    else: p.append(('certs0', 1))
    if not c['nostore']:
        st = [('store', W.der[x]) for x in c['store']] + [('crl', W.crl(*r)) for r in c['crls']]
        p += st or [('store0', 1)]
    return ('c_verify_cms', p)
def event(W, c, ok):
    emb = [] if c['mode'] == 'nocerts' else sorted(set(c['emb']) | set(c['signers']))
    return dict(op='cms', signers=c['signers'], emb=emb, certs=c['certs'] or [], store=c['store'], nostore=c['nostore'], intact=c['intact'],
                crls=[dict(iss=W.w[r[0]]['sub'], by=(r[2] if len(r) > 2 else W.w[r[0]]['key']), rev=list(r[1])) for r in c['crls']], ok=ok)
def case(signers, emb, store, certs=None, crls=(), mode='', intact=True, nostore=False):
    return dict(signers=list(signers), emb=list(emb), store=list(store), certs=certs, crls=list(crls), mode=mode, intact=intact, nostore=nostore)
def issued(w, p): return [c for c in w if w[c]['iss'] == w[p]['sub'] and w[c]['by'] == w[p]['key'] and c != p]
def rand_case(rnd, w):
    n = list(w); cas = [x for x in n if w[x]['ca']]
    s = rnd.sample(n, 1 if rnd.random() < .8 else 2) if len(n) > 1 else n
    crls = []
    if rnd.random() < .3:
        ca = rnd.choice(cas)
        ch = issued(w, ca)
        crls = [(ca, rnd.sample(ch, min(len(ch), rnd.randint(0, 1)))) + ((rnd.choice(cas) and w[rnd.choice(cas)]['key'],) if rnd.random() < .2 else ())]
    return case(s, rnd.sample(n, rnd.randint(0, min(4, len(n)))), rnd.sample(n, rnd.randint(0, min(3, len(n)))),
                certs=None if rnd.random() < .5 else rnd.sample(n, rnd.randint(0, 2)), crls=crls,
                mode=rnd.choice(['', '', '', 'skid0', 'noattr', 'nocerts']).replace('skid0', ''), intact=rnd.random() < .9, nostore=rnd.random() < .1)
def run(ctx):
    rnd = ctx.rnd
    g = ctx.par(lambda: ctx.gen('GenCms'), *c08.models(ctx))[0]
    w, cs = g[0]['w'], g[1:]
    may = [c for c in cs if c['may']]; no = [c for c in cs if not c['may']]
    if not ctx.thorough: may = rnd.sample(may, 450)
    W = World(ctx.d(), w); M = Msgs(W)
    cases = []
    for c in may + rnd.sample(no, 6000 if ctx.thorough else 900):
        cases.append((M, case([c['t']], c['emb'], c['store'], certs=c['certs'] or None, mode=rnd.choice(['', '', '', 'noattr']))))
    for c in rnd.sample(may, min(len(may), 2000 if ctx.thorough else 250)):
        k = rnd.randrange(6)
        b = dict(emb=c['emb'], store=c['store'], certs=c['certs'] or None)
        if k == 0: # a broken signature, with or without a store
            cases.append((M, case([c['t']], intact=False, nostore=rnd.random() < .3, **b)))
        elif k == 1: # the signer only in the additional list
            b['certs'] = (b['certs'] or []) + [c['t']]
            cases.append((M, case([c['t']], mode='nocerts', **b)))
            cases.append((M, case([c['t']], mode='nocerts', emb=c['emb'], store=c['store'])))
        elif k == 2: # a second signer
            cases.append((M, case([c['t'], rnd.choice([x for x in w if x != c['t']])], **b)))
        elif k == 3: cases.append((M, case([c['t']], nostore=True, **b)))
        else: # revocation lists: of every issuer, empty, of the chain, of another, by another key
            for ca in ('R', 'I', 'S'):
                ch = issued(w, ca)
                for rev in ([], [c['t']] if c['t'] in ch else [], rnd.sample(ch, 1) if ch else []):
                    cases.append((M, case([c['t']], crls=[(ca, rev)], **b)))
            cases.append((M, case([c['t']], crls=[('R', ['I'], 's')], **b)))
            cases.append((M, case([c['t']], crls=[('R', ['I'])], **b)))
            cases.append((M, case([c['t']], crls=[('R', ['D']), ('I', ['L'])], **b)))
    for t, st in (('E', ['E']), ('D', ['R']), ('L', ['R', 'I'])): # every way a message may be put together
        for mode in ('', 'noattr', 'nocerts'):
            for certs in (None, [], [t], ['I', 'R'], [t, 'I']):
                cases.append((M, case([t], ['I'], st, certs=certs, mode=mode)))
    keys = dict(W.keys); keys['rsaT'] = bytes.fromhex(ctx.d().ok('fx_key', type='rsa')['der']); keys['rsaU'] = bytes.fromhex(ctx.d().ok('fx_key', type='rsa')['der'])
    for k in range(250 if ctx.thorough else 30):
        x = random_world(rnd)
        if k % 2 == 0:
            for nk in ('rsaT', 'rsaU'):
                ks = rnd.choice(sorted({r['key'] for r in x.values()}))
                for r in x.values():
                    for f in ('key', 'by'):
                        if r[f] == ks: r[f] = nk
        X = Msgs(World(ctx.d(), x, keys))
        X.W.key('adv')
        for _ in range(25): cases.append((X, rand_case(rnd, x)))
    calls = [call(*c) for c in cases]
    meta = {id(c): j for c, j in zip(calls, cases)}
    def ev(cl, r):
        M, c = meta[id(cl)]
        return event(M.W, c, r['n'] >= 0)
    ctx.grouped('TracePki', calls, ev, head=lambda cl: dict(w=meta[id(cl)][0].W.w), batch=60, size=40)
    ctx.careful('TracePki', calls, lambda c, r: dict(w=meta[id(c)][0].W.w, ev=[ev(c, r)]), 40)
    ctx.assume.append('a chain is only required to be found where names leave no choice (module Pki, Plain) and at most one revocation list per issuer is given')
