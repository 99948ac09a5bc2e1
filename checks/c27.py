"""C27 the servers of the real program, asked over TLS"""
import base64
import flow, stack
from flow import Flow, ENROL, VOUCHER
from c28 import MC, ALL
B = '/.well-known/brski/'; E = '/.well-known/est/'
PATHS = [B + x for x in ('voucher_status', 'requestauditlog', 'enrollstatus', 'nothing', 'requestvoucher/', 'voucher_status/x')] + [E + x for x in ('cacerts', 'csrattrs', 'simplereenroll', 'fullcmc', 'serverkeygen', 'nothing')] + ['/', '/x', '//', '/.well-known/', B, E, '/.well-known/brski', '/x' + VOUCHER] + ['/xwell-known' + p[len('/.well-known'):] for p in (VOUCHER, ENROL, E + 'cacerts')]
METHODS = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS']
def other(f, D, rnd, peers):
    """a request that is no voucher request and no enrolment"""
    m, p = rnd.choice(METHODS), rnd.choice(PATHS); side = rnd.choice(['reg', 'masa'])
    if rnd.random() < .6: m = 'GET' if p in (E + 'cacerts', E + 'csrattrs') else 'POST'
    if rnd.random() < .2 and m != 'POST': p = rnd.choice([VOUCHER, ENROL])
    if side == 'masa' and rnd.random() < .1: m, p = 'POST', ENROL
    b = rnd.choice([b'', b'junk', base64.b64encode(f.pvr()), bytes(range(256)), b'x' * 30000]) if m in ('POST', 'PUT', 'PATCH') else b''
    return D.s_reg(b, rnd.choice(peers), path=p, method=m, side=side), []
def run(ctx):
    rnd = ctx.rnd; keys = {}; T = ctx.thorough
    m = lambda inv=None, lax='': lambda: ctx.model('MCHttps', MC % (lax and '"%s"' % lax, '1, 2') + ('INVARIANT %s\n' % inv if inv else 'INVARIANTS ' + ALL + '\nPROPERTY Answered\n'), expect=inv, cover=False)
    got = ctx.par(lambda: {op: flow.cases(ctx, op, q, 60) for op, q in (('reg', 60), ('masa', 60), ('enrol', 60))}, m(), m('OnlyAdmitted', 'admit'), m('OnlyRoutes', 'prefix'))[0]
    work = []
    fl = [Flow(ctx, rnd, keys, odd=True, ldevid='root') for _ in range(6 if T else 3)]
    bodies = {id(f): f.make_bodies() for f in fl}
    peer = lambda c: {'odd': 'ODD', 'big': 'BIG', 'long': 'LONG'}.get(c['peer'], c['peer'])
    def step(f, D, op, c):
        if op == 'reg': return f.regstep(D, c)
        if op == 'masa': return f.masastep(D, c), []
        return D.s_reg(f.enc(bodies[id(f)][c['body']], c['enc']), peer(c), path=ENROL), []
    # requests of all kinds, one after the other
    al = [(op, c) for op, cs in got.items() for c in cs]
    plain = [x for x in al if x[1].get('file', 'none') == 'none' and x[1].get('expires', 'good') == 'good']; rnd.shuffle(plain)
    special = [x for x in al if not (x[1].get('file', 'none') == 'none' and x[1].get('expires', 'good') == 'good')]
    size = 24
    for i in range(0, len(plain), size):
        f = rnd.choice(fl); D = f.D.clone(); st = [step(f, D, *x) for x in plain[i:i + size]]
        st += [other(f, D, rnd, ['none', 'P', 'RT', 'RT', 'RT', 'XP', 'DR', 'RS', 'FT', 'XT', 'RT2']) for _ in range(16)]; rnd.shuffle(st)
        work.append((D, lambda D=D, st=st: D.job([s for s, _ in st] + ['log'], [(n, *v) for n, (_, iv) in enumerate(st) for v in iv]), {}, None))
    # with one thing wrong in the configuration or the files
    sp = special if T else rnd.sample(special, min(len(special), 130))
    tls = [dict(file=f, how=h) for f in ('r.tlscert', 'r.tlskey', 'm.tlscert', 'm.tlskey', 'r.tlsca') for h in ('swap', 'missing', 'empty', 'junk', 'der', 'both', 'text', 'unset')]
    for op, c in sp + [('tls', c) for c in tls]:
        f = rnd.choice(fl)
        if op != 'tls': D = f.spoilt(c)
        else:
            D = f.D.clone()
            if c['how'] == 'unset' and c['file'] != 'r.tlsca': D.c[c['file'][0]][c['file'][2:]] = 'unset'
            else: D.spoil(c['file'], c['how'])
        if D is None: continue
        if op == 'masa': f.expires(D, c)
        st = [step(f, D, op, c)] if op != 'tls' else []
        for o, cs in got.items():
            if o == op or op == 'tls' or rnd.random() < .3:
                for k in rnd.sample(plain, 200):
                    if k[0] == o: st.append(step(f, D, *k)); break
        st += [other(f, D, rnd, ['none', 'P', 'RT', 'RT', 'XP', 'XT', 'FT']) for _ in range(6 if op == 'tls' else 1)]; rnd.shuffle(st)
        work.append((D, lambda D=D, st=st: D.job([s for s, _ in st] + ['log'], [(n, *v) for n, (_, iv) in enumerate(st) for v in iv]), {}, None))
    stack.conform(ctx, work)
