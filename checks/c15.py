"""C15 no request, however malformed, disturbs a server or later requests"""
import base64
import flow, msg
from flow import Flow, ENROL, VOUCHER
from rulecheck import brski
PEERS = ['P', 'Q', 'none', 'PN', 'XP', 'RS', 'NUL', 'LONG', 'ODD', 'BIG', 'NEG', 'ZERO', 'FULL', 'PC', 'MS', 'XT']
FILES = ['r.tlscert', 'r.signcert', 'r.signkey', 'r.add0', 'r.certs0', 'r.store0', 'r.tlsca', 'r.tlscakey', 'm.ldevid', 'm.signcert', 'm.signkey', 'm.store0', 'm.add0', 'p.store0', 'p.signkey']
OTHER = [('GET', '/.well-known/brski/requestvoucher'), ('POST', '/'), ('POST', '/.well-known/brski/'), ('PUT', VOUCHER), ('DELETE', ENROL), ('POST', '/.well-known/est/cacerts'), ('GET', '/.well-known/est/cacerts'),
         ('POST', '/.well-known/brski/voucher_status'), ('POST', '/.well-known/brski/requestauditlog'), ('POST', '/.well-known/brski/enrollstatus'), ('GET', '/.well-known/est/csrattrs'), ('POST', '/.well-known/est/fullcmc'), ('POST', VOUCHER + '/'), ('OPTIONS', ENROL)]
def mutate(rnd, m):
    m = bytearray(m); k = rnd.randrange(7)
    if k == 0: return bytes(m[:rnd.randrange(len(m))])
    if k == 1:
        i = rnd.randrange(len(m)); del m[i:i + rnd.choice([1, 2, 30])]
    elif k == 2:
        i = rnd.randrange(len(m)); m[i:i] = bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 4, 100])))
    elif k == 3:
        for _ in range(rnd.choice([1, 1, 3, 20])): m[rnd.randrange(len(m))] ^= 1 << rnd.randrange(8)
    elif k == 4:
        i = rnd.randrange(min(len(m), 60)); m[i] = rnd.choice([0, 0x7f, 0x80, 0xff, 0x30, 0x84])
    elif k == 5:
        i, j = rnd.randrange(len(m)), rnd.randrange(len(m)); m[i:i + 40] = m[j:j + 40]
    else: m = bytearray(rnd.randrange(256) for _ in range(rnd.choice([0, 1, 2, 16, 300])))
    return bytes(m)
def content(f, rnd):
    """a well signed message of a trusted pledge with odd content: what may a server make of it"""
    x = rnd.choice([b'', b'{', b'{}', b'[]', b'null', b'{"ietf-voucher:voucher":{}}', b'{"ietf-voucher:voucher":[]}', b'{"ietf-voucher:voucher":{"serial-number":"%s"}}' % f.sn.encode(), b'{"ietf-voucher:voucher":' * 500,
                    b'{"ietf-voucher:voucher":{"nonce":""}}', b'{"ietf-voucher:voucher":{"assertion":"proximity"', b'\0' * 300, b'{"ietf-voucher:voucher":{"serial-number":"' + b's' * 5000 + b'"}}',
                    b'{"ietf-voucher:voucher":{"prior-signed-voucher-request":"AAAA","serial-number":"%s"}}' % f.sn.encode(), b'{"ietf-voucher:voucher":{"created-on":"20260101"}}', b'{"x":' + b'[' * 3000])
    who = rnd.choice([f.PS, 'Q', 'RS', 'XS'])
    return f.get(('odd', x, who), lambda: f.W.cms(x, [who], [e for e in f.emb('p' if who in (f.PS, 'Q') else 'r') if e != who]))
def body(f, rnd, bodies):
    r = rnd.random()
    if r < .25: m = f.PVR(rnd.choice(['old', 'q', 'qasp', 'twin', 'proxx', 'nonceless', 'otherserial', 'both', 'text', 'tamper', 'logged']))
    elif r < .5: m = f.RVR(rnd.choice(['old', 'xs', 'mixed', 'priorx', 'noprior', 'othernonce', 'text', 'q', 'priortamper']))
    elif r < .6: m = f.VOUCHER(rnd.choice(['old', 'q', 'pinunset']))
    elif r < .75: m = content(f, rnd)
    else: m = bodies[rnd.choice(list(bodies))]
    if rnd.random() < .45: m = mutate(rnd, m)
    if rnd.random() < .02: m = m * rnd.choice([50, 300])
    return f.enc(m, rnd.choice(['plain'] * 10 + ['lines', 'nopad', 'cut', 'garbage', 'empty', 'one', 'nul', 'tail'])) if rnd.random() < .95 else m
def run(ctx):
    rnd = ctx.rnd
    ctx.par(brski(ctx, 'EndorsesOnlyOwn', net=2), flow.servers(ctx), flow.servers(ctx, lax='history'))
    keys = {}; fl = [Flow(ctx, rnd, keys, odd=True, ldevid='root') for _ in range(8 if ctx.thorough else 3)]
    B = [f.make_bodies() for f in fl]
    jobs, at = [], {}
    for i in range(1500 if ctx.thorough else 90):
        k = rnd.randrange(len(fl)); f, bodies = fl[k], B[k]
        D = f.D.clone(); steps = []; broken = {}
        for _ in range(rnd.choice([8, 15, 40])):
            r = rnd.random()
            if r < .7: # something arrives
                side = rnd.choice(['reg', 'reg', 'masa'])
                path = rnd.choice([VOUCHER, VOUCHER, ENROL if side == 'reg' else VOUCHER])
                method = 'POST'
                if rnd.random() < .1: method, path = rnd.choice(OTHER)
                steps.append(D.s_reg(body(f, rnd, bodies), rnd.choice(PEERS[:2] * 8 + PEERS), path=path, method=method, side=side))
            elif r < .85: steps.append(rnd.choice(['voucher', 'sign']))
            elif r < .87: steps.append('restart')
            elif r < .92 and not broken: # a file breaks, and is put back later
                p = rnd.choice([x for x in FILES if x in f.D.f0]); v = dict(f.D.f0[p]); how = rnd.choice(['missing', 'empty', 'junk', 'swap', 'swap', 'twin', 'twin', 'text'])
                v, b = D.spoiled(v, 'key' if v['key'] else 'cert', how); broken[p] = True
                D.wrote[(len(steps), p)] = v
                steps.append('rm|' + D.path(p).encode().hex() if b is None else 'write|%s|%s' % (D.path(p).encode().hex(), b.hex()))
            elif r < .97 and broken:
                p = broken.popitem()[0]; v = dict(f.D.f0[p]); D.wrote[(len(steps), p)] = v
                steps.append('write|%s|%s' % (D.path(p).encode().hex(), f.D.content(v).hex()))
            else: steps.append('log')
        for p in broken:
            v = dict(f.D.f0[p]); D.wrote[(len(steps), p)] = v
            steps.append('write|%s|%s' % (D.path(p).encode().hex(), f.D.content(v).hex()))
        steps += ['voucher', 'sign', 'log']
        j = D.job(steps); jobs.append(j); at[id(j)] = D
    # a file gives way to another of its size (and soon to the first again) between the same requests
    for p in FILES:
        for k, f in enumerate(fl if ctx.thorough else [rnd.choice(fl)]):
            if p not in f.D.f0: continue
            for what in (['voucher', 'enrol', 'sign', 'masa'] if ctx.thorough else ['enrol' if 'tlsca' in p else 'masa' if p[0] == 'm' else 'voucher']):
                D = f.D.clone(); steps = []
                ask = dict(voucher='voucher', sign='sign', enrol=D.s_reg(base64.b64encode(f.W.der['P']), 'P', path=ENROL), masa=D.s_reg(base64.b64encode(f.RVR('old')), 'RT', side='masa'))[what]
                pair = [p] + {'r.tlsca': ['r.tlscakey'], 'r.signcert': ['r.signkey'], 'm.signcert': ['m.signkey']}.get(p, [])
                for turn in (1, 0, 1, 0):
                    steps.append(ask)
                    for q in pair:
                        v = dict(f.D.f0[q])
                        if turn: v, _ = D.spoiled(v, 'key' if v['key'] else 'cert', 'twin')
                        D.wrote[(len(steps), q)] = v
                        steps.append('write|%s|%s' % (D.path(q).encode().hex(), D.content(v).hex()))
                j = D.job(steps + ['voucher', 'sign', 'log']); jobs.append(j); at[id(j)] = D
    def session(j, r):
        D = at[id(j)]; ev = D.events(j, r)
        return D.session(ev[:-3] + [dict(op='honest')] + ev[-3:])
    ctx.check_jobs('TraceFlow', jobs, session)
    ctx.careful('TraceFlow', jobs, session, 8)
