"""C17 the audit log records each successful enrolment once and in order"""
import random
import flow
from dep import logline
from flow import Flow, ENROL, enrolmodel, ALLE
BEFORE = [b'', b'', b'1700000000 0x3e9 "old" 0x4d "older"\n', b'1700000000 0x3e9 "a" 0x1 "b"\nsome other line\n1700000001 0x2 "\xc3\xa9" 0x3 "x"\n', b'x' * 5000 + b'\n']
PEERS = ['P', 'P', 'P', 'ODD', 'BIG', 'NEG', 'ZERO', 'LONG', 'FULL', 'PN', 'RS', 'Q', 'NUL', 'none']
def run(ctx):
    rnd = ctx.rnd
    ctx.par(enrolmodel(ctx, ALLE, prop='LogGrows', must=('Send', 'Sign', 'Restart', 'Get', 'GiveUp')), enrolmodel(ctx, prop='LogGrows', lax='log.truncate'))
    keys = {}; fl = [Flow(ctx, rnd, keys, odd=True, ldevid='root') for _ in range(6 if ctx.thorough else 3)]
    B = [f.make_bodies() for f in fl]
    jobs, at = [], {}
    for i in range(1200 if ctx.thorough else 150):
        k = rnd.randrange(len(fl)); f, bodies = fl[k], B[k]
        D = f.D.clone(); old = rnd.choice(BEFORE)
        D.oldlog = old; D.log0 = D.loglines(old)
        steps = []
        for _ in range(rnd.choice([3, 5, 8, 20])):
            r = rnd.random()
            enc = rnd.choice(['plain'] * 6 + ['lines', 'nopad', 'cut', 'garbage', 'empty', 'tail', 'nul'])
            if r < .6: steps.append(D.s_reg(f.enc(bodies[rnd.choice(list(bodies))], enc), rnd.choice(PEERS), path=ENROL))
            elif r < .68: steps.append(D.s_reg(f.enc(f.pvr(nonce=rnd.choice(['own', 'unset'])), enc), rnd.choice(PEERS)))
            elif r < .74: steps.append(D.s_reg(f.enc(f.rvr(f.pvr()), enc), 'RT', side='masa'))
            elif r < .8: steps.append('sign')
            elif r < .84: steps.append('restart')
            elif r < .9: # a file changes
                p = rnd.choice(['r.tlsca', 'r.tlscakey']); how = rnd.choice(['missing', 'junk', 'swap', 'swap', 'good'])
                v = dict(f.D.f0[p]); b = f.D.content(v)
                if how != 'good': v, b = D.spoiled(v, 'key' if v['key'] else 'cert', how)
                D.wrote[(len(steps), p)] = v
                steps.append('rm|' + D.path(p).encode().hex() if b is None else 'write|%s|%s' % (D.path(p).encode().hex(), b.hex()))
            elif r < .95: steps.append(D.s_reg(b'x', 'P', path='/.well-known/brski/' + rnd.choice(['enrollstatus', 'requestauditlog', 'voucher_status'])))
            if rnd.random() < .4: steps.append('log')
        steps.append('log')
        j = D.job(steps); jobs.append(j); at[id(j)] = D
    ctx.check_jobs('TraceFlow', jobs, lambda j, r: at[id(j)].session(at[id(j)].events(j, r)))
