"""C14 concurrent requests get the answers they would get alone"""
import drv, flow, stack
from flow import Flow, ENROL, VOUCHER
PLEDGES = [('P', {}), ('P', dict(nonce='unset')), ('P', dict(created='2021-02-03T04:05:06Z', nonce='other')), ('Q', dict(signer='Q', serial='q')), ('Q', dict(signer='Q', serial='q', nonce='other')), ('BIG', dict(nonce='other'))]
BAD = [('Q', {}), ('P', dict(prox='XT')), ('P', dict(assertion='logged')), ('P', dict(signer='XP')), ('P', dict(intact='no')), ('none', {}), ('PN', {}), ('P', dict(content='text'))]
CERTS = ['ec', 'rsa', 'odd', 'big', 'long', 'ca', 'noname', 'neg', 'issued', 'key', 'csr', 'NUL']
CLIENTS = ['P', 'P', 'Q', 'ODD', 'BIG', 'none', 'RS', 'NUL']
def request(f, B, D, rnd, kind):
    """(step, description)"""
    if kind == 'bad' or rnd.random() < .12:
        p, kw = rnd.choice(BAD); side = rnd.choice(['reg', 'masa'])
        if side == 'reg': return D.s_reg(f.enc(f.pvr(**kw), rnd.choice(['plain', 'cut', 'garbage', 'empty'])), p)
        return D.s_reg(f.enc(rnd.choice([f.rvr(f.pvr(), signer='XS'), f.rvr(None), f.rvr(f.pvr(), intact='no'), f.pvr()]), rnd.choice(['plain', 'cut', 'garbage'])), 'RT', side='masa')
    if kind == 'long': return D.s_reg(f.enc(B['long'], 'plain'), rnd.choice(['P', 'Q']), path=ENROL)
    p, kw = rnd.choice(PLEDGES)
    if kind == 'reg': return D.s_reg(f.enc(f.pvr(**kw), rnd.choice(['plain', 'lines'])), p)
    if kind == 'masa':
        m = f.pvr(**kw)
        return D.s_reg(f.enc(f.rvr(m, **{k: v for k, v in kw.items() if k in ('serial', 'nonce')}), 'plain'), 'RT', side='masa')
    return D.s_reg(f.enc(B[rnd.choice(CERTS)], rnd.choice(['plain'] * 5 + ['cut'])), rnd.choice(CLIENTS), path=ENROL)
def run(ctx):
    rnd = ctx.rnd; big = ctx.thorough
    N = 40 if big else 24
    two, weave, three = ctx.par(*[lambda s=s: ctx.gen('GenSched', env=dict(SHAPE=s, N=str(N))) for s in ('two', 'weave', 'three')],
                                flow.servers(ctx), flow.servers(ctx, lax='shared'), flow.servers(ctx, lax='torn'))[:3]
    keys = {}; fl = [Flow(ctx, rnd, keys, odd=True, ldevid='root', p='ec', r='ec', m='ec', d='ec') for _ in range(4 if big else 2)]
    B = [f.make_bodies() for f in fl]
    at = {}
    def make(kinds, tail=('log', 'voucher', 'sign', 'log'), **kw):
        k = rnd.randrange(len(fl)); f = fl[k]; D = f.D.clone()
        steps = [request(f, B[k], D, rnd, x) for x in kinds]
        j = D.job(steps + list(tail), op='conc', n=len(steps), timeout=60, **kw); at[id(j)] = (D, len(steps), j)
        return j
    def plan(p): return ' '.join('%d:%d' % (x['t'], x['k']) for x in p['plan'])
    # one at a time, by plan: how many points they have is found out first
    pairs = [(a, b) for a in ('reg', 'masa', 'enrol', 'bad') for b in ('reg', 'masa', 'enrol', 'bad') if (a, b) != ('bad', 'bad')]
    kinds = pairs + [('enrol', 'enrol')] * 2 + [('masa', 'masa')] * 3 + [('reg', 'reg')] * 2 + [('long', 'enrol'), ('enrol', 'long'), ('long', 'long')]
    kinds += [tuple(rnd.choice(['reg', 'masa', 'enrol']) for _ in range(3)) for _ in range(60 if big else 10)]
    if big: kinds = kinds * 4
    pool = drv.Pool(8, san='conc')
    first = [make(k, tail=('log', 'voucher', 'sign', 'log'), plan='') for k in kinds]
    jobs = list(first); npl = 0; room = 70 if big else 36
    for k, j, r in zip(kinds, first, pool.map(first)):
        if r['st'] != 'ok': continue
        pts = r['r']['points']
        fits = lambda p: all(x['k'] <= pts[x['t']] for x in p['plan'] if x['k'] < 1000)
        o = [p for p in two if fits(p)] if len(k) == 2 else [p for p in three if fits(p)]
        npl += len(o); pick = o if len(o) <= room * 2 else rnd.sample(o, room)
        if len(k) == 2:
            o = [p for p in weave if fits(p)]; npl += len(o); pick = pick + (o if len(o) <= room // 2 else rnd.sample(o, room // 3))
        D, n, _ = at[id(j)]
        for p in pick: # the same requests
            log = '%s.%d' % (D.logp, len(jobs)) # its own log
            x = (j[0], [(a, v) for a, v in j[1] if a not in ('plan', 'log', 'init') and not (a == 's' and v in ('voucher', 'sign'))] + [('plan', plan(p)), ('log', log), ('init', log.encode().hex() + '|-')])
            jobs.append(x); at[id(x)] = (D, n, x)
    def session(j, r):
        D, n, _ = at[id(j)]; ev = D.events(j, r)
        ev[n] = dict(ev[n], op='lines')
        return D.session(ev[:n + 1] + [dict(op='honest')] + ev[n + 1:])
    ctx.assume.append('plans: %d of %d possible with at most two interruptions; points are file accesses, clock, decisions, pieces of the log, locks, and stores to memory shared between requests' % (len(jobs), npl))
    try: ctx.check_jobs('TraceFlow', jobs, session, pool=pool)
    finally: pool.close()
    # all at once, on all cores
    jobs = []
    for _ in range(60 if big else 8):
        kinds = rnd.choice([['reg', 'masa', 'enrol', 'bad'] * 12, ['enrol'] * 48, ['masa'] * 32, ['reg'] * 32])
        jobs.append(make(kinds, threads=8))
    ctx.check_jobs('TraceFlow', jobs, session)
    # and in the processes themselves, with pledges of their own kind
    work = []
    for n in range(24 if big else 6):
        k = rnd.randrange(len(fl)); f = fl[k]; D = f.D.clone()
        mix = rnd.choice([['reg', 'masa', 'enrol', 'bad'], ['reg'], ['enrol', 'reg'], ['masa', 'reg', 'bad'], ['enrol']])
        st = [request(f, B[k], D, rnd, rnd.choice(mix)) for _ in range(rnd.choice([8, 16, 24]))] + ['voucher'] * rnd.randrange(4) + ['sign'] * rnd.randrange(4)
        rnd.shuffle(st)
        work.append((D, lambda D=D, st=st: D.job(st + ['log', 'voucher', 'sign', 'log']), dict(together=len(st)), len(st) + 1))
    stack.conform(ctx, work)
