"""C20 serialization of vouchers and back"""
from vouch import *
MC = 'SPECIFICATION Spec\nINVARIANTS Sound Damaged\nCONSTANTS\n Full = %s\nCHECK_DEADLOCK FALSE\n'
UNSET = {'time': [1900, 1, 0, 0, 0, 0], 'enum': 0, 'bool': False, 'str': [-1], 'arr': [-1]}
def num(d):
    """a driver dump with texts and binaries as byte values"""
    o = dict(set=d['set'])
    for a in ATTRS:
        t = TY[a]
        o[a] = d[a] if t not in ('str', 'arr') else [-1] if d[a] is None else list(bytes.fromhex(d[a]))
    return o
NODUMP = dict(set=[], **{a: UNSET[TY[a]] for a in ATTRS})
def voucher_steps(v, generic=False): return [setter(TY[a], a, x, generic) for a, x in v.items()]
def wanted(v):
    o = {a: UNSET[TY[a]] for a in ATTRS}
    for a, x in v.items(): o[a] = list(x) if TY[a] in ('time', 'str', 'arr') else x
    return o
def rand_voucher(rnd, long=False):
    v = {}
    for a in rnd.sample(ATTRS, rnd.randrange(0, 12)):
        t = TY[a]
        if t == 'time': v[a] = (rnd.choice([1000, 1970, 2024, 9999, rnd.randrange(1000, 10000)]), rnd.randrange(1, 13), rnd.randrange(1, 29), rnd.randrange(24), rnd.randrange(60), rnd.randrange(60))
        elif t == 'enum': v[a] = rnd.randrange(1, 4)
        elif t == 'bool': v[a] = rnd.random() < .7
        elif t == 'str':
            k = rnd.randrange(5); n = rnd.choice([0, 1, 3, 12, 126, 127])
            v[a] = bytes(rnd.choice([rnd.randrange(1, 32), 34, 92, 47, rnd.randrange(32, 127), rnd.randrange(1, 256)]) for _ in range(n)) if k else \
                rnd.choice([b'"', b'\\', b'\\"', b'\\u0041', b'a\nb', b'\x7f', b'12345', b'ietf-voucher:voucher', b'{}', b'","nonce":"QUJD', b'\\\\', b'/', b'\t\r\n\b\f', 'größe☃😀'.encode(), b'%s%n%d'])
        else: v[a] = rnd.randbytes(rnd.choice([1, 2, 3, 4, 16, 31, 300] + ([2000] if long else []))) 
    return v
def run(ctx):
    rnd = ctx.rnd
    ctx.model('MCJson', MC % ('TRUE' if ctx.thorough else 'FALSE'), reach=('NoFull', 'NoCut', 'NoAlien'))
    V = [{}]
    samp = dict(created=(2024, 2, 29, 23, 59, 59), expires=(2025, 1, 1, 0, 0, 0), renewal=(1999, 12, 31, 1, 2, 3), assertion=2, serial=b'SN-1',
                revchk=True, issuer=b'i', pinned=b'pp', nonce=b'nnn', prior=b'pppp', proximity=b'\0\1\2\3\4')
    # every subset of attributes in the thorough run, every pair in the quick one
    import itertools
    if ctx.thorough: subs = [s for n in range(12) for s in itertools.combinations(ATTRS, n)]
    else: subs = [s for n in (1, 2, 10, 11) for s in itertools.combinations(ATTRS, n)]
    V += [{a: samp[a] for a in s} for s in subs]
    V += [dict(serial=bytes([c])) for c in range(1, 256)] + [dict(assertion=i) for i in (1, 2, 3)] + [dict(revchk=b) for b in (True, False)]
    V += [dict(nonce=bytes([c])) for c in range(0, 256, 1 if ctx.thorough else 5)]
    V += [rand_voucher(rnd, ctx.thorough) for _ in range(3000 if ctx.thorough else 250)]
    for y in (1000, 1582, 1899, 1900, 1901, 1969, 1970, 2000, 2038, 2100, 9999): V.append(dict(created=(y, 2, 28, 23, 59, 59), expires=(y, 12, 31, 0, 0, 0)))
    jobs = [('v_seq', [('s', s) for s in voucher_steps(v, i % 3 == 0)] + [('s', 'ser||')]) for i, v in enumerate(V)]
    W = {id(j): v for j, v in zip(jobs, V)}
    B = {}
    def session(j, r):
        v = W[id(j)]
        t = r['steps'][-1]['v']
        if t is None: return dict(ev=[dict(op='ser', d=num(r['end']), v=wanted(v), x=[], back=dict(ok=False, d=NODUMP))])
        b = B[t] if t in B else ctx.d().ok('v_deser', json=bytes.fromhex(t), ser=1)
        if b['v'] is not None and b['v'] != b['again']: b = dict(v=None)
        return dict(ev=[dict(op='ser', d=num(r['end']), v=wanted(v), x=list(bytes.fromhex(t)),
                             back=dict(ok=b['v'] is not None, d=num(b['v']) if b['v'] else NODUMP))])
    # texts written by the code are read back by the code, in parallel first
    res = ctx.run_jobs(jobs)
    texts = sorted({r['r']['steps'][-1]['v'] for r in res if r['st'] == 'ok'} - {None})
    for t, r in zip(texts, ctx.run_jobs([('v_deser', [('json', bytes.fromhex(t)), ('ser', '1')]) for t in texts])):
        if r['st'] == 'ok': B[t] = r['r']
    ctx.check_jobs('TraceJson', jobs, session)
    r = ctx.d().ok('v_seq', nullv='1', s=['ser||'])
    ctx.conform('TraceJson', [dict(ev=[dict(op='sernull', null=r['steps'][0]['v'] is None)])])
