"""C19 the voucher store"""
from vouch import *
MC = 'SPECIFICATION Spec\nINVARIANT Typed\nPROPERTY Local\nCONSTANTS\n V <- MCV\n Used <- MCUsed\n Small = %s\nCHECK_DEADLOCK FALSE\n'
LONG = b'x' * 127
VALS = {'time': [(2020, 2, 29, 23, 59, 59), (1970, 1, 1, 0, 0, 0), (9999, 12, 31, 0, 0, 1), (2024, 6, 1, 12, 0, 0)],
        'enum': [1, 2, 3, 0, 4, -1, 100], 'bool': [True, False],
        'str': [b'a', b'', LONG, LONG + b'y', b'x' * 4000, b'"\\\x01\xff', None, b'b'],
        'arr': [b'\0', b'abc', bytes(range(256)) * 4, b'', None, b'00', b'\0\0']}
def step(kind, at, v):
    """(driver step, event template)"""
    if kind == 'clear': return 'clear|%s|' % at, dict(op='clear', at=at)
    if kind == 'has': return 'has|%s|' % at, dict(op='has', at=at)
    if kind == 'dump': return 'dump||', dict(op='dump')
    if kind.startswith('get'): return '%s|%s|' % (kind, at), dict(op='get', ty=kind[3:], at=at)
    g = kind.startswith('gen:'); ty = kind[4:] if g else kind
    if kind == 'arr00': return 'arr00|%s|' % at, dict(op='set', ty='arr', at=at, v='null')
    return setter(ty, at, v, g), dict(op='set', ty=ty, at=at, v=val(ty, v))
def run(ctx):
    rnd = ctx.rnd
    ctx.model('MCVoucherStore', MC % ('FALSE' if ctx.thorough else 'TRUE'), must=('Set', 'Refusing', 'Clear'))
    tmpl = {}
    jobs = []
    def add(steps, nul=False):
        steps = steps + [('dump', '', None)]
        ss = [step(*s) for s in steps]
        j = ('v_seq', [('s', a) for a, _ in ss] + ([('nullv', '1')] if nul else []))
        tmpl[len(jobs)] = None
        jobs.append(j); T[id(j)] = ([e for _, e in ss], nul)
    T = {}
    def gen(c):
        k, a, i = c
        if k == 'clear': return ('clear', a, None)
        if k == 'gen':
            ty = TY.get(a, 'arr')
            return ('gen:' + ty, a, VALS[ty][i - 1])
        return (k, a, rnd.choice(VALS[k]))
    g = ctx.gen('GenVoucher')
    if not ctx.thorough: g = rnd.sample(g, 1500)
    for c in g: add([gen(x) for x in c['s']])
    AT = ATTRS + ['11', '-1', '99', '1000000']
    def rstep(nul=False):
        a = rnd.choice(ATTRS) if rnd.random() < .85 else rnd.choice(AT)
        k = rnd.randrange(10)
        ty = TY.get(a, rnd.choice(list(VALS)))
        if k < 4: return (('gen:' if rnd.random() < .4 and a in TY else '') + ty, a, rnd.choice(VALS[ty]))
        if k == 4:
            ty = rnd.choice(list(VALS)); return (ty, a, rnd.choice(VALS[ty]))
        if k == 5: return ('clear', a, None)
        if k == 6: return ('get' + rnd.choice(list(VALS) + [ty] * 5), a, None)
        if k == 7 and not nul: return ('has', a, None)
        if k == 8: return ('arr00', a, None)
        return ('get' + ty, a, None) if nul else ('dump', '', None)
    for _ in range(2500 if ctx.thorough else 200):
        add([rstep() for _ in range(rnd.randrange(2, 60))])
    for _ in range(30):
        n = [s for s in (rstep(True) for _ in range(10))]
        ss = [step(*s) for s in n]
        j = ('v_seq', [('s', a) for a, _ in ss] + [('nullv', '1')]); jobs.append(j); T[id(j)] = ([e for _, e in ss], True)
    def session(j, r):
        es, nul = T[id(j)]; ev = []
        for e, x in zip(es, r['steps']):
            e = dict(e)
            if e['op'] in ('set', 'clear'): e['rc'] = x['rc']
            elif e['op'] == 'get':
                e['null'] = x['v'] is None; e['v'] = 0 if x['v'] is None else x['v']
            elif e['op'] == 'has': e['v'] = x['v']
            elif e['op'] == 'dump': e['d'] = dump(x['v'])
            ev.append(e)
        return dict(nul=nul, ev=ev)
    ctx.check_jobs('TraceVoucher', jobs, session)
