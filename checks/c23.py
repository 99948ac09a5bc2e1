"""C23 dates and booleans"""
import drv
MC = '''SPECIFICATION Spec
INVARIANTS ClockRight RoundTrip
CONSTANTS
 Starts = {%s}
 Steps = %d
CHECK_DEADLOCK FALSE
'''
STARTS = [951868000, 951782300, 1077926300, 1709164700, 1709251100, 1735689500, 1798761500, 2147480000, 4107542300 % 2**31,
          68169500, 86300, 946684700, 978307100, 1078099100, 1330473500]
ZONES = ['UTC', 'Europe/Dublin', 'XXX+11:30', 'XYZ-14', 'EST5EDT', 'AAA+0BBB,J1,J365']
def session(j, r):
    op, kw = j; kw = dict(kw)
    e = dict(op=op)
    if op == 't2s': e.update(t=[int(x) for x in kw['t'].split(',')], out=list(bytes.fromhex(r['out'] or '')))
    elif op == 's2t':
        e.update({'in': list(kw['in']), 'ok': r['rc'] >= 0, 't': r.get('t', [0] * 6), 'again': list(bytes.fromhex(r.get('again') or ''))})
    elif op == 'now': e.update(before=r['before'], after=r['after'], out=list(bytes.fromhex(r['out'] or '')))
    elif op == 's2b': e.update({'in': list(kw['in']), 'rc': r['rc']})
    elif op == 'b2s': e.update(v=kw['in'] == '1', out=list(bytes.fromhex(r['out'])))
    return dict(ev=[e])
def run(ctx):
    rnd = ctx.rnd
    ctx.model('TimeCodec', MC % (','.join(map(str, STARTS)), 4000 if ctx.thorough else 700), must=('Tick',))
    g = ctx.gen('GenTime')
    T = [c['v'] for c in g if c['k'] == 't']; X = [bytes(c['v']) for c in g if c['k'] == 'x']
    if not ctx.thorough:
        T = rnd.sample(T, 1200)
        X = [x for x in X if len(x) != 21] + rnd.sample([x for x in X if len(x) == 21], 300)
    J = [('t2s', [('t', ','.join(map(str, t)))]) for t in T]
    n = 20000 if ctx.thorough else 500
    for _ in range(n):
        t = [rnd.randrange(1000, 10000), rnd.randrange(1, 13), rnd.randrange(1, 29), rnd.randrange(24), rnd.randrange(60), rnd.randrange(60)]
        J.append(('t2s', [('t', ','.join(map(str, t)))]))
        x = bytearray(b'%04d-%02d-%02dT%02d:%02d:%02dZ' % tuple(t))
        k = rnd.randrange(8)
        if k < 4: x[rnd.randrange(20)] = rnd.choice(b'0123456789 -:TZ.\x01\xff')
        elif k == 4: x = x[:rnd.randrange(21)]
        elif k == 5: x += rnd.choice([b'Z', b' ', b'x', b'+00:00', b'\n'])
        elif k == 6: x[17:19] = rnd.choice([b'60', b'61', b'62', b'99'])
        X.append(bytes(x))
    X += [b'', b'Z', b'T', b'2024-02-29T23:59:59.5Z', b'2024-02-29T23:59:59+00:00', b'2024-02-29 23:59:59Z', b'-024-02-29T23:59:59Z', b'2024', b'Thu Feb 29 23:59:59 2024', b'%Y-%m-%dT%H:%M:%SZ', b'12024-02-29T23:59:59Z']
    J += [('s2t', [('in', x.replace(b'\0', b'1'))]) for x in X]
    W = [b'true', b'false', b'1', b'0']
    B = set(W + [b'TRUE', b'False', b'tRuE', b'2', b'10', b'01', b'00', b'11', b'yes', b'on', b'null', b'"true"', b'-1', b'+1', b'1 ', b' 1', b't', b'f', b'tru', b'truee', b'fals', b'falsee', b'true\0', b'1\0', b'0\0', b'\0', b'falsf', b'trud'])
    for w in W:
        for i in range(len(w)):
            B.add(w[:i]); B.add(w[:i] + w[i+1:])
            for c in (range(256) if ctx.thorough else list(range(32, 127)) + [0, 255]): B.add(w[:i] + bytes([c]) + w[i+1:]); 
        for i in range(len(w) + 1):
            for c in b'01tefE \n\0': B.add(w[:i] + bytes([c]) + w[i:])
    for m in range(32): B.add(bytes(c - 32 if (m >> i) & 1 else c for i, c in enumerate(b'false'))); B.add(bytes(c - 32 if (m >> i) & 1 else c for i, c in enumerate(b'true')))
    J += [('s2b', [('in', x)]) for x in sorted(B) if x]
    J += [('b2s', [('in', '0')]), ('b2s', [('in', '1')])]
    ctx.check_jobs('TraceTime', J, session)
    # the clock, in several time zones and at many instants
    for z in ZONES:
        d = drv.Pool(2, env=dict(TZ=z))
        N = [('now', [])] * 3 + [('now', [('fake', min(2**31 - 3, rnd.choice(STARTS) + rnd.randrange(-50, 5000)))]) for _ in range(200 if ctx.thorough else 25)]
        N += [('now', [('fake', rnd.randrange(0, 2**31 - 2))]) for _ in range(400 if ctx.thorough else 25)]
        ctx.check_jobs('TraceTime', N, session, pool=d)
        d.close()
