"""C21 deserialization of arbitrary text"""
import json, re
from vouch import *
from c20 import MC, num, NODUMP, rand_voucher, voucher_steps
TOK = re.compile(rb'"(?:[^"\\]|\\.)*"|[{}\[\]:,]|[^\s{}\[\]:,"]+|\s+')
def mutate(rnd, t):
    """one token-level or byte-level deviation"""
    k = rnd.randrange(12)
    toks = TOK.findall(t)
    if k < 6 and toks:
        i = rnd.randrange(len(toks))
        if k == 0: del toks[i]
        elif k == 1: toks.insert(i, toks[rnd.randrange(len(toks))])
        elif k == 2: toks[i] = toks[rnd.randrange(len(toks))]
        elif k == 3: toks[i] = rnd.choice([b'{', b'}', b'[', b']', b',', b':', b'""', b'null', b'1', b'{}', b'"x"'])
        elif k == 4:
            j = rnd.randrange(len(toks)); toks[i], toks[j] = toks[j], toks[i]
        else: toks.insert(i, rnd.choice([b' ', b'\n', b'\t', b',', b'"']))
        return b''.join(toks)
    b = bytearray(t)
    i = rnd.randrange(len(b) + 1)
    if k == 6: b[i:i+1] = b''
    elif k == 7: b[i:i] = bytes([rnd.choice(b'{}[]":,\\u0aZ= \x00\xff')])
    elif k == 8 and i < len(b): b[i] ^= 1 << rnd.randrange(8)
    elif k == 9: b = b[:i]
    elif k == 10:
        j = rnd.randrange(len(b) + 1); b[min(i, j):max(i, j)] = b''
    else: b[i:i] = rnd.choice([b'\\u0041', b'\\"', b'\\', b'\\ud800', b'//', b'\r\n'])
    return bytes(b)
def session(j, r):
    x = dict(j[1])['json']
    if r['v'] is not None and r['again'] != r['v']: raise RuntimeError('voucher changed after its text was freed: %s' % r)
    return dict(ev=[dict(op='deser', x=list(x), ok=r['v'] is not None, d=num(r['v']) if r['v'] else NODUMP)])
def run(ctx):
    rnd = ctx.rnd
    ctx.model('MCJson', MC % ('TRUE' if ctx.thorough else 'FALSE'), reach=('NoFull', 'NoCut', 'NoAlien'))
    g = [c['t'].encode() for c in ctx.gen('GenJson')]
    if not ctx.thorough:
        short = [t for t in g if t.count(b'":') <= 2]
        g = rnd.sample(short, 1100) + rnd.sample(g, 300) + [t for t in g if t.count(b'":') == 3 and b'"serial-number":"s"' in t and b'"nonce":"QUJD"' in t]
    X = set(g)
    # texts the code itself writes, and deviations of them
    base = []
    for _ in range(300 if ctx.thorough else 40):
        v = rand_voucher(rnd)
        for a in v:
            if TY[a] == 'arr': v[a] = v[a][:12]
        r = ctx.d().ok('v_seq', s=voucher_steps(v) + ['ser||'])
        base.append(bytes.fromhex(r['steps'][-1]['v']))
    X |= set(base)
    for t in base + [t for t in g if t.count(b'":') == 3][:20]:
        for _ in range(40 if ctx.thorough else 8):
            m = mutate(rnd, t)
            for _ in range(rnd.randrange(2)): m = mutate(rnd, m)
            X.add(m)
    t = b'{"ietf-voucher:voucher":{"serial-number":"a","nonce":"QUI=","assertion":"logged"}}'
    for i in range(len(t)): X.add(t[:i]); X.add(t[:i] + t[i+1:])
    for n in (126, 127, 128, 129, 200, 1000): X.add(b'{"ietf-voucher:voucher":{"serial-number":"%s"}}' % (b'x' * n)); X.add(b'{"ietf-voucher:voucher":{"serial-number":"%s"}}' % (b'\\u0041' * n)) ; X.add(b'{"ietf-voucher:voucher":{"serial-number":"%s"}}' % ('é'.encode() * (n // 2)))
    X |= {b'{' * 100, b'[' * 1000, b'{"a":' * 50, b'"' , b'\\', b'\x00', b'\xff' * 10, b'{"ietf-voucher:voucher":{' + b'"nonce":"QUJD",' * 40 + b'"nonce":"QUJE"}}',
          b'{"ietf-voucher:voucher":{"created-on":"%s"}}' % (b'2' * 5000), b'{"ietf-voucher:voucher":{"domain-cert-revocation-checks":%s}}' % (b't' * 300), b'{"ietf-voucher:voucher":{"assertion":"%s"}}' % (b'logged' * 100)}
    ctx.check_jobs('TraceJson', [('v_deser', [('json', x)]) for x in sorted(X)], session)
    r = ctx.d().ok('v_deser')
    ctx.conform('TraceJson', [dict(ev=[dict(op='sernull', null=r['v'] is None)])])
