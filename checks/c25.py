"""C25 configuration files and lists of certificate files"""
import os
import pki
MC = '''SPECIFICATION CSpec
INVARIANTS AsWritten NoLeak OrderFree
CONSTANTS
 One <- MOne
 Many <- MMany
 Names = {"k", "l", "m"}
 Vals = {"", "x", "y"}
 Empty = ""
 MaxLines = %d
CHECK_DEADLOCK FALSE
'''
ONE = dict(pledge='createdOn serialNumber nonce idevidKeyPath idevidCertPath idevidCACertPath cmsSignCertPath cmsSignKeyPath'.split(),
           registrar='bindAddress port tlsKeyPath tlsCertPath tlsCAKeyPath tlsCACertPath cmsSignCertPath cmsSignKeyPath'.split(),
           masa='bindAddress port expiresOn ldevidCACertPath tlsKeyPath tlsCertPath tlsCACertPath cmsSignCertPath cmsSignKeyPath'.split())
MANY = 'cmsAdditionalCertPath cmsVerifyCertPath cmsVerifyStorePath'.split()
DATES = ('createdOn', 'expiresOn')

def value(rnd, k, v=None):
    """a value that can be written for the key"""
    if v == '': return ''
    if k == 'port': return str({'a': 1, 'b': 22, 'c': 333}.get(v) or rnd.choice([0, 1, 80, 443, 12345, 65535]))
    if v: return v
    if k in DATES: return rnd.choice(['2024-02-29T23:59:59Z', '9999-12-31T24:59:59Z', 'x', '2024'])
    w = 'abcxyzABC0123456789./_-+=:@~$%&()*,<>?[]{}|^!\\'
    n = rnd.choice([1, 2, 5, 20, 60, 300, 450]) if rnd.random() < .3 else rnd.randrange(1, 30)
    s = ''.join(rnd.choice(w) for _ in range(n))
    if rnd.random() < .2: s = s[:len(s) // 2] + ' ' + s[len(s) // 2:]
    return s.strip().rstrip('\\').strip() or 'w' # a backslash would quote the quote after it

def text(lines, rnd, style):
    """the file; style 0 is the plainest"""
    eol = '\r\n' if style and rnd.random() < .15 else '\n'
    o = []
    for e in lines:
        if style and rnd.random() < .1: o.append(rnd.choice(['', '; a comment', '# nonce = 1', '   ', '; [masa]', ';cmsVerifyCertPath=no']))
        if e['t'] == 'sec':
            o.append('[%s]' % e['s'])
        elif e['t'] == 'no': o.append(e.get('x', '; nothing'))
        else:
            v = e['v']; k = e['k']
            q = style and rnd.random() < .5
            if any(c in v for c in ';#') or v != v.strip(): q = True
            if q: v = '"%s"' % v
            sep = rnd.choice(['=', ' = ', '= ', ' =']) if style else '='
            o.append((rnd.choice(['', '', ' ', '\t']) if style else '') + k + sep + v + (rnd.choice(['', '', ' ', ' ; c', ' # c']) if style and q else ''))
    t = eol.join(o)
    return (t if style and rnd.random() < .2 else t + eol).encode('latin1')

def session(files, r):
    ev = []
    for n, (f, x) in enumerate(zip(files, r)):
        if n: ev.append(dict(op='new'))
        if f is None:
            ev.append(dict(op='nofile', rc=x['rc'])); continue
        for e in f:
            if e['t'] == 'sec': ev.append(dict(op='sec', s=e['s']))
            elif e['t'] == 'no': ev.append(dict(op='no'))
            else: ev.append(dict(op='val', k=e['k'], v=e['v'] if e['k'] == 'port' else e['v'].encode('latin1').hex()))
        ev.append(dict(op='load', rc=x['rc'], out={k: 'NULL' if v is None else str(v) if isinstance(v, int) else v for k, v in x.get('c', {}).items()}))
    return dict(ev=ev)

def build(rnd):
    """a whole configuration, in any order"""
    secs = list(ONE); rnd.shuffle(secs)
    if rnd.random() < .3: secs.insert(rnd.randrange(4), 'other')
    if rnd.random() < .3: secs.remove(rnd.choice([s for s in secs if s != 'other']))
    f = []
    if rnd.random() < .2: f.append(dict(t='val', k='nonce', v='early'))
    for s in secs:
        part = []
        own = ONE.get(s, [])
        for k in own:
            if rnd.random() < .6: part.append(dict(t='val', k=k, v='' if rnd.random() < .15 else value(rnd, k)))
        for k in MANY:
            for _ in range(rnd.choice([0, 0, 1, 2, 3, 8])): part.append(dict(t='val', k=k, v='' if rnd.random() < .15 else value(rnd, k)))
        foreign = sorted({k for q in ONE.values() for k in q} - set(own)) + ['cmsVerify', 'tlsCertPathX', 'nonces', 'xnonce', 'Path']
        for k in rnd.sample(foreign, rnd.choice([0, 0, 2, 6])): part.append(dict(t='val', k=k, v=value(rnd, k)))
        for _ in range(rnd.choice([0, 1, 2])): part.append(dict(t='no', x=rnd.choice(['', '; x', '# y', '  '])))
        rnd.shuffle(part)
        f += [dict(t='sec', s=s)] + part
    return f

def run(ctx):
    rnd = ctx.rnd
    ctx.model('MCConfig', MC % (6 if ctx.thorough else 5), must=('ReadHeader', 'ReadValue', 'ReadOther'))
    d = ctx.scratch()
    gen = ctx.gen('GenConfig')
    alone = [c['f'] for c in gen if len(c['f']) <= 2 or c['f'][0]['t'] == 'sec' and len(c['f']) == 6 and c['f'][2]['t'] == 'sec']
    arr = [c['f'] for c in gen if c['f'] not in alone] if ctx.thorough else rnd.sample([c['f'] for c in gen[-4000:]], 350)
    def val(f): return [dict(e, v=value(rnd, e['k'], e['v'])) if e['t'] == 'val' else e for e in f]
    files = [val(f) for f in alone + arr] + [build(rnd) for _ in range(1500 if ctx.thorough else 250)]
    files += [None, [], None]
    rnd.shuffle(files)
    n = 0; jobs = []; src = []
    for i in range(0, len(files), 4): # several files, one after the other in one process
        part = files[i:i + 4]; lines = []
        for f in part:
            n += 1; p = os.path.join(d, 'c%d.ini' % n)
            if f is not None:
                with open(p, 'wb') as h: h.write(text(f, rnd, rnd.random() < .7))
            lines.append(('x', 'cfg_load\tconf=' + p.encode().hex()))
        jobs.append(('batch', [('timeout', 60)] + lines)); src.append(part)
    parts = {id(j): p for j, p in zip(jobs, src)}
    ctx.check_jobs('TraceConfig', jobs, lambda j, r: session(parts[id(j)], r))
    # lists of certificate files
    P = pki.Pki(ctx.d()); good = []
    for k, c in enumerate([P.cert('CN=a', ca=True), P.cert('CN=b', typ='rsa'), P.cert('CN=c', typ='ec384')]):
        for suffix, t in (('', c.pem), ('t', b'some text\n\n' + c.pem), ('k', pki.pem('EC PRIVATE KEY', c.key) + c.pem), ('2', c.pem + P.cert('CN=z').pem), ('r', c.pem.replace(b'\n', b'\r\n'))):
            p = os.path.join(d, 'g%d%s.crt' % (k, suffix))
            with open(p, 'wb') as h: h.write(t)
            good.append((p, c.der.hex()))
    c = P.cert('CN=bad')
    bad = []
    for k, t in enumerate([None, b'', b'garbage\n', c.der, c.pem[:200], c.pem.replace(b'BEGIN', b'BEGUN'), pki.pem('CERTIFICATE', c.der[:-9]), pki.pem('CERTIFICATE', b'\x30\x03\x02\x01\x01'),
                           pki.pem('EC PRIVATE KEY', c.key), c.pem.replace(b'-----END CERTIFICATE-----\n', b'')]):
        p = os.path.join(d, 'b%d.crt' % k)
        if t is not None:
            with open(p, 'wb') as h: h.write(t)
        bad.append((p, None))
    lists = [[]] + [[g] for g in good] + [[b] for b in bad] + [[good[0], b, good[1]] for b in bad] + [[b, good[0]] for b in bad] + [[good[0], b] for b in bad]
    lists += [[rnd.choice(good if rnd.random() < .93 else bad) for _ in range(rnd.randrange(2, 9))] for _ in range(600 if ctx.thorough else 120)]
    calls = [('cfg_certs', [('p', p) for p, _ in q] + ([('empty', '1')] if k % 2 or q else []) + [('freeout', '1')]) for k, q in enumerate(lists)]
    of = {id(j): q for j, q in zip(calls, lists)}
    def certs(j, r):
        return dict(ev=[dict(op='certs', rc=r['rc'], files=[dict(ok=h is not None, cert=h or '') for _, h in of[id(j)]],
                             out=[x[0] if isinstance(x, list) else x['arr'] if isinstance(x, dict) else x for x in (r.get('out') or [])])])
    ctx.check_jobs('TraceConfig', calls, certs)
    ctx.assume.append('values and key lines within the 512 characters the ini library reads, no key with a single value and no section written twice, exact spelling of keys')
