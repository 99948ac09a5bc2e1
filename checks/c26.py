"""C26 generated keys and certificates"""
import time
import der, pki, dep, drv
from flow import Flow
MC = '''SPECIFICATION Spec
INVARIANTS BodyKept Origin Chained
CONSTANTS
 KeyIds = {"k1", "k2"%s}
 Metas <- MMetas
 Depth = %d
CHECK_DEADLOCK FALSE
'''
OID = {bytes.fromhex('06082a8648ce3d040302'): 'ecdsa-sha256', bytes.fromhex('06092a864886f70d01010b'): 'rsa-sha256'}
P60 = 'Printable 0-9 (a)+,./:=?'
NAMES = dict(plain=['C=IE', 'CN=plain'], empty=[], all=['C=GB', 'ST=state', 'L=town', 'O=org', 'OU=unit', 'CN=name', 'emailAddress=a@b.c', 'serialNumber=00-1', 'SN=sur', 'GN=given'],
             reversed=['GN=given', 'SN=sur', 'serialNumber=00-1', 'emailAddress=a@b.c', 'CN=name', 'OU=unit', 'O=org', 'L=town', 'ST=state', 'C=GB'],
             twice=['OU=a', 'CN=x', 'OU=b', 'CN=x', 'serialNumber=1', 'serialNumber=2', 'C=IE', 'C=GB'], long=['CN=' + 'n' * 64, 'serialNumber=' + '9' * 64, 'L=' + 'l' * 128, 'emailAddress=' + 'e' * 128, 'O=' + 'o' * 64],
             toolong=['CN=' + 'n' * 65], emptyval=['CN='], unknown=['CN=a', 'cn=b'], badC=['C=IRL'], badSerial=['serialNumber=a_b'], longnames=['countryName=IE', 'commonName=c', 'serialNumber=s', 'organizationName=o', 'givenName=g', 'surname=s'],
             others=['CN=a', 'title=Dr', 'DC=example', 'UID=u'], control=['CN=a\tb\n"c"\\,+<>;# ', 'O= lead and trail '], equals=['CN=a=b=c', 'O=='], oids=['2.5.4.3=by oid', '2.5.4.5=77', '2.5.4.12=Prof'])
PRINT = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 \'()+,-./:=?')
ATTR = ['C', 'ST', 'L', 'O', 'OU', 'CN', 'emailAddress', 'serialNumber', 'SN', 'GN']
def ds(t): d, s = divmod(t, 86400); return dict(d=d, s=s)
def entries(kvs):
    o = []
    for kv in kvs:
        k, v = kv.split('=', 1)
        o.append(dict(k=k, v=v.encode('latin1').hex(), n=len(v), print=set(v) <= PRINT, ascii=v.isascii()))
    return o
def absolute(t):
    n = {15: 'gen', 13: 'utc'}.get(len(t)); b = t[:-1]
    if not n or not b.isdigit() or t[-1] != 'Z': return dict(f='bad', t=[0] * 6)
    y = 4 if n == 'gen' else 2
    return dict(f=n, t=[int(b[:y])] + [int(b[i:i + 2]) for i in range(y, len(b), 2)])
def constraint(b):
    o = dict(f='good', has=True, ca=False, crit=False, path=-1)
    if b is None: return dict(o, has=False)
    q = b
    if q.startswith('critical,'): o['crit'] = True; q = q[9:]
    for x in q.split(','):
        k, _, v = x.partition(':')
        if k == 'CA' and v in ('TRUE', 'FALSE'): o['ca'] = v == 'TRUE'
        elif k == 'pathlen' and v.isdigit(): o['path'] = int(v)
        else: o['f'] = 'bad'
    return o
def alg(c):
    k = der.kids(c); t = der.kids(k[0]); t = t[1:] if t[0][0] == 0xa0 else t
    return OID.get(der.kids(k[1])[0], 'other') if k[1] == t[1] else 'differ'
def info(i): # fx_x509_info
    return dict(ver=i['version'] + 1, serial=str(int(i['serial'], 16)), subject=i['subject'], issuer=i['issuer'], nb=ds(i['nb']), na=ds(i['na']), exts=i['nexts'],
                bc=dict(has=i['bc'], ca=i['bc_ca'], crit=i['bc_crit'], path=i['bc_pathlen']))
def meta(m, c):
    return dict(rc=m['rc'], serial=m.get('serial', ''), subject=m.get('subject', []), issuer=m.get('issuer', []), sn='NULL' if m.get('sn') is None else m['sn'], der=m['der'] == c, copy=m['copy'] == c)
def run(ctx):
    rnd = ctx.rnd
    ctx.model('MCCertGen', MC % (', "k3"' if ctx.thorough else '', 3 if ctx.thorough else 2), reach=('NobodySigns',))
    d = ctx.d(); pool = ctx.pool()
    # -- keys
    kinds = [('ec', 0)] * (60 if ctx.thorough else 15) + [('rsa', b) for b in (1024, 1024, 2048, 2048, 3072)[:5 if ctx.thorough else 4]] + [('rsa', b) for b in (0, -5, 100, 511)]
    ks = [r['r'] for r in pool.map([('c_gen_key', [('type', t), ('bits', str(b))]) for t, b in kinds])]
    ev, seen, made = [], set(), dict(ec=[], rsa=[])
    for n, ((t, b), r) in enumerate(zip(kinds, ks)):
        e = dict(op='key', id='k%d' % n, want=dict(t=t, bits=b or 256), possible=b == 0 and t == 'ec' or b >= 512, ok=r['n'] > 0, loads=False, fresh=False, works=False, kind=dict(t='', bits=0))
        if e['ok']:
            k = bytes.fromhex(r['key']); i = d.ok('fx_keyinfo', der=k)
            other = 'rsa' if t == 'ec' else 'ec'
            e['loads'] = r['n'] == len(k) and i['parsed'] and d.ok('c_key2ctx', key=k, type=t)['ok'] and d.ok('c_key2ctx', key=k, type='any')['ok'] and not d.ok('c_key2ctx', key=k, type=other)['ok']
            if i['parsed']:
                e['kind'] = dict(t={408: 'ec', 6: 'rsa'}.get(i['id'], '?'), bits=i['bits'])
                if t == 'ec' and i['group'] != 'prime256v1': e['kind']['t'] = i['group']
                e['fresh'] = i['pub'] not in seen; seen.add(i['pub'])
            c = d.ok('fx_cert', key=k, subject='CN=k', serial=1)['der']; e['works'] = d.ok('fx_x509_info', der=bytes.fromhex(c), by=bytes.fromhex(c))['by'] == [True]
            if t == 'ec' or b >= 1024: made[t].append(k)
        ev.append(e)
    ctx.conform('TraceCertGen', [dict(ev=ev)])
    if len(made['ec']) < 2 or len(made['rsa']) < 2: return # already reported
    # -- certificates for everything that may be asked
    g = ctx.gen('GenCertGen')
    dist = lambda c: sum(c[f] != U[f] for f in U)
    U = g[0].copy()
    for f in U: # the usual: what most cases have
        vs = [c[f] for c in g]; U[f] = max(set(vs), key=vs.count)
    near = [c for c in g if dist(c) <= 1]; far = [c for c in g if dist(c) > 1]
    cs = near + (rnd.sample(far, 8000) if ctx.thorough else rnd.sample(far, 900))
    for _ in range(4000 if ctx.thorough else 500): # whole seeded ones
        c = {f: U[f] for f in U}
        for f in U:
            if rnd.random() < .35: c[f] = rnd.choice(g)[f]
        if rnd.random() < .6: c['want'] = c['kt'] = rnd.choice(['ec', 'rsa'])
        if rnd.random() < .5: c['serial'] = str(rnd.getrandbits(rnd.choice([8, 16, 31, 32, 33, 63, 64])))
        if rnd.random() < .5: c['nb'] = str(rnd.randrange(-2 * 10**9, 10**rnd.choice([3, 6, 9, 11])))
        if rnd.random() < .5: c['na'] = str(rnd.randrange(-10**9, 10**rnd.choice([3, 6, 9, 11]))); c['abs'] = 'none'
        elif rnd.random() < .5:
            c['na'] = '0'; y = rnd.choice([rnd.randrange(1000, 9999), rnd.randrange(1950, 2060)])
            c['abs'] = '%04d%02d%02d%02d%02d%02dZ' % (y, rnd.randrange(1, 13), rnd.randrange(1, 32), rnd.randrange(24), rnd.randrange(60), rnd.randrange(60))
        for f in ('subject', 'issuer'):
            if rnd.random() < .6:
                c[f] = ['%s=%s' % (k, ('IE' if k == 'C' else ''.join(rnd.choice(P60) for _ in range(rnd.choice([1, 5, 30, 64]))))) for k in rnd.sample(ATTR, rnd.randrange(len(ATTR)))]
        cs.append(c)
    keys = dict(ec=made['ec'], rsa=made['rsa'], ec384=[bytes.fromhex(d.ok('fx_key', type='ec384')['der'])], none=[b''], junk=[made['ec'][0][:40], b'0\x82junk', made['rsa'][0][:-7]])
    pub = {}
    def pubof(k):
        if k not in pub: i = d.ok('fx_keyinfo', der=k); pub[k] = i.get('pub')
        return pub[k]
    jobs, of = [], {}
    for c in cs:
        sub = NAMES[c['subject']] if isinstance(c['subject'], str) else c['subject']
        iss = sub if c['issuer'] == 'same' else NAMES[c['issuer']] if isinstance(c['issuer'], str) else c['issuer']
        na = '0' if c['abs'] != 'none' and c['na'] == U['na'] else c['na']
        k = rnd.choice(keys[c['kt']]); bc = None if c['bc'] == 'none' else c['bc']
        a = [('type', c['want']), ('key', k), ('serial', c['serial']), ('nb', c['nb']), ('na', na)] + [('subject', x) for x in sub] + [('issuer', x) for x in iss]
        if c['abs'] != 'none': a.append(('abs', c['abs']))
        if bc is not None: a.append(('bc', bc))
        j = ('c_gen_cert', a); jobs.append(j)
        of[id(j)] = (k, dict(kt=dict(ec384='ec', junk='none').get(c['kt'], c['kt']), want=c['want'], serial=c['serial'], nb=ds(int(c['nb'])), na=ds(int(na)), abs=[] if c['abs'] == 'none' else [absolute(c['abs'])], bc=constraint(bc), subject=entries(sub), issuer=entries(iss)))
    extra = {}
    def event(j, r):
        k, ask = of[id(j)]
        e = dict(op='cert', ask=ask, ok=r['n'] > 0, now=ds(r['before']), slack=r['after'] - r['before'])
        if e['ok']:
            c = r['cert']
            if c not in extra:
                x = bytes.fromhex(c); extra[c] = (d.ok('fx_x509_info', der=x, by=x), d.ok('c_meta', cert=x))
            i, m = extra[c]
            e['c'] = dict(info(i), keyfits=i['pub'] == pubof(k), own=i['by'] == [True], alg=alg(bytes.fromhex(c))); e['meta'] = meta(m, c)
        return e
    res = pool.map(jobs, 30)
    xs = sorted({r['r']['cert'] for r in res if r['st'] == 'ok' and r['r']['n'] > 0})
    ii = pool.map([('fx_x509_info', [('der', bytes.fromhex(x)), ('by', bytes.fromhex(x))]) for x in xs], 40)
    mm = pool.map([('c_meta', [('cert', bytes.fromhex(x))]) for x in xs], 40)
    for x, i, m in zip(xs, ii, mm):
        if i['st'] == m['st'] == 'ok': extra[x] = (i['r'], m['r'])
        else: ctx.reject('reading a generated certificate: %s' % m['st'], cert=x)
    good = [(j, r) for j, r in zip(jobs, res)]
    ss, src = [], []
    for j, r in good:
        if r['st'] != 'ok':
            r = d.calll(*j)
            if r['st'] != 'ok': ctx.reject('the code under test %s' % r['st'], op=j[0], input=[(a, drv.b(v).hex()) for a, v in j[1]]); continue
        if ss and len(ss[-1]['ev']) < 50: ss[-1]['ev'].append(event(j, r['r'])); src[-1].append(j)
        else: ss.append(dict(ev=[event(j, r['r'])])); src.append([j])
    def redo(n):
        o = []
        for j in src[n]:
            r = d.calll(*j); o.append(event(j, r['r']) if r['st'] == 'ok' else dict(op='crash'))
        return dict(ev=o)
    ctx.conform('TraceCertGen', ss, redo=redo)
    ctx.careful('TraceCertGen', jobs, lambda j, r: dict(ev=[event(j, r)]), 40)
    # -- signing
    fl = Flow(ctx, rnd, {}); bodies = fl.make_bodies(); w, W = fl.w, fl.W
    for n, x in enumerate(rnd.sample(xs, min(len(xs), 120 if ctx.thorough else 30))): bodies['gen%d' % n] = bytes.fromhex(x)
    cas = [(n, W.der[n], W.key(w[n]['key']), True) for n in ('DR', 'DI', 'MR', 'XR', 'P', 'RS')]
    for n in ('rsa', 'ca', 'odd', 'noname', 'twice', 'bmp', 'v1'): cas.append((n, bodies[n], W.key('rsa_enrol') if n == 'rsa' else W.key('p'), True))
    wrong = [('nokey', W.der['DR'], b'', False), ('junkkey', W.der['DR'], b'0\x81\x03abc', False), ('noca', b'', W.key(w['DR']['key']), True), ('junkca', W.der['DR'][:-30], W.key(w['DR']['key']), True), ('csr', bodies['csr'], W.key('p'), True), ('otherkey', W.der['DR'], W.key(w['XR']['key']), True)]
    isc = {}
    def wellformed(x):
        if x not in isc: i = d.ok('fx_x509_info', der=x); isc[x] = i['parsed'] and i['usable'] or i['parsed']
        return isc[x]
    calls = []
    for b in bodies:
        for ca in cas + wrong if ctx.thorough else rnd.sample(cas, 3) + [rnd.choice(wrong)]:
            calls.append(('c_sign_cert', [('cakey', ca[2]), ('cacert', ca[1]), ('cert', bodies[b])]))
    for ca in cas + wrong: calls.append(('c_sign_cert', [('cakey', ca[2]), ('cacert', ca[1]), ('cert', bodies['exts'])]))
    H = lambda x: x.hex() if len(x) < 40 else fl.D.hash(x)
    def part(x): t = dep.tbs(x); return dict(ver=H(t['ver']), serial=H(t['ser']), sub=H(t['sub']), spki=H(t['spki']), valid=H(t['valid']), ext=H(t['ext']), iss=H(t['iss']))
    none = {k: '' for k in ('ver', 'serial', 'sub', 'spki', 'valid', 'ext', 'iss')}
    selfs = {}
    def signev(c, r):
        k, ca, x = (v for _, v in c[1])
        ki = d.ok('fx_keyinfo', der=k); kind = {408: 'ec', 6: 'rsa'}.get(ki.get('id'), 'none')
        e = dict(op='sign', kt=kind, keyok=ki['parsed'], caok=wellformed(ca), certok=wellformed(x), ok=r['n'] > 0, old=part(x) if wellformed(x) else none, ca=part(ca) if wellformed(ca) else none, new=none, by=False, alg='')
        if e['ok']:
            y = bytes.fromhex(r['cert']); e['new'] = part(y); e['alg'] = alg(y)
            if k not in selfs: selfs[k] = bytes.fromhex(d.ok('fx_cert', key=k, subject='CN=self', serial=1)['der'])
            e['by'] = d.ok('fx_x509_info', der=y, by=selfs[k])['by'] == [True]
        return e
    ctx.grouped('TraceCertGen', calls, signev, lambda c: {}, batch=20)
    # -- reading certificates that others made
    reads = [('c_meta', [('cert', x)]) for n, x in list(bodies.items()) + list(W.der.items()) if wellformed(x)]
    def metaev(c, r):
        x = c[1][0][1]; i = d.ok('fx_x509_info', der=x); n = int(i['serial'], 16)
        known = [v for nm in ('subject', 'issuer') for a in ATTR for v in [y for y in i[nm] if y[0] == a][:1]]
        return dict(op='meta', readable=all('00' not in [v[q:q + 2] for q in range(0, len(v), 2)] for _, v in known), fits=0 <= n < 2**64, serial=str(n), subject=i['subject'], issuer=i['issuer'], meta=meta(r, x.hex()))
    ctx.grouped('TraceCertGen', reads, metaev, lambda c: {}, batch=20)
    ctx.assume.append('names of ASCII characters; clock offsets within a century of years 1900 to 9999 as well as beyond them')
