"""BRSKI messages made and read without the code under test."""
import base64, hashlib, json, re
from world import World
ATTR = dict(created='created-on', expires='expires-on', assertion='assertion', serial='serial-number', issuer='idevid-issuer',
            pinned='pinned-domain-cert', revchk='domain-cert-revocation-checks', nonce='nonce', renewal='last-renewal-date',
            prior='prior-signed-voucher-request', proximity='proximity-registrar-cert')
BIN = {'issuer', 'pinned', 'nonce', 'prior', 'proximity'}
BACK = {v: k for k, v in ATTR.items()}
def blank(): return {a: 'false' if a == 'revchk' else 'unset' for a in ATTR}
def write(body, rnd=None):
    """body: attribute -> text (bytes for binaries, bool for revchk)"""
    o = {}
    ks = list(body)
    if rnd: rnd.shuffle(ks)
    for k in ks:
        v = body[k]
        o[ATTR[k]] = base64.b64encode(v).decode() if isinstance(v, bytes) else v
    return json.dumps({'ietf-voucher:voucher': o}, separators=(',', ':') if not rnd or rnd.random() < .7 else (', ', ' : ')).encode()
class Names:
    """Names for byte strings: certificates and messages that are known, hashes for others."""
    def __init__(self): self.m = {}
    def add(self, b, n): self.m[b] = n
    def __call__(self, b): return self.m.get(b) or 'x' + hashlib.sha256(b).hexdigest()[:12]
def abstract(body, nm):
    o = blank()
    for k, v in body.items():
        o[k] = nm(v) if isinstance(v, bytes) else ('true' if v else 'false') if isinstance(v, bool) else v
    return o
TIME = re.compile(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ$')
def nodup(pairs):
    d = dict(pairs)
    if len(d) != len(pairs): raise ValueError('a name occurs twice')
    return d
def read(content, nm):
    """(is a voucher, abstract body)"""
    try:
        j = json.loads(content.decode(), object_pairs_hook=nodup)
        if list(j) != ['ietf-voucher:voucher']: return False, blank()
        b = {}
        for k, v in j['ietf-voucher:voucher'].items():
            a = BACK.get(k)
            if a is None: b['alien'] = k; continue
            if a in BIN: v = base64.b64decode(v, validate=True)
            elif a == 'revchk':
                if not isinstance(v, bool): return False, blank()
            elif not isinstance(v, str) or (a in ('created', 'expires', 'renewal') and not TIME.match(v)): return False, blank()
            b[a] = v
        return True, abstract(b, nm)
    except (ValueError, AttributeError, TypeError, RecursionError): return False, blank()
def parse(d, nm, der):
    """A message as the specification sees it, by an independent reader"""
    f = d.ok('fx_cms_parse', der=der)
    if not f['parsed'] or not f.get('signeddata') or f['content'] is None: return dict(GARBAGE, id=nm(der))
    v, b = read(bytes.fromhex(f['content']), nm)
    return dict(id=nm(der), body=b, voucher=v, intact=f['sigok'] and f['trailing'] == 0, signers=[nm(bytes.fromhex(x)) for x in f['signers']], emb=[nm(bytes.fromhex(x)) for x in f['certs']])
GARBAGE = dict(id='garbage', body=blank(), voucher=False, intact=False, signers=[], emb=[])

def rec(sub, iss, key, by, ca=False, val=True): return dict(sub=sub, iss=iss, key=key, by=by, ca=ca, val=val)
def rules_world(rsa=False):
    k = 'rsa_' if rsa else ''
    w = dict(
        MR=rec('mk', 'mk', 'mr', 'mr', True), MP=rec('mkp', 'mk', 'mp', 'mr', True), MX=rec('mk', 'mk', 'mx', 'mx', True), MPX=rec('mkp', 'mk', 'mpx', 'mx', True),
        P=rec('p', 'mkp', k + 'p', 'mp'), P2=rec('q', 'mkp', 'p2', 'mp'), PS=rec('p', 'p', 'ps', 'ps'), PX=rec('p', 'mkp', 'px', 'mpx'), PF=rec('p', 'mkp', 'pf', '?'), PO=rec('p', 'mkp', 'po', 'mp', val=False), PR=rec('p', 'mkp', 'rsa_a', 'mp'),
        DR=rec('dom', 'dom', 'dr', 'dr', True), DI=rec('dsub', 'dom', 'di', 'dr', True), DX=rec('dom', 'dom', 'dx', 'dx', True),
        RS=rec('reg', 'dom', k + 'rs', 'dr'), RSS=rec('reg', 'reg', 'rss', 'rss'), RSX=rec('reg', 'dom', 'rsx', 'dx'), RSF=rec('reg', 'dom', 'rsf', '?'), RSO=rec('reg', 'dom', 'rso', 'dr', val=False), RSR=rec('reg', 'dom', 'rsa_b', 'dr'),
        RT=rec('tls', 'dom', 'rt', 'dr'), RT2=rec('tls', 'dom', 'rt', 'dr'), RI=rec('tlssub', 'dsub', 'ri', 'di'), FT=rec('tls', 'dom', 'ft', 'xr'),
        XR=rec('xdom', 'xdom', 'xr', 'xr', True), XT=rec('xtls', 'xdom', 'xt', 'xr'), XS=rec('xreg', 'xdom', 'xs', 'xr'),
        VR=rec('vk', 'vk', 'vr', 'vr', True), VX=rec('vk', 'vk', 'vx', 'vx', True), MS=rec('masa', 'vk', k + 'ms', 'vr'), MSS=rec('masa', 'masa', 'mss', 'mss'), MSX=rec('masa', 'vk', 'msx', 'vx'), MSF=rec('masa', 'vk', 'msf', '?'), MSO=rec('masa', 'vk', 'mso', 'vr', val=False), MSR=rec('masa', 'vk', 'rsa_c', 'vr'))
    return w
ROLE = dict( # good, ca, self-signed, impostor, forged, expired; what it embeds; its root; a stranger
    p=dict(good=['P'], ca=['MR'], selfsigned=['PS'], impostor=['PX'], forged=['PF'], expired=['PO'], both=['P', 'XS'], emb=['MP'], root='MR', crl=[('MP', ['P'])], crlo=[('MP', ['P2']), ('MR', [])]),
    r=dict(good=['RS'], ca=['DR'], selfsigned=['RSS'], impostor=['RSX'], forged=['RSF'], expired=['RSO'], both=['RS', 'XS'], emb=[], root='DR', crl=[('DR', ['RS'])], crlo=[('DR', ['RT'])]),
    m=dict(good=['MS'], ca=['VR'], selfsigned=['MSS'], impostor=['MSX'], forged=['MSF'], expired=['MSO'], both=['MS', 'XS'], emb=[], root='VR', crl=[('VR', ['MS'])], crlo=[('VR', ['MSO'])]))
class Rules:
    """Turns the kinds of GenRules into calls of the real functions, and results into events."""
    def __init__(self, d, rnd, rsa=False, keys=None):
        self.d, self.rnd = d, rnd
        self.W = World(d, rules_world(rsa), keys); self.w = self.W.w
        self.nm = Names()
        for n, x in self.W.der.items(): self.nm.add(x, n)
        self.cache = {}; self.crls = {}
        self.serial = 'SN-7731.%d' % rnd.randrange(1000)
        self.nonces = dict(n=bytes(rnd.randrange(256) for _ in range(rnd.randint(1, 40))), big=b'\x01\xff' * 2048, zero=b'\0' * 8, other=b'other nonce')
        o = self.nonces['n']; self.nonces.update(own=o, prefix=o[:-1] or b'zz', longer=o + b'\0')
        self.n = 0
    def date(self):
        r = self.rnd
        return r.choice(['2026-01-02T03:04:05Z', '1970-01-01T00:00:00Z', '2099-12-31T23:59:59Z', '9999-12-31T23:59:59Z', '2026-11-19T20:01:03Z', '2027-02-28T12:00:00Z', '%04d-%02d-%02dT%02d:%02d:%02dZ' % self.moment()])
    def moment(self):
        r = self.rnd; return r.randrange(1970, 2100), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60)
    def sn(self, kind):
        s = self.serial
        return dict(same=s, prefix=s[:-1], longer=s + '0', case=s.lower(), other='OTHER', space=s + ' ', long='x' * 128).get(kind)
    def message(self, body, content, role, signer, intact):
        """(bytes, message of the specification)"""
        rnd, W = self.rnd, self.W
        x = dict(voucher=lambda: write(body, rnd), text=lambda: b'no json at all', otherjson=lambda: b'{"ietf-voucher:request":{"serial-number":"a"}}', empty=lambda: b'')[content]()
        sg = ROLE[role][signer]; emb = [] if signer == 'ca' else ROLE[role]['emb']
        if signer == 'impostor' and role == 'p': emb = ['MPX']
        m = W.cms(x, sg, emb)
        if intact == 'no':
            m = bytearray(m); k = rnd.randrange(3)
            if k == 0: m[-4] ^= 1
            elif content == 'voucher': # change the content itself: same length
                i = m.find(b'ietf-voucher:voucher'); j = rnd.randrange(i + 30, i + 60); m[j] ^= 1
            else: m[-9] ^= 1
            m = bytes(m)
        self.n += 1; ident = self.nm.m.get(m) or 'm%d' % self.n # made before: the same message
        self.nm.add(m, ident)
        a = dict(id=ident, body=abstract(body, self.nm) if content == 'voucher' else blank(), voucher=content == 'voucher', intact=intact == 'yes', signers=sg, emb=sorted(set(sg) | set(emb)))
        return m, a
    def trust(self, role, kind, pre=''):
        """(pairs for the driver, trust of the specification)"""
        R = ROLE[role]; W = self.W
        st, crl, certs = dict(good=([R['root']], [], None), none=(None, [], None), empty=([], [], None), other=(['XR'], [], None),
                       crlother=([R['root']], R['crlo'], None), crlsigner=([R['root']], R['crl'], None), noca=(R['good'], [], [R['root']]))[kind]
        p = []
        if st is not None: p += [(pre + 'store', W.der[x]) for x in st] or [(pre + 'store0', 1)]
        for c in crl:
            k = (c[0], tuple(c[1]))
            if k not in self.crls: self.crls[k] = W.crl(*c)
            p.append((pre + 'crl', self.crls[k]))
        if certs: p += [(pre + 'certs', W.der[x]) for x in certs]
        return p, dict(certs=certs or [], store=st or [], nostore=st is None, crls=[dict(iss=self.w[c[0]]['sub'], by=self.w[c[0]]['key'], rev=c[1]) for c in crl])
    def signing(self, role, kind):
        c = dict(p=dict(ec='P', rsa='PR'), r=dict(ec='RS', rsa='RSR'), m=dict(ec='MS', rsa='MSR'))[role].get(kind) or dict(p='P', r='RS', m='MS')[role]
        return [('cert', self.W.der[c]), ('key', self.W.key(self.w['XS' if kind == 'wrong' else c]['key']))], c, kind != 'wrong'
    def add(self, kind):
        n = dict(none=None, empty=[], one=['MR'], two=['DI', 'VX'])[kind]
        return ([] if n is None else [('add', self.W.der[x]) for x in n] or [('add0', 1)]), n or []
    def when(self, kind):
        t = dict(now=(2026, 11, 19, 20, 1, 2) if self.rnd.random() < .5 else self.moment(), old=(1999, 1, 2, 3, 4, 5), leap=(2024, 2, 29, 23, 59, 59))[kind]
        return ','.join(map(str, t)), '%04d-%02d-%02dT%02d:%02d:%02dZ' % t
    def out(self, hexcms):
        if hexcms is None: return []
        m = bytes.fromhex(hexcms)
        return [parse(self.d, self.nm, m)]
    # -- the four functions: case -> (call, event from result)
    def pvr(self, c):
        t, ts = self.when(c['created'])
        sg, cert, fit = self.signing('p', c['key']); ap, an = self.add(c['add'])
        s = self.sn(c['serial']); n = self.nonces.get(c['nonce']); tls = dict(tls=self.W.der['RT'], ca=self.W.der['DR'], garbage=b'not a certificate').get(c['tls'])
        p = [('created', t)] + sg + ap
        if s is not None: p.append(('serial', s))
        if n is not None: p.append(('nonce', n))
        if tls is not None: p.append(('tls', tls))
        e = dict(op='pvr', created=ts, serial=s or 'unset', nonce=self.nm(n) if n else 'unset', tls=self.nm(tls) if tls else 'unset', cert=cert, add=an,
                 fit=fit and s is not None and len(s) < 128 and tls is not None)
        return ('r_pvr', p), lambda r: dict(e, out=self.out(r['cms']))
    def pvr_body(self, serial, prox, assertion, nonce, extra):
        b = {}
        if serial is not None: b['serial'] = serial
        if prox is not None: b['proximity'] = prox
        if assertion != 'unset': b['assertion'] = assertion
        if nonce is not None: b['nonce'] = nonce
        if extra != 'yes' or self.rnd.random() < .5: b['created'] = self.date()
        if extra == 'yes': b.update(pinned=self.W.der['XR'], expires=self.date(), issuer=b'somebody', revchk=True, renewal=self.date(), prior=b'earlier')
        return b
    def rvr(self, c):
        W = self.W; tls = W.der['RT']
        prox = dict(tls=tls, other=W.der['XT'], twin=W.der['RT2'], cut=tls[:-1], more=tls + b'\0', bit=tls[:-1] + bytes([tls[-1] ^ 1])).get(c['prox'])
        m, am = self.message(self.pvr_body(self.sn(c['serial']), prox, c['assertion'], self.nonces.get(c['nonce']), c['extra']), c['content'], 'p', c['signer'], c['intact'])
        tp, ta = self.trust('p', c['store'], 'v'); sg, cert, fit = self.signing('r', c['key']); ap, an = self.add(c['add'])
        t, ts = self.when('now'); iss = dict(given=b'/C=IE/O=mkp corp/CN=mkp' if self.rnd.random() < .7 else b'/CN=' + b'i' * self.rnd.choice([1, 120, 124, 252, 508, 3000]), der=b'\x30\x03\x01\x00').get(c['issuer'])
        p = [('created', t), ('pvr', m), ('tls', tls)] + tp + sg + ap
        if c['peer'] == 'given': p.append(('serial', self.serial))
        if iss: p.append(('issuer', iss))
        e = dict(op='rvr', m=am, created=ts, serial=self.serial if c['peer'] == 'given' else 'none', issuer=self.nm(iss) if iss else 'none', tls='RT', cert=cert, add=an, trust=ta,
                 fit=fit and c['peer'] == 'given' and iss is not None)
        return ('r_rvr', p), lambda r: dict(e, out=self.out(r['cms']))
    def masa(self, c):
        W = self.W
        ps = dict(same=self.sn('same'), unset=None, other='ANOTHER')[c['pserial']]
        if c['prior'] == 'rvr': inner, ai = self.message(dict(serial=ps or 'q', created='2026-01-02T03:04:05Z'), 'voucher', 'r', 'good', c['pintact'])
        else: inner, ai = self.message(self.pvr_body(ps, W.der['RT'], 'logged' if c['pextra'] == 'logged' else 'proximity', self.nonces['n'], c['pextra']), 'text' if c['prior'] == 'notvoucher' else 'voucher', 'p', c['psigner'], c['pintact'])
        b = dict(created=self.date(), issuer=b'/CN=mkp')
        if self.sn(c['serial']) is not None: b['serial'] = self.sn(c['serial'])
        if c['nonce'] != 'unset': b['nonce'] = self.nonces[c['nonce']]
        if c['prior'] == 'garbage': b['prior'] = b'0\x82 garbage'; ai = GARBAGE
        elif c['prior'] != 'unset': b['prior'] = inner
        else: ai = GARBAGE
        if c['extra'] == 'yes': b.update(pinned=W.der['XR'], expires=self.date(), assertion='logged', revchk=True, proximity=W.der['XT'], renewal=self.date())
        m, am = self.message(b, c['content'], 'r', c['signer'], c['intact'])
        rp, ra = self.trust('r', c['store'], 'r'); pp, pa = self.trust('p', c['pstore'], 'p')
        sg, cert, fit = self.signing('m', c['key']); ap, an = self.add(c['add'])
        pinned = dict(ca=W.der['DR'], garbage=b'anything at all', byte=b'\0', big=bytes(range(256)) * 100)[c['pinned']]
        p = [('rvr', m)] + rp + pp + sg + ap + [('pinned', pinned)]
        ex = (2030, 12, 31, 23, 59, 58) if self.rnd.random() < .6 else self.moment()
        if c['expires'] == 'given': p.append(('expires', ','.join(map(str, ex))))
        p += dict(yes=[], no=[('cbrc', -1)], empty=[('cbmode', 1)], none=[('nocb', 1)])[c['cb']]
        e = dict(op='masa', m=am, inner=ai, rtrust=ra, ptrust=pa, fit=c['expires'] == 'given' and c['cb'] != 'none', approve=c['cb'] in ('yes', 'empty'), pinned='unset' if c['cb'] == 'empty' else self.nm(pinned),
                 expires='%04d-%02d-%02dT%02d:%02d:%02dZ' % ex, keyfit=fit, cert=cert, add=an)
        def ev(r):
            return dict(e, out=self.out(r['cms']), calls=r['calls'], cbserial=bytes.fromhex(r['cbserial']).decode('latin1') if r['cbserial'] is not None else 'unset', cbcerts=[self.nm(bytes.fromhex(x)) for x in r['cbcerts'] or []])
        return ('r_masa', p), ev
    def verify(self, c):
        W = self.W
        pin = dict(ca='DR', tls=dict(tls='RT', sub='RI', forged='FT', other='XT')[c['tls']], otherca='XR', twinca='DX', root='DI').get(c['pinned'])
        b = dict(assertion='proximity', expires=self.date())
        if self.sn(c['serial']) is not None: b['serial'] = self.sn(c['serial'])
        if c['nonce'] != 'unset': b['nonce'] = self.nonces[c['nonce']]
        if pin: b['pinned'] = W.der[pin]
        elif c['pinned'] == 'garbage': b['pinned'] = b'not a certificate'
        if c['extra'] == 'yes': b.update(created=self.date(), issuer=b'somebody', revchk=True, renewal=self.date(), prior=b'earlier', proximity=W.der['XT'])
        m, am = self.message(b, c['content'], 'm', c['signer'], c['intact'])
        tp, ta = self.trust('m', c['store'], 'v')
        tls = dict(tls='RT', sub='RI', forged='FT', other='XT')[c['tls']]
        dom = dict(none=None, root=['DR'], other=['XR'], empty=[], pinned=[pin] if pin else [], twin=['DX'])[c['dom']]
        p = [('cms', m), ('tls', W.der[tls])] + tp
        if c['own'] == 'given': p.append(('serial', self.serial))
        if c['asked'] == 'nonce': p.append(('nonce', self.nonces['own']))
        if dom is not None: p += [('dom', W.der[x]) for x in dom] or [('dom0', 1)]
        if c['out'] == 'no': p.append(('noout', 1))
        e = dict(op='verify', m=am, serial=self.serial, nonce=self.nm(self.nonces['own']) if c['asked'] == 'nonce' else 'unset', tls=tls, domgiven=dom is not None, dom=dom or [], trust=ta,
                 fit=c['own'] == 'given', asked=c['out'] == 'yes')
        def ev(r):
            return dict(e, ok=r['rc'] >= 0, pinned=self.nm(bytes.fromhex(r['pinned'])) if r['pinned'] is not None else 'unset', certs=[self.nm(bytes.fromhex(x)) for x in r['out'] or []])
        return ('r_verify', p), ev
