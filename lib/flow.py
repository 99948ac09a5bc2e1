"""The situations of GenFlow as work for the real servers and the real pledge."""
import base64, os
import dep, drv, msg
from dep import Dep, unb64
B64 = base64.b64encode
class Flow:
    """One deployment, and the messages its parties and an attacker could send in it"""
    def __init__(self, ctx, rnd, keys, **fix):
        fix.setdefault('extra', rnd.choice([1, 3])); fix.setdefault('verify', 'some'); fix.setdefault('store', 'yes')
        self.ctx, self.rnd = ctx, rnd
        self.D = Dep(ctx, rnd, keys, **fix); self.W = self.D.W; self.w = self.D.w
        self.cache = {}
        D = self.D; self.PS = 'P' if D.o['same'] else 'PC'
        self.sn = D.o['sn']; self.nonce = D.nonce if D.o['nonce'] == 'yes' else None
        D.nm.add(b'other nonce', 'othernonce')
        # certificates and other bodies to enrol
        self.bodies = {}
        for v in list(self.w): self.bodies[v] = self.W.der[v]
    def emb(self, role): return [self.D.f0[p]['cert'] for p in self.D.c[role]['add']]
    def get(self, key, make):
        if key not in self.cache: self.cache[key] = make()
        return self.cache[key]
    def cms(self, body, signers, emb, intact='yes', content='voucher'):
        key = ('cms', tuple(sorted(body.items())), tuple(signers), tuple(emb), intact, content)
        return self.get(key, lambda: self._cms(body, signers, emb, intact, content))
    def _cms(self, body, signers, emb, intact, content):
        rnd = self.rnd
        x = dict(voucher=lambda: msg.write(body, rnd), text=lambda: b'no json at all', otherjson=lambda: b'{"ietf-voucher:request":{"serial-number":"a"}}', empty=lambda: b'')[content]()
        m = self.W.cms(x, signers, sorted(set(emb) - set(signers)))
        if intact == 'no':
            m = bytearray(m)
            i = m.find(b'ietf-voucher:voucher')
            if i > 0 and rnd.random() < .5: m[rnd.randrange(i + 30, i + 60)] ^= 1
            else: m[-rnd.choice([4, 9, 20])] ^= 1
            m = bytes(m)
        return m
    def serial(self, kind): return dict(same=self.sn, other='ANOTHER', q=self.sn + 'x').get(kind)
    def non(self, kind): return dict(own=self.nonce, other=b'other nonce').get(kind)
    def who(self, kind, own, other): return [own] if kind == 'own' else [own, other] if kind == 'both' else [own if kind == 'own' else kind]
    def pvr(self, serial='same', prox='RT', assertion='proximity', nonce='own', signer='own', intact='yes', content='voucher', created='2026-01-02T03:04:05Z', **_):
        b = {}
        if self.serial(serial) is not None: b['serial'] = self.serial(serial)
        if prox in self.W.der: b['proximity'] = self.W.der[prox]
        if assertion != 'unset': b['assertion'] = assertion
        if self.non(nonce) is not None: b['nonce'] = self.non(nonce)
        b['created'] = created if created != '2026-01-02T03:04:05Z' else self.rnd.choice([created] * 3 + ['2199-12-31T23:59:59Z'])
        return self.cms(b, self.who(signer, self.PS, 'XP'), self.emb('p'), intact, content)
    def rvr(self, prior=None, serial='same', nonce='own', signer='RS', intact='yes', content='voucher', **_):
        b = dict(created='2026-02-02T03:04:05Z', issuer=b'/CN=mkp')
        if self.serial(serial) is not None: b['serial'] = self.serial(serial)
        if self.non(nonce) is not None: b['nonce'] = self.non(nonce)
        if prior: b['prior'] = prior
        return self.cms(b, ['RS', 'XS'] if signer == 'both' else [signer], self.emb('r'), intact, content)
    def voucher(self, serial='same', nonce='own', pinned='DR', signer='MS', intact='yes', content='voucher'):
        b = dict(assertion='proximity', expires='2031-03-04T05:06:07Z')
        b['serial'] = self.serial(serial)
        if self.non(nonce) is not None: b['nonce'] = self.non(nonce)
        if pinned in self.W.der: b['pinned'] = self.W.der[pinned]
        elif pinned == 'junk': b['pinned'] = b'not a certificate'
        return self.cms(b, ['MS', 'XS'] if signer == 'both' else [signer], self.emb('m'), intact, content)
    # -- what an attacker may have in place of a message
    def PVR(self, k):
        if k == 'rvr': return self.rvr(self.pvr())
        kw = dict(old=dict(created='2019-01-02T03:04:05Z'), twin=dict(prox='RT2'), q=dict(signer='Q', serial='q'), qasp=dict(signer='Q'), xp=dict(signer='XP'), proxx=dict(prox='XT'), proxunset=dict(prox='unset'),
                  logged=dict(assertion='logged'), tamper=dict(intact='no'), otherserial=dict(serial='other'), nonceless=dict(nonce='unset'), othernonce=dict(nonce='other'), text=dict(content='text'), both=dict(signer='both'))[k]
        return self.pvr(**kw)
    def RVR(self, k):
        if k == 'mixed': return self.rvr(self.PVR('q'))
        if k == 'xsq': return self.rvr(self.PVR('q'), serial='q', signer='XS')
        if k == 'priorx': return self.rvr(self.PVR('xp'))
        if k == 'priortamper': return self.rvr(self.PVR('tamper'))
        if k == 'noprior': return self.rvr(None)
        kw = dict(old={}, xs=dict(signer='XS'), q=dict(signer='Q'), p=dict(signer=self.PS), tamper=dict(intact='no'), othernonce=dict(nonce='other'), text=dict(content='text'))[k]
        return self.rvr(self.pvr(), **kw)
    def VOUCHER(self, k):
        if k == 'rvr': return self.rvr(self.pvr())
        if k == 'garbage': return b'neither one nor the other'
        if k == 'empty': return b''
        kw = dict(old={}, q=dict(serial='q'), nonceless=dict(nonce='unset'), othernonce=dict(nonce='other'), pinx=dict(pinned='XR'), pint=dict(pinned='RT'), pinsub=dict(pinned='DI'), byxs=dict(signer='XS'), byq=dict(signer='Q'),
                  byrs=dict(signer='RS'), self=dict(signer=self.PS), both=dict(signer='both'), tamper=dict(intact='no'), pinunset=dict(pinned='unset'), pinjunk=dict(pinned='junk'), text=dict(content='text'))[k]
        return self.voucher(**kw)
    # -- how it is written down
    def enc(self, m, kind):
        t = B64(m)
        if kind == 'plain': return t
        if kind == 'lines': return b'\r\n'.join(t[i:i + 64] for i in range(0, len(t), 64)) + b'\n'
        if kind == 'nopad': return t.rstrip(b'=')
        if kind == 'garbage': return b'{"no": "base64"} \xff\xfe!'
        if kind == 'empty': return b''
        if kind == 'cut': return t[:len(t) * 2 // 3]
        if kind == 'one': return b'A'
        if kind == 'nul': return t[:40] + b'\0' + t[40:]
        if kind == 'tail': return t + b'\r\n .-_!'
        if kind == 'notcms': return B64(self.W.der['XR'])
        raise KeyError(kind)
    # -- cases
    def spoilt(self, c):
        """the deployment of a case; None when it cannot be"""
        D = self.D.clone()
        if c.get('file', 'none') != 'none':
            if c['file'][-1] == '0':
                if c['file'] not in D.f0 or c['how'] == 'unset': return None
            if c['how'] == 'unset' and c['file'] in ('r.tlskey', 'm.tlskey'): return None # such a server cannot start
            D.spoil(c['file'], c['how'])
        return D
    def reg(self, c):
        D = self.spoilt(c)
        if D is None: return None
        st, iv = self.regstep(D, c)
        return D, D.job([st], [(0, *v) for v in iv])
    def regstep(self, D, c):
        m = self.pvr(**c); k = c['masa']
        iv = dict(fail=[('masa.0', 'fail', '')], client=[('masa.0', 'client', self.W.der['Q'])], other=[('masa.0', 'ressub', 'whatever it is')], empty=[('masa.0', 'ressub', '')], up=[]).get(k, [('masa.0', 'status', k)])
        return D.s_reg(self.enc(m, c['enc']), {'long': 'LONG'}.get(c['peer'], c['peer'])), iv
    def masa(self, c):
        D = self.spoilt(c)
        if D is None: return None
        self.expires(D, c)
        return D, D.job([self.masastep(D, c)])
    def expires(self, D, c):
        e = dict(unset=None, bad='next year', date='2031-03-04', range='2031-13-04T05:06:07Z', leap='2032-02-29T00:00:00Z').get(c['expires'], D.dates['expires'])
        D.dates['expires'] = e; D.c['m'].update(expires=e or 'unset', expiresok=c['expires'] in ('good', 'leap'))
    def masastep(self, D, c):
        p = self.pvr(serial=c['pserial'], signer=c['psigner'], intact=c['pintact'])
        prior = dict(good=p, unset=None, garbage=b'0\x82 garbage', text=self.pvr(content='text', signer=c['psigner']), rvr=self.rvr(p))[c['prior']]
        m = self.rvr(prior, **{k: c[k] for k in ('serial', 'nonce', 'signer', 'intact', 'content')})
        return D.s_reg(self.enc(m, c['enc']), c['peer'], side='masa')
    def attack(self, c, op='voucher'):
        D = self.D.clone(); iv = []
        for hop, k in (('reg.0', 'p1'), ('reg.1', 'p2'), ('reg.2', 'p3')):
            if c.get(k, 'RT') != 'RT': iv.append((0, hop, 'peer', self.W.der[c[k]]))
        for hop, kind, k, f in (('reg.1', 'reqsub', 'regin', self.PVR), ('masa.0', 'reqsub', 'masain', self.RVR), ('masa.0', 'ressub', 'masaout', self.VOUCHER), ('reg.1', 'ressub', 'regout', self.VOUCHER)):
            if c.get(k, 'none') != 'none': iv.append((0, hop, kind, B64(f(c[k]))))
        if c.get('client', 'P') != 'P': iv.append((0, 'reg.1', 'client', self.W.der.get(c['client'], b'')))
        if c['drop'] != 'none': iv.append((0, c['drop'], 'fail', ''))
        return D, iv
    def pledge(self, c):
        D, iv = self.attack(c)
        return D, D.job(['voucher'], iv)
    def pins(self, c):
        D = self.spoilt(c)
        if D is None: return None
        n, s = NONCE.get(c['nonce']), dict(unset=None, other='ANOTHER', longest='s' * 127, toolong='s' * 128)
        if c['nonce'] != 'deployed': D.set('nonce', n)
        if c['serial'] != 'deployed': D.set('serial', s[c['serial']])
        t = self.enc(self.VOUCHER(c['v']), c['enc'])
        return D, D.job(['verify|%s|%s' % ((unb64(t) or b'').hex(), self.W.der[c['tls']].hex())])
    def sign(self, c):
        D, iv = self.attack(c)
        if c['file'] != 'none':
            if c['file'][-1] == '0' and (c['file'] not in D.f0 or c['how'] == 'unset'): return None
            D.spoil(c['file'], c['how'])
        if c['status'] != 'none':
            n, s = c['status'].split(':'); iv.append((0, 'reg.' + n, 'status', s))
        t = B64(self.W.der['DI'])
        a = dict(empty=b'', garbage=b'Enrolled. Thank you!', cut=t[:len(t) // 2], lines=self.enc(self.W.der['DI'], 'lines')).get(c['answer'])
        if a is not None: iv.append((0, 'reg.2', 'ressub', a))
        return D, D.job(['sign', 'log'], iv)
    # -- enrolment
    def make_bodies(self):
        """Certificates of all kinds to submit: name -> DER"""
        W, rnd = self.W, self.rnd
        C = lambda **a: ('fx_cert', drv.flat(a))
        k, kr = W.key('p'), W.key('rsa_enrol')
        long = 'serialNumber=#x' + ('Z' * 9000).encode().hex()
        odd = 'serialNumber=#x' + 'tab\t "q" \\ nl\n1 0x1 "a" 0x2 "b"\n'.encode().hex()
        todo = dict(ec=C(key=k, subject='C=IE\nCN=new\nserialNumber=00ff', serial=77), rsa=C(key=kr, subject='CN=rsa\nserialNumber=1-2', serial=2**63 + 5), ca=C(key=k, subject='CN=wants to be a CA', serial=5, bc='critical,CA:TRUE', ku='critical,keyCertSign'),
                    exts=C(key=k, subject='CN=e\nserialNumber=x', serial=6, bc='CA:FALSE', ku='digitalSignature', eku='serverAuth,clientAuth', ski=1), odd=C(key=k, subject='CN=o\n' + odd, serial=7), noname=C(key=k, subject='', serial=8),
                    big=C(key=k, subject='CN=b\nserialNumber=big', serialhex='01' + '00' * 18 + 'ff'), neg=C(key=k, subject='CN=b\nserialNumber=neg', serialhex='-0102'), expired=C(key=k, subject='CN=old\nserialNumber=old', serial=9, nb=-86400 * 900, na=-86400 * 400),
                    NUL=C(key=k, subject='CN=n\nserialNumber=#x410042', serial=10), long=C(key=k, subject='CN=l\n' + long, serial=11), issued=C(key=k, subject='CN=i\nserialNumber=again', serial=12, icert=W.der['DR'], ikey=W.key(self.w['DR']['key'])),
                    twice=C(key=k, subject='serialNumber=first\nCN=t\nserialNumber=second', serial=13), bmp=C(key=k, subject='CN=u\nserialNumber=#x' + 'übér'.encode().hex(), serial=14), nullser=C(key=k, subject='CN=NULL\nserialNumber=NULL', serial=0),
                    future=C(key=k, subject='CN=f', serial=15, nb=86400 * 365 * 20, na=86400 * 365 * 40))
        todo['v1'] = C(key=k, subject='CN=v1\nserialNumber=one', serial=16, ver=0)
        out = {n: bytes.fromhex(x['der']) for n, x in zip(todo, W.batch(list(todo.values())))}
        out['key'] = W.key('p'); out['cms'] = self.pvr(); out['csr'] = b'\x30\x0c\x30\x04\x02\x01\x00\x30\x00\x30\x00\x03\x01\x00'; out['junk'] = b'\x30\x82\xff\xff' + b'A' * 50
        return out
    def enrol(self, c, bodies, extra=()):
        D = self.spoilt(c)
        if D is None: return None
        return D, D.job([D.s_reg(self.enc(bodies[c['body']], c['enc']), c['peer'], path='/.well-known/est/simpleenroll'), 'log'])
NONCE = dict(unset=None, byte=b'n', zero=b'\0\0', long=bytes(range(200)), bad1='!!!!', bad2='A', bad3='QUJDR', bad4='==')
ENROL = '/.well-known/est/simpleenroll'
VOUCHER = '/.well-known/brski/requestvoucher'
def cases(ctx, op, quick, rand=200, dev=None):
    """all situations near the good one (some of those further away), and mixes"""
    rnd = ctx.rnd
    g = ctx.gen('GenFlow', env={'OP': op, 'DEV': dev or ('3' if ctx.thorough and op != 'attack' else '2')})
    from rulecheck import base, kinds
    B = base(g); K = kinds(g)
    dist = lambda c: sum(c[k] != B[k] for k in B if k != 'how')
    near = [c for c in g if dist(c) <= 1]; far = [c for c in g if dist(c) > 1]
    n = quick * 8 if ctx.thorough else quick
    o = near + (far if len(far) <= n else rnd.sample(far, n))
    for _ in range(rand * (8 if ctx.thorough else 1)):
        p = rnd.choice([.05, .1, .3])
        o.append({k: rnd.choice(K[k]) if rnd.random() < p else B[k] for k in B})
    ctx.assume.append('%s: every situation one deviation away from the good one, %d of %d further ones, %d mixes' % (op, min(len(far), n), len(far), rand))
    return o
def run(ctx, op, cs, make, nflows=3, careful=0, **fix):
    """make(flow, case) -> (deployment, job) or None"""
    rnd = ctx.rnd; keys = {}
    fl = [Flow(ctx, rnd, keys, **fix) for _ in range(nflows * (3 if ctx.thorough else 1))]
    jobs, at = [], {}
    for c in cs:
        x = make(rnd.choice(fl), c)
        if x is None: continue
        jobs.append(x[1]); at[id(x[1])] = (x[0], c)
    session = lambda j, r: at[id(j)][0].session(at[id(j)][0].events(j, r))
    ctx.check_jobs('TraceFlow', jobs, session)
    if careful: ctx.careful('TraceFlow', jobs, session, careful)
def also(ctx, op, quick, rand, nflows=2, **fix):
    """the same over whole configurations and files, through the handlers of the program"""
    flow_op = dict(reg=Flow.reg, masa=Flow.masa, pins=Flow.pins)[op]
    run(ctx, op, cases(ctx, op, quick, rand), flow_op, nflows, **fix)
MCE = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Lax = {%s}
Pledges = {%s}
MaxLog = %d
'''
def enrolmodel(ctx, inv=None, lax=None, prop=None, pledges='"P", "O"', log=3, **kw):
    c = MCE % ('"%s"' % lax if lax else '', pledges, log)
    if inv: c += 'INVARIANTS %s\n' % inv
    if prop: c += 'PROPERTY %s\n' % prop
    return lambda: ctx.model('Enrol', c, expect=(inv or prop) if lax or inv == 'NobodyEnrols' else None, **kw)
ALLE = 'OnlyToVouched SuccessIsCertificate DomainIssued KeysStay Logged'
MCS = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Lax = {%s}
Reqs = {"g1", "g2", "b1", "e1", "e2"}
MaxWrites = 1
'''
def servers(ctx, lax=None, **kw):
    w = dict(history='FreshFiles', shared='OwnAnswer', torn='IntactLog')
    c = MCS % ('"%s"' % lax if lax else '')
    if lax: return lambda: ctx.model('Servers', c + ('PROPERTY ' if lax == 'history' else 'INVARIANT ') + w[lax] + '\n', expect=w[lax], **kw)
    return lambda: ctx.model('Servers', c + 'INVARIANTS OwnAnswer IntactLog\nPROPERTY FreshFiles\nPROPERTY AllAnswered\n', must=('Arrive', 'Read', 'Refuse', 'Decide', 'Make', 'Log', 'Write'), **kw)
