"""Real certificates for a world of the specification (module Pki)."""
import drv
class World:
    """w: name -> dict(sub, iss, key, by, ca, val). Key names that start with 'rsa' are RSA."""
    def __init__(self, d, w, keys=None, serial0=1000):
        self.d, self.w = d, w
        self.keys = {} if keys is None else keys
        self.serial = {n: serial0 + i for i, n in enumerate(sorted(w))}
        self.der = {}
        need = [k for k in {r['key'] for r in w.values()} | {r['by'] for r in w.values()} - {'?'} if k not in self.keys]
        for k, x in zip(need, self.batch([('fx_key', [('type', self.ktype(k))]) for k in need])): self.keys[k] = bytes.fromhex(x['der'])
        todo = []
        for n, r in w.items():
            a = dict(key=self.key(r['key']), serial=self.serial[n], subject=self.dn(r['sub']), issuer=self.dn(r['iss']),
                     ikey=self.key(r['by'] if r['by'] != '?' else r['key']))
            if r.get('serialhex'): a['serialhex'] = r['serialhex']; del a['serial']
            if r['ca']: a.update(bc='critical,CA:TRUE', ku='critical,keyCertSign,cRLSign,digitalSignature')
            elif r.get('bc0'): a.update(bc='critical,CA:FALSE')
            if not r['val']: a.update(nb=-86400 * 400, na=-86400)
            todo.append(('fx_cert', drv.flat(a)))
        for n, x in zip(w, self.batch(todo)):
            x = bytes.fromhex(x['der'])
            if w[n]['by'] == '?': x = bytes.fromhex(d.ok('fx_forge', der=x, mode='sig')['der'])
            self.der[n] = x
    def ktype(self, k): return 'rsa' if k.startswith('rsa') else 'ec'
    def batch(self, jobs):
        return self.d.calll('batch', [('timeout', 120)] + [('x', drv.line(*j)) for j in jobs])['r'] if jobs else []
    def dn(self, n): return 'C=IE\nO=%s corp\nCN=%s' % (n, n)
    def key(self, k):
        if k not in self.keys:
            self.keys[k] = bytes.fromhex(self.d.ok('fx_key', type=self.ktype(k))['der'])
        return self.keys[k]
    def crl(self, ca, rev, by=None):
        """A list in the name of certificate ca, signed with its key or the key of that name"""
        return bytes.fromhex(self.d.ok('fx_crl', icert=self.der[ca], ikey=self.key(by or self.w[ca]['key']),
                                       revoked=[str(self.serial[r]) for r in rev])['der'])
    def cms(self, content, signers, extra=(), **kw):
        return bytes.fromhex(self.d.ok('fx_cms', content=content, cert=[self.der[s] for s in signers],
                             key=[self.key(self.w[s]['key']) for s in signers], extra=[self.der[e] for e in extra], **kw)['der'])

def random_world(rnd, prefix=''):
    """A small forest with collisions of names, cross certificates and forgeries."""
    w = {}; cas = []
    def rec(sub, iss, key, by, ca=True, val=True): return dict(sub=sub, iss=iss, key=key, by=by, ca=ca, val=val)
    names = ['A', 'B', 'C', 'D']
    for i in range(rnd.randint(1, 2)):
        n = rnd.choice(names); k = 'root%d' % i
        w['T%d' % i] = rec(n, n, k, k); cas.append('T%d' % i)
    for i in range(rnd.randint(1, 3)):
        p = rnd.choice(cas); n = rnd.choice(names[1:] + ['X%d' % i] * 3)
        if n == w[p]['sub']: n = 'X%d' % i
        w['M%d' % i] = rec(n, w[p]['sub'], rnd.choice(['int%d' % i] * 4 + ['int0']), w[p]['key'], val=rnd.random() < .9, ca=rnd.random() < .85)
        cas.append('M%d' % i)
    if rnd.random() < .5: # cross certificate
        p, q = rnd.choice(cas), rnd.choice(cas)
        if w[p]['sub'] != w[q]['sub']: w['X'] = rec(w[q]['sub'], w[p]['sub'], w[q]['key'], w[p]['key']); cas.append('X')
    for i in range(rnd.randint(1, 3)):
        p = rnd.choice(cas)
        w['L%d' % i] = rec('leaf%d' % rnd.randint(0, 2), w[p]['sub'], 'leaf%d' % i, rnd.choice([w[p]['key']] * 5 + ['?', w[rnd.choice(cas)]['key'], 'adv']),
                           ca=False, val=rnd.random() < .92)
    if rnd.random() < .3: w['E'] = rec('solo', 'solo', 'solo', rnd.choice(['solo'] * 3 + ['adv']), ca=False)
    if rnd.random() < .3: # issued by an end entity
        w['N'] = rec('sub', w['L0']['sub'], 'sub', w['L0']['key'], ca=False)
    return w
