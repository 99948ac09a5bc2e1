"""Keys and certificates made with OpenSSL directly (driver fixture operations)."""
import base64
class Cert:
    def __init__(self, der, key, parent=None): self.der, self.key, self.parent = der, key, parent
    @property
    def pem(self): return pem('CERTIFICATE', self.der)
    @property
    def keypem(self): return pem('PRIVATE KEY' if False else 'EC PRIVATE KEY', self.key)
def pem(label, der):
    s = base64.b64encode(der).decode()
    return ('-----BEGIN %s-----\n' % label + '\n'.join(s[i:i+64] for i in range(0, len(s), 64)) +
            '\n-----END %s-----\n' % label).encode()
class Pki:
    def __init__(self, d): self.d = d; self._keys = {}; self.n = 100
    def key(self, typ='ec'):
        return bytes.fromhex(self.d.ok('fx_key', type=typ)['der'])
    def cert(self, subject, issuer=None, key=None, typ='ec', ca=False, **kw):
        """subject: 'CN=a' or list; issuer: Cert or None (self-signed)"""
        key = key or self.key(typ)
        self.n += 1
        a = dict(key=key, subject='\n'.join([subject] if isinstance(subject, str) else subject),
                 serial=kw.pop('serial', self.n))
        if issuer: a.update(icert=issuer.der, ikey=issuer.key)
        if ca: a.update(bc='critical,CA:TRUE', ku='critical,keyCertSign,cRLSign')
        a.update(kw)
        return Cert(bytes.fromhex(self.d.ok('fx_cert', **a)['der']), key, issuer)
    def crl(self, ca, revoked=()):
        return bytes.fromhex(self.d.ok('fx_crl', icert=ca.der, ikey=ca.key, revoked=[str(r) for r in revoked])['der'])
    def cms(self, content, cert, **kw):
        return bytes.fromhex(self.d.ok('fx_cms', content=content, cert=cert.der, key=cert.key, **kw)['der'])
