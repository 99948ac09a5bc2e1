"""Just enough DER to take signed messages apart and put them together again."""
def tlv(b, i=0):
    """(tag, start of value, end) of the element at i"""
    t = b[i]; n = b[i + 1]; j = i + 2
    if n & 0x80:
        k = n & 0x7f
        if k == 0: raise ValueError('indefinite')
        n = int.from_bytes(b[j:j + k], 'big'); j += k
    return t, j, j + n
def kids(b, i=0):
    """elements inside the element at i, each complete"""
    _, j, e = tlv(b, i); o = []
    while j < e:
        _, _, x = tlv(b, j); o.append(b[j:x]); j = x
    return o
def val(b): t, j, e = tlv(b); return b[j:e]
def enc(t, v):
    n = len(v)
    if n < 128: h = bytes([n])
    else:
        k = (n.bit_length() + 7) // 8; h = bytes([0x80 | k]) + n.to_bytes(k, 'big')
    return bytes([t]) + h + v
class Cms:
    """SignedData: version, digest algorithms, content, certificates, signer infos."""
    def __init__(self, der):
        oid, ex = kids(der)
        self.oid = oid
        sd = kids(kids(ex)[0])
        self.ver, self.algs, self.econt = sd[0], kids(sd[1]), sd[2]
        self.certs, self.crls, self.sis = [], [], []
        for x in sd[3:]:
            if x[0] == 0xa0: self.certs = kids(x)
            elif x[0] == 0xa1: self.crls = kids(x)
            elif x[0] == 0x31: self.sis = kids(x)
    def der(self):
        sd = self.ver + enc(0x31, b''.join(self.algs)) + self.econt
        if self.certs: sd += enc(0xa0, b''.join(self.certs))
        if self.crls: sd += enc(0xa1, b''.join(self.crls))
        sd += enc(0x31, b''.join(self.sis))
        return enc(0x30, self.oid + enc(0xa0, enc(0x30, sd)))
