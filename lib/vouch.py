"""Voucher operations as driver steps and their results as events."""
ATTRS = ['created', 'expires', 'assertion', 'serial', 'issuer', 'pinned', 'revchk', 'nonce', 'renewal', 'prior', 'proximity']
TY = dict(created='time', expires='time', renewal='time', assertion='enum', serial='str', revchk='bool',
          issuer='arr', pinned='arr', nonce='arr', prior='arr', proximity='arr')
def enc(ty, v):
    if v is None: return 'NULL'
    if ty == 'time': return ','.join(map(str, v)).encode().hex()
    if ty == 'enum': return str(v).encode().hex()
    if ty == 'bool': return (b'1' if v else b'0').hex()
    return v.hex()
def setter(ty, at, v, generic=False):
    """v: tuple, int, bool, bytes or None"""
    return '%s%s|%s|%s' % ('g' if generic else '', ty, at, enc(ty, v))
def val(ty, v):
    """value as the specification sees it"""
    if v is None: return 'null'
    return list(v) if ty == 'time' else v.hex() if ty in ('str', 'arr') else v
def dump(d):
    o = dict(d)
    for a in ATTRS:
        if TY[a] in ('str', 'arr') and o[a] is None: o[a] = 'unset'
    return o
