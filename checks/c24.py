"""C24 lists and byte arrays"""
MC = 'SPECIFICATION Spec\nINVARIANT OnlyGrows\nPROPERTY Append1\nCONSTANTS\n Items = {"", "00", "61"}\n MaxLen = %d\n NoVal = "NULL"\nCHECK_DEADLOCK FALSE\n'
END = {'list_seq': ['len', 'first', 'last', 'dump'], 'kv_seq': ['len', 'dump', 'json']}
def N(v): return 'NULL' if v is None else v
def session(j, r):
    op, kw = j
    if op == 'ba_ops':
        d = dict(kw)
        return dict(ev=[dict(op='array', a=d['a'].hex() if 'a' in d else 'NULL', b=d['b'].hex() if 'b' in d else 'NULL',
                             **{k: r[k] for k in ('cmp', 'cmp2', 'copy', 'copynull', 'shared', 'dst', 'freed')})])
    ev = []
    for (_, s), x in zip(kw, r['steps']):
        f = s.split('|')
        if f[0] == 'push':
            if 'NULL' in f: ev.append(dict(op='bad', rc=x['rc']))
            elif op == 'list_seq': ev.append(dict(op='push', x=[f[1], int(f[2])], rc=x['rc']))
            else: ev.append(dict(op='push', x=[f[1], f[2]], rc=x['rc']))
        elif f[0] in ('pushnull', 'nolist'): ev.append(dict(op='bad', rc=x['rc']))
        else: ev.append(dict(op=f[0], v=N(x['v'])))
    return dict(ev=ev)
def run(ctx):
    rnd = ctx.rnd
    ctx.model('Lists', MC % (7 if ctx.thorough else 5), must=('Grow', 'Refuse', 'Observe'))
    jobs = []; arrs = []
    g = ctx.gen('GenLists')
    if not ctx.thorough: g = [c for c in g if c['k'] == 'arr'] + rnd.sample([c for c in g if c['k'] != 'arr'], 1100)
    for c in g:
        if c['k'] == 'arr':
            arrs.append(('ba_ops', [(k, bytes.fromhex(v)) for k, v in zip('ab', c['s']) if v != 'NULL']))
        else:
            op = c['k'] + '_seq'; jobs.append((op, [('s', s) for s in c['s'] + END[op]]))
    def blob(text=False, big=False):
        b = rnd.randbytes(rnd.choice([0, 1, 2, 5, 16, 64, 200, 200, 70000] if big else [0, 1, 2, 5, 16, 64, 200]))
        return b.replace(b'\0', b'\1') if text else b
    for _ in range(1500 if ctx.thorough else 120):
        op = rnd.choice(['list_seq', 'kv_seq']); s = []
        pool = [blob(op == 'kv_seq') for _ in range(3)]
        for _ in range(rnd.randrange(1, 40)):
            k = rnd.randrange(10)
            if k < 5:
                s.append('push|%s|%s' % (rnd.choice(pool).hex(), rnd.randrange(-2**31, 2**31) if op == 'list_seq' else blob(True).hex()))
            elif k == 5: s.append('pushnull' if op == 'list_seq' else 'push|NULL|61')
            elif k == 6: s.append('nolist' if op == 'list_seq' else 'push|61|NULL')
            else: s.append(rnd.choice(END[op]))
        jobs.append((op, [('s', x) for x in s + END[op]]))
    for _ in range(1500 if ctx.thorough else 150):
        a = blob(big=rnd.random() < .1); b = bytearray(a); k = rnd.randrange(7)
        if k == 1 and b: b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
        elif k == 2: b += b'\0'
        elif k == 3: b = b[:rnd.randrange(len(b) + 1)]
        elif k == 4: b = blob()
        elif k == 5 and b: # a zero byte, and then a difference
            i = rnd.randrange(len(b)); a = a[:i] + b'\0' + a[i:]; b = bytearray(a); b[rnd.randrange(i, len(b))] ^= 0x41
        elif k == 6 and len(b) > 1: # the same bytes in another order
            i = rnd.randrange(len(b) - 1); b = b[i + 1:] + b[:i + 1]
        arrs.append(('ba_ops', [('a', a), ('b', bytes(b))]))
    ctx.check_jobs('TraceLists', jobs, session)
    ctx.grouped('TraceLists', arrs, lambda c, r: session(c, r)['ev'][0], lambda c: {}, batch=100, size=200)
