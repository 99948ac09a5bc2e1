"""C22 base64"""
MC = 'SPECIFICATION Spec\nINVARIANTS RoundTrip Shape\nCONSTANTS\n MaxLen=%d\n Bytes={%s}\n LineBreaks=TRUE\nCHECK_DEADLOCK FALSE\n'
def enc(b): return ('b64e', [('in', b)])
def dec(b): return ('b64d', [('in', b)])
def event(job, r):
    op, kw = job; b = kw[0][1]
    if r['st'] != 'ok': return None
    r = r['r']; ok = r['n'] >= 0
    out = dict(ok=ok, n=r['n'])
    got = list(bytes.fromhex(r.get('out', '')))
    if op == 'b64e': out.update(text=got, nul=r.get('nul', False))
    else: out.update(bytes=got, null=r['null'])
    return dict(op=op == 'b64e' and 'enc' or 'dec', **{'in': list(b)}, out=out)
def run(ctx):
    ctx.model('Base64', MC % ((5, '0,65,255') if ctx.thorough else (4, '0,65,255')), must=('Append1', 'Break'))
    rnd = ctx.rnd
    jobs = [dec(bytes(c['t'])) for c in ctx.gen('GenBase64')]
    if not ctx.thorough: jobs = rnd.sample(jobs, 1500)
    n = 3000 if ctx.thorough else 350
    jobs += [enc(bytes([i])) for i in range(256)]
    A = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
    import base64
    for i in range(n):
        b = rnd.randbytes(rnd.choice([i % 130, rnd.randrange(1, 60), rnd.randrange(200)]))
        jobs.append(enc(b))
        t = base64.b64encode(b)
        k = rnd.randrange(7)
        if k == 1: t = b'\n'.join(t[j:j+64] for j in range(0, len(t), 64)) + b'\n'
        elif k == 2: t = t.rstrip(b'=')
        elif k == 3:
            j = rnd.randrange(len(t) + 1); t = t[:j] + bytes([rnd.randrange(256)]) + t[j:]
        elif k == 4: t = t[:rnd.randrange(len(t) + 1)]
        elif k == 5: t = rnd.randbytes(len(t))
        elif k == 6:
            j = rnd.randrange(len(t) + 1); t = t[:j] + rnd.choice([b'\r\n', b' ', b'=', b'-', b'_', b'\0']) + t[j:]
        jobs.append(dec(t))
    jobs += [dec(bytes([c]) * k) for c in range(256) for k in (4,)]
    jobs += [dec(bytes([A[i % 64], A[(i * 7) % 64], A[(i * 13) % 64], A[(i * 31 + 5) % 64]])) for i in range(64)]
    for big in (1 << 12, 5000, 4999): jobs += [enc(rnd.randbytes(big)), dec(base64.b64encode(rnd.randbytes(big)))]
    res = ctx.run_jobs(jobs)
    ss, src = [], []
    for j, r in zip(jobs, res):
        e = event(j, r)
        if e is None:
            again = ctx.d().calll(*j)
            if again['st'] != 'ok': ctx.reject('crash', op=j[0], input=j[1][0][1].hex(), result=again)
            continue
        ss.append(dict(ev=[e])); src.append(j)
    ctx.conform('TraceBase64', ss, redo=lambda i: dict(ev=[event(src[i], ctx.d().calll(*src[i]))]))
