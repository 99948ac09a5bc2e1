"""The checks C01-C05 and C09: one function of the real code each, judged by VoucherRules."""
import msg
MCB = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Lax = {%s}
Pledges = {%s}
Nonced = {%s}
Attacks = %s
MaxNet = %d
MaxTries = %d
'''
def brski(ctx, inv, lax=None, pledges='"P"', nonced='"P"', attacks=True, net=3, tries=1, **kw):
    c = MCB % ('"%s"' % lax if lax else '', pledges, nonced, 'TRUE' if attacks else 'FALSE', net, tries)
    kw.setdefault('workers', '3')
    return lambda: ctx.model('Brski', c + ('' if kw.get('prop') else 'INVARIANTS %s\n' % inv), expect=inv if lax or inv.startswith('Nobody') else None, cover=False, **kw)
FREE = dict(rvr=dict(nonce=['n', 'unset', 'big'], extra=['no', 'yes'], issuer=['given', 'der'], key=['ec', 'rsa'], add=['none', 'empty', 'one', 'two']),
            masa=dict(nonce=['n', 'unset', 'big', 'other'], extra=['no', 'yes'], pextra=['no', 'yes', 'logged'], cb=['yes', 'no'], pinned=['ca', 'garbage', 'byte', 'big'],
                      key=['ec', 'rsa'], add=['none', 'empty', 'one', 'two']))
def kinds(cases):
    o = {}
    for c in cases:
        for k, v in c.items(): o.setdefault(k, set()).add(v)
    return {k: sorted(v) for k, v in sorted(o.items())}
def run(ctx, op, models, quick=900, rand=400, happy=0):
    """happy: mixes of fields whose deviations alone do not lead to a refusal"""
    rnd = ctx.rnd
    dev = '3' if ctx.thorough else '2'
    g = ctx.par(lambda: ctx.gen('GenRules', env={'OP': op, 'DEV': dev}), *models)[0]
    K = kinds(g); B = base(g)
    near = [c for c in g if sum(c[k] != B[k] for k in B) <= 1]
    far = [c for c in g if sum(c[k] != B[k] for k in B) > 1]
    n = 9000 if ctx.thorough else quick
    cases = near + (far if len(far) <= n else rnd.sample(far, n))
    for _ in range(3000 if ctx.thorough else rand): # mixes of many deviations
        p = rnd.choice([.05, .15, .4])
        cases.append({k: rnd.choice(K[k]) if rnd.random() < p else B[k] for k in B})
    free = FREE.get(op, {})
    for _ in range(happy * (4 if ctx.thorough else 1)):
        cases.append({k: rnd.choice(free[k]) if k in free else B[k] for k in B})
    calls, evs = [], {}
    fx = [msg.Rules(ctx.d(), rnd, rsa=i % 2 == 1, keys={}) for i in range(6 if ctx.thorough else 2)]
    for i, c in enumerate(sorted(cases, key=lambda c: rnd.random())):
        R = fx[i * len(fx) // len(cases)]
        call, ev = getattr(R, op)(c)
        calls.append(call); evs[id(call)] = (R, ev)
    ctx.grouped('TraceRules', calls, lambda c, r: evs[id(c)][1](r), head=lambda c: dict(w=evs[id(c)][0].w), batch=40, size=30)
    ctx.assume.append('cases are all those at most %s deviations from the good case (sampled beyond %d) and random mixes; kinds: %s' % (dev, n, K))
def base(g):
    """the good case: of each field the value that most cases have"""
    from collections import Counter
    return {k: Counter(c[k] for c in g).most_common(1)[0][0] for k in g[0]}
