"""C10 honest parties with matching trust always complete the bootstrap"""
from dep import Dep
from rulecheck import brski
def run(ctx):
    rnd = ctx.rnd
    ms = [lambda: ctx.model('Brski', MC, must=('Ask', 'Endorse', 'Vouch', 'Pin'))]
    ctx.par(*ms)
    keys = {}
    deps, jobs = [], []
    for i in range(200 if ctx.thorough else 48):
        D = Dep(ctx, rnd, keys)
        k = rnd.randint(1, 3)
        steps = [rnd.choice(['voucher', 'voucher', 'sign'] if D.o['ldevid'] == 'root' else ['voucher']) for _ in range(k)] + ['log']
        # something may go wrong at first: what comes after goes well all the same
        iv = []
        if rnd.random() < .5:
            steps.insert(0, rnd.choice(['voucher', 'voucher', 'sign']))
            hop = rnd.choice(['masa.0', 'masa.0', 'reg.0', 'reg.1'] + (['reg.2'] if steps[0] == 'sign' else []))
            iv = [(0, hop, *rnd.choice([('fail', ''), ('fail', ''), ('skip', ''), ('status', '503'), ('ressub', 'hang on')][:5 if hop != 'reg.0' else 1]))]
        deps.append((D, len(iv))); jobs.append(D.job(steps, iv))
    at = {id(j): D for j, D in zip(jobs, deps)}
    def session(j, r):
        D, bad = at[id(j)]; ev = D.events(j, r)
        return D.session(ev[:bad] + [dict(op='honest')] + ev[bad:])
    ctx.check_jobs('TraceFlow', jobs, session)
    ctx.careful('TraceFlow', jobs, session, 8)
MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Lax = {}
Pledges = {"P", "Q"}
Nonced = {"P"}
Attacks = FALSE
MaxNet = 12
MaxTries = 1
PROPERTY Bootstraps
INVARIANTS PinsOnlyVouched DomainOrNowhere
"""
