"""What every check shares: driver pool, model runs, verdicts, evidence."""
import concurrent.futures as cf, json, os, random, shutil, sys, tempfile, time, hashlib, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import drv, tlc, pki

def known(pid):
    """Findings listed for this property: lines 'KNOWN-FINDING: property=<id> key=<key> <text>'."""
    o = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            f = l.strip().split(' ', 3)
            if l.startswith('KNOWN-FINDING:') and f[1] == 'property=' + pid and f[2].startswith('key='):
                o[f[2][4:]] = f[3]
    return o

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.rnd = random.Random('%s/%s' % (pid, seed))
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.models, self.gens, self.bad = [], [], []
        self.assume = []; self.dirs = []
        self._pool = None; self._d = None
        self.budget = 700 if self.thorough else 100
        self.kinds = {}
    # -- real code
    def pool(self, **kw):
        if self._pool is None: self._pool = drv.Pool(8, **kw)
        return self._pool
    def d(self):
        if self._d is None: self._d = drv.Driver()
        return self._d
    def scratch(self):
        """a directory of its own, removed at the end"""
        d = tempfile.mkdtemp(prefix='vrf'); self.dirs.append(d); return d
    def left(self): return self.budget - (time.time() - self.t0)
    # -- specification
    def model(self, module, cfg, expect=None, must=(), reach=(), **kw):
        """must: actions that coverage has to show; reach: invariants that a reachable
        state has to break (used where TLC's coverage is too costly)."""
        for inv in reach:
            self.model(module, cfg + 'INVARIANT %s\n' % inv, expect=inv, cover=False, **kw)
        if reach: kw['cover'] = False
        r = tlc.model_check(module, cfg, expect, **kw)
        miss = [a for a in must if not r['actions'].get(a)]
        if miss: raise tlc.TlcError('%s: actions never taken: %s' % (module, miss))
        if expect is None:
            self.cov['states'] += r['states']; self.cov['transitions'] += r['transitions']
        self.models.append(dict(module=module, states=r['states'], transitions=r['transitions'],
                                result='violates %s as it must' % expect if expect else 'holds',
                                actions=r['actions']))
        return r
    def par(self, *fns):
        """Runs the functions side by side; returns their results."""
        with cf.ThreadPoolExecutor(4) as ex:
            return [f.result() for f in [ex.submit(f) for f in fns]]
    def gen(self, module, const='', **kw):
        r = tlc.generate(module, const, **kw)
        self.gens.append(dict(module=module, cases=len(r)))
        return r
    # -- conformance
    def run_jobs(self, jobs):
        """jobs: (op, pairs). Results of the real code, in order."""
        return self.pool().map(jobs)
    def conform(self, module, sessions, redo=None, key=None, const='', describe=None, lenient=False, **kw):
        """sessions: dicts with 'ev'. redo(i) runs session i again on the real code and
        returns a fresh session: only a rejection that repeats is reported. key(session,
        event index) names it for the list of known findings."""
        t = time.time()
        bad, (st, tr) = tlc.validate(module, sessions, const, **kw)
        self.cov['states'] += st; self.cov['transitions'] += tr
        self.cov['traces_validated_against_impl'] += len(sessions)
        k = self.kinds.setdefault(module, dict(sessions=0, events=0, ops={}))
        k['sessions'] += len(sessions)
        for s in sessions:
            k['events'] += len(s['ev'])
            for e in s['ev']:
                o = str(e.get('op', '?')); r = e.get('out', e)
                o += ':' + str(r.get('ok', r.get('rc', r.get('status', ''))) if isinstance(r, dict) else '')
                k['ops'][o] = k['ops'].get(o, 0) + 1
        for i in self.rnd.sample(range(len(sessions)), min(2, len(sessions))):
            if len(self.cov['samples']) < 8:
                self.cov['samples'].append(json.dumps(sessions[i])[:1500])
        if bad and os.environ.get('VERIF_DEBUG'):
            for i, e in bad[:5]: print('rejected', i, e, json.dumps(sessions[i]['ev'][min(e, len(sessions[i]['ev'])-1)])[:1500])
        # repeat what was rejected
        if bad:
            again = bad
            if redo:
                fresh = [redo(i) for i, _ in bad[:12]]
                bad2, _ = tlc.validate(module, fresh, const, **kw)
                again = [(bad[j][0], e) for j, e in bad2]
                for j, e in bad2: sessions[bad[j][0]] = fresh[j]
                if not again and lenient: # timing of the machine, not of the code
                    self.assume.append('%d sessions over the network were repeated' % len(bad))
                    return []
                if not again:
                    raise tlc.TlcError('%d rejections did not repeat (first: %s)' % (len(bad), json.dumps(sessions[bad[0][0]])[:800]))
            kf = known(self.pid)
            for i, e in again:
                kk = key(sessions[i], e) if key else None
                if kk in kf:
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, kf[kk]))
                    continue
                self.bad.append(dict(module=module, event=e, session=sessions[i], expected=describe(sessions[i], e) if describe else None))
        return bad
    def check_jobs(self, module, jobs, session, const='', pool=None, batch=1, **kw):
        """Runs the jobs on the real code and validates session(job, result), a session
        dict (None: nothing to judge). A job that crashes or hangs, twice, is a violation."""
        res = (pool or self.pool()).map(jobs, batch)
        one = pool.ds[0] if pool else self.d()
        ss, src = [], []
        for j, r in zip(jobs, res):
            if r['st'] != 'ok':
                again = one.calll(*j)
                if again['st'] != 'ok':
                    self.reject('the code under test %s' % again['st'], op=j[0],
                                input=[(k, drv.b(v).hex()[:4000]) for k, v in j[1]], result=again)
                    continue
                r = again
            s = session(j, r['r'])
            if s is not None:
                ss.append(s); src.append(j)
        def redo(i):
            r = one.calll(*src[i])
            if r['st'] != 'ok': return dict(ev=[dict(op='crash', result=r['st'])])
            return session(src[i], r['r'])
        self.conform(module, ss, redo=redo, const=const, **kw)
        return res
    def careful(self, module, jobs, session, n, **kw):
        """some of the jobs once more, under valgrind"""
        V = drv.valgrind(self)
        try: self.check_jobs(module, self.rnd.sample(jobs, min(len(jobs), n * (6 if self.thorough else 1))), session, pool=V, **kw)
        finally: V.close()
    def grouped(self, module, calls, event, head, const='', batch=1, size=40, pool=None, prelude=(), **kw):
        """Independent calls whose events share a session as long as they have the same
        head (session fields): consecutive calls with equal heads are put together."""
        res = (pool or self.pool()).map(calls, batch)
        one = pool.ds[0] if pool else self.d()
        gs, hs = [], []
        for c, r in zip(calls, res):
            if r['st'] != 'ok':
                r = one.calll(*c)
                if r['st'] != 'ok':
                    self.reject('the code under test %s' % r['st'], op=c[0],
                                input=[(k, drv.b(v).hex()[:4000]) for k, v in c[1]], result=r)
                    continue
            h = head(c)
            if gs and hs[-1] == h and len(gs[-1]) < size: gs[-1].append((c, r['r']))
            else: gs.append([(c, r['r'])]); hs.append(h)
        ss = [dict(h, ev=list(prelude) + [event(c, r) for c, r in g]) for g, h in zip(gs, hs)]
        def redo(i):
            return dict(hs[i], ev=list(prelude) + [event(c, x['r']) if x['st'] == 'ok' else dict(op='crash', ok=False)
                                   for c, x in ((c, one.calll(*c)) for c, _ in gs[i])])
        self.conform(module, ss, redo=redo, const=const, **kw)
        return res
    def reject(self, what, **data):
        """A violation seen directly (a crash or hang of the code under test)."""
        self.bad.append(dict(what=what, **data))
    # -- result
    def finish(self, level='model_checking'):
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        c = dict(self.cov)
        c['models'] = self.models; c['generated_by_spec'] = self.gens; c['conformance'] = self.kinds
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=c,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(self.bad))
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if self.bad:
            rd = os.path.join(ROOT, 'replay'); os.makedirs(rd, exist_ok=True)
            for n, x in enumerate(self.bad[:5]):
                p = os.path.join(rd, '%s-%d.json' % (self.pid, n))
                with open(p, 'w') as f: json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, **x), f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        print('%s held: %d states, %d real-code traces validated, %.1f s' %
              (self.pid, c['states'], c['traces_validated_against_impl'], time.time() - self.t0))
        return 0

def main(pid, fn):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    ctx = Ctx(pid, tier, int(os.environ.get('VERIF_SEED', '1')))
    try:
        fn(ctx)
        return ctx.finish()
    except BaseException:
        traceback.print_exc()
        if ctx.bad:
            return ctx.finish()
        return 2
    finally:
        for d in ctx.dirs: shutil.rmtree(d, ignore_errors=True)
