"""What every check is made of: recording, validation by TLC, model runs, evidence, verdict."""
import json, os, random, re, sys, time, hashlib

import gen, rec, tla

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class InternalError(Exception):
    """the check itself could not do its work; never a verdict"""


def findings(prop):
    """lines 'KNOWN-FINDING: property=<id> {json} text' of this property"""
    out = []
    with open(FINDINGS) as f:
        for line in f:
            m = re.match(r'KNOWN-FINDING: property=(\w+) (\{.*?\}) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((json.loads(m.group(2)), m.group(3)))
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random('%s/%d' % (prop, seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.calls = 0
        self.impl_states = 0
        self.samples, self.notes, self.violations, self.known = [], [], [], []
        self.parts = {}
        self.assumptions = []

    # --- sizes -----------------------------------------------------------------
    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self):
        """seconds of the budget left"""
        return (780 if self.thorough else 400) - (time.time() - self.t0)

    # --- models -----------------------------------------------------------------
    def model(self, module, cfg, env=None, label=None, timeout=800, cfgtext=None):
        """a TLC run on a model; the model is part of the checks, so it has to hold"""
        tmp = None
        if cfgtext is not None:
            import tempfile
            fd, tmp = tempfile.mkstemp(suffix='.cfg', prefix='vf-')
            with os.fdopen(fd, 'w') as f:
                f.write(cfgtext)
            cfg = tmp
        try:
            r = tla.tlc(module, cfg, env=env, timeout=timeout)
        finally:
            if tmp:
                os.unlink(tmp)
        if not r.ok:
            raise InternalError('model %s: %s' % (label or module, r.error))
        self.states += r.distinct
        self.transitions += r.generated
        self.part(label or module, states=r.distinct, transitions=r.generated)
        return r

    def part(self, name, **kw):
        d = self.parts.setdefault(name, {})
        for k, v in kw.items():
            d[k] = d.get(k, 0) + v if isinstance(v, int) else v

    def enumerate(self, profile, invariants, label, timeout=600):
        """patterns generated by Gen.tla, the laws checked on each; returns the texts"""
        import tempfile
        fd, f = tempfile.mkstemp(suffix='.json', prefix='vf-gen-')
        c = lambda s: [ord(x) for x in s]
        with os.fdopen(fd, 'w') as o:
            json.dump(dict(leaves=[c(x) for x in profile['leaves']], quants=[c(x) for x in profile.get('quants', [])],
                           wraps=[c(x) for x in profile.get('wraps', [])], binary=profile.get('binary', ['seq', 'alt']),
                           size=profile['size'], words=c(profile.get('words', 'ab')), maxlen=profile.get('maxlen', 3), emit=1), o)
        try:
            r = self.model('Gen.tla', None, env={'GEN': f}, label=label, timeout=timeout,
                           cfgtext='SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS EmitText %s\n' % ' '.join(invariants))
        finally:
            os.unlink(f)
        pats = sorted({''.join(map(chr, v)) for k, _, _, v in r.reports if k == 'pattern'}, key=lambda s: (len(s), s))
        return pats

    # --- conformance --------------------------------------------------------------
    def conform(self, jobs, proj='full', label='patterns', flags=(), cxx=None, env=None, module='Trace.tla', cfg='Trace.cfg', confirm=True, head=''):
        """record the calls of the jobs and validate them"""
        done = 0
        while done < len(jobs) and (done == 0 or self.left() > 90) and len(self.violations) < 40:
            part = jobs[done:done + 1200]
            recs, fails = rec.record(part, flags=flags, cxx=cxx, head=head)
            self.judge(part, recs, fails, proj, label, flags, cxx, env, module, cfg, confirm, head)
            done += len(part)
        if done < len(jobs):
            self.assumptions.append('%s: %d of %d patterns were run in the time given' % (label, done, len(jobs)))

    def witnesses(self, make=None, head='', **kw):
        """the listed findings of this property, run again: a line for each one still there"""
        fs = findings(self.prop)
        jobs = []
        for w, text in fs:
            jobs.append(make(w) if make else rec.Job(w['pattern'], [(w.get('op', 's'), w.get('mode', 0))], [w.get('subject', 'ab')], kf=1))
        if not jobs:
            return
        n = len(self.known)
        recs, fails = rec.record(jobs, per_unit=1, head=head)
        self.judge(jobs, recs, fails, label='known findings', head=head, **kw)
        shown = set(self.known[n:]) | {f.job for f in fails if f.kind == 'compile'}
        for j, (w, text) in zip(jobs, fs):
            if j in shown:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, text))

    def judge(self, jobs, recs, fails, proj='full', label='patterns', flags=(), cxx=None, env=None, module='Trace.tla', cfg='Trace.cfg', confirm=True, head=''):
        by = {j.id: j for j in jobs}
        real = [f for f in fails if f.kind != 'skipped']
        # a pattern which does not compile: the specification says whether it has to
        extra = [dict(id=f.job.id, pat=rec.cps(f.job.pat), acc=0, kf=0, subj=[], ev=[]) for f in real if f.kind == 'compile']
        bad = []
        e = dict(env or {})
        if proj == 'extent':
            e['PROJ'] = 'extent'
        size = 250000
        todo, cur, cnt = [], [], 0
        for x in recs + extra:
            k = 2 + len(x['ev'])
            if cur and cnt + k > size:
                todo.append(cur)
                cur, cnt = [], 0
            cur.append(x)
            cnt += k
        if cur:
            todo.append(cur)
        reports = []
        for part in todo:
            r = tla.validate(part, module, cfg, env=e)
            if not r.ok:
                raise InternalError('trace validation (%s): %s' % (label, r.error))
            if module == 'History.tla':
                want = sum(1 + len(h[3]) for x in part for h in x['ev'])
            else:
                want = sum(2 + len(x['ev']) for x in part if x['acc'] == 1) + sum(2 for x in part if x['acc'] != 1)
            if r.distinct != want and not any(k == 'accept' for k, _, _, _ in r.reports):
                raise InternalError('trace validation (%s) looked at %d states, not %d' % (label, r.distinct, want))
            self.impl_states += r.distinct
            self.states += r.distinct
            self.transitions += r.generated
            reports += r.reports
        ncalls = sum(len(x['ev']) for x in recs)
        self.traces += len(recs)
        self.calls += ncalls
        self.part(label, traces=len(recs), calls=ncalls)
        if recs and len(self.samples) < 12:
            for x in self.rng.sample(recs, min(2, len(recs))):
                if x['ev']:
                    ev = self.rng.choice(x['ev'])
                    self.samples.append(dict(part=label, pattern=by[x['id']].pat, call=ev[0], mode=ev[1],
                                             subject=(by[x['id']].subj + ['?'])[ev[2] if ev[2] < len(by[x['id']].subj) else -1], result=ev[3]))
        byrec = {x['id']: x for x in recs + extra}
        for kind, i, l, v in reports:
            j, x = by[i], byrec[i]
            if kind == 'known':
                self.known.append(j)
            elif kind == 'accept':
                f = next((f for f in real if f.job is j and f.kind == 'compile'), None)
                bad.append((j, dict(what='the pattern has to be accepted, it does not compile' if v else 'the pattern has to be rejected',
                                    detail=f.detail if f else '')))
            elif kind == 'call':
                ev = x['ev'][l - 1]
                bad.append((j, dict(what='call', op=ev[0], mode=ev[1], form=ev[4] if len(ev) > 4 else '', subject=(j.subj + ['?'])[min(ev[2], len(j.subj))],
                                    got=ev[3], expected=v)))
            else:
                bad.append((j, dict(what=kind, expected=v)))
        for f in real:
            if f.kind != 'compile':
                bad.append((f.job, dict(what='no result: ' + f.kind, detail=f.detail)))
        if bad and confirm:
            # once more, alone
            again = []
            seen = []
            for j, _ in bad:
                if j not in seen:
                    seen.append(j)
            sub = Check(self.prop, self.tier, self.seed)
            sub.quiet = True
            js = seen[:16]
            recs2, fails2 = rec.record(js, per_unit=1, flags=flags, cxx=cxx, head=head)
            sub.judge(js, recs2, fails2, proj, label, flags, cxx, env, module, cfg, False, head)
            bad = [(j, d) for j, d in sub.raw]
        self.raw = bad
        for j, d in bad:
            self.violation(dict(j.desc(), part=label, proj=proj, **d))

    raw = ()
    quiet = False

    # --- verdict -----------------------------------------------------------------
    def violation(self, d):
        self.violations.append(d)

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        for text in self.notes:
            print(text)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                calls_validated=self.calls, trace_states=self.impl_states, samples=self.samples[:12], parts=self.parts),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write('\n')
        if self.violations:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (self.prop, self.seed))
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, violations=self.violations[:40]), f, indent=1)
                f.write('\n')
            for v in self.violations[:5]:
                print('  ' + json.dumps({k: v[k] for k in v if k not in ('subjects', 'ops', 'property')})[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('property %s held: %d states, %d traces (%d calls) of the library validated, %.0f s' %
              (self.prop, self.states, self.traces, self.calls, time.time() - self.t0))
        return 0
