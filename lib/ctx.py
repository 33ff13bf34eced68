"""One run of the check of one property."""
import json, os, random, re, shutil, sys, time
from .common import *
from .cm import Machine


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.rng = random.Random('%s-%d' % (pid, seed))
        self.t0 = time.time()
        self.work = Work(pid)
        shutil.rmtree(os.path.join(VERIF, 'replay', pid), ignore_errors=True)
        self.viol = []
        self.known = []
        self.samples = []
        self.cov = {}
        self.assume = []
        self.states = self.transitions = self.traces = 0
        self._umlcc = self._rt = self._m = self._objs = None
        self.exhaustive = None
        self.budget = float(os.environ.get('VERIF_BUDGET', '60' if self.quick else '600'))

    # --- code under test
    def umlcc(self):
        if not self._umlcc: self._umlcc, self._objs = build_umlcc(self.work)
        return self._umlcc

    def objs(self):
        self.umlcc()
        return self._objs

    @property
    def rt(self):
        if not self._rt: self._rt = Runtime(self.work, self.umlcc())
        return self._rt

    @property
    def machine(self):
        if not self._m: self._m = Machine(self.work, self.rt)
        return self._m

    def left(self): return self.budget - (time.time() - self.t0)

    def n(self, quick, thorough): return quick if self.quick else thorough

    def count(self, key, k=1): self.cov[key] = self.cov.get(key, 0) + k

    # --- conformance of programs with CMachine
    def programs(self, progs, what='programs', max_report=10, chunk=None):
        """Compile, run and validate; record violations."""
        if not progs: return
        chunk = chunk or len(progs)
        for i in range(0, len(progs), chunk):
            part = progs[i:i + chunk]
            bad = self.machine.check(part)
            self.count(what, len(part))
            for p, tr, notes in bad[:max_report]:
                self.violate('%s: the run of the compiled program is not a behaviour of the specification' % p.id, {
                    'prog.c': p.text(), 'trace.json': json.dumps(tr, indent=0), 'notes.json': json.dumps(notes, default=str),
                    'prog.json': json.dumps(p.export())})
            if bad or self.left() < 0: break
        if not self.samples and progs:
            self.samples.append({'program': progs[0].text()[:1500]})

    def violate(self, desc, files=None):
        d = os.path.join(VERIF, 'replay', self.pid, '%s-%d' % (self.tier, len(self.viol) + 1))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, 'README'), 'w') as f: f.write(desc + '\n')
        for k, v in (files or {}).items():
            with open(os.path.join(d, k), 'wb') as f: f.write(v if isinstance(v, bytes) else v.encode('latin-1', 'replace'))
        self.viol.append((desc, d))

    def finish(self):
        if self._m:
            m = self._m
            self.states += m.distinct
            self.transitions += m.states
            self.traces += m.validated
            self.cov['trace_events'] = m.events
            if m.ub: self.cov['programs_with_undefined_behaviour_skipped'] = m.ub
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces, 'samples': self.samples}
        if self.exhaustive is not None: cov['exhaustive'] = self.exhaustive
        cov.update(self.cov)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        tmp = VERIF + '/evidence/.%s.tmp' % self.pid
        with open(tmp, 'w') as f: json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, VERIF + '/evidence/%s.json' % self.pid)
        for k in self.known: print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for desc, d in self.viol:
            print('# ' + desc)
            print('VIOLATION property=%s replay=%s' % (self.pid, d))
        print('%s %s: %d states, %d traces, %d violations, %.1f s' % (self.pid, self.tier, cov['states'], self.traces, len(self.viol), ev['wall_s']))
        self.work.close()
        return 1 if self.viol else 0
