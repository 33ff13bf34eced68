"""Conformance of compiled programs with the CMachine specification."""
import json, os, re
from .common import *


# a run that is a behaviour of the machine, and runs that are not: the specification must tell them apart every time
_C = {"st": [], "nd": [{"k": "v", "n": "put_i"}, {"k": "lit", "dg": [7], "bs": 10, "sf": ""}, {"k": "call", "f": 1, "as": [2]}, {"k": "e", "a": 3}, {"k": "lit", "dg": [0], "bs": 10, "sf": ""},
                       {"k": "ret", "a": 5}, {"k": "{", "ss": [4, 6]}], "gl": [], "fn": [{"n": "main", "t": ["f", ["i", "int"], []], "ps": [], "b": 7}],
      "ex": [{"n": "put_i", "t": ["f", ["v"], [["i", "int"]]], "k": "put"}], "en": [], "main": 1}
_T = [{'f': 'put_i', 'a': [[7, 0, 0, 0]]}, {'f': 'exit', 'a': [[0]]}]
CONTROLS = [dict(_C, id='control:good', tr=_T), dict(_C, id='control:value', tr=[{'f': 'put_i', 'a': [[8, 0, 0, 0]]}, _T[1]]), dict(_C, id='control:lost', tr=_T[1:]),
            dict(_C, id='control:twice', tr=_T[:1] + _T), dict(_C, id='control:cut', tr=_T[:1])]


class Machine:
    def __init__(self, work, rt):
        self.work, self.rt = work, rt
        self.states = self.distinct = 0
        self.validated = self.ub = 0
        self.events = 0
        self.calls = 0
        self.cfg = 'CMachine.cfg'

    def validate(self, items, timeout=800, heap='3g'):
        """items: [(export dict with 'tr')]. Returns (accepted ids, ub ids)."""
        weight = lambda x: len(x['tr']) * 10 + len(x['nd'])
        k = max(1, min(NCPU, sum(map(weight, items)) // 1500))
        shards = [[] for _ in range(k)]
        load = [0] * k
        for x in sorted(items, key=weight, reverse=True):
            i = load.index(min(load))
            shards[i].append(x)
            load[i] += weight(x)
        self.calls += 1

        def one(a):
            i, sh_ = a
            f = self.work.path('cm', 'in%d.%d.ndjson' % (self.calls, i))
            with open(f, 'w') as h:
                for x in sh_ + CONTROLS: h.write(json.dumps(x) + '\n')
            r = tlc(self.work, 'CMachine', cfg=VERIF + '/spec/' + self.cfg, env={'CM_INPUT': f}, timeout=timeout, heap=heap,
                    name='cm%d.%d' % (self.calls, i), workers=max(1, NCPU // k))
            tlc_ok(r, 'CMachine')
            return r
        acc, ub = set(), set()
        for r in pmap(one, list(enumerate([x for x in shards if x])), NCPU):
            self.states += r['generated']
            self.distinct += r['distinct']
            a = set(re.findall(r'<<\s*"ACC",\s*"([^"]*)"\s*>>', r['out']))
            assert {x for x in a if x.startswith('control:')} == {'control:good'}, 'the controls are misjudged'
            acc |= a
            ub |= set(re.findall(r'<<\s*"UB",\s*"([^"]*)",\s*\d+\s*>>', r['out']))
        return {x for x in acc if not x.startswith('control:')}, ub

    def check(self, progs):
        """Compile and run every program, validate the traces. Returns list of (prog, trace, notes) not allowed by the specification."""
        ids = [p.id for p in progs]
        assert len(set(ids)) == len(ids), 'duplicate program ids'
        res = pmap(lambda p: self.rt.run(p, self.rt.name(p)), progs)
        items = []
        for p, (tr, notes) in zip(progs, res):
            x = p.export()
            x['tr'] = tr
            items.append(x)
            self.events += len(tr)
        acc, ub = self.validate(items)
        self.validated += len(acc)
        self.ub += len(ub - acc)
        bad = [(p, tr, n) for p, (tr, n) in zip(progs, res) if p.id not in acc and p.id not in ub]
        if bad:      # repeat before believing it
            res2 = [(p, self.rt.run(p, self.rt.name(p))) for p, _, _ in bad[:40]]
            items = []
            for p, (tr, notes) in res2:
                x = p.export()
                x['tr'] = tr
                items.append(x)
            acc, ub = self.validate(items)
            again = {p.id: (p, tr, n) for p, (tr, n) in res2 if p.id not in acc and p.id not in ub}
            bad = list(again.values())
        return bad
