"""Programs of the generators of the other properties, as a corpus of valid texts."""
import importlib, random


class Collect:
    """Stands in for a run: collects the programs instead of checking them."""

    class _M: cfg = None

    def __init__(self, rng, scale):
        self.rng, self.scale = rng, scale
        self.quick, self.tier, self.pid, self.viol, self.known, self.samples, self.assume, self.cov = True, 'quick', '', [], [], [], [], {}
        self.machine = Collect._M()
        self.got = []

    def n(self, q, t): return q if q is None else max(1, int(q * self.scale))
    def left(self): return 1e9
    def count(self, *a): pass
    def programs(self, ps, *a, **k): self.got += ps


def collect(rng, scale=.2, per=40, mods=('p02', 'p04', 'p05', 'p06', 'p07', 'p08', 'p11', 'p12', 'p13', 'p14')):
    out = []
    for m in mods:
        c = Collect(random.Random(rng.getrandbits(64)), scale)
        importlib.import_module('lib.props.' + m).run(c)
        out += rng.sample(c.got, min(per, len(c.got)))
    return out
