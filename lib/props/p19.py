"""P19: maps, sets, sequences and pairs."""
import json, os, re
from ..common import *

SAN = ['-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=signed-integer-overflow']
HASH = {'map': 9, 'set': 9, 'vec': 1, 'pair': 1}
MS = ['add', 'rem', 'copy', 'new']
VS = ['push', 'pop', 'fill', 'set', 'ins', 'era', 'ext', 'copy', 'new']


def configs(ctx):
    q = ctx.quick
    yield 'map1', dict(kind='map', keys=3, both=False, ops=['add', 'rem'], max=6 if q else 8, sim=False), None
    yield 'map2', dict(kind='map', keys=2, both=True, ops=MS, max=4 if q else 5, sim=False), None
    yield 'set2', dict(kind='set', keys=2, both=True, ops=MS + ['and', 'or', 'sub'], max=4 if q else 5, sim=False), None
    yield 'vec2', dict(kind='vec', keys=1, both=True, ops=VS, max=3 if q else 4, sim=False), None
    yield 'vec1', dict(kind='vec', keys=1, both=False, ops=['push', 'pop', 'ins', 'era', 'fill'], max=4 if q else 5, sim=False), None
    yield 'pair', dict(kind='pair', keys=1, both=True, ops=['copy', 'new'], max=4, sim=False), None
    n = 1 if q else 6
    yield 'maplong', dict(kind='map', keys=12, both=True, ops=['add', 'rem', 'copy'], max=60, sim=True), 60 * n
    yield 'mapbig', dict(kind='map', keys=40, both=False, ops=['add', 'rem'], max=150, sim=True), 20 * n
    yield 'mapgrow', dict(kind='map', keys=150, both=False, ops=['add'], max=300, sim=True), 3 * n
    yield 'setlong', dict(kind='set', keys=10, both=True, ops=MS + ['and', 'or', 'sub'], max=60, sim=True), 60 * n
    yield 'setbig', dict(kind='set', keys=30, both=True, ops=['add', 'rem', 'or', 'sub'], max=120, sim=True), 15 * n
    yield 'veclong', dict(kind='vec', keys=1, both=True, ops=VS[:-1], max=60, sim=True), 60 * n
    yield 'vecpush', dict(kind='vec', keys=1, both=False, ops=['push', 'pop', 'ins'], max=120, sim=True), 15 * n


def generate(ctx, name, cfg, sim, rnd=0):
    f = ctx.work.path('ct', '%s%d.json' % (name, rnd))
    with open(f, 'w') as h: json.dump(cfg, h)
    args = ['-simulate', 'num=%d' % sim, '-depth', str(cfg['max'] + 2), '-seed', str(ctx.rng.randrange(1 << 40))] if sim else []
    r = tlc(ctx.work, 'Containers', env={'CT_CONFIG': f}, args=args, name='ct-%s%d' % (name, rnd), workers=1 if sim else 4, timeout=800)
    tlc_ok(r, 'Containers ' + name)
    ctx.states += r['distinct']
    ctx.transitions += r['generated']
    hs = []
    for l in r['out'].split('\n'):
        l = l.strip().strip('"').replace('\\"', '"')
        if not l.startswith('<<"S", '): continue
        v = json.loads(l.replace('<<', '[').replace('>>', ']'))
        if sim: hs.append(([o[:4] for o in v[1][:-1]], {i + 1: o[4] for i, o in enumerate(v[1][:-1])}))
        else: hs.append((v[1], {len(v[1]): v[2]}))
    if not hs: raise ToolError('no histories from ' + name)
    ctx.cov['histories_' + name] = ctx.cov.get('histories_' + name, 0) + len(hs)
    return hs


def fmt(see): return json.dumps(see)[1:-1].replace('[', '<<').replace(']', '>>')


def replay(ctx, exe, name, cfg, hs):
    """Replay, in several processes, each history under several kinds of keys."""
    kinds = HASH[cfg['kind']]
    jobs = []
    for i, h in enumerate(hs):
        for j in ([i % kinds, (i * 5 + 1 + i // kinds) % kinds] if kinds > 1 and len(hs) > 3000 else range(kinds)): jobs.append((h, j))
    size = max(1, (len(jobs) + NCPU - 1) // NCPU)
    parts = [jobs[i:i + size] for i in range(0, len(jobs), size)]

    def text(h, hk):
        return 'K %s %d %d\n' % (cfg['kind'][0], cfg['keys'], hk) + ''.join('%s %s %d %d\n' % tuple(o) for o in h[0])

    def one(part):
        inp = ''.join(text(h, k) for h, k in part)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
        rc, out, err = sh([exe], inp=inp.encode(), timeout=400, env=env)
        outs = out.decode(errors='replace').split('\n')
        pos, bad = 0, []
        for h, k in part:
            got = outs[pos + 1:pos + 1 + len(h[0])]
            pos += 1 + len(h[0])
            for n, see in sorted(h[1].items()):
                g = got[n - 1] if n - 1 < len(got) else 'the process ended (%s) %s' % (rc, err.decode(errors='replace')[:600])
                if g != fmt(see):
                    bad.append((h, k, n, fmt(see), g))
                    break
            if bad: break
        return bad
    n = 0
    for bad in pmap(one, parts):
        for h, k, at, want, got in bad:
            # alone, to be sure
            rc, out, err = sh([exe], inp=text(h, k).encode(), timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
            o = out.decode(errors='replace').split('\n')[1:]
            g = o[at - 1] if at - 1 < len(o) else 'the process ended (%s) %s' % (rc, err.decode(errors='replace')[:600])
            if g == fmt(h[1][at]) and all(o[m - 1] == fmt(s) for m, s in h[1].items() if m - 1 < len(o)) and len(o) > len(h[0]): continue
            ctx.violate('%s: after step %d the container shows %s, the specification %s' % (name, at, g, want),
                        {'history.txt': text(h, k), 'how.txt': 'feed history.txt to the harness built from harness/containers.c\n'})
    ctx.traces += len(jobs)
    ctx.count('steps_replayed', sum(len(h[0]) for h, _ in jobs))


def run(ctx):
    objs = compile_objs(ctx.work, 'san.obj', SAN)
    exe = build_harness(ctx.work, 'containers', VERIF + '/harness/containers.c', objs, SAN)
    gens = list(configs(ctx))
    outs = pmap(lambda g: (g, generate(ctx, *g)), gens, 4)
    for (name, cfg, sim), hs in outs:
        ctx.samples.append({'config': name, 'history': ' '.join('%s(%s,%s,%s)' % tuple(o) for o in hs[-1][0][:12]), 'see': fmt(max(hs[-1][1].items())[1])[:300]})
        replay(ctx, exe, name, cfg, hs)
    rnd = 0
    while not ctx.quick and ctx.left() > 60 and not ctx.viol:
        rnd += 1
        outs = pmap(lambda g: (g, generate(ctx, *g, rnd)), [g for g in gens if g[2]], 8)
        for (name, cfg, sim), hs in outs: replay(ctx, exe, name, cfg, hs)
