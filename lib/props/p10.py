"""P10: no live intermediate value is overwritten."""
import json, os, re
from ..cast import *
from ..common import *
from ..pyev import *
from . import p05, p07, p08, p14

UT = [UINT, ULONG, ULLONG]
BO = ['+', '-', '*', '^', '|', '&']

BAD = r'<<\s*"BAD",\s*"([^"]*)",\s*(\d+),\s*(\d+)\s*>>'


class Press:
    """Expressions that keep many temporaries alive, over unsigned types (every value is defined)."""

    def __init__(self, p, rng):
        self.p, self.rng, self.cap = p, rng, rng.choice([5, 6, 7, 7])

    def leaf(self):
        r = self.rng.randrange(12)
        if r < 4: return var(self.rng.choice(['a', 'b', 'c', 'd']))
        if r == 4: return var(self.rng.choice(['g0', 'g1']))
        if r == 5: return idx(var('e'), lit(self.rng.randrange(4)))
        if r == 6: return deref(var('p'))
        if r == 7: return dot(var('s'), self.rng.choice(['m', 'n']))
        if r == 8: return const('uint', self.rng.choice([1, 2, 77, 4000000000]))
        if r == 9: return idx(var('e'), bin_('&', var('a'), lit(3)))
        if r == 10: return arrow(var('q'), 'n')
        return un('~', var('b'))

    def ex(self, d, live):
        """live: temporaries already held while this one is evaluated"""
        rng = self.rng
        if d == 0 or live >= self.cap: return self.leaf()
        r = rng.random()
        if r < .5:
            # a left operand held while a deep right one is evaluated
            right = d - 1 if rng.random() < .6 else d
            return bin_(rng.choice(BO), self.ex(d - 1, live) if rng.random() < .3 else self.leaf(), self.ex(right, live + 1))
        if r < .56: return bin_(rng.choice(['/', '%']), self.leaf(), bin_('|', self.ex(d - 1, live + 1), const('uint', 1)))
        if r < .62: return bin_(rng.choice(['<<', '>>']), self.ex(d - 1, live), bin_('&', self.leaf(), lit(15)))
        if r < .70: return cond(self.cnd(d - 1, live), self.ex(d - 1, live), self.ex(d - 1, live))
        if r < .75: return cast(rng.choice(UT), self.cnd(d - 1, live))
        if r < .87:
            f, k = rng.choice([('h1', 1), ('h2', 2), ('h7', 7), ('h1', 1), ('h2', 2)])
            return call(f, *[self.ex(d - 2 if k < 7 else 0, live) if d > 1 else self.leaf() for _ in range(k)])
        if r < .91: return call(var('fp'), self.ex(d - 1, live), self.leaf())
        if r < .95: return cast(rng.choice(UT + [('i', 'char'), INT]), self.leaf())
        return un(rng.choice('-~'), self.ex(d - 1, live))

    def cnd(self, d, live):
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < .4: return bin_(rng.choice(['<', '>', '<=', '>=', '==', '!=']), self.leaf(), self.ex(max(0, d - 1), live + 1))
        if r < .6: return land(self.cnd(d - 1, live), self.cnd(d - 1, live))
        if r < .8: return lor(self.cnd(d - 1, live), self.cnd(d - 1, live))
        if r < .9: return un('!', self.cnd(d - 1, live))
        return self.ex(d - 1, live)


def pressure(rng, pid, n=6, depth=5):
    p = Prog(pid, paren='min')
    x = Press(p, rng)
    st = p.struct([('m', UINT), ('n', ULONG)])
    p.globals += [('g0', UINT, num(rng.choice([5, 1 << 31]))), ('g1', ULLONG, num(rng.randrange(1 << 40)))]
    T = rng.choice(UT)
    p.func('h1', ULONG, [(UINT, 'x')], block(ret(bin_('+', bin_('*', var('x'), lit(3)), const('uint', 1)))))
    p.func('h2', UINT, [(ULONG, 'x'), (UINT, 'y')], block(ret(bin_('^', bin_('*', var('x'), lit(5)), var('y')))))
    p.func('h7', ULLONG, [(UINT, 'x%d' % i) for i in range(7)],
           block(ret(bin_('-', bin_('+', var('x0'), bin_('*', var('x3'), lit(7))), bin_('^', var('x5'), bin_('*', var('x6'), var('x1')))))))
    for k in range(2):
        body = [decl(A(T, 4), 'e', il(num(3), num(1 << 30), num(9))), decl(st, 's'), decl(P(st), 'q', addr(var('s'))), decl(P(T), 'p', addr(idx(var('e'), lit(1)))),
                decl(P(F(UINT, [ULONG, UINT])), 'fp', addr(var('h2'))), es(asg(dot(var('s'), 'm'), var('b'))), es(asg(dot(var('s'), 'n'), bin_('*', var('c'), var('a'))))]
        for i in range(n):
            r = rng.random()
            e = x.ex(depth, 0)
            if r < .55: body.append(p.put(ULLONG, e))
            elif r < .65: body.append(es(asg(idx(var('e'), bin_('&', x.ex(2, 0), lit(3))), e)))
            elif r < .75: body.append(if_(x.cnd(3, 0), p.put(ULLONG, x.ex(depth - 1, 0)), p.put(INT, lit(i))))
            elif r < .85:
                c = 'i%d' % i
                body.append(for_(decl(INT, c, lit(0)), bin_('<', var(c), bin_('+', lit(1), bin_('&', x.leaf(), lit(1)))), inc('post+', var(c)),
                                 block(p.put(ULLONG, x.ex(depth - 1, 0)), es(asg(var('a'), bin_('+', var('a'), x.ex(2, 0)))))))
            elif r < .93:
                body.append(switch(bin_('&', x.ex(depth - 1, 0), lit(3)), block(*[case(lit(v), block(p.put(ULLONG, x.ex(2, 0)), *([brk()] if rng.random() < .6 else []))) for v in range(3)])))
            else: body.append(es(asg(var(rng.choice('abcd')), e)))
        body.append(ret(x.ex(3, 0)))
        p.func('f%d' % k, rng.choice(UT), [(UINT, 'a'), (ULONG, 'b'), (ULLONG, 'c'), (UINT, 'd')], block(*body))
    main = []
    for k in range(2):
        for _ in range(2):
            main.append(p.put(ULLONG, call('f%d' % k, *[const('uint', rng.choice([0, 1, 2, 3, 5, 255, 65537, 4294967295, rng.randrange(1 << 32)])) for _ in range(4)])))
    p.func('main', INT, [], block(*main, ret(lit(0))))
    return p


def leaves_under(T):
    """One expression of each kind, over x, y, z of type T."""
    x, y, z = var('x'), var('y'), var('z')
    k3 = lambda v: const(T[1], v) if T[1] != 'char' else lit(v)
    out = []
    for o in ('/', '%'): out += [bin_(o, x, y), bin_(o, x, k3(3)), bin_(o, k3(1000), y), bin_(o, bin_(o, x, y), z), bin_(o, x, bin_('/', z, y)), bin_(o, bin_('+', x, y), bin_('+', y, z)), opasg(o, x, y), opasg(o, idx(var('e'), y), z)]
    for o in ('<<', '>>'): out += [bin_(o, x, y), bin_(o, x, lit(2)), bin_(o, k3(7), y), bin_(o, x, var('k')), bin_(o, bin_(o, x, y), var('k')), bin_(o, x, bin_('-', z, y)), opasg(o, x, y), opasg(o, idx(var('e'), y), lit(2))]
    for o in ('<', '==', '>='): out += [bin_(o, x, y), bin_(o, x, k3(9)), bin_(o, bin_('*', x, y), z)]
    out += [un('!', x), un('-', x), un('~', bin_('*', x, y)), bin_('*', x, k3(3)), bin_('-', k3(3), x), land(x, y), lor(un('!', x), y), cond(x, y, z), cond(bin_('<', x, y), bin_('/', x, y), bin_('<<', z, y)),
            land(bin_('<', x, y), bin_('/', x, y)), lor(bin_('<', x, y), bin_('>>', x, y)),
            idx(var('e'), y), idx(var('e'), lit(1)), deref(bin_('+', var('p'), y)), dot(var('s'), 'n'), arrow(var('q'), 'm'), idx(var('e'), idx(var('ix'), y)), deref(deref(var('pp'))),
            inc('pre+', x), inc('post-', x), inc('post+', idx(var('e'), y)), inc('pre-', arrow(var('q'), 'm')), asg(x, y), asg(idx(var('e'), y), bin_('+', x, z)), asg(dot(var('s'), 'm'), x), opasg('*', x, y), opasg('-', deref(inc('post+', var('p'))), y),
            cast(CHAR, x), cast(LONG, x), cast(UINT, x), cast(INT, bin_('/', x, y)), bin_('/', cast(CHAR, x), cast(CHAR, y)), bin_('<<', lit(1), cast(CHAR, y)), bin_('%', cast(LONG, x), cast(INT, y)),
            bin_('-', var('p'), var('e')), bin_('-', addr(idx(var('e'), y)), var('p')), bin_('<', var('p'), bin_('+', var('e'), y)),
            call('h1', x), call('h2', y, x), call('h2', bin_('/', x, y), bin_('<<', z, y)), call(var('fp'), x, y), call('h7', x, y, z, x, y, z, bin_('%', x, y)), call('h8', *[bin_('/', x, y), y] * 4), bin_('/', call('h1', x), call('h1', y)), bin_('>>', call('h1', x), call('h1', lit(0)))]
    # the value of a postfix increment outlives the registers of its own evaluation: the order of registers is no longer that of a stack
    px, pe, pm = inc('post+', x), inc('post-', deref(var('p'))), inc('post+', arrow(var('q'), 'm'))
    for o in ('/', '%'): out += [bin_(o, px, k3(7)), bin_(o, pe, k3(10)), bin_(o, px, y), bin_(o, pm, pe), bin_(o, z, inc('post-', x)), bin_(o, bin_('+', px, y), z), bin_('+', px, bin_(o, pe, y)), bin_('-', bin_(o, px, y), pe), bin_(o, inc('pre+', x), y), bin_(o, asg(x, z), y)]
    for o in ('<<', '>>'): out += [bin_(o, px, y), bin_(o, pe, lit(2)), bin_(o, z, inc('post+', y)), bin_(o, px, inc('post+', y)), bin_(o, pm, var('k')), bin_('+', px, bin_(o, pe, y))]
    out += [call('h1', px), call('h2', px, y), call('h2', y, pe), call('h7', px, y, z, y, z, y, pe), call('h8', px, y, z, y, z, y, pm, pe), bin_('-', px, call('h1', y)), bin_('-', call('h1', px), pe), bin_('*', px, pe), bin_('-', pe, px), bin_('<', px, pe),
            cond(px, y, z), cond(y, px, pe), land(px, pe), lor(pe, px), un('!', px), un('-', pe), cast(CHAR, px), idx(var('e'), inc('post+', y)), inc('post+', idx(var('e'), inc('post+', y))), deref(inc('post+', var('p'))), inc('post+', deref(inc('post+', var('p')))),
            opasg('/', x, pe), opasg('/', idx(var('e'), y), px), opasg('<<', x, inc('post+', y)), asg(idx(var('e'), inc('post+', y)), px), bin_('/', call('h1', px), pe)]
    return out


def nest(T, e, d, side):
    """e evaluated while d values are held; then as many are still to be combined with it."""
    ops = ['+', '-', '^', '|'] if SIGNED[T[1]] else BO
    for i in range(d):
        v = var('abcd'[i % 4])
        e = bin_(ops[(i * 5) % 4 if i % 3 else 0], v, e) if side == 'r' else bin_(ops[i % 4], e, bin_('-', v, var('abcd'[(i + 1) % 4])))
    return e


def fixed_depth(ctx, T, d, side, probes, tag=''):
    p = Prog('P10.deep%s.%s.%d%s' % (tag, T[1], d, side))
    st = p.struct([('m', T), ('n', T)])
    p.func('h1', T, [(T, 'x')], block(ret(bin_('+', var('x'), lit(2)))))
    p.func('h2', T, [(T, 'x'), (T, 'y')], block(ret(bin_('-', bin_('*', var('x'), lit(5)), var('y')))))
    p.func('h7', T, [(T, 'x%d' % i) for i in range(7)], block(ret(bin_('-', bin_('+', var('x0'), bin_('*', var('x3'), lit(7))), bin_('^', var('x5'), var('x6'))))))
    p.func('h8', T, [(T, 'x%d' % i) for i in range(8)], block(ret(bin_('-', bin_('*', var('x0'), lit(3)), bin_('^', var('x6'), bin_('+', var('x7'), var('x1')))))))
    W = LLONG if SIGNED[T[1]] else ULLONG
    x, y, z = ctx.rng.randint(20, 99), ctx.rng.randint(1, 2), ctx.rng.randint(3, 9)
    main = []
    for i, e in enumerate(probes):
        p.func('f%d' % i, W, [(T, 'a'), (T, 'b'), (T, 'c'), (T, 'd'), (T, 'x'), (T, 'y'), (T, 'z'), (INT, 'k')], block(
            decl(A(T, 4), 'e', il(lit(40), lit(50), lit(60), lit(70))), decl(A(INT, 3), 'ix', il(lit(2), lit(0), lit(1))), decl(st, 's'), decl(P(st), 'q', addr(var('s'))), decl(P(T), 'p', addr(idx(var('e'), lit(1)))), decl(P(P(T)), 'pp', addr(var('p'))),
            decl(P(F(T, [T, T])), 'fp', var('h2')), es(asg(dot(var('s'), 'm'), var('z'))), es(asg(dot(var('s'), 'n'), var('x'))), ret(nest(T, e, d, side))))
        main.append(p.put(W, call('f%d' % i, lit(11), lit(22), lit(33), lit(44), lit(x), lit(y), lit(z), lit(3))))
    p.func('main', INT, [], block(*main, ret(lit(0))))
    return p


def deep(ctx, types, depths, tag=''):
    """Every kind of operation while a given number of values are held."""
    jobs = [(T, d, s) for T in types for d in depths for s in 'rl' if d or s == 'r']

    def fit(T, d, s, probes, tag):
        p = fixed_depth(ctx, T, d, s, probes, tag)
        st, det, _ = ctx.rt.compile(p.text(), ctx.rt.name(p))
        if not (st == 'reject' and 'too complex' in det): return [p]
        if len(probes) == 1:
            ctx.count('programs_needing_more_registers')
            return []
        h = len(probes) // 2
        return fit(T, d, s, probes[:h], tag + 'a') + fit(T, d, s, probes[h:], tag + 'b')
    ctx.count('operations_under_pressure', sum(len(leaves_under(T)) for T, _, _ in jobs))
    return sum(pmap(lambda j: fit(*j, leaves_under(j[0]), tag), jobs), [])


def usable(ctx, progs):
    """Programs the compiler does not reject for their need of registers."""
    def one(p):
        st, det, s = ctx.rt.compile(p.text(), ctx.rt.name(p))
        if st == 'reject' and 'too complex' in det: return False
        return True
    keep = [p for p, ok in zip(progs, pmap(one, progs)) if ok]
    ctx.count('programs_needing_more_registers', len(progs) - len(keep))
    return keep


def parse(out):
    """Function list per file of the harness output."""
    funs, cur, fname, nfile, status, skip = [], None, None, None, {}, 0
    for l in out.split('\n'):
        w = l.split(' ')
        if w[0] == 'file': nfile, cur, mine = l[5:], None, []
        elif w[0] == 'end':
            status[nfile] = int(w[1])
            if int(w[1]) == 0: funs += mine
        elif w[0] == 'fun':
            cur = {'id': os.path.basename(nfile)[:-2] + ':' + w[1], 'ins': []}
            mine.append(cur)
        elif w[0] == 'var': cur = None
        elif cur is not None and w[0] == 'lab': cur['ins'].append(('lab', w[1], None, None))
        elif cur is not None and w[0] in ('ins', 'jmp', 'jcc', 'call', 'leave'): cur['ins'].append((w[0], w[1], w[2], w[3]))
    return funs, status


def spec_fun(fn, n):
    labs = {i[1]: k + 1 for k, i in enumerate(fn['ins']) if i[0] == 'lab'}
    code = []
    for k, d, a, b in fn['ins']:
        t, dd, us = 0, [], []
        if k == 'lab':
            code.append({'k': 'lab', 't': 0, 'd': [], 'u': []})
            continue
        for o, isd in ((a, 0), (b, 0), (d, 1)):
            if o[0] in 'rp' and ':' in o:
                x = [int(z) for z in o.split(':')[1:]]
                if isd and o[0] == 'r': dd = x
                else: us.append(x)
        if k in ('jmp', 'jcc'): t = labs[d[2:]]
        code.append({'k': k, 't': t, 'd': dd, 'u': us})
    # liveness, as a hint the specification checks
    live = [set() for _ in code] + [set()]
    changed = True
    while changed:
        changed = False
        for i in range(len(code) - 1, -1, -1):
            c = code[i]
            o = set()
            if c['t']: o |= live[c['t'] - 1]
            if c['k'] != 'jmp': o |= live[i + 1]
            if c['d']: o.discard(c['d'][0])
            o |= {u[0] for u in c['u']}
            if o != live[i]: live[i], changed = o, True
    for c, l in zip(code, live): c['l'] = sorted(l)
    return {'id': fn['id'], 'n': n, 'code': code}


# assignments that mix values up, and one that does not: the specification must tell them apart in every run
_i = lambda k, t, d, u, l: {'k': k, 't': t, 'd': d, 'u': u, 'l': l}
CONTROLS = [
    {'id': 'control:good', 'n': 8, 'code': [_i('ins', 0, [1, 0], [], []), _i('ins', 0, [2, 1], [], [1]), _i('ins', 0, [3, 0], [[1, 0], [2, 1]], [1, 2]), _i('ins', 0, [], [[3, 0]], [3])]},
    {'id': 'control:shared', 'n': 8, 'code': [_i('ins', 0, [1, 0], [], []), _i('ins', 0, [2, 0], [], [1]), _i('ins', 0, [3, 1], [[1, 0], [2, 0]], [1, 2])]},
    {'id': 'control:loop', 'n': 8, 'code': [_i('ins', 0, [1, 0], [], []), _i('lab', 0, [], [], [1]), _i('ins', 0, [], [[1, 0]], [1]), _i('ins', 0, [2, 0], [], [1]), _i('jmp', 2, [], [], [1])]}]


def allocations(ctx, exe, files, nregs=8):
    parts = [files[i::NCPU] for i in range(NCPU)]
    funs, bad = [], []
    for rc, out, err in pmap(lambda p: sh([exe], inp='\n'.join(p).encode() + b'\n', timeout=300) if p else (0, b'', b''), parts):
        f, st = parse(out.decode(errors='replace'))
        funs += f
        for k, v in st.items(): ctx.count('files_status_%d' % v)
    fs = [spec_fun(f, nregs) for f in funs]
    if not fs: return
    weight = lambda x: len(x['code']) ** 2
    shards = [[] for _ in range(NCPU)]
    load = [0] * NCPU
    for x in sorted(fs, key=weight, reverse=True):
        i = load.index(min(load))
        shards[i].append(x)
        load[i] += weight(x)
    ctx.calls = getattr(ctx, 'calls', 0) + 1

    def one(a):
        i, s = a
        f = ctx.work.path('ra', '%d.%d.ndjson' % (ctx.calls, i))
        with open(f, 'w') as h:
            for x in s + CONTROLS: h.write(json.dumps(x) + '\n')
        r = tlc(ctx.work, 'RegAlloc', env={'RA_INPUT': f}, name='ra%d.%d' % (ctx.calls, i), workers=1, timeout=800, heap='3g')
        tlc_ok(r, 'RegAlloc')
        return r
    by = {x['id']: x for x in fs}
    seen = set()
    for r in pmap(one, list(enumerate([s for s in shards if s]))):
        ctx.states += r['distinct']
        ctx.transitions += r['generated']
        assert len(re.findall('"BAD"', r['out'])) == len(re.findall(BAD, r['out'])), 'unread report'
        found = re.findall(BAD, r['out'])
        assert {x[0] for x in found if x[0].startswith('control:')} == {'control:shared', 'control:loop'}, 'the controls are misjudged'
        for fid, pc, v in found:
            if fid in seen or fid.startswith('control:'): continue
            seen.add(fid)
            if len(ctx.viol) >= 5: continue
            src = [x for x in files if os.path.basename(x)[:-2] == fid.split(':')[0]]
            ctx.violate('%s: instruction %s reads temporary %s from a register that no longer holds it' % (fid, pc, v),
                        {'function.json': json.dumps(by[fid]), 'prog.c': open(src[0]).read() if src else ''})
    ctx.traces += len(fs)
    ctx.count('functions_with_validated_assignment', len(fs) - len(seen))
    ctx.cov['longest_function'] = max([ctx.cov.get('longest_function', 0)] + [len(x['code']) for x in fs])
    ctx.cov['most_temporaries'] = max([ctx.cov.get('most_temporaries', 0)] + [len({c['d'][0] for c in x['code'] if c['d']}) for x in fs])


def write(ctx, progs):
    out = []
    for p in progs:
        f = ctx.work.path('src', re.sub(r'\W', '_', p.id) + '.c')
        with open(f, 'w', encoding='latin-1') as h: h.write(p.text())
        out.append(f)
    return out


def run(ctx):
    ctx.rt
    exe = build_harness(ctx.work, 'immc', VERIF + '/harness/immc.c', ctx.objs())
    rng = ctx.rng
    progs = usable(ctx, [pressure(rng, 'P10.r%d' % i, 5, 3 + i % 4) for i in range(ctx.n(110, 200))])
    if progs: ctx.samples.append({'program': progs[0].text()[:1200]})
    others = (p05.random_progs(ctx, ctx.n(10, 60), 4, 12, 'P10.ex') + [p07.flow_prog(rng, 'P10.fl%d' % i, 4, 24) for i in range(ctx.n(20, 100))])
    allocations(ctx, exe, write(ctx, progs + others))
    ctx.programs(progs)
    dp = deep(ctx, [INT, ULONG] if ctx.quick else [CHAR, INT, UINT, LONG, ULONG], [1, 3, 4, 5, 6, 7] if ctx.quick else range(9))
    allocations(ctx, exe, write(ctx, dp))
    ctx.programs(dp)
    rnd = 0
    while not ctx.quick and ctx.left() > 90 and not ctx.viol:
        rnd += 1
        ps = usable(ctx, [pressure(rng, 'P10.r%d.%d' % (rnd, i), 5 + i % 6, 3 + i % 5) for i in range(150)])
        allocations(ctx, exe, write(ctx, ps))
        ctx.programs(ps)
