"""P09: calling convention."""
import json, os, re
from ..cast import *
from ..common import *
from .. import asm
from . import p05, p07, p08, p10, p12, p14

BAD = r'<<\s*"BAD",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)"\s*>>'


# a function that keeps the convention and functions that do not: the specification must tell them apart in every run
GOOD = 'pushq %rbp;movq %rsp, %rbp;pushq %rbx;subq $8, %rsp;movq %rdi, %rbx;call g;movq %rbx, %rax;addq $8, %rsp;popq %rbx;popq %rbp;ret'
WRONG = {'unsaved': GOOD.replace('pushq %rbx;', 'subq $8, %rsp;').replace('popq %rbx;', 'addq $8, %rsp;'), 'misaligned': GOOD.replace('$8', '$16'),
         'unbalanced': GOOD.replace('popq %rbp;', ''), 'lost': GOOD.replace('%rdi, %rbx', '%rdi, %rcx').replace('%rbx, %rax', '%rcx, %rdx;addq $1, %rdx'),
         'frame': GOOD.replace('movq %rdi, %rbx', 'movq %rdi, 8(%rbp)')}


def controls():
    out = []
    for k, t in [('good', GOOD)] + sorted(WRONG.items()):
        (fn, recs, why), = asm.functions('\t.text\nf:\n\t' + t.replace(';', '\n\t') + '\n')
        assert why is None
        out.append(asm.spec_function('control:' + k, recs))
    return out


def judge(ctx, units, tag):
    """units: [(name, asm text, C text)]: every path of every function, judged by Abi.tla."""
    fs, src = [], {}
    for name, text, ctext in units:
        for fn, recs, why in asm.functions(text):
            if why:
                ctx.count('functions_with_unmodelled_instructions')
                ctx.cov['unmodelled_example'] = why
                continue
            x = asm.spec_function('%s:%s' % (name, fn), recs)
            if x is None or not x['code']:
                ctx.count('functions_with_unmodelled_instructions')
                continue
            fs.append(x)
            src[x['id']] = (ctext, text)
    if not fs: return
    shards = [[] for _ in range(NCPU)]
    load = [0] * NCPU
    for x in sorted(fs, key=lambda x: -len(x['code'])):
        i = load.index(min(load))
        shards[i].append(x)
        load[i] += len(x['code'])

    def one(a):
        i, s = a
        f = ctx.work.path('abi', '%s.%d.ndjson' % (tag, i))
        with open(f, 'w') as h:
            for x in s + controls(): h.write(json.dumps(x) + '\n')
        r = tlc(ctx.work, 'Abi', env={'ABI_INPUT': f}, name='abi%s.%d' % (tag, i), workers=1, timeout=800, heap='3g')
        tlc_ok(r, 'Abi')
        return r
    seen = {}
    for r in pmap(one, list(enumerate([s for s in shards if s]))):
        ctx.states += r['distinct']
        ctx.transitions += r['generated']
        assert len(re.findall('"BAD"', r['out'])) == len(re.findall(BAD, r['out'])), 'unread report'
        found = re.findall(BAD, r['out'])
        assert {x[0] for x in found if x[0].startswith('control:')} == {'control:' + k for k in WRONG}, 'the controls are misjudged'
        for fid, pc, why in found:
            if not fid.startswith('control:'): seen.setdefault(fid, (pc, why))
    for fid, (pc, why) in sorted(seen.items())[:6]:
        ctx.violate('%s: instruction %s: %s' % (fid, pc, why), {'prog.c': src[fid][0], 'prog.s': src[fid][1]})
    ctx.traces += len(fs)
    ctx.count('functions_checked_on_all_paths', len(fs))
    ctx.count('instructions', sum(len(x['code']) for x in fs))


def static(ctx, progs, tag):
    def comp(p):
        n = ctx.rt.name(p)
        t = p.text()
        st, det, s = ctx.rt.compile(t, n)
        if st != 'ok': return None
        with open(s, encoding='latin-1') as f: return (n, f.read(), t)
    judge(ctx, [u for u in pmap(comp, progs) if u], tag)


def abi_runs(ctx, progs):
    """Runs with external code that scribbles over whatever the convention lets it."""
    ctx.programs(progs)
    res = pmap(lambda p: (p, ctx.rt.run(p, ctx.rt.name(p))), progs)
    for p, (tr, notes) in res:
        if notes.get('regs_ok') is False or notes.get('misaligned'):
            if len(ctx.viol) < 6:
                ctx.violate('%s: %s' % (p.id, 'callee-saved registers or the stack pointer changed' if notes.get('regs_ok') is False else 'an external function was called with a misaligned stack'),
                            {'prog.c': p.text(), 'notes.json': json.dumps(notes, default=str)})
        ctx.count('runs_with_register_and_alignment_probe')


SHAPES = ['', 'a', 'ab', 'abcdef', 'abcdefg', 'abcdefgh', 'abcdefghi']


def frames(rng, pid, i):
    """Functions of every frame size, saved-register count and argument count, calling at every push depth."""
    p = Prog(pid)
    p.extern('put_i', F(VOID, [INT]), 'put')
    nloc = i % 9
    T = [CHAR, INT, LONG, A(CHAR, 1 + rng.randrange(30)), A(INT, 1 + rng.randrange(5))]
    for k in range(10):
        n = k
        p.func('t%d' % n, INT, [(rng.choice([CHAR, INT, LONG, UINT]), 'x%d' % j) for j in range(n)],
               block(p.put(INT, lit(n)), ret(bin_('+', lit(n), var('x%d' % (n - 1))) if n else lit(0))))
    calls = [call('t%d' % n, *[lit(rng.randrange(9)) for _ in range(n)]) for n in range(10)]

    def nest(d):
        n = rng.randrange(10)
        return call('t%d' % n, *[nest(d - 1) if d and rng.random() < .4 else lit(rng.randrange(7)) for _ in range(n)])
    for k in range(3):
        body = [decl(rng.choice(T), 'v%d' % j) for j in range(nloc)]
        body += [decl(INT, 'w', lit(rng.randrange(9)))]
        for c in range(4):
            e = nest(2)
            for j in range(rng.randrange(7)): e = bin_(rng.choice('+-'), var('w'), e) if rng.random() < .7 else bin_('+', e, nest(0))
            body.append(p.put(INT, e))
        if rng.random() < .5: body.append(if_(bin_('>', var('w'), lit(4)), ret(nest(1))))
        body.append(while_(bin_('>', inc('pre-', var('w')), lit(3)), es(nest(1))))
        body.append(ret(nest(1)))
        p.func('f%d' % k, rng.choice([INT, LONG, CHAR, UINT]), [(rng.choice([CHAR, INT, LONG]), 'y%d' % j) for j in range(rng.randrange(9))], block(*body))
    main = []
    for n, t, ps, b in p.funcs:
        if n[0] == 'f': main.append(p.put(INT, call(n, *[lit(rng.randrange(9)) for _ in ps])))
    # calls are unsequenced with respect to each other in C: use an order-free sink
    p.func('main', INT, [], block(*main, ret(lit(0))))
    return p


def mixed(rng, pid, depth):
    """Pressure programs whose callees, or whose callers, come from the system compiler."""
    p = p10.pressure(rng, pid, 4, depth)
    names = [f[0] for f in p.funcs if f[0] != 'main']
    p.foreign = set(rng.sample(names, rng.randint(1, len(names) - 1)))
    return p


def run(ctx):
    ctx.rt
    rng = ctx.rng
    fr = p10.usable(ctx, [frames(rng, 'P09.fr%d' % i, i) for i in range(ctx.n(30, 90))])
    pr = p10.usable(ctx, [p10.pressure(rng, 'P09.pr%d' % i, 4, 3 + i % 4) for i in range(ctx.n(30, 90))])
    fl = [p07.flow_prog(rng, 'P09.fl%d' % i, 3, 18) for i in range(ctx.n(20, 60))]
    ex = p05.random_progs(ctx, ctx.n(10, 40), 3, 10, 'P09.ex')
    dp = p10.deep(ctx, [INT, UINT] if ctx.quick else [CHAR, INT, UINT, LONG, ULONG], [0, 2, 5, 6, 7] if ctx.quick else range(9))
    static(ctx, fr + pr + fl + ex + dp, 's')
    if ctx.viol: return
    abi_runs(ctx, p10.usable(ctx, [mixed(rng, 'P09.mx%d' % i, 3 + i % 4) for i in range(ctx.n(40, 120))]))
    rnd = 0
    while not ctx.quick and ctx.left() > 90 and not ctx.viol:
        rnd += 1
        ps = p10.usable(ctx, [frames(rng, 'P09.fr%d.%d' % (rnd, i), i) for i in range(80)] + [p10.pressure(rng, 'P09.pr%d.%d' % (rnd, i), 6, 3 + i % 5) for i in range(80)])
        static(ctx, ps, 's%d' % rnd)
        abi_runs(ctx, p10.usable(ctx, [mixed(rng, 'P09.mx%d.%d' % (rnd, i), 3 + i % 4) for i in range(80)]))
