"""P04: declarators, sizes, alignment, layout."""
import itertools, random
from ..cast import *
from ..pyev import *
from ..findings import known
from .p12 import rand_type, leaves, sz, al, has_ptr

TN = list(SIZE)
DIMS = [2, 3, 5, 7]


def rtype(p, rng, d, obj=True):
    """Random type. Function and array types only where C allows them."""
    r = rng.random()
    if d == 0 or r < .08:
        if p.structs and rng.random() < .25: return S(rng.randint(1, len(p.structs)))
        if rng.random() < .12: return N('enum E', INT)
        return ('i', rng.choice(TN))
    if r < .45:
        if rng.random() < .1: return P(VOID)
        return P(rtype(p, rng, d - 1, False))
    if r < .75:
        t = rtype(p, rng, d - 1, True)
        return A(t, rng.choice(DIMS)) if sz0(t, p) < 400 else P(t)
    # function type; objects cannot have it, so point to it
    ret_ = rtype(p, rng, d - 1, True)
    while strip(ret_)[0] in 'as': ret_ = P(ret_) if rng.random() < .7 else INT
    if rng.random() < .15: ret_ = VOID
    ps = [param(p, rng, max(0, d - 2)) for _ in range(rng.randint(0, 3))]
    f = F(ret_, ps)
    return P(f) if obj or rng.random() < .3 else f


def param(p, rng, d):
    t = rtype(p, rng, d, True)
    s = strip(t)
    if s[0] == 's': return P(t)
    if s[0] == 'a': return J(t)
    if s[0] == 'p' and s[1][0] == 'f' and t[0] == 'p' and rng.random() < .5: return J(t[1])
    return t


def sz0(t, p): return sz(strip(t), p)


def factor(p, rng, t, used):
    """Introduce typedef names for parts of a type."""
    if t[0] in 'pa': t = (t[0], factor(p, rng, t[1], used)) + tuple(t[2:])
    elif t[0] == 'f': t = ('f', factor(p, rng, t[1], used), tuple(x if x[0] == 'j' else factor(p, rng, x, used) for x in t[2]))
    if t[0] not in 'vj' and rng.random() < .3:
        n = 'T%d' % len(p.mid)
        p.mid.append('typedef ' + declare(t, n, p) + ';\n')
        return N(n, t)
    return t


def walk(p, rng, e, t, out, depth=0):
    """sizeof of everything that can be reached from e, of type t."""
    t = strip(t)
    if t[0] in 'ips' or (t[0] == 'a'): out.append(p.put(INT, sze(e)))
    if depth > 8: return
    if t[0] == 'a':
        nx = rng.choice([lambda: idx(e, lit(0)), lambda: deref(e)])()
        walk(p, rng, nx, t[1], out, depth + 1)
        out.append(p.put(INT, sze(bin_('+', e, lit(0)))))
    elif t[0] == 'p':
        if t[1][0] == 'f':
            f = t[1]
            if f[1][0] == 'v': return
            g = e if rng.random() < .5 else deref(e)
            args = []
            for x in f[2]:
                if x[0] == 'i': args.append(lit(1))
                else: args.append(cast(x, lit(0)))
            if f[1][0] in 'ip': walk(p, rng, call(g, *args), f[1], out, depth + 1)
        elif t[1][0] not in 'v':
            walk(p, rng, rng.choice([lambda: deref(e), lambda: idx(e, lit(0))])(), t[1], out, depth + 1)
    elif t[0] == 's':
        m, mt = rng.choice(p.structs[t[1] - 1][1])
        walk(p, rng, dot(e, m), mt, out, depth + 1)


def declarators(rng, pid, ctx):
    p = Prog(pid)
    p.wild = random.Random(pid) if rng.random() < .6 else None
    p.pre = 'enum E {EA, EB};\n'
    nm = spell(rng, 3)
    for _ in range(rng.randint(0, 2)): p.struct([(nm[i], ('i', rng.choice(TN))) for i in range(rng.randint(1, 3))])
    for _ in range(rng.randint(0, 1)): p.struct([(nm[i], rtype(p, rng, 2)) for i in range(rng.randint(1, 3))])
    body = []
    nv = rng.randint(4, 7)
    for i in range(nv):
        t = rtype(p, rng, rng.randint(1, 4))
        if rng.random() < .5: t = factor(p, rng, t, [])
        n = 'x%d' % i
        k = rng.randrange(4)
        st = strip(t)
        if k == 0: body.append(decl(t, n))
        elif k == 1: p.globals.append((n, t, None))
        elif k == 2 and st[0] != 's':
            inner = []
            pt = J(t) if t[0] == 'a' else t
            if st[0] == 'a' and t[0] != 'a': pt = P(t)
            walk(p, rng, var(n), strip(pt), inner)
            p.func('f%d' % i, VOID, [(pt, n)], block(*inner))
            spt = strip(pt)
            body.append(es(call('f%d' % i, lit(1) if spt[0] == 'i' else cast(spt, lit(0)))))
            ctx.count('declarators')
            continue
        elif k == 3:
            s = p.struct([('q', CHAR), ('n', t), ('r', CHAR)]) if not names_typedef(t) else None
            if s:
                body += [decl(s, n), p.put(INT, sze(var(n))), p.put(LONG, bin_('-', cast(P(CHAR), addr(dot(var(n), 'n'))), cast(P(CHAR), addr(var(n))))), p.put(LONG, bin_('-', cast(P(CHAR), addr(dot(var(n), 'r'))), cast(P(CHAR), addr(var(n)))))]
                walk(p, rng, dot(var(n), 'n'), t, body)
                ctx.count('declarators')
                continue
            p.globals.append((n, t, None))
        else: p.globals.append((n, t, None))
        walk(p, rng, var(n), t, body)
        if rng.random() < .5 and st[0] != 's': body.append(p.put(INT, szt(t)))
        ctx.count('declarators')
    p.func('main', INT, [], block(*body, ret(lit(0))))
    return p


def names_typedef(t):
    if t[0] == 'n': return t[1] != 'enum E'
    if t[0] in 'pa': return names_typedef(t[1])
    if t[0] == 'j': return names_typedef(t[1])
    if t[0] == 'f': return names_typedef(t[1]) or any(names_typedef(x) for x in t[2])
    return False


def layout(rng, pid, ctx, mixed=True):
    """Structures exchanged with the system compiler: member offsets, sizes, contents both ways."""
    p = Prog(pid)
    t = rand_type(p, rng, 3, 9)
    for _ in range(6):
        if t[0] == 's' and len(leaves(t, p)) > 2: break
        t = rand_type(p, rng, 3, 9)
    if t[0] != 's': t = p.struct([('h', CHAR), ('t', t), ('e', ('i', rng.choice(TN)))])
    lv = leaves(t, p)
    nested = {}

    def path(e, q):
        for k, x in q: e = dot(e, x) if k == 'm' else idx(e, lit(x))
        return e
    p.globals += [('g', t, None), ('ga', A(t, 2), None), ('tc', CHAR, None)]
    body = [decl(t, 'l'), decl(A(t, 2), 'la')]
    # offsets of every member at every level
    for q, s in lv: body.append(p.put(LONG, bin_('-', cast(P(CHAR), addr(path(var('l'), q))), cast(P(CHAR), addr(var('l'))))))
    for q in sorted({tuple(q[:i]) for q, _ in lv for i in range(len(q) + 1)}):
        body.append(p.put(INT, sze(path(var('g'), q))))
    body += [p.put(LONG, bin_('-', cast(P(CHAR), addr(idx(var('la'), lit(1)))), cast(P(CHAR), var('la')))), p.put(INT, sze(var('ga')))]
    # contents written on one side, read on the other
    u = [0]

    def val(s):
        u[0] += 1
        if s[0] == 'i': return plain_const(s[1], wrap((u[0] * 0x0123456789ab) ^ rng.getrandbits(64), s[1]))
        return cast(s, lit(0))

    def writer(n, who):
        ss = [es(asg(path(deref(var('p')), q), val(s))) for q, s in lv]
        p.func(n, VOID, [(P(t), 'p')], block(*ss))

    def reader(n):
        ss = [p.put(s, path(deref(var('p')), q)) if s[0] == 'i' else p.put(INT, bin_('==', path(deref(var('p')), q), cast(s, lit(0)))) for q, s in lv]
        p.func(n, VOID, [(P(t), 'p')], block(*ss))
    writer('fw', 'f'); writer('nw', 'n'); reader('fr'); reader('nr')
    # a global written by the other side under its own name
    p.func('fg', VOID, [], block(*[es(asg(path(idx(var('ga'), lit(1)), q), val(s))) for q, s in lv], *[es(asg(path(var('g'), q), val(s))) for q, s in lv]))
    p.func('fs', INT, [], block(ret(sze(var('g')))))
    if mixed: p.foreign = {'fw', 'fr', 'fg', 'fs'}
    for o in (addr(var('l')), addr(var('g')), addr(idx(var('la'), lit(1))), var('ga')):
        body += [es(call('fw', o)), es(call('nr', o)), es(call('nw', o)), es(call('fr', o))]
    body += [es(call('fg')), es(call('nr', addr(var('g')))), es(call('nr', addr(idx(var('ga'), lit(1))))), es(call('nr', var('ga'))), p.put(INT, call('fs'))]
    p.func('main', INT, [], block(*body, ret(lit(0))))
    ctx.count('layouts')
    return p


SPECS = {'char': [['char']], 'int': [['int']], 'uint': [['unsigned'], ['unsigned', 'int']], 'long': [['long'], ['long', 'int']],
         'ulong': [['unsigned', 'long'], ['unsigned', 'long', 'int']], 'llong': [['long', 'long'], ['long', 'long', 'int']],
         'ullong': [['unsigned', 'long', 'long'], ['unsigned', 'long', 'long', 'int']]}


def specifiers(ctx):
    """Every order of the words of every integer type."""
    out = []
    for t in TN:
        p = Prog('P04.spec.' + t)
        body = []
        i = 0
        for ws in SPECS[t]:
            for o in sorted(set(itertools.permutations(ws))):
                n = 'x%d' % i
                i += 1
                w = N(' '.join(o), ('i', t))
                body += [decl(w, n), es(asg(var(n), num(-1))), p.put(INT, sze(var(n))), p.put(INT, bin_('<', var(n), lit(0))), p.put(INT, szt(w)),
                         p.put(LLONG, cast(w, num(-2))), p.put(INT, bin_('<', bin_('+', cast(w, lit(1)), num(-3)), lit(0)))]
                p.func('f%d' % i, w, [(w, 'a')], block(ret(var('a'))))
                body += [p.put(LLONG, call('f%d' % i, num(-3)))]
                s = p.struct([('a', CHAR), ('b', w)])
                body += [p.put(INT, szt(s))]
                p.globals.append(('g%d' % i, w, None))
                body += [p.put(INT, sze(var('g%d' % i))), es(asg(var('g%d' % i), num(-7))), p.put(LLONG, var('g%d' % i))]
                ctx.count('declarators', 3)
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    return out


def small_structs(ctx):
    """All structures of up to three members over the sizes 1, 4, 8, an array and a pointer."""
    out = []
    ms = [CHAR, INT, LONG, A(CHAR, 3), P(CHAR), A(INT, 2)]
    combos = [c for k in (1, 2, 3) for c in itertools.product(ms, repeat=k)]
    if ctx.quick: combos = [c for c in combos if len(c) < 3] + ctx.rng.sample([c for c in combos if len(c) == 3], 80)
    for i in range(0, len(combos), 20):
        p = Prog('P04.small%d' % (i // 20))
        body = []
        for j, c in enumerate(combos[i:i + 20]):
            s = p.struct([('abc'[k], m) for k, m in enumerate(c)])
            n = 'x%d' % j
            body += [decl(s, n), p.put(INT, szt(s))]
            for k in range(len(c)): body.append(p.put(LONG, bin_('-', cast(P(CHAR), addr(dot(var(n), 'abc'[k]))), cast(P(CHAR), addr(var(n))))))
            ctx.count('layouts')
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    return out


def places(rng, pid, ctx):
    """Where objects lie: every one at a multiple of the alignment of its type (an array of 16 bytes or more at file scope at one of 16).
    Objects of a function are only asked for 4, the rest is KF9."""
    p = Prog(pid)
    gs = []
    for i in range(9):
        t = CHAR if rng.random() < .35 else rand_type(p, rng, rng.randint(0, 3), 7)
        gs.append(('g%d' % i, t))
        p.globals.append(('g%d' % i, t, num(rng.randint(1, 99)) if t[0] == 'i' and rng.random() < .5 else None))

    def path(e, q):
        for k, x in q: e = dot(e, x) if k == 'm' else idx(e, lit(x))
        return e

    def probe(name, t, most):
        out = [p.align(addr(path(var(name), q)), min(al(s, p), most)) for q, s in [((), t)] + rng.sample(leaves(t, p), min(4, len(leaves(t, p))))]
        if t[0] == 'a' and sz(t, p) >= 16 and most == 16: out.append(p.align(var(name), 16))
        ctx.count('places', len(out))
        return out
    body = []
    for n, t in gs: body += probe(n, t, 16)
    for f in range(2):
        ls = [('l%d' % i, CHAR if rng.random() < .4 else rand_type(p, rng, rng.randint(0, 2), 5)) for i in range(6)]
        ps = [(('i', rng.choice(TN)), 'a%d' % i) for i in range(rng.choice([1, 5, 8]))]
        ss = [decl(t, n) for n, t in ls[:3]]
        inner = [decl(t, n) for n, t in ls[3:]]
        for n, t in ls: inner += probe(n, t, 4)
        for t, n in ps: inner.append(p.align(addr(var(n)), min(al(t, p), 4)))
        p.func('f%d' % f, VOID, ps, block(*ss, block(*inner), *probe(ls[0][0], ls[0][1], 4)))
        body.append(es(call('f%d' % f, *[lit(3) for _ in ps])))
    p.func('main', INT, [], block(*body, ret(lit(0))))
    return p


def hand(ctx):
    """Declarators whose objects are really used."""
    p = Prog('P04.hand')
    fi = F(INT, [INT])
    p.globals += [('g3', A(INT, 3), il(lit(4), lit(5), lit(6))), ('tab', A(P(fi), 3), None), ('pa', P(A(INT, 3)), None), ('ppa', A(P(A(INT, 3)), 2), None), ('fpp', P(P(fi)), None), ('m3', A(A(A(CHAR, 5), 3), 2), None)]
    p.func('inc', INT, [(INT, 'x')], block(ret(bin_('+', var('x'), lit(1)))))
    p.func('dbl', INT, [(INT, 'x')], block(ret(bin_('*', var('x'), lit(2)))))
    p.func('sel', P(fi), [(INT, 'k')], block(if_(var('k'), ret(var('dbl'))), ret(addr(var('inc')))))
    p.func('arr', P(A(INT, 3)), [], block(ret(addr(var('g3')))))
    p.func('parr', P(P(A(INT, 3))), [], block(ret(var('ppa'))))
    p.func('selsel', P(F(P(fi), [INT])), [], block(ret(var('sel'))))
    p.func('app', INT, [(J(fi), 'f'), (J(A(INT, 3)), 'a'), (J(A(A(INT, 3), 2)), 'm')], block(ret(bin_('+', call('f', idx(var('a'), lit(2))), bin_('+', idx(idx(var('m'), lit(1)), lit(2)), cast(INT, sze(var('a'))))))))
    body = [decl(A(A(INT, 3), 2), 'm', il(il(lit(1), lit(2), lit(3)), il(lit(7), lit(8), lit(9)))), es(asg(idx(var('tab'), lit(0)), var('inc'))), es(asg(idx(var('tab'), lit(1)), addr(var('dbl')))), es(asg(idx(var('tab'), lit(2)), call('sel', lit(1)))),
            *[p.put(INT, call(idx(var('tab'), lit(k)), lit(20 + k))) for k in range(3)], p.put(INT, call(deref(idx(var('tab'), lit(1))), lit(9))), p.put(INT, call(deref(deref(var('tab'))), lit(9))),
            p.put(INT, call(call('sel', lit(0)), lit(5))), p.put(INT, call(call(call('selsel'), lit(1)), lit(6))), p.put(INT, call(deref(call(deref(call('selsel')), lit(0))), lit(6))),
            p.put(INT, idx(deref(call('arr')), lit(2))), es(asg(idx(deref(call('arr')), lit(1)), lit(50))), p.put(INT, idx(var('g3'), lit(1))),
            es(asg(var('pa'), var('m'))), p.put(INT, idx(deref(bin_('+', var('pa'), lit(1))), lit(1))), p.put(INT, idx(idx(var('pa'), lit(1)), lit(2))),
            es(asg(idx(var('ppa'), lit(1)), addr(var('g3')))), p.put(INT, idx(deref(idx(call('parr'), lit(1))), lit(0))), p.put(INT, deref(deref(deref(bin_('+', call('parr'), lit(1)))))),
            es(asg(var('fpp'), var('tab'))), p.put(INT, call(deref(var('fpp')), lit(3))), p.put(INT, call(idx(var('fpp'), lit(1)), lit(3))), p.put(INT, call(deref(deref(bin_('+', var('fpp'), lit(2)))), lit(3))),
            p.put(INT, call('app', var('dbl'), var('g3'), var('m'))), p.put(INT, call('app', addr(var('inc')), addr(idx(var('g3'), lit(0))), var('pa'))),
            es(asg(idx(idx(idx(var('m3'), lit(1)), lit(2)), lit(4)), lit(77))), p.put(LONG, bin_('-', addr(idx(idx(idx(var('m3'), lit(1)), lit(2)), lit(4))), cast(P(CHAR), var('m3')))), p.dump(var('m3'), 30),
            p.put(INT, sze(idx(var('m3'), lit(0)))), p.put(INT, sze(idx(idx(var('m3'), lit(0)), lit(0)))), p.put(INT, sze(deref(var('pa')))), p.put(INT, sze(deref(call('arr'))))]
    p.func('main', INT, [], block(*body, ret(lit(0))))
    ctx.count('declarators', 12)
    return [p]


def run(ctx):
    known(ctx)
    k = ctx.n(50, 100)
    ctx.programs(hand(ctx) + specifiers(ctx) + small_structs(ctx) + [declarators(ctx.rng, 'P04.d%d' % i, ctx) for i in range(k)] + [layout(ctx.rng, 'P04.l%d' % i, ctx) for i in range(k)] + [places(ctx.rng, 'P04.p%d' % i, ctx) for i in range(k)])
    rnd = 0
    while not ctx.quick and ctx.left() > 60 and not ctx.viol:
        rnd += 1
        ctx.programs([declarators(ctx.rng, 'P04.r%d.d%d' % (rnd, i), ctx) for i in range(80)] + [layout(ctx.rng, 'P04.r%d.l%d' % (rnd, i), ctx) for i in range(80)] + [places(ctx.rng, 'P04.r%d.p%d' % (rnd, i), ctx) for i in range(40)])
