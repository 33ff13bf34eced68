"""P06: conversions between types at every place where C converts."""
from ..cast import *
from ..pyev import *
from .p05 import operand, base, TN, rand_expr

SITES = ['asg', 'asgv', 'asgg', 'init', 'ginit', 'elem', 'memb', 'deref', 'arg', 'argx', 'arg7', 'ret', 'retx', 'cast', 'chain', 'chain3', 'condv', 'opasg', 'ilist',
         'castop', 'castcmp', 'castcond', 'castidx', 'castderef']
SRC = 'llgdemxcf'


def site(p, rng, s, d, v, where, k):
    """Statements that convert value v from type s to type d at the given kind of place and record the result."""
    D, Sx = ('i', d), ('i', s)
    sh = rng.choice(SRC)
    e, pre = operand(p, sh, 'a', s, v)
    x = 'x%d' % k
    if where == 'asg': return pre + [decl(D, x), es(asg(var(x), e)), p.put(D, var(x))]
    if where == 'asgv': return pre + [decl(D, x), p.put(D if rng.random() < .5 else LLONG, asg(var(x), e)), p.put(D, var(x))]
    if where == 'asgg':
        p.globals.append(('G' + x, D, None))
        return pre + [es(asg(var('G' + x), e)), p.put(D, var('G' + x))]
    if where == 'init': return pre + [decl(D, x, e), p.put(D, var(x))]
    if where == 'ginit':
        p.globals.append(('G' + x, D, const(s, v) if s != 'char' and v != tmin(s) else lit(abs(v) // 2)))
        return [p.put(D, var('G' + x))]
    if where == 'elem': return pre + [es(asg(idx(var('eb' + SFX[d]), lit(1)), e)), p.put(D, idx(var('eb' + SFX[d]), lit(1)))]
    if where == 'memb': return pre + [es(asg(dot(var('sb'), 'm' + SFX[d]), e)), p.put(D, dot(var('sb'), 'm' + SFX[d]))]
    if where == 'deref': return pre + [es(asg(deref(var('pb' + SFX[d])), e)), p.put(D, var('lb' + SFX[d]))]
    if where == 'arg': return pre + [p.put(D, e)]
    if where == 'argx':
        f = 'take_' + SFX[d]
        if not any(y[0] == f for y in p.funcs): p.func(f, VOID, [(INT, 'n'), (D, 'x')], block(p.put(D, var('x')), p.put(LLONG, var('x'))))
        return pre + [es(call(f, lit(1), e))]
    if where == 'arg7':
        f = 'take7_' + SFX[d]
        if not any(y[0] == f for y in p.funcs):
            p.func(f, VOID, [(INT, 'n%d' % i) for i in range(6)] + [(D, 'x'), (D, 'y')], block(p.put(D, var('x')), p.put(LLONG, var('y'))))
        return pre + [es(call(f, *[lit(i) for i in range(6)], e, e if sh != 'f' else lit(3)))]
    if where == 'ret':
        f = 'conv_%s_%s' % (SFX[s], SFX[d])
        if not any(y[0] == f for y in p.funcs): p.func(f, D, [(Sx, 'x')], block(ret(var('x'))))
        return pre + [p.put(D if rng.random() < .5 else ULLONG, call(f, e))]
    if where == 'retx':     # returning a constant or an expression
        f = 'r%s' % x
        p.func(f, D, [], block(ret(const(s, v))))
        return [p.put(D if rng.random() < .5 else LLONG, call(f))]
    if where == 'cast': return pre + [p.put(LLONG if d != 'llong' else ULLONG, cast(D, e)), p.put(D, cast(D, e) if sh != 'f' else lit(1))]
    if where == 'chain': return pre + [p.put(ULLONG if d != 'ullong' else LLONG, cast(D, cast(('i', rng.choice(TN)), e)))]
    if where == 'chain3': return pre + [decl(D, x, cast(('i', rng.choice(TN)), cast(('i', rng.choice(TN)), cast(('i', rng.choice(TN)), e)))), p.put(D, var(x))]
    if where == 'condv':
        o, pre2 = operand(p, 'l', 'b', d, rng.choice(VALS[d]))
        c, pre3 = decl(INT, x, lit(rng.randrange(2))), []
        e2 = cond(var(x), e, o)
        return pre + pre2 + [c, p.put(('i', common(s, d)), e2)] + ([] if sh == 'f' else [p.put(LLONG, e2)])
    if where == 'opasg':
        o = rng.choice(VALS[d])
        op = rng.choice('+-*&|^')
        try: binop(op, (d, o), (s, v))
        except Undef: op = '&'
        return pre + [decl(D, x, plain_const(d, o)), p.put(D if rng.random() < .5 else LLONG, opasg(op, var(x), e)), p.put(D, var(x))]
    if where == 'ilist': return pre + [decl(A(D, 3), x, il(lit(1), e)), p.put(D, idx(var(x), lit(1))), p.put(D, idx(var(x), lit(2))), p.put(D, idx(var(x), lit(0)))]
    if where == 'castop':
        o, pre2 = operand(p, 'l', 'b', rng.choice(TN), 1)
        e2 = bin_(rng.choice('&|^'), cast(D, e), o)
        if rng.random() < .5: e2 = bin_(e2['o'], e2['b'], e2['a'])
        return pre + pre2 + [p.put(LLONG, e2)]
    if where == 'castcmp':
        o, pre2 = operand(p, 'l', 'b', s, v)
        return pre + pre2 + [p.put(INT, bin_(rng.choice(['==', '<', '>', '!=', '<=', '>=']), cast(D, e), o))]
    if where == 'castcond': return pre + [if_(cast(D, e), p.put(INT, lit(1)), p.put(INT, lit(0)))]
    if where == 'castidx':
        w = rng.randrange(3)
        return [decl(A(INT, 3), x, il(lit(5), lit(6), lit(7))), decl(D, 'i' + x, lit(w)), p.put(INT, idx(var(x), var('i' + x))),
                p.put(INT, idx(var(x), cast(Sx, var('i' + x)))), p.put(INT, deref(bin_('+', var(x), cast(D, lit(w)))))]
    if where == 'castderef': return pre + [p.put(LLONG, cast(D, deref(addr(var('lb' + SFX[s])))))] if False else \
        [es(asg(var('lb' + SFX[s]), plain_const(s, v))), p.put(LLONG, cast(D, deref(var('pb' + SFX[s])))), p.put(D, deref(addr(var('lb' + SFX[s]))))]
    raise ValueError(where)


def conv_progs(ctx, per, tag=''):
    out = []
    for s in TN:
        for w in SITES:
            p = Prog('P06%s.%s.%s' % (tag, s, w))
            ds, body = base(p, TN), []
            k = 0
            for d in TN:
                for _ in range(per):
                    k += 1
                    v = ctx.rng.choice(VALS[s]) if ctx.rng.random() < .7 else wrap(ctx.rng.getrandbits(64), s)
                    if w == 'castcond' and ctx.rng.random() < .6 and SIZE[s] > SIZE[d]: v = wrap(1 << (8 * SIZE[d]), s)
                    body += site(p, ctx.rng, s, d, v, w, k)
                    ctx.count('conversions')
            used = {}
            for f in p.funcs: names_in(f[3], used.setdefault('f', set()))
            p.func('main', INT, [], block(*prune(p, ds, body), *body, ret(lit(0))))
            out.append(p)
    return out


def pointer_progs(ctx):
    """Pointer casts keep the address; void pointers convert both ways."""
    out = []
    kinds = [CHAR, INT, LONG, P(INT), P(CHAR), A(INT, 3)]
    for i, t in enumerate(kinds):
        p = Prog('P06.ptr%d' % i)
        st = p.struct([('a', CHAR), ('b', LONG)])
        body = [decl(A(LONG, 4), 'm', il(*[lit(0x1122334455667788 + 257 * j) for j in range(4)])), decl(P(VOID), 'v'), decl(P(t), 'q'), decl(P(CHAR), 'c'),
                decl(P(st), 's'),
                es(asg(var('v'), var('m'))), es(asg(var('q'), var('v'))), es(asg(var('c'), cast(P(CHAR), var('q')))),
                p.put(INT, bin_('==', var('v'), cast(P(VOID), var('c')))),
                p.put(CHAR, deref(var('c'))), p.put(CHAR, idx(var('c'), lit(7))), p.put(INT, deref(cast(P(INT), bin_('+', var('c'), lit(12))))),
                p.put(LONG, deref(cast(P(LONG), bin_('+', cast(P(CHAR), cast(P(VOID), var('q'))), lit(8))))),
                es(asg(var('s'), cast(P(st), cast(P(VOID), bin_('+', var('m'), lit(1)))))),
                p.put(CHAR, arrow(var('s'), 'a')), p.put(LONG, arrow(var('s'), 'b')),
                p.put(LONG, bin_('-', cast(P(CHAR), var('s')), cast(P(CHAR), var('m')))),
                es(asg(arrow(var('s'), 'b'), num(-5))), p.dump(var('m'), 32),
                p.put(INT, bin_('==', cast(P(VOID), var('s')), cast(P(VOID), bin_('+', var('m'), lit(1))))),
                p.put(INT, bin_('==', cast(P(t), var('s')), cast(P(t), bin_('+', var('m'), lit(1))))),
                p.put(INT, un('!', cast(P(t), lit(0)))), p.put(INT, un('!', var('v')))]
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    return out


def run(ctx):
    ctx.programs(conv_progs(ctx, 3 if ctx.quick else 4) + pointer_progs(ctx))
    rnd = 0
    while not ctx.quick and ctx.left() > 60 and not ctx.viol:
        rnd += 1
        ctx.programs(conv_progs(ctx, 2, '.r%d' % rnd))
