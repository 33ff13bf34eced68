"""P05: integer operators."""
from ..cast import *
from ..pyev import *

ARITH = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
CMP = ['==', '!=', '<', '>', '<=', '>=']
TN = list(SIZE)


def pairs(rng, op, ta, tb, k):
    """k defined operand pairs, preferring boundary values."""
    out = []
    tries = 0
    while len(out) < k and tries < 200:
        tries += 1
        a = rng.choice(VALS[ta])
        if op in ('<<', '>>'): b = rng.choice([0, 1, 2, 4, 7, 8, 15, 16, 31, 32, 33, 63]) if tries % 2 else rng.randrange(0, 8 * SIZE[promote(ta)])
        else: b = rng.choice(VALS[tb])
        if rng.random() < 0.3: a = wrap(rng.getrandbits(64) >> rng.randrange(64), ta)
        if rng.random() < 0.3 and op not in ('<<', '>>'): b = wrap(rng.getrandbits(64) >> rng.randrange(64), tb)
        if op in CMP and rng.random() < 0.3: b = wrap(a, tb)
        if not fits(b, tb): continue
        try: binop(op, (ta, a), (tb, b))
        except Undef: continue
        if (a, b) not in out: out.append((a, b))
    return out


SHAPES = ['ll', 'lc', 'cl', 'cc', 'gl', 'lg', 'dl', 'ld', 'el', 'lm', 'gg', 'xx', 'xc', 'fl', 'lf']


def operand(p, sh, side, t, v):
    """Expression of type t with value v, by shape; returns (expression, statements that set it up)."""
    n = side + SFX[t]
    T = ('i', t)
    if sh == 'c': return const(t, v), []
    if sh == 'l': return var('l' + n), [es(asg(var('l' + n), plain_const(t, v)))]
    if sh == 'g': return var('g' + n), [es(asg(var('g' + n), plain_const(t, v)))]
    if sh == 'd': return deref(var('p' + n)), [es(asg(var('l' + n), plain_const(t, v)))]
    if sh == 'e': return idx(var('e' + n), lit(1)), [es(asg(idx(var('e' + n), lit(1)), plain_const(t, v)))]
    if sh == 'm': return dot(var('s' + side), 'm' + SFX[t]), [es(asg(dot(var('s' + side), 'm' + SFX[t]), plain_const(t, v)))]
    if sh == 'x':      # a sub-expression
        return cast(T, un('~', un('~', var('l' + n)))), [es(asg(var('l' + n), plain_const(t, v)))]
    if sh == 'f':      # a call
        p.extern('id_' + SFX[t], F(T, [T]), 'id')
        return call('id_' + SFX[t], const(t, v)), []


def base(p, types, sides='ab'):
    st = p.struct([('m' + SFX[t], ('i', t)) for t in TN])
    ds = []
    for s in sides:
        ds.append(decl(st, 's' + s))
        for t in types:
            n = s + SFX[t]
            p.globals.append(('g' + n, ('i', t), None))
            ds += [decl(('i', t), 'l' + n), decl(P(('i', t)), 'p' + n, addr(var('l' + n))), decl(A(('i', t), 3), 'e' + n)]
    return ds


def case(p, op, ta, tb, a, b, sh):
    ea, sa = operand(p, sh[0], 'a', ta, a)
    eb, sb = operand(p, sh[1], 'b', tb, b)
    rt, rv = binop(op, (ta, a), (tb, b))
    e = bin_(op, ea, eb)
    ss = sa + sb + [p.put(('i', rt), e)]
    if sh[0] != 'f' and sh[1] != 'f':
        # conversion to a wider type shows the signedness of the result type
        ss.append(p.put(LLONG if rt != 'llong' else ULONG, e))
    return ss, e


def systematic(ctx, ops, per):
    out = []
    k = 0
    for op in ops:
        for ta in TN:
            p = Prog('P05.%s.%s' % (op, ta))
            ds, body = base(p, TN), []
            for tb in TN:
                for a, b in pairs(ctx.rng, op, ta, tb, per):
                    sh = SHAPES[k % len(SHAPES)] if k % 2 else ctx.rng.choice(['ll', 'lc', 'cl'])
                    k += 1
                    ss, e = case(p, op, ta, tb, a, b, sh)
                    if op in CMP or ctx.rng.random() < 0.25:
                        ss.append(cond_use(ctx.rng, p, e))
                    body += ss
                    ctx.count('operator_cases')
            p.func('main', INT, [], block(*prune(p, ds, body), *body, ret(lit(0))))
            out.append(p)
    return out


def cond_use(rng, p, e):
    """e used as a condition."""
    put1, put0 = p.put(INT, lit(1)), p.put(INT, lit(0))
    r = rng.randrange(8)
    if r == 0: return if_(e, put1, put0)
    if r == 1: return if_(un('!', e), put1, put0)
    if r == 2: return p.put(INT, cond(e, lit(1), lit(2)))
    if r == 3: return p.put(INT, land(e, lit(1)))
    if r == 4: return p.put(INT, lor(e, lit(0)))
    if r == 5: return while_(e, block(put1, brk()))
    if r == 6: return for_(None, e, None, block(put1, brk()))
    return p.put(INT, un('!', e))


USES = 13


def use(p, k, e, other):
    """e as a condition, in each way; other is a second condition, and never evaluated to the end."""
    put1, put0 = p.put(INT, lit(1)), p.put(INT, lit(0))
    if k == 0: return if_(e, put1, put0)
    if k == 1: return if_(un('!', e), put1, put0)
    if k == 2: return p.put(INT, cond(e, lit(1), lit(2)))
    if k == 3: return p.put(INT, land(e, other))
    if k == 4: return p.put(INT, lor(e, other))
    if k == 5: return p.put(INT, land(other, e))
    if k == 6: return p.put(INT, lor(other, e))
    if k == 7: return while_(e, block(put1, brk()))
    if k == 8: return for_(None, e, None, block(put1, brk()))
    if k == 9: return if_(lor(e, other), put1, put0)
    if k == 10: return if_(land(e, other), put1, put0)
    if k == 11: return if_(lor(un('!', e), other), put1, put0)
    return p.put(INT, bin_('+', e, un('!', e)))


def conditions(ctx):
    """Each comparison, for each relation of its operands, in each position of a condition."""
    out = []
    k = 0
    for t in TN:
        p = Prog('P05.cond.' + t)
        body = [decl(('i', t), 'a'), decl(('i', t), 'b'), decl(INT, 'z', lit(0)), decl(INT, 'o', lit(1))]
        vs = [(5, 5), (5, 9), (9, 5), (tmax(t), tmin(t)), (tmin(t), tmax(t)), (tmax(t), tmax(t)), (0, 0), (wrap(-1, t), 1), (1, wrap(-1, t))]
        for j, (a, b) in enumerate(vs):
            body += [es(asg(var('a'), plain_const(t, a))), es(asg(var('b'), plain_const(t, b)))]
            for oi, op in enumerate(CMP):
                for u in (range(USES) if j < 3 else [(j + oi + i * 5) % USES for i in range(3)]):
                    k += 1
                    body.append(use(p, u, bin_(op, var('a'), var('b') if k % 3 else const(t, b)), var('oz'[k % 2])))
                    ctx.count('operator_cases')
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    return out


def logical(ctx, per):
    """&&, ||, !, unary operators and truth of every type."""
    out = []
    for ta in TN:
        p = Prog('P05.log.' + ta)
        ds, body = base(p, TN), []
        for tb in TN:
            for _ in range(per):
                a = ctx.rng.choice([0, 0] + VALS[ta])
                b = ctx.rng.choice([0, 0] + VALS[tb])
                if ctx.rng.random() < .3 and SIZE[ta] == 8: a = ctx.rng.choice([1 << 32, 1 << 40, tmin(ta), 256])
                sh = ctx.rng.choice(['ll', 'lg', 'lc', 'cl', 'dl', 'lm'])
                ea, sa = operand(p, sh[0], 'a', ta, a)
                eb, sb = operand(p, sh[1], 'b', tb, b)
                body += sa + sb + [p.put(INT, land(ea, eb)), p.put(INT, lor(ea, eb)), if_(land(ea, eb), p.put(INT, lit(1)), p.put(INT, lit(2))),
                                   if_(lor(ea, un('!', eb)), p.put(INT, lit(3)), p.put(INT, lit(4)))]
                ctx.count('operator_cases', 4)
        for v in VALS[ta]:
            for o in '!~-+':
                sh = ctx.rng.choice('lgcdmexf')
                ea, sa = operand(p, sh, 'a', ta, v)
                e = un(o, ea)
                try: rt, rv = ev(un(o, const(ta, v)), {})
                except Undef: continue
                body += sa + [p.put(('i', rt), e)] + ([] if sh == 'f' else [p.put(LLONG if rt != 'llong' else ULONG, e)])
                ctx.count('operator_cases')
            ea, sa = operand(p, ctx.rng.choice('lgcdme'), 'a', ta, v)
            body += sa + [if_(ea, p.put(INT, lit(1)), p.put(INT, lit(0))), while_(ea, block(p.put(INT, lit(5)), brk()))]
        p.func('main', INT, [], block(*prune(p, ds, body), *body, ret(lit(0))))
        out.append(p)
    return out


def rand_expr(rng, env, d):
    """Random pure integer expression over the variables of env (name -> (type, value)) with a defined value."""
    if d == 0 or rng.random() < .12:
        r = rng.random()
        if r < .7: return var(rng.choice(sorted(env)))
        t = rng.choice(TN)
        v = rng.choice(VALS[t])
        return const(t, v)
    for _ in range(12):
        r = rng.random()
        if r < .62:
            e = bin_(rng.choice(ARITH + ARITH + CMP), rand_expr(rng, env, d - 1), rand_expr(rng, env, d - 1))
        elif r < .74: e = un(rng.choice('-~!+'), rand_expr(rng, env, d - 1))
        elif r < .84: e = cast(('i', rng.choice(TN)), rand_expr(rng, env, d - 1))
        elif r < .9: e = cond(rand_expr(rng, env, d - 1), rand_expr(rng, env, d - 1), rand_expr(rng, env, d - 1))
        elif r < .95: e = land(rand_expr(rng, env, d - 1), rand_expr(rng, env, d - 1))
        else: e = lor(rand_expr(rng, env, d - 1), rand_expr(rng, env, d - 1))
        try:
            ev(e, env)
            return e
        except Undef: pass
    return var(rng.choice(sorted(env)))


def random_progs(ctx, n, depth, cases, tag='P05.rnd'):
    out = []
    rng = ctx.rng
    for i in range(n):
        p = Prog('%s%d' % (tag, i), paren=rng.choice(['min', 'full']) if depth < 4 else 'min')
        body = []
        env = {}
        for j in range(6):
            t = rng.choice(TN)
            v = rng.choice(VALS[t]) if rng.random() < .7 else wrap(rng.getrandbits(64) >> rng.randrange(64), t)
            nm = 'v%d' % j
            env[nm] = (t, v)
            if j % 3 == 2:
                p.globals.append((nm, ('i', t), None))
                body.append(es(asg(var(nm), plain_const(t, v))))
            else: body.append(decl(('i', t), nm, plain_const(t, v)))
        for _ in range(cases):
            e = rand_expr(rng, env, depth)
            t, v = ev(e, env)
            if rng.random() < .75: body.append(p.put(('i', t) if rng.random() < .5 else rng.choice([LLONG, ULLONG]), e))
            else: body.append(cond_use(rng, p, e))
            ctx.count('random_expressions')
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    return out


def run(ctx):
    ctx.programs(systematic(ctx, ARITH + CMP, ctx.n(3, 12)), chunk=ctx.n(None, 40))
    ctx.programs(logical(ctx, ctx.n(2, 6)) + conditions(ctx))
    if ctx.viol: return
    ctx.programs(random_progs(ctx, ctx.n(60, 150), 3, 20))
    rnd = 0
    while not ctx.quick and ctx.left() > 60 and not ctx.viol:
        rnd += 1
        ctx.programs(random_progs(ctx, 150, 3 + rnd % 2, 20, 'P05.rnd%d.' % rnd))
