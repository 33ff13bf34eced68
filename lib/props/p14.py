"""P14: side effects happen once, short circuits, values of assignments and increments."""
from ..cast import *
from ..pyev import *
from ..findings import known

TN = list(SIZE)
OPS = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']


def lv(p, kind, t, k):
    """An lvalue of type t without side effects: (expression, declarations)."""
    T = ('i', t)
    n = 'v%d' % k
    if kind == 'l': return var(n), [decl(T, n)]
    if kind == 'g':
        p.globals.append((n, T, None))
        return var(n), []
    if kind == 'd': return deref(var('p' + n)), [decl(T, n), decl(P(T), 'p' + n, addr(var(n)))]
    if kind == 'e': return idx(var(n), lit(1)), [decl(A(T, 3), n, il(lit(1), lit(2), lit(3)))]
    if kind == 'm':
        s = p.struct([('a', CHAR), ('m', T), ('z', CHAR)])
        return dot(var(n), 'm'), [decl(s, n, il(lit(1), lit(2), lit(3)))]
    if kind == 'w':
        s = p.struct([('a', T), ('m', T)])
        return arrow(var('p' + n), 'm'), [decl(s, n, il(lit(1), lit(2))), decl(P(s), 'p' + n, addr(var(n)))]


def incdec(ctx, tag=''):
    out = []
    for kind in 'lgdemw':
        p = Prog('P14%s.inc.%s' % (tag, kind))
        body = []
        k = 0
        for t in TN:
            for o in ('pre+', 'pre-', 'post+', 'post-'):
                k += 1
                e, ds = lv(p, kind, t, k)
                lim = (tmin(t), tmax(t))
                v = ctx.rng.choice([x for x in VALS[t] if SIZE[t] < 4 or not SIGNED[t] or (o[-1] == '+' and x != lim[1]) or (o[-1] == '-' and x != lim[0])])
                body += ds + [es(asg(e, plain_const(t, v))), p.put(('i', t) if ctx.rng.random() < .5 else LLONG, inc(o, e)), p.put(('i', t), e)]
                u = ctx.rng.randrange(4)
                v = ctx.rng.choice([1, 2, 5, 0])
                body.append(es(asg(e, lit(v))))
                if u == 0: body += [es(inc(o, e))]
                elif u == 1: body += [if_(inc(o, e), p.put(INT, lit(1)), p.put(INT, lit(0)))]
                elif u == 2: body += [p.put(LLONG, bin_('+', inc(o, e), lit(10)))]
                else: body += [p.put(INT, land(inc(o, e), lit(1)))]
                body.append(p.put(('i', t), e))
                ctx.count('effects', 2)
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    # pointers
    p = Prog('P14%s.incptr' % tag)
    body = []
    for j, t in enumerate([CHAR, INT, LONG, P(INT), A(INT, 2), p.struct([('a', CHAR), ('b', INT)])]):
        a, q = 'a%d' % j, 'q%d' % j
        body += [decl(A(t, 6), a), decl(P(t), q, bin_('+', var(a), lit(2)))]
        for o in ('pre+', 'pre-', 'post+', 'post-'):
            body += [p.put(LONG, bin_('-', inc(o, var(q)), var(a))), p.put(LONG, bin_('-', var(q), var(a)))]
        for e in (opasg('+', var(q), lit(2)), opasg('-', var(q), lit(3)), asg(var(q), bin_('+', var(a), lit(1))), opasg('+', var(q), un('-', lit(1)))):
            body += [p.put(LONG, bin_('-', e, var(a))), p.put(LONG, bin_('-', var(q), var(a)))]
        ctx.count('effects', 8)
    # walking pointers: the side effect belongs to the pointer
    body += [decl(A(INT, 4), 'w', il(lit(5), lit(6), lit(7), lit(8))), decl(P(INT), 'x', var('w')), p.put(INT, deref(inc('post+', var('x')))), p.put(INT, deref(var('x'))),
             p.put(INT, deref(inc('pre+', var('x')))), p.put(INT, inc('post+', deref(var('x')))), p.put(INT, inc('pre-', deref(var('x')))), p.put(LONG, bin_('-', var('x'), var('w'))),
             es(asg(deref(inc('post-', var('x'))), lit(70))), es(asg(deref(inc('pre-', var('x'))), lit(50))), p.dump(var('w'), 16), p.put(LONG, bin_('-', var('x'), var('w'))),
             p.put(INT, idx(inc('post+', var('x')), lit(1))), p.put(INT, inc('post+', deref(inc('post+', var('x'))))), p.dump(var('w'), 16), p.put(LONG, bin_('-', var('x'), var('w')))]
    p.func('main', INT, [], block(*body, ret(lit(0))))
    out.append(p)
    return out


def compound(ctx, per, tag=''):
    out = []
    rng = ctx.rng
    for o in OPS:
        for kind in rng.sample('lgdemw', per):
            p = Prog('P14%s.op%s.%s' % (tag, o, kind))
            body = []
            k = 0
            for t in TN:
                for u in rng.sample(TN, 3):
                    k += 1
                    for _ in range(50):
                        v = rng.choice(VALS[t])
                        w = rng.choice(VALS[u]) if o not in ('<<', '>>') else rng.randrange(0, 8 * SIZE[promote(t)])
                        try:
                            binop(o, (t, v), (u, w))
                            break
                        except Undef: pass
                    else: continue
                    e, ds = lv(p, kind, t, k)
                    rhs, r2 = rng.choice([(const(u, w), []), (var('r%d' % k), [decl(('i', u), 'r%d' % k, plain_const(u, w))])])
                    if rng.random() < .2:
                        p.extern('id_' + SFX[u], F(('i', u), [('i', u)]), 'id')
                        rhs = call('id_' + SFX[u], rhs)
                    body += ds + r2 + [es(asg(e, plain_const(t, v)))]
                    if rng.random() < .3: body.append(es(opasg(o, e, rhs)))
                    else: body.append(p.put(rng.choice([('i', t), LLONG, ULLONG]), opasg(o, e, rhs)))
                    body.append(p.put(('i', t), e))
                    ctx.count('effects')
            p.func('main', INT, [], block(*body, ret(lit(0))))
            out.append(p)
    return out


class Eff:
    """Random expressions with calls as visible operands."""

    def __init__(self, p, rng):
        self.p, self.rng, self.k = p, rng, 0
        p.extern('id_i', F(INT, [INT]), 'id')
        p.extern('id_l', F(LONG, [LONG]), 'id')
        p.extern('id_c', F(CHAR, [CHAR]), 'id')
        self.free = []          # variables not yet modified in this full expression

    def leaf(self):
        rng = self.rng
        self.k += 1
        r = rng.random()
        v = rng.choice([0, 0, 1, 2, 3])
        if r < .7 or not self.free: return call(rng.choice(['id_i', 'id_i', 'id_l', 'id_c']), lit(v) if rng.random() < .6 else bin_('+', var('x'), lit(v)))
        n = self.free.pop()
        r = rng.random()
        if r < .35: return inc(rng.choice(['pre+', 'pre-', 'post+', 'post-']), var(n))
        if r < .6: return asg(var(n), self.leaf())
        if r < .8: return opasg(rng.choice('+-*&|^'), var(n), self.leaf())
        return asg(idx(var('arr'), lit(rng.randrange(3))), self.leaf()) if not hasattr(self, 'arr_used') and not setattr(self, 'arr_used', 1) else asg(var(n), self.leaf())

    def expr(self, d):
        rng = self.rng
        if d == 0 or rng.random() < .15: return self.leaf()
        r = rng.random()
        if r < .2: return land(self.expr(d - 1), self.expr(d - 1))
        if r < .4: return lor(self.expr(d - 1), self.expr(d - 1))
        if r < .6: return cond(self.expr(d - 1), self.expr(d - 1), self.expr(d - 1))
        if r < .8: return bin_(rng.choice(['+', '-', '&', '|', '^', '<', '==', '!=', '>=']), self.expr(d - 1), self.expr(d - 1))
        if r < .88: return un(rng.choice('!-~'), self.expr(d - 1))
        if r < .94: return cast(('i', rng.choice(TN)), self.expr(d - 1))
        return call(rng.choice(['id_i', 'id_l']), self.expr(d - 1))

    def full(self, d):
        """One full expression statement using the effects."""
        rng = self.rng
        self.free = ['a', 'b', 'c']
        if hasattr(self, 'arr_used'): del self.arr_used
        e = self.expr(d)
        r = rng.randrange(9)
        p = self.p
        if r == 0: return es(e)
        if r == 1: return if_(e, p.put(INT, lit(1)), p.put(INT, lit(0)))
        if r == 2: return while_(land(inc('post-', var('once')), e), p.put(INT, lit(4)))
        if r == 3: return for_(e, inc('post-', var('once')), e if False else None, p.put(INT, lit(6)))
        if r == 4: return p.put(LLONG, e)
        if r == 5: return es(asg(idx(var('out'), bin_('&', cast(INT, e), lit(1))), lit(3)))
        if r == 6: return switch(e, block(case(lit(0), p.put(INT, lit(10))), case(lit(1), p.put(INT, lit(11))), default(p.put(INT, lit(12)))))
        if r == 7: return block(decl(LONG, 'loc', e), p.put(LONG, var('loc')))
        return p.put(INT, cond(e, lit(21), lit(22)))


def effects(ctx, n, depth, tag=''):
    out = []
    for i in range(n):
        p = Prog('P14%s.eff%d' % (tag, i))
        g = Eff(p, ctx.rng)
        p.extern('put_i', F(VOID, [INT]), 'put')
        body = [decl(INT, 'a'), decl(LONG, 'b'), decl(CHAR, 'c'), decl(INT, 'x', lit(ctx.rng.randrange(3))), decl(INT, 'once'), decl(A(INT, 3), 'arr'), decl(A(INT, 2), 'out')]
        for j in range(8):
            body += [es(asg(var('a'), lit(ctx.rng.randrange(3)))), es(asg(var('b'), lit(ctx.rng.randrange(3)))), es(asg(var('c'), lit(ctx.rng.randrange(3)))), es(asg(var('once'), lit(1))),
                     g.full(ctx.rng.choice([1, 2, depth])), p.put(INT, var('a')), p.put(LONG, var('b')), p.put(CHAR, var('c'))]
            ctx.count('effectful_expressions')
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    return out


def shortcut(ctx):
    """Which operands of &&, || and ?: are evaluated, for every kind of deciding operand."""
    out = []
    rng = ctx.rng
    for t in TN:
        p = Prog('P14.short.' + t)
        p.extern('id_i', F(INT, [INT]), 'id')
        body = [decl(('i', t), 'a'), decl(('i', t), 'b'), decl(INT, 'n', lit(0))]
        I = lambda v: call('id_i', lit(v))
        for a, b in ((5, 5), (5, 9), (9, 5), (0, 0), (wrap(-1, t), 0)):
            body += [es(asg(var('a'), plain_const(t, a))), es(asg(var('b'), plain_const(t, b)))]
            ds = [bin_(o, var('a'), var('b')) for o in ('==', '!=', '<', '>', '<=', '>=')] + [var('a'), un('!', var('a')), bin_('-', var('a'), var('b')), land(var('a'), var('b')), lor(var('a'), var('b'))]
            for d in ds:
                rhs = rng.choice([I(1), I(0), inc('post+', var('n')), asg(var('n'), lit(4)), bin_('<', I(3), lit(3))])
                k = rng.randrange(3)
                es_ = [land(d, rhs), lor(d, rhs), cond(d, rhs, I(7)), land(lor(d, rhs), I(2)), lor(land(d, rhs), I(2)), lor(un('!', d), rhs)]
                for e in es_[:2] + rng.sample(es_[2:], 2):
                    body += [p.put(INT, e) if rng.random() < .6 else if_(e, p.put(INT, lit(31)), p.put(INT, lit(32))), p.put(INT, var('n'))]
                    ctx.count('effects')
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    return out


def once(ctx):
    """Lvalues and operands that contain calls are evaluated once."""
    p = Prog('P14.once')
    p.extern('id_i', F(INT, [INT]), 'id')
    p.extern('id_l', F(LONG, [LONG]), 'id')
    s = p.struct([('m', INT), ('n', A(INT, 2))])
    p.globals += [('ga', A(INT, 4), None), ('gs', A(s, 3), None)]
    p.func('pick', P(INT), [(INT, 'i')], block(p.put(INT, var('i')), ret(addr(idx(var('ga'), var('i'))))))
    p.func('spick', P(s), [(INT, 'i')], block(p.put(INT, var('i')), ret(addr(idx(var('gs'), var('i'))))))
    I = lambda v: call('id_i', lit(v))
    body = [decl(A(INT, 4), 'la', il(lit(1), lit(2), lit(3), lit(4)))]
    for a in ('la', 'ga'):
        for o in ('pre+', 'pre-', 'post+', 'post-'):
            body += [p.put(INT, inc(o, idx(var(a), I(2)))), p.put(INT, inc(o, deref(bin_('+', var(a), I(1)))))]
        body += [es(asg(idx(var(a), I(3)), I(9))), es(asg(deref(bin_('+', var(a), call('id_l', lit(0)))), bin_('+', I(4), idx(var(a), I(3))))), p.dump(var(a), 16)]
    body += [p.put(INT, inc('post+', deref(call('pick', lit(1))))), es(asg(deref(call('pick', lit(2))), I(5))), p.put(INT, deref(call('pick', lit(2)))),
             es(asg(arrow(call('spick', lit(1)), 'm'), I(6))), es(asg(idx(arrow(call('spick', lit(2)), 'n'), I(1)), I(7))), p.put(INT, inc('pre+', arrow(call('spick', lit(1)), 'm'))),
             p.put(INT, dot(idx(var('gs'), I(1)), 'm')), p.put(INT, idx(dot(idx(var('gs'), I(2)), 'n'), I(1))), p.dump(var('ga'), 16), p.dump(var('gs'), 36),
             p.put(INT, sze(I(3))), p.put(INT, sze(inc('post+', idx(var('la'), lit(0))))), p.dump(var('la'), 16)]
    p.func('main', INT, [], block(*body, ret(lit(0))))
    return [p]


def run(ctx):
    known(ctx)
    ctx.programs(incdec(ctx) + compound(ctx, ctx.n(2, 6)) + once(ctx) + shortcut(ctx) + effects(ctx, ctx.n(70, 150), 3))
    rnd = 0
    while not ctx.quick and ctx.left() > 60 and not ctx.viol:
        rnd += 1
        ctx.programs(incdec(ctx, '.r%d' % rnd) + compound(ctx, 3, '.r%d' % rnd) + effects(ctx, 150, 3 + rnd % 2, '.r%d' % rnd))
