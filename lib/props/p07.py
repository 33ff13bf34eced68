"""P07: control flow."""
from ..cast import *
from ..pyev import *


class Flow:
    """Random function body whose branches depend on parameter x and local counters."""

    def __init__(self, p, rng, budget, allow=('if', 'while', 'for', 'sw', 'blk', 'ret')):
        self.p, self.rng, self.left, self.allow = p, rng, budget, allow
        self.k = 0
        self.n = 0
        self.loops = []     # counters readable in conditions
        self.void = False

    def mark(self):
        self.k += 1
        r = self.rng.random()
        if self.loops and r < .3: return self.p.put(INT, bin_('+', lit(self.k * 100), var(self.rng.choice(self.loops))))
        return self.p.put(INT, lit(self.k))

    def fresh(self, s='c'):
        self.n += 1
        return s + str(self.n)

    def atom(self):
        rng = self.rng
        x = var(rng.choice(['x'] + self.loops))
        r = rng.randrange(14)
        if r < 3: return bin_(rng.choice(['<', '>', '<=', '>=', '==', '!=']), x, lit(rng.randrange(4)))
        if r == 3: return bin_('&', x, lit(1 << rng.randrange(3)))
        if r == 4: return bin_('%', x, lit(rng.choice([2, 3])))
        if r == 5: return bin_('<', lit(rng.randrange(4)), x)
        if r == 6: return un('!', x)
        if r == 7: return x
        if r == 8: return lit(rng.randrange(2))
        if r == 9: return bin_('-', x, lit(rng.randrange(3)))
        if r == 10: return cast(('i', rng.choice(['char', 'long', 'uint', 'ullong'])), bin_('-', x, lit(rng.randrange(3))))
        if r == 11: return bin_(rng.choice(['<', '>', '==']), var('y'), x)
        if r == 12: return bin_(rng.choice(['<', '>=', '!=']), x, cast(('i', rng.choice(['long', 'char', 'ulong'])), lit(rng.randrange(4))))
        return bin_('>', bin_('*', x, lit(1 << 20)), lit(1 << 21))

    def cond(self, d=2):
        rng = self.rng
        r = rng.random()
        if d == 0 or r < .6: return self.atom()
        if r < .75: return land(self.cond(d - 1), self.cond(d - 1))
        if r < .9: return lor(self.cond(d - 1), self.cond(d - 1))
        if r < .95: return un('!', self.cond(d - 1))
        return cond(self.cond(d - 1), self.cond(d - 1), self.cond(d - 1))

    def stmts(self, d, loop, sw, lo=1, hi=3):
        return [self.stmt(d, loop, sw) for _ in range(self.rng.randint(lo, hi))]

    def ret(self):
        self.k += 1
        return ret(None) if self.void else ret(lit(self.k % 100))

    def stmt(self, d, loop, sw):
        rng = self.rng
        self.left -= 1
        if d <= 0 or self.left <= 0:
            r = rng.random()
            if loop and r < .15: return cont()
            if (loop or sw) and r < .3: return brk()
            if r < .33: return self.ret()
            if r < .37: return empty()
            if r < .4: return block()
            return self.mark()
        k = rng.choice([a for a in self.allow for _ in range({'if': 4, 'sw': 3, 'for': 3, 'while': 2, 'blk': 1, 'ret': 1}[a])] + ['m', 'j'])
        if k == 'm': return self.mark()
        if k == 'j':
            if loop and rng.random() < .5: return if_(self.cond(1), rng.choice([brk, cont])())
            if sw: return if_(self.cond(1), brk())
            return self.mark()
        if k == 'ret': return if_(self.cond(1), self.ret())
        if k == 'blk': return block(*self.stmts(d - 1, loop, sw, 0, 3))
        if k == 'if':
            a = self.sub(d, loop, sw)
            b = None if rng.random() < .4 else self.sub(d, loop, sw)
            if b is not None and dangling(a): a = block(a)
            return if_(self.cond(), a, b)
        if k == 'while':
            c = self.fresh()
            lim = rng.randint(0, 3)
            test = bin_('<', inc('post+', var(c)), lit(lim)) if rng.random() < .6 else bin_('>', inc('pre-', var(c)), lit(0))
            init = 0 if test['o'] == '<' else lim
            self.loops.append(c)
            t = test
            if rng.random() < .3: t = land(test, self.cond(1))
            elif rng.random() < .15: t = lor(lit(0), test)
            body = self.sub(d, True, False)
            self.loops.pop()
            return block(decl(INT, c, num(init)), while_(t, body), self.p.put(INT, var(c)))
        if k == 'for': return self.for_(d)
        if k == 'sw': return self.switch(d, loop)

    def sub(self, d, loop, sw):
        if self.rng.random() < .65: return block(*self.stmts(d - 1, loop, sw))
        return self.stmt(d - 1, loop, sw)

    def for_(self, d):
        rng = self.rng
        i = self.fresh('i')
        lim = rng.randint(0, 3)
        down = rng.random() < .3
        init = lit(lim if down else 0)
        c = bin_('>', var(i), lit(0)) if down else bin_(rng.choice(['<', '!=']), var(i), lit(lim))
        if rng.random() < .2: c = land(c, self.cond(1))
        step = rng.choice([inc('post-' if down else 'post+', var(i)), inc('pre-' if down else 'pre+', var(i)), opasg('-' if down else '+', var(i), lit(1)),
                           asg(var(i), bin_('-' if down else '+', var(i), lit(1)))])
        form = rng.randrange(6)
        self.loops.append(i)
        body = self.sub(d, True, False)
        self.loops.pop()
        if form <= 1: return for_(decl(INT, i, init), c, step, body)
        if form == 2: return block(decl(INT, i), for_(asg(var(i), init), c, step, body), self.p.put(INT, var(i)))
        if form == 3: return block(decl(INT, i, init), for_(None, c, step, body), self.p.put(INT, var(i)))
        g = if_(un('!', c), brk())
        if form == 4:   # no condition
            return block(decl(INT, i, init), for_(None, None, step, block(g, body)), self.p.put(INT, var(i)))
        # neither condition nor step: the counter moves in the body first
        lim2 = rng.randint(1, 3)
        return block(decl(INT, i, lit(0)), for_(None, None, None, block(if_(bin_('>', inc('post+', var(i)), lit(lim2)), brk()), body)), self.p.put(INT, var(i)))

    def switch(self, d, loop):
        rng = self.rng
        labels = rng.sample(range(0, 7), rng.randint(0, 4))
        items = [('c', v) for v in labels]
        if rng.random() < .7: items.insert(rng.randint(0, len(items)), ('d', 0))
        T = rng.choice([INT, INT, LONG, CHAR, UINT, ULLONG])
        c = rng.choice([var('x'), bin_('%', var('x'), lit(5)), cast(T, var('x')), bin_('&', var('x'), lit(3))] +
                       ([var(self.loops[-1])] if self.loops else []))
        body = []
        if rng.random() < .1: body.append(self.mark())
        for kind, v in items:
            r = rng.random()
            if r < .12: s = self.stmt(d - 1, loop, True)
            elif r < .2: s = block(*self.stmts(d - 1, loop, True))
            else: s = self.mark()
            if kind == 'c':
                e = lit(v)
                s = case(e, s)
            else: s = default(s)
            body.append(s)
            for _ in range(rng.randint(0, 2)): body.append(self.stmt(d - 1, loop, True))
            r = rng.random()
            if r < .55: body.append(brk())
            elif loop and r < .62: body.append(cont())
        return switch(c, block(*body) if body else block())


def dangling(s):
    """Would a following else attach to an if inside s?"""
    if s is None: return False
    k = s['k']
    if k == 'if': return s['b'] is None or dangling(s['b'])
    if k in ('while', 'for', 'case', 'dflt', 'sw'): return dangling(s['b'])
    return False


def flow_prog(rng, pid, depth, budget, allow=None):
    p = Prog(pid)
    body = []
    p.extern('put_i', F(VOID, [INT]), 'put')
    for j in range(2):
        f = Flow(p, rng, budget, allow or ('if', 'while', 'for', 'sw', 'blk', 'ret'))
        f.void = rng.random() < .3
        ss = f.stmts(depth, False, False, 2, 4)
        name = 'f%d' % j
        t = rng.choice([INT, INT, LONG, CHAR])
        p.func(name, VOID if f.void else INT, [(t, 'x')], block(decl(INT, 'y', lit(rng.randrange(4))), *ss, *([] if f.void else [ret(lit(50 + j))])))
        for v in range(6):
            body += [es(call(name, lit(v)))] if f.void else [p.put(INT, call(name, lit(v)))]
    p.func('main', INT, [], block(*body, ret(lit(rng.randrange(200)))))
    return p


def small_shapes(ctx):
    """All combinations of outer construct, inner construct and jump, with marks around each."""
    outs = []
    jumps = {'none': lambda: empty(), 'break': brk, 'continue': cont, 'return': lambda: ret(lit(7))}
    n = 0
    for outer in ('while', 'for', 'forn', 'fore', 'sw', 'swd', 'swm'):
        for inner in ('while', 'for', 'forn', 'fore', 'sw', 'swd', 'swm', 'if', 'ife', 'blk'):
            p = Prog('P07.%s.%s' % (outer, inner))
            p.extern('put_i', F(VOID, [INT]), 'put')
            main = []
            for ji, (jn, j) in enumerate(jumps.items()):
                for where in ('in', 'after'):
                    legal_in = jn != 'continue' or outer[0] in 'wf' or inner[0] in 'wf'
                    legal_after = jn != 'continue' or outer[0] in 'wf'
                    if not (legal_in if where == 'in' else legal_after): continue
                    n += 1
                    f = 'f%d%s' % (ji, where)
                    s_in = block(p.put(INT, lit(1)), if_(bin_('==', var('x'), lit(2)), j() if where == 'in' else empty()), p.put(INT, lit(2)))
                    s = wrap_(p, inner, 'j', [s_in])
                    rest = [p.put(INT, lit(3)), if_(bin_('>', var('x'), lit(1)), j() if where == 'after' else empty()), p.put(INT, lit(4))]
                    p.func(f, INT, [(INT, 'x')], block(wrap_(p, outer, 'i', [s] + rest), p.put(INT, lit(5)), ret(lit(9))))
                    main += [p.put(INT, call(f, lit(v))) for v in range(4)]
                    ctx.count('nesting_shapes')
            p.func('main', INT, [], block(*main))
            outs.append(p)
    return outs


def wrap_(p, kind, c, ss):
    if kind == 'if': return if_(var('x'), block(*ss))
    if kind == 'ife': return if_(bin_('<', var('x'), lit(2)), p.put(INT, lit(8)), block(*ss))
    if kind == 'blk': return block(*ss)
    if kind == 'while': return block(decl(INT, c, lit(0)), while_(bin_('<', inc('post+', var(c)), lit(2)), block(*ss)))
    if kind == 'for': return for_(decl(INT, c, lit(0)), bin_('<', var(c), lit(2)), inc('pre+', var(c)), block(*ss))
    if kind == 'forn': return block(decl(INT, c, lit(0)), for_(None, None, inc('post+', var(c)), block(if_(bin_('>=', var(c), lit(2)), brk()), *ss)))
    if kind == 'fore': return block(decl(INT, c, lit(3)), for_(asg(var(c), lit(0)), bin_('<', inc('post+', var(c)), lit(2)), None, block(*ss)))
    if kind == 'sw': return switch(var('x'), block(case(lit(0), p.put(INT, lit(10))), case(lit(2), p.put(INT, lit(11))), *ss, brk(), case(lit(1), p.put(INT, lit(12)))))
    if kind == 'swd': return switch(var('x'), block(case(lit(3), p.put(INT, lit(13))), default(p.put(INT, lit(14))), *ss, case(lit(1), p.put(INT, lit(15)))))
    if kind == 'swm': return switch(bin_('%', var('x'), lit(2)), block(case(lit(1), block(*ss)), default(brk())))
    raise ValueError(kind)


def run(ctx):
    ctx.programs(small_shapes(ctx))
    if ctx.viol: return
    ctx.programs([flow_prog(ctx.rng, 'P07.r%d' % i, 3 + i % 2, 18) for i in range(ctx.n(120, 300))])
    rnd = 0
    while not ctx.quick and ctx.left() > 60 and not ctx.viol:
        rnd += 1
        ctx.programs([flow_prog(ctx.rng, 'P07.r%d.%d' % (rnd, i), 3 + i % 3, 20 + i % 20) for i in range(200)])
