"""P13: initializers."""
from ..cast import *
from ..pyev import *
from ..findings import known
from .p12 import sz, al, leaves, has_ptr

TN = list(SIZE)
CH = 'abcXYZ019 .,;'


def rtype(p, rng, d, n, ptrs):
    """Random aggregate-ish type with at most about n scalars."""
    r = rng.random()
    if d == 0 or n <= 1: return ('i', rng.choice(TN)) if not ptrs or rng.random() < .85 else P(rng.choice([CHAR, INT, LONG]))
    if r < .2: return A(CHAR, rng.randint(1, min(6, max(1, n))))
    if r < .6:
        k = rng.randint(1, min(4, n))
        return A(rtype(p, rng, d - 1, n // k, ptrs), k)
    k = rng.randint(1, min(4, n))
    nm = spell(rng, k) if rng.random() < .5 else ['m%d' % i for i in range(k)]
    return p.struct([(nm[i], rtype(p, rng, d - 1, max(1, n // k), ptrs)) for i in range(k)])


class Ini:
    def __init__(self, p, rng, glob):
        self.p, self.rng, self.glob = p, rng, glob
        self.vars = []

    def scalar(self, t):
        rng, p = self.rng, self.p
        if t[0] == 'p':
            if self.glob: return cast(t, lit(0))
            r = rng.random()
            if r < .3: return cast(t, lit(0))
            if t[1] == CHAR and r < .6: return str_(rng.choice(['', 'hi', 'xyz']))
            return {CHAR: addr(var('tc')), INT: bin_('+', var('ti'), lit(rng.randrange(3))), LONG: addr(var('tl'))}[t[1]]
        v = wrap(rng.getrandbits(64), t[1]) if rng.random() < .5 else rng.choice(VALS[t[1]])
        if self.glob:
            r = rng.random()
            if r < .5: return plain_const(t[1], v) if v != tmin(t[1]) or SIZE[t[1]] < 4 else lit(1)
            s = rng.choice(TN)
            w = wrap(rng.getrandbits(64), s)
            if r < .6: return chr_(rng.choice('azA0~'))
            if r < .7: return szt(rng.choice([INT, LONG, P(CHAR), A(INT, 3)]))
            if r < .8: return cast(('i', s), lit(abs(w) >> 1))
            if r < .9: return un(rng.choice('-~+'), lit(abs(w) % 2 ** 31))
            if p.enums: return var(rng.choice(p.enums)[0])
            return lit(abs(w) >> 1, 'ul')
        r = rng.random()
        if r < .55: return plain_const(t[1], v)
        if r < .75: return var(rng.choice(['vc', 'vi', 'vl', 'vu']))
        if r < .85: return bin_(rng.choice('+-|^'), var(rng.choice(['vc', 'vi', 'vl', 'vu'])), lit(rng.randrange(50)))
        if r < .93:
            p.extern('id_l', F(LONG, [LONG]), 'id')
            return call('id_l', lit(rng.randrange(100)))
        return cond(var('vi'), lit(rng.randrange(9)), lit(77))

    def flat(self, t, last):
        """Initializers of a subobject without braces of its own; may stop early only if it is last in its list."""
        rng, p = self.rng, self.p
        if t[0] in 'ip': return [self.scalar(t)]
        if t == A(CHAR, t[2] if t[0] == 'a' else 0) and rng.random() < .5:
            return [self.string(t[2])]
        subs = [t[1]] * t[2] if t[0] == 'a' else [m for _, m in p.structs[t[1] - 1][1]]
        k = len(subs)
        if last and rng.random() < .5: k = rng.randint(1, k)
        out = []
        for i, s in enumerate(subs[:k]): out += self.item(s, last and i == k - 1, True)
        return out

    def string(self, n):
        k = self.rng.randint(0, n)
        return str_(''.join(self.rng.choice(CH) for _ in range(k)))

    def item(self, t, last, elided=False):
        """The initializers of one subobject inside a list."""
        rng, p = self.rng, self.p
        if t[0] in 'ip':
            if rng.random() < .04: return [il(self.scalar(t))]
            return [self.scalar(t)]
        # eliding braces is only possible when the first initializer does not start with a brace
        if rng.random() < .45:
            xs = self.flat(t, last)
            if xs[0]['k'] != 'il' and not (xs[0]['k'] == 'str' and t != A(CHAR, t[2] if t[0] == 'a' else 0) and self.first(t)[0] == 'p'): return xs
        return [self.braced(t)]

    def first(self, t):
        while t[0] not in 'ip':
            if t[0] == 'a':
                if t[1] == CHAR: return t
                t = t[1]
            else: t = self.p.structs[t[1] - 1][1][0][1]
        return t

    def braced(self, t):
        rng, p = self.rng, self.p
        if t[0] in 'ip': return il(self.scalar(t))
        if t[0] == 'a' and t[1] == CHAR and rng.random() < .4:
            s = self.string(t[2])
            return s if rng.random() < .7 else il(s)
        subs = [t[1]] * t[2] if t[0] == 'a' else [m for _, m in p.structs[t[1] - 1][1]]
        k = len(subs) if rng.random() < .5 else rng.randint(1, len(subs))
        out = []
        for i, s in enumerate(subs[:k]): out += self.item(s, i == k - 1)
        return il(*out)


def show(p, name, t):
    """Observe every scalar of an object, and its bytes."""
    out = []
    for path, s in leaves(t, p):
        e = var(name)
        for k, x in path: e = dot(e, x) if k == 'm' else idx(e, lit(x))
        if s[0] == 'i': out.append(p.put(s, e))
        else: out.append(if_(bin_('==', e, cast(s, lit(0))), p.put(INT, lit(0)), p.put(s[1], deref(e))))
    if not has_ptr(t, p): out.append(p.dump(addr(var(name)), sz(t, p)))
    return out


def scribble(p):
    """A function that leaves garbage on the stack."""
    p.func('dirty', INT, [(INT, 'n')], block(decl(A(INT, 60), 'junk'), decl(INT, 'i', lit(0)),
           while_(bin_('<', var('i'), lit(60)), block(es(asg(idx(var('junk'), var('i')), bin_('-', num(-1), var('n')))), es(inc('post+', var('i'))))), ret(idx(var('junk'), lit(7)))))


def targets(p):
    p.globals += [('tc', CHAR, lit(65)), ('ti', A(INT, 3), il(lit(7), lit(8), lit(9))), ('tl', LONG, num(-9))]


def local_prog(rng, pid, ctx):
    p = Prog(pid)
    p.enums = [('EA', 3), ('EB', 70000)]
    targets(p)
    t = rtype(p, rng, 3, 12, True)
    if len(leaves(t, p)) < 2: t = A(('i', rng.choice(TN)), rng.randint(2, 6))
    t2 = rtype(p, rng, 2, 5, True)
    g = Ini(p, rng, False)
    scribble(p)
    vs = [decl(CHAR, 'vc', lit(rng.randrange(100))), decl(INT, 'vi', num(rng.randrange(-9, 10))), decl(LONG, 'vl', num(rng.randrange(-2 ** 40, 2 ** 40))), decl(UINT, 'vu', lit(rng.getrandbits(32)))]
    guard = [es(asg(var('ga'), lit(11))), es(asg(var('gb'), lit(22))), es(asg(var('gc'), lit(33)))]
    one = [decl(LONG, 'ga', lit(11)), decl(t, 'x', g.braced(t)), decl(CHAR, 'gb', lit(22)), decl(t2, 'y', g.braced(t2)), decl(LONG, 'gc', lit(33))]
    obs = show(p, 'x', t) + show(p, 'y', t2) + [p.put(LONG, var('ga')), p.put(CHAR, var('gb')), p.put(LONG, var('gc'))]
    ctx.count('initialized_objects', 2)
    how = rng.randrange(4)
    if how == 0: body = vs + one + obs
    elif how == 1:      # initialized afresh in every iteration
        spoil = [es(asg(x, lit(1))) for x in [lv for lv in [dict_lv(p, 'x', t)] if lv]]
        body = vs + [for_(decl(INT, 'k', lit(0)), bin_('<', var('k'), lit(2)), inc('post+', var('k')), block(*one, *obs, *spoil))]
    elif how == 2: body = vs + [block(decl(A(LONG, 4), 'pad', il(num(-1), num(-1), num(-1), num(-1))), p.put(LONG, idx(var('pad'), lit(3)))), block(*one, *obs), block(*one, *obs)]
    else:
        p.func('work', VOID, [(INT, 'dummy')], block(*vs, *one, *obs))
        body = [es(call('work', lit(1))), es(call('dirty', lit(9))), es(call('work', lit(2)))]
    p.func('main', INT, [], block(p.put(INT, call('dirty', lit(5))), *body, ret(lit(0))))
    return p


def dict_lv(p, name, t):
    for path, s in reversed(leaves(t, p)):
        if s[0] != 'i': continue
        e = var(name)
        for k, x in path: e = dot(e, x) if k == 'm' else idx(e, lit(x))
        return e
    return None


def global_prog(rng, pid, ctx):
    p = Prog(pid)
    p.enums = [('EA', 3), ('EB', 70000)]
    body = []
    g = Ini(p, rng, True)
    for i in range(rng.randint(3, 5)):
        t = rtype(p, rng, 3, 8, True) if rng.random() < .8 else ('i', rng.choice(TN))
        n = 'g%d' % i
        r = rng.random()
        ini = None if r < .2 else g.scalar(t) if t[0] in 'ip' else g.braced(t)
        p.globals.append((n, t, ini))
        body += show(p, n, t)
        ctx.count('initialized_objects')
    body += [es(asg(var('zz'), lit(5))), p.put(INT, var('zz'))]
    p.globals.append(('zz', INT, None))
    p.func('main', INT, [], block(*body, ret(lit(0))))
    return p


def scalars(ctx, tag=''):
    """Every scalar type, local and global, every kind of initializer."""
    out = []
    rng = ctx.rng
    for t in TN:
        T = ('i', t)
        p = Prog('P13%s.sc.%s' % (tag, t))
        p.enums = [('EA', 3), ('EB', 70000)]
        targets(p)
        body = [decl(CHAR, 'vc', num(-3)), decl(INT, 'vi', num(-5)), decl(LONG, 'vl', num(2 ** 33)), decl(UINT, 'vu', lit(2 ** 32 - 1))]
        gi, li = Ini(p, rng, True), Ini(p, rng, False)
        for k in range(14):
            a = gi.scalar(T)
            p.globals.append(('g%d' % k, T, il(a) if k % 7 == 3 else a))
            b = li.scalar(T) if k % 2 else gi.scalar(T)
            body += [decl(T, 'l%d' % k, il(b) if k % 7 == 4 else b), p.put(T, var('l%d' % k)), p.put(T, var('g%d' % k))]
        p.globals.append(('nil', T, None))
        body.append(p.put(T, var('nil')))
        # arrays of this type: every length of the initializer list
        for n in range(1, 5):
            k = n
            vs = [plain_const(t, wrap(rng.getrandbits(64), t) >> 1) for _ in range(k)]
            p.globals.append(('ga%d' % n, A(T, 4), il(*vs)))
            body += [decl(CHAR, 'b%d' % n, lit(1)), decl(A(T, 4), 'la%d' % n, il(*vs)), decl(CHAR, 'c%d' % n, lit(2)), p.dump(var('ga%d' % n), 4 * SIZE[t]), p.dump(var('la%d' % n), 4 * SIZE[t]), p.put(CHAR, var('b%d' % n)), p.put(CHAR, var('c%d' % n))]
            ctx.count('initialized_objects', 2)
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    # strings of every length against arrays of every length
    p = Prog('P13%s.str' % tag)
    scribble(p)
    body = [es(call('dirty', lit(1)))]
    for n in range(1, 11):
        for k in sorted({0, n - 1, n, rng.randint(0, n)}):
            s = ''.join(rng.choice(CH) for _ in range(k))
            nm = '%d_%d' % (n, k)
            p.globals += [('g' + nm, A(CHAR, n), str_(s)), ('h' + nm, CHAR, lit(9))]
            body += [decl(CHAR, 'a' + nm, lit(7)), decl(A(CHAR, n), 'l' + nm, str_(s)), decl(CHAR, 'b' + nm, lit(8)), p.dump(var('g' + nm), n), p.dump(var('l' + nm), n), p.put(CHAR, var('a' + nm)), p.put(CHAR, var('b' + nm)), p.put(CHAR, var('h' + nm))]
            ctx.count('initialized_objects', 2)
    p.func('main', INT, [], block(*body, ret(lit(0))))
    out.append(p)
    return out


def run(ctx):
    known(ctx)
    k = ctx.n(60, 120)
    ctx.programs(scalars(ctx) + [local_prog(ctx.rng, 'P13.l%d' % i, ctx) for i in range(k)] + [global_prog(ctx.rng, 'P13.g%d' % i, ctx) for i in range(k)])
    rnd = 0
    while not ctx.quick and ctx.left() > 60 and not ctx.viol:
        rnd += 1
        ctx.programs(scalars(ctx, '.r%d' % rnd) + [local_prog(ctx.rng, 'P13.r%d.l%d' % (rnd, i), ctx) for i in range(80)] + [global_prog(ctx.rng, 'P13.r%d.g%d' % (rnd, i), ctx) for i in range(80)])
