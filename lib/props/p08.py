"""P08: arguments, parameters, return values, activations."""
from ..cast import *
from ..pyev import *

TN = list(SIZE)
CT = {'char': 'char', 'int': 'int', 'uint': 'unsigned', 'long': 'long', 'ulong': 'unsigned long', 'llong': 'long long', 'ullong': 'unsigned long long'}


def rv(rng, t):
    v = rng.choice(VALS[t]) if rng.random() < .6 else wrap(rng.getrandbits(64) >> rng.randrange(64), t)
    return v


def arg(p, rng, t, depth, env, pool):
    """Expression convertible to integer type t (a value of another type, converted by the call)."""
    s = t if rng.random() < .5 else rng.choice(TN)
    r = rng.random()
    if depth and r < .3 and pool:
        f = rng.choice(pool)
        return mkcall(p, rng, f, depth - 1, env, pool)
    if r < .55:
        c = [n for n, (ty, v) in env.items() if ty == s]
        if c: return var(rng.choice(c))
    if r < .65 and env:
        a = var(rng.choice(sorted(env)))
        return bin_(rng.choice('&|^'), a, lit(rng.randrange(256)))
    if r < .7: return cond(lit(rng.randrange(2)), const(s, rv(rng, s)), const(t, rv(rng, t)))
    return const(s, rv(rng, s))


def mkcall(p, rng, f, depth, env, pool):
    name, ft, how = f
    args = [arg(p, rng, t[1], depth, env, pool) for t in ft[2]]
    if how == 'direct': fe = rng.choice([var(name), var(name), deref(var(name)), addr(var(name))])
    else: fe = rng.choice([var(how), deref(var(how))]) if isinstance(how, str) else how
    return {'k': 'call', 'f': fe, 'as': args}


def body_of(p, rng, ft, names, extra=None):
    """Record every parameter (some before, some after local work), return a combination."""
    ss = [p.put(t, var(n)) for t, n in zip(ft[2], names)]
    rng.shuffle(ss)
    if names and rng.random() < .4:
        k = rng.randrange(len(names))
        ss.insert(rng.randrange(len(ss)), es(asg(var(names[k]), lit(rng.randrange(100)))))
    if rng.random() < .5:
        t = rng.choice(TN)
        ss = [decl(('i', t), 'loc', plain_const(t, rv(rng, t)))] + ss + [p.put(('i', t), var('loc'))]
    if ft[1] != VOID:
        if names and rng.random() < .7: e = var(rng.choice(names))
        else: e = const(*(lambda t: (t, rv(rng, t)))(rng.choice(TN)))
        ss.append(ret(e))
    return block(*(extra or []), *ss)


def rand_sig(rng, maxn=10):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, maxn])
    return F(('i', rng.choice(TN)), [('i', rng.choice(TN)) for _ in range(n)])


def calls_prog(rng, pid, ctx):
    p = Prog(pid)
    pool = []
    env = {}
    decls = []
    for k in range(4):
        t = rng.choice(TN)
        env['v%d' % k] = (t, rv(rng, t))
        if k % 2: decls.append(decl(('i', t), 'v%d' % k, plain_const(t, env['v%d' % k][1])))
        else: p.globals.append(('v%d' % k, ('i', t), plain_const(t, env['v%d' % k][1]) if False else None)); decls.append(es(asg(var('v%d' % k), plain_const(t, env['v%d' % k][1]))))
    for k in range(rng.randint(2, 4)):
        ft = rand_sig(rng)
        names = ['p%d' % i for i in range(len(ft[2]))]
        fn = 'f%d' % k
        p.func(fn, ft[1], list(zip(ft[2], names)), body_of(p, rng, ft, names))
        pool.append((fn, ft, 'direct'))
        if rng.random() < .6:
            decls.append(decl(P(ft), 'fp%d' % k, rng.choice([var(fn), addr(var(fn))])))
            pool.append((fn, ft, 'fp%d' % k))
    # functions of the companion, compiled by the system compiler
    comp = ['void rt_name(const char*);void rt_bytes(const void*,long);void rt_end(void);void rt_ret(const void*,long);\n']
    for k in range(2):
        ft = rand_sig(rng)
        n = 'cf%d' % k
        rt = CT[ft[1][1]]
        ps = ', '.join('%s a%d' % (CT[t[1]], i) for i, t in enumerate(ft[2])) or 'void'
        r = rv(rng, ft[1][1])
        rec = ''.join('rt_bytes(&a%d,sizeof a%d);' % (i, i) for i in range(len(ft[2])))
        comp.append('%s %s(%s) {%s r = (%s)%dULL%s; rt_name("%s");%s rt_ret(&r,sizeof r); rt_end(); return r;}\n' % (
            rt, n, ps, rt, rt, r & (2 ** 64 - 1), ''.join(' + (%s)a%d' % (rt if not SIGNED[ft[1][1]] else 'unsigned long', i) for i in range(len(ft[2]))), n, rec))
        p.extern(n, ft, 'sum')
        pool.append((n, ft, 'direct'))
    # the companion calls back
    for k, (fn, ft, how) in enumerate([x for x in pool if x[2] == 'direct' and x[0][0] == 'f'][:2]):
        n = 'cb_%s' % fn
        ps = ''.join(', %s a%d' % (CT[t[1]], i) for i, t in enumerate(ft[2]))
        rec = ''.join('rt_bytes(&a%d,sizeof a%d);' % (i, i) for i in range(len(ft[2])))
        comp.append('%s %s(%s (*f)(%s)%s) {rt_name("%s");%s rt_end(); return f(%s);}\n' % (
            CT[ft[1][1]], n, CT[ft[1][1]], ', '.join(CT[t[1]] for t in ft[2]) or 'void', ps, n, rec, ', '.join('a%d' % i for i in range(len(ft[2])))))
        p.extern(n, F(ft[1], [P(ft)] + list(ft[2])), 'cb')
        pool.append((n, ('cb', fn, ft), 'cb'))
    p.companion = ''.join(comp)
    body = list(decls)
    for _ in range(6):
        f = rng.choice(pool)
        if f[2] == 'cb':
            _, fn, ft = f[1]
            inner = [x for x in pool if x[2] != 'cb']
            e = {'k': 'call', 'f': var(f[0]), 'as': [rng.choice([var(fn), addr(var(fn))])] + [arg(p, rng, t[1], 0, env, inner) for t in ft[2]]}
            rt = ft[1]
        else:
            inner = [x for x in pool if x[2] != 'cb']
            e = mkcall(p, rng, f, 1, env, inner if len(f[1][2]) <= 7 else [])
            rt = f[1][1]
        r = rng.random()
        if r < .5: body.append(p.put(rt, e))
        elif r < .6: body.append(es(e))
        elif r < .8: body.append(p.put(LLONG, bin_(rng.choice('&|^'), e, lit(rng.getrandbits(30)))))
        elif r < .9: body.append(if_(e, p.put(INT, lit(1)), p.put(INT, lit(0))))
        else: body.append(p.put(ULONG, bin_('^', var(rng.choice(sorted(env))), e)))
        ctx.count('calls')
    for n in sorted(env): body.append(p.put(('i', env[n][0]), var(n)))
    p.func('main', INT, [], block(*body, ret(lit(rng.randrange(256)))))
    return p


def positions(ctx):
    """Each type at each argument position of a 9-parameter function; every parameter distinguishable."""
    out = []
    for i, t in enumerate(TN):
        for how in ('int', 'ext', 'ptr', 'rev'):
            p = Prog('P08.pos.%s.%s' % (t, how))
            body = []
            comp = 'void rt_name(const char*);void rt_bytes(const void*,long);void rt_end(void);void rt_ret(const void*,long);\n'
            for pos in range(9):
                types = [TN[(i + 3 * j + pos) % 7] for j in range(9)]
                types[pos] = t
                ft = F(('i', t), [('i', x) for x in types])
                vals = [VALS[x][(7 * j + 3 * pos) % len(VALS[x])] for j, x in enumerate(types)]
                n = 'f%d' % pos
                names = ['p%d' % j for j in range(9)]
                args = [const(x, v) for x, v in zip(types, vals)]
                if how == 'ext':
                    comp += '%s %s(%s) {rt_name("%s"); %s rt_ret(&a%d,sizeof a%d); rt_end(); return a%d;}\n' % (
                        CT[t], n, ', '.join('%s a%d' % (CT[x], j) for j, x in enumerate(types)), n, ''.join('rt_bytes(&a%d,sizeof a%d);' % (j, j) for j in range(9)), pos, pos, pos)
                    p.extern(n, ft, 'sum')
                else:
                    ps = [p.put(('i', x), var('p%d' % j)) for j, x in enumerate(types)]
                    if how == 'rev': ps.reverse()
                    p.func(n, ft[1], list(zip(ft[2], names)), block(*ps, ret(var('p%d' % pos))))
                if how == 'ptr':
                    body.append(decl(P(ft), 'q%d' % pos, var(n)))
                    body.append(p.put(('i', t), call('q%d' % pos, *args)))
                else: body.append(p.put(('i', t), call(n, *args)))
                ctx.count('calls')
            p.companion = comp if how == 'ext' else ''
            p.func('main', INT, [], block(*body, ret(lit(0))))
            out.append(p)
    return out


def pressure(ctx):
    """Calls made while several other values are alive, each of which is used afterwards."""
    out = []
    rng = ctx.rng
    for live in range(0, 7):
        for how in ('direct', 'ptr', 'member', 'ext', 'cond'):
            p = Prog('P08.live%d.%s' % (live, how))
            body, comp = [], 'void rt_name(const char*);void rt_bytes(const void*,long);void rt_end(void);void rt_ret(const void*,long);\n'
            fs = []
            for n in range(0, 9):
                types = [rng.choice(TN) for _ in range(n)]
                ft = F(('i', rng.choice(TN)), [('i', x) for x in types])
                fn = 'f%d' % n
                if how == 'ext':
                    rt = CT[ft[1][1]]
                    comp += '%s %s(%s) {%s r = 77; rt_name("%s"); %s rt_ret(&r,sizeof r); rt_end(); return r;}\n' % (
                        rt, fn, ', '.join('%s a%d' % (CT[x], j) for j, x in enumerate(types)) or 'void', rt, fn, ''.join('rt_bytes(&a%d,sizeof a%d);' % (j, j) for j in range(n)))
                    p.extern(fn, ft, 'sum')
                else: p.func(fn, ft[1], [(T, 'p%d' % j) for j, T in enumerate(ft[2])], block(*[p.put(T, var('p%d' % j)) for j, T in enumerate(ft[2])], ret(lit(n + 40))))
                fs.append((fn, ft))
            for j in range(live): body.append(decl(rng.choice([INT, LONG, UINT, LLONG]), 'x%d' % j, lit(1000 + 37 * j)))
            for n, (fn, ft) in enumerate(fs):
                fe = var(fn)
                if how == 'ptr':
                    body.append(decl(P(ft), 'q%d' % n, var(fn)))
                    fe = rng.choice([var('q%d' % n), deref(var('q%d' % n))])
                if how == 'member':
                    st = p.struct([('a', INT), ('f', P(ft))])
                    body += [decl(st, 's%d' % n), es(asg(dot(var('s%d' % n), 'f'), var(fn)))]
                    fe = dot(var('s%d' % n), 'f')
                if how == 'cond': fe = cond(lit(n % 2), var(fn), addr(var(fn)))
                args = [const(t[1], rv(rng, t[1])) for t in ft[2]]
                e = call(fe, *args)
                for j in range(live):
                    o = rng.choice('&|^+-') if ft[1][1] != 'int' else rng.choice('&|^')
                    e = bin_(o, var('x%d' % j), e) if rng.random() < .85 or o == '-' else bin_(o, e, var('x%d' % j))
                body.append(p.put(LLONG, e))
                ctx.count('calls')
            p.companion = comp if how == 'ext' else ''
            p.func('main', INT, [], block(*body, *[p.put(LLONG, var('x%d' % j)) for j in range(live)], ret(lit(0))))
            out.append(p)
    return out


def recursion(ctx):
    out = []
    for t in TN:
        T = ('i', t)
        p = Prog('P08.rec.' + t)
        # every activation has its own parameters and locals, also across calls; mutual recursion
        p.func('r', T, [(INT, 'n'), (T, 'a'), (P(T), 'out')], block(
            decl(T, 'x', bin_('+', var('a'), lit(1))), decl(A(T, 2), 'arr', il(var('a'), lit(3))),
            if_(bin_('<=', var('n'), lit(0)), block(es(asg(deref(var('out')), var('a'))), ret(var('x')))),
            decl(T, 'y', call('r', bin_('-', var('n'), lit(1)), bin_('+', var('a'), lit(2)), addr(idx(var('arr'), lit(1))))),
            p.put(INT, var('n')), p.put(T, var('a')), p.put(T, var('x')), p.put(T, var('y')), p.put(T, idx(var('arr'), lit(0))), p.put(T, idx(var('arr'), lit(1))),
            es(asg(deref(var('out')), bin_('+', var('a'), lit(5)))),
            ret(bin_('+', var('y'), lit(1)))))
        p.func('fib', T, [(T, 'n')], block(if_(bin_('<', var('n'), lit(2)), ret(var('n'))), ret(bin_('+', call('fib', bin_('-', var('n'), lit(1))), call('fib', bin_('-', var('n'), lit(2)))))))
        p.globals.append(('oddp', P(F(INT, [T, INT])), None))      # mutual recursion (a name is declared only once)
        p.func('even', INT, [(T, 'n'), (INT, 'd')], block(if_(bin_('==', var('n'), lit(0)), ret(var('d'))), ret(call('oddp', bin_('-', var('n'), lit(1)), bin_('+', var('d'), lit(1))))))
        p.func('odd', INT, [(T, 'n'), (INT, 'd')], block(if_(bin_('==', var('n'), lit(0)), ret(num(-1))), ret(call('even', bin_('-', var('n'), lit(1)), bin_('+', var('d'), lit(1))))))
        p.func('ack', INT, [(INT, 'm'), (INT, 'n')], block(
            if_(bin_('==', var('m'), lit(0)), ret(bin_('+', var('n'), lit(1)))), if_(bin_('==', var('n'), lit(0)), ret(call('ack', bin_('-', var('m'), lit(1)), lit(1)))),
            ret(call('ack', bin_('-', var('m'), lit(1)), call('ack', var('m'), bin_('-', var('n'), lit(1)))))))
        p.func('main', INT, [], block(decl(T, 'z', lit(9)), es(asg(var('oddp'), var('odd'))), p.put(T, call('r', lit(3), lit(10), addr(var('z')))), p.put(T, var('z')), p.put(T, call('fib', lit(6))),
                                      p.put(INT, call('even', lit(6), lit(0))), p.put(INT, call('even', lit(5), lit(0))), p.put(INT, call('ack', lit(1), lit(3))), ret(lit(3))))
        out.append(p)
    # function pointers: arrays, parameters, members, returned
    p = Prog('P08.fptr')
    FT = F(INT, [INT])
    s = p.struct([('n', INT), ('f', P(FT))])
    for k in range(3): p.func('g%d' % k, INT, [(INT, 'x')], block(p.put(INT, bin_('+', var('x'), lit(100 * k))), ret(bin_('*', var('x'), lit(k + 2)))))
    p.func('app', INT, [(P(FT), 'f'), (INT, 'x')], block(ret(call('f', call('f', var('x'))))))
    p.func('sel', P(FT), [(INT, 'k')], block(switch(var('k'), block(case(lit(0), ret(var('g0'))), case(lit(1), ret(addr(var('g1')))), default(ret(var('g2')))))))
    p.globals += [('gf', P(FT), None), ('gt', A(P(FT), 3), None)]
    p.func('main', INT, [], block(
        decl(A(P(FT), 3), 't'), decl(s, 'st'), decl(P(s), 'ps', addr(var('st'))), *[es(asg(idx(var('t'), lit(k)), var('g%d' % k))) for k in range(3)],
        for_(decl(INT, 'i', lit(0)), bin_('<', var('i'), lit(3)), inc('post+', var('i')), block(p.put(INT, call(idx(var('t'), var('i')), bin_('+', var('i'), lit(5)))), es(asg(idx(var('gt'), var('i')), idx(var('t'), bin_('-', lit(2), var('i'))))))),
        p.put(INT, call('app', var('g1'), lit(3))), p.put(INT, call('app', addr(var('g2')), lit(4))), p.put(INT, call('app', idx(var('gt'), lit(0)), lit(4))),
        es(asg(dot(var('st'), 'f'), var('g2'))), p.put(INT, call(dot(var('st'), 'f'), lit(6))), p.put(INT, call(arrow(var('ps'), 'f'), lit(7))), p.put(INT, call(deref(arrow(var('ps'), 'f')), lit(8))),
        es(asg(var('gf'), call('sel', lit(1)))), p.put(INT, call('gf', lit(9))), p.put(INT, call(call('sel', lit(0)), lit(10))), p.put(INT, call(deref(call('sel', lit(5))), call('gf', lit(1)))),
        p.put(INT, bin_('==', var('gf'), var('g1'))), p.put(INT, bin_('!=', var('gf'), addr(var('g2')))), p.put(INT, call(cond(lit(0), var('g0'), var('g2')), lit(2))), ret(lit(0))))
    out.append(p)
    return out


def run(ctx):
    ctx.programs(positions(ctx) + recursion(ctx) + pressure(ctx))
    if ctx.viol: return
    ctx.programs([calls_prog(ctx.rng, 'P08.r%d' % i, ctx) for i in range(ctx.n(120, 200))])
    rnd = 0
    while not ctx.quick and ctx.left() > 60 and not ctx.viol:
        rnd += 1
        ctx.programs([calls_prog(ctx.rng, 'P08.r%d.%d' % (rnd, i), ctx) for i in range(200)])
