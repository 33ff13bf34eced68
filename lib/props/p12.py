"""P12: memory accesses and pointer arithmetic."""
from ..cast import *
from ..pyev import *

TN = list(SIZE)


def al(t, p):
    t = strip(t)
    if t[0] == 'i': return SIZE[t[1]]
    if t[0] == 'p': return 8
    if t[0] == 'a': return al(t[1], p)
    return max([al(m, p) for _, m in p.structs[t[1] - 1][1]] or [1])


def sz(t, p):
    t = strip(t)
    if t[0] == 'i': return SIZE[t[1]]
    if t[0] == 'p': return 8
    if t[0] == 'a': return t[2] * sz(t[1], p)
    o = 0
    for _, m in p.structs[t[1] - 1][1]:
        a = al(m, p)
        o = (o + a - 1) // a * a + sz(m, p)
    a = al(t, p)
    return (o + a - 1) // a * a


def rand_type(p, rng, d, leaves):
    """Random object type; at most about `leaves` scalars."""
    r = rng.random()
    if d == 0 or leaves <= 1 or r < .15: return ('i', rng.choice(TN)) if rng.random() < .85 else P(('i', rng.choice(TN)))
    if r < .55:
        n = rng.randint(1, min(3, leaves))
        return A(rand_type(p, rng, d - 1, leaves // n), n)
    n = rng.randint(1, min(4, leaves))
    nm = spell(rng, n) if rng.random() < .6 else ['m%d' % i for i in range(n)]
    ms = [(nm[i], rand_type(p, rng, d - 1, max(1, leaves // n))) for i in range(n)]
    return p.struct(ms)


def leaves(t, p):
    """Paths of the scalars inside a type: lists of ('m', name) / ('i', index)."""
    if t[0] in 'ip': return [([], t)]
    if t[0] == 'a': return [([('i', k)] + q, s) for k in range(t[2]) for q, s in leaves(t[1], p)]
    return [([('m', n)] + q, s) for n, mt in p.structs[t[1] - 1][1] for q, s in leaves(mt, p)]


def access(p, rng, root, t, path, ixvars):
    """Expression for a path, written in one of the equivalent ways."""
    e = root
    for i, (k, x) in enumerate(path):
        if k == 'm':
            r = rng.random()
            if e['k'] == '*' and r < .7: e = arrow(e['a'], x)
            elif r < .75: e = dot(e, x)
            else: e = arrow(addr(e), x)
            t = dict(p.structs[t[1] - 1][1])[x]
        else:
            ix = lit(x)
            if rng.random() < .4: ix = var('%s%d' % (rng.choice(ixvars), x)) if x < 3 else lit(x)
            r = rng.random()
            if r < .6: e = idx(e, ix)
            elif r < .75: e = deref(bin_('+', e, ix))
            elif r < .82: e = deref(bin_('+', ix, e))
            elif r < .88: e = idx(addr(idx(e, lit(t[2] - 1))), num(x - t[2] + 1))
            elif r < .94: e = idx(bin_('+', e, lit(t[2])), num(x - t[2]))
            else: e = deref(bin_('-', bin_('+', e, lit(t[2])), lit(t[2] - x)))
            t = t[1]
    return e


def shape_prog(rng, pid, ctx):
    p = Prog(pid)
    body = []
    IX = [('ic', CHAR), ('ii', INT), ('il', LONG), ('iu', UINT)]
    for n, t in rng.sample(IX, 2):
        for k in range(3): body.append(decl(t, '%s%d' % (n, k), lit(k)))
        if 'used' not in locals(): used = []
        used.append(n)
    p.extern('alloc', F(P(VOID), [INT]), 'alloc')
    objs = []
    t = rand_type(p, rng, 3, 10)
    for _ in range(5):
        if len(leaves(t, p)) >= 3: break
        t = rand_type(p, rng, 3, 10)
    t2 = rand_type(p, rng, 2, 4)
    n = sz(t, p)
    p.globals += [('ga', CHAR, None), ('gx', t, None), ('gb', LONG, None), ('gy', t2, None), ('gc', CHAR, None)]
    body += [decl(CHAR, 'la'), decl(t, 'lx'), decl(CHAR, 'lb'), decl(t2, 'ly'), decl(LONG, 'lc'),
             decl(P(t), 'hx', call('alloc', lit(n))), decl(P(t), 'px', addr(var('lx'))), decl(P(t), 'qx', addr(var('gx'))),
             decl(A(t, 2), 'ax'), decl(P(t), 'mx', addr(idx(var('ax'), lit(1))))]
    roots = [var('gx'), var('lx'), deref(var('hx')), deref(var('px')), deref(var('qx')), idx(var('ax'), lit(0)), deref(var('mx')), idx(var('mx'), num(-1)), deref(var('ax'))]
    objs = {0: 'gx', 1: 'lx', 2: 'hx', 3: 'lx', 4: 'gx', 5: 'ax', 6: 'ax', 7: 'ax', 8: 'ax'}
    guard = [es(asg(var(x), num(rng.randrange(-100, 100)))) for x in ('ga', 'gb', 'gc', 'la', 'lb', 'lc')]
    body += guard
    lv = leaves(t, p)
    tgt = {}

    def val(s):
        if s[0] == 'i': return plain_const(s[1], wrap(rng.getrandbits(64), s[1]))
        return None

    def store(ri, path, s):
        e = access(p, rng, roots[ri], t, path, used)
        v = val(s)
        if v is None:      # a pointer member: points at a variable of its type
            nm = 't%s' % SFX[s[1][1]]
            if nm not in tgt:
                tgt[nm] = s[1]
            return [es(asg(e, addr(var(nm))))]
        return [es(asg(e, v))]

    for ri in (0, 1, 2, 5, 6):
        for path, s in lv: body += store(ri, path, s)
    for path, s in leaves(t2, p):
        if s[0] == 'i':
            body += [es(asg(access(p, rng, var('gy'), t2, path, used), val(s))), es(asg(access(p, rng, var('ly'), t2, path, used), val(s)))]
    for _ in range(10):
        ri = rng.randrange(len(roots))
        path, s = rng.choice(lv)
        e = access(p, rng, roots[ri], t, path, used)
        r = rng.random()
        if s[0] == 'p':
            body += [es(asg(deref(e), val(s[1]))), p.put(s[1], deref(e))]
            continue
        if r < .4: body += [p.put(s, e)]
        elif r < .7: body += store(ri, path, s)
        elif r < .8: body += [es(opasg('^', e, lit(rng.randrange(1, 100)))), p.put(s, e)]
        elif r < .9:      # copy between two leaves of possibly different type
            p2, s2 = rng.choice([x for x in lv if x[1][0] == 'i'])
            body += [es(asg(e, access(p, rng, roots[rng.randrange(len(roots))], t, p2, used)))]
        else: body += [p.put(INT, bin_('==', addr(e), addr(access(p, rng, roots[ri], t, path, used))))]
        ctx.count('accesses')
    for ri in (0, 1, 2, 5, 6):
        for path, s in lv:
            if s[0] == 'i': body.append(p.put(s, access(p, rng, roots[ri], t, path, used)))
    if not has_ptr(t, p):
        body += [p.dump(addr(var('gx')), n), p.dump(addr(var('lx')), n), p.dump(var('hx'), n), p.dump(addr(var('ax')), 2 * n)]
    if not has_ptr(t2, p): body += [p.dump(addr(var('gy')), sz(t2, p)), p.dump(addr(var('ly')), sz(t2, p))]
    body += [p.put(CHAR, var('ga')), p.put(LONG, var('gb')), p.put(CHAR, var('gc')), p.put(CHAR, var('la')), p.put(CHAR, var('lb')), p.put(LONG, var('lc'))]
    body += [p.put(INT, sze(var('gx'))), p.put(INT, sze(deref(var('px'))))]
    pre = []
    for nm, s in sorted(tgt.items()):
        if rng.random() < .5: p.globals.append((nm, s, None)); pre.append(es(asg(var(nm), lit(3))))
        else: pre.append(decl(s, nm, lit(3)))
    body = pre + body
    for nm, s in sorted(tgt.items()): body.append(p.put(s, var(nm)))
    used.clear
    p.func('main', INT, [], block(*body, ret(lit(0))))
    return p


def choices(rng, name, ctx):
    """Members of a structure chosen by a condition, elements of an array chosen by one."""
    p = Prog(name)
    p.extern('alloc', F(P(VOID), [INT]), 'alloc')
    while True:
        nm = spell(rng, 4)
        t = p.struct([(nm[i], rand_type(p, rng, 2, 3)) for i in range(rng.randint(1, 4))])
        if all(s[0] == 'i' for _, s in leaves(t, p)): break
        p.structs.clear()
    n = sz(t, p)
    p.globals += [('g', t, None), ('k', INT, lit(0))]
    e = rng.choice(TN)
    p.globals.append(('ag', A(('i', e), 3), None))
    p.func('tick', INT, [], block(ret(inc('pre+', var('k')))))
    p.func('odd', INT, [(LONG, 'v')], block(es(opasg('+', var('k'), lit(3))), ret(bin_('%', var('v'), lit(2)))))
    body = [decl(t, 'x'), decl(t, 'y'), decl(P(t), 'h', call('alloc', lit(n))), decl(P(t), 'q', addr(var('y'))), decl(A(t, 2), 'z'), decl(A(('i', e), 3), 'al', il(lit(1), lit(2), lit(3))), decl(INT, 'c', lit(rng.randrange(2))), decl(LONG, 'w', lit(rng.randrange(5)))]
    objs = [lambda: var('x'), lambda: var('y'), lambda: var('g'), lambda: deref(var('h')), lambda: deref(var('q')), lambda: idx(var('z'), rng.choice([lit(0), lit(1), bin_('&', var('c'), lit(1))]))]
    for o in (var('x'), var('y'), var('g'), deref(var('h')), idx(var('z'), lit(0)), idx(var('z'), lit(1))):
        for path, s in leaves(t, p): body.append(es(asg(member(o, path), plain_const(s[1], wrap(rng.getrandbits(64), s[1])))))
    body += [es(asg(idx(var('ag'), lit(i)), lit(40 + i))) for i in range(3)]

    def con(d):
        r = rng.randrange(8)
        if r == 0: return var('c')
        if r == 1: return un('!', var('c'))
        if r == 2: return bin_(rng.choice(['<', '==', '!=']), var('w'), lit(rng.randrange(4)))
        if r == 3: return call('odd', var('w'))
        if r == 4: return bin_('&', call('tick'), lit(1))
        if r == 5: return land(con(0), con(0)) if d else var('c')
        if r == 6: return inc('post+', var('c'))
        return var('h')

    def st(d):
        if d and rng.random() < .4: return cond(con(d), st(d - 1), st(d - 1))
        return objs[rng.randrange(6)]()
    for _ in range(10):
        path, s = rng.choice(leaves(t, p))
        e1 = member(cond(con(1), st(1), st(1)), path)
        r = rng.randrange(6)
        if r < 3: body.append(p.put(s, e1))
        elif r == 3: body += [es(asg(member(objs[rng.randrange(6)](), path), e1))]
        elif r == 4: body.append(p.put(LLONG, cond(bin_('<', e1, lit(50)), lit(1), cast(LLONG, e1))))
        else: body.append(p.put(INT, sze(cond(var('c'), var('x'), var('g')))))
        arr = lambda: rng.choice([var('ag'), var('al'), bin_('+', var('al'), lit(0)), addr(idx(var('ag'), lit(0)))])
        body.append(p.put(('i', e), rng.choice([lambda: idx(cond(con(1), arr(), arr()), lit(rng.randrange(3))), lambda: deref(bin_('+', cond(con(1), arr(), arr()), lit(rng.randrange(3)))), lambda: deref(cond(con(0), arr(), cond(con(0), arr(), arr())))])()))
        body.append(es(asg(idx(cond(con(1), arr(), arr()), lit(rng.randrange(3))), lit(rng.randrange(1, 100)))))
        body.append(es(opasg('+', idx(cond(rng.choice([var('c'), bin_('<', var('w'), lit(3))]), arr(), arr()), lit(rng.randrange(3))), lit(1))))
        ctx.count('accesses', 3)
    body += [p.dump(var('ag'), 3 * SIZE[e]), p.dump(var('al'), 3 * SIZE[e]), p.put(INT, var('k')), p.put(INT, var('c'))]
    for o in (var('x'), var('y'), var('g'), deref(var('h'))):
        for path, s in leaves(t, p): body.append(p.put(s, member(o, path)))
    p.func('main', INT, [], block(*body, ret(lit(0))))
    return p


def member(e, path):
    for k, x in path: e = dot(e, x) if k == 'm' else idx(e, lit(x))
    return e


def has_ptr(t, p): return any(s[0] == 'p' for _, s in leaves(t, p))


def elem_types(p):
    s1 = p.struct([('a', CHAR), ('b', CHAR), ('c', CHAR)])
    s2 = p.struct([('a', CHAR), ('b', LONG), ('c', INT)])
    return [CHAR, INT, UINT, LONG, ULLONG, P(INT), P(CHAR), A(CHAR, 3), A(INT, 3), A(LONG, 2), s1, s2, A(s1, 2)]


def arith(ctx, tag=''):
    """Element-scaled arithmetic for every element type and index type."""
    rng = ctx.rng
    out = []
    for k in range(13):
        p = Prog('P12%s.ptr%d' % (tag, k))
        t = elem_types(p)[k]
        n = 6
        where = rng.choice(['l', 'g', 'h'])
        body = []
        if where == 'g':
            p.globals.append(('m', A(t, n), None))
        elif where == 'l': body.append(decl(A(t, n), 'm'))
        else:
            p.extern('alloc', F(P(VOID), [INT]), 'alloc')
            body.append(decl(P(t), 'm', call('alloc', lit(n * sz(t, p)))))
        base = cast(P(CHAR), var('m'))
        off = lambda e: p.put(LONG, bin_('-', cast(P(CHAR), e), base))
        body += [decl(P(t), 'q', bin_('+', var('m'), lit(3))), decl(P(t), 'r', addr(idx(var('m'), lit(1))))]
        for it in TN:
            iv = 'i' + SFX[it]
            body.append(decl(('i', it), iv, lit(2)))
            body += [off(bin_('+', var('q'), var(iv))), off(bin_('+', var(iv), var('q'))), off(bin_('-', var('q'), var(iv))), off(addr(idx(var('q'), var(iv)))),
                     off(bin_('+', var('m'), const(it, 4))), off(bin_('-', bin_('+', var('m'), lit(5)), const(it, 3)))]
            if SIGNED[it]:
                body += [es(asg(var(iv), num(-2))), off(bin_('+', var('q'), var(iv))), off(bin_('-', var('q'), var(iv))), off(addr(idx(var('q'), var(iv)))), off(bin_('+', var('q'), const(it, -3)))]
            ctx.count('pointer_operations', 8)
        body += [off(var('m')), off(addr(idx(var('m'), lit(n)))), off(bin_('-', var('q'), lit(3)))]
        for a, b in (('q', 'r'), ('r', 'q'), ('q', 'q')):
            body += [p.put(LONG, bin_('-', var(a), var(b)))]
            body += [p.put(INT, bin_(o, var(a), var(b))) for o in ('<', '>', '<=', '>=', '==', '!=')]
            body += [if_(bin_(rng.choice(['<', '>', '<=', '>=', '==', '!=']), var(a), bin_('+', var(b), lit(1))), p.put(INT, lit(1)), p.put(INT, lit(0)))]
        body += [p.put(LONG, bin_('-', addr(idx(var('m'), lit(5))), var('m'))), p.put(LONG, bin_('-', var('m'), addr(idx(var('m'), lit(5))))),
                 p.put(INT, bin_('==', var('m'), addr(idx(var('m'), lit(0))))), p.put(INT, bin_('-', bin_('+', var('q'), lit(2)), var('r'))),
                 p.put(INT, un('!', var('q'))), if_(var('q'), p.put(INT, lit(1))), p.put(INT, land(var('q'), lit(1))), p.put(INT, cond(var('q'), lit(3), lit(4)))]
        for o in ('pre+', 'post+', 'pre-', 'post-'): body += [off(inc(o, var('q'))), off(var('q'))]
        body += [off(opasg('+', var('q'), lit(2))), off(opasg('-', var('q'), var('iu'))), off(var('q'))]
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    return out


def loops(ctx, tag=''):
    """Ordinary array and list code: sums, copies, reversal, linked nodes, matrices, strings."""
    out = []
    rng = ctx.rng
    for t in TN:
        T = ('i', t)
        p = Prog('P12%s.loop.%s' % (tag, t))
        vals = [rng.choice([v for v in VALS[t] if -2 ** 28 < v < 2 ** 28]) for _ in range(5)]
        node = p.struct([('next', P(S(1))), ('v', T)], 'N')
        p.globals += [('g', A(A(T, 3), 2), None), ('pool', A(node, 5), None), ('head', P(node), None)]
        i, j = var('i'), var('j')
        p.func('push', VOID, [(INT, 'k'), (T, 'v')], block(
            decl(P(node), 'n', addr(idx(var('pool'), var('k')))), es(asg(arrow(var('n'), 'v'), var('v'))), es(asg(arrow(var('n'), 'next'), var('head'))), es(asg(var('head'), var('n')))))
        p.func('rev', VOID, [(P(T), 'a'), (INT, 'n')], block(
            decl(P(T), 'b', bin_('+', var('a'), bin_('-', var('n'), lit(1)))),
            while_(bin_('<', var('a'), var('b')), block(decl(T, 'tmp', deref(var('a'))), es(asg(deref(inc('post+', var('a'))), deref(var('b')))), es(asg(deref(inc('post-', var('b'))), var('tmp')))))))
        body = [decl(A(T, 5), 'a', il(*[plain_const(t, v) for v in vals])), decl(A(T, 5), 'b'),
                for_(decl(INT, 'i', lit(0)), bin_('<', i, lit(5)), inc('post+', i), es(asg(idx(var('b'), i), idx(var('a'), bin_('-', lit(4), i))))),
                p.dump(var('a'), 5 * SIZE[t]), p.dump(var('b'), 5 * SIZE[t]), es(call('rev', var('a'), lit(5))), p.dump(var('a'), 5 * SIZE[t]),
                es(call('rev', addr(idx(var('a'), lit(1))), lit(2))), p.dump(var('a'), 5 * SIZE[t]),
                for_(decl(INT, 'i', lit(0)), bin_('<', i, lit(2)), inc('post+', i), for_(decl(INT, 'j', lit(0)), bin_('<', j, lit(3)), inc('pre+', j), es(asg(idx(idx(var('g'), i), j), bin_('+', bin_('*', i, lit(10)), j))))),
                p.dump(var('g'), 6 * SIZE[t]), p.put(T, idx(deref(bin_('+', var('g'), lit(1))), lit(2))), p.put(T, deref(bin_('+', idx(var('g'), lit(1)), lit(1)))), p.put(T, deref(deref(var('g')))),
                decl(P(A(T, 3)), 'row', var('g')), es(inc('pre+', var('row'))), p.put(T, idx(deref(var('row')), lit(0))), p.put(T, idx(idx(var('row'), num(-1)), lit(2))),
                p.put(LONG, bin_('-', var('row'), var('g'))), p.put(INT, sze(deref(var('row')))), p.put(INT, sze(idx(var('g'), lit(0)))), p.put(INT, sze(var('g'))),
                *[es(call('push', lit(k), plain_const(t, v))) for k, v in enumerate(vals)],
                for_(decl(P(node), 'n', var('head')), bin_('!=', var('n'), cast(P(node), lit(0))), asg(var('n'), arrow(var('n'), 'next')), p.put(T, arrow(var('n'), 'v'))),
                p.put(T, arrow(arrow(arrow(var('head'), 'next'), 'next'), 'v')), p.put(LONG, bin_('-', var('head'), var('pool'))),
                decl(P(P(T)), 'pp'), decl(P(T), 'p1', var('a')), es(asg(var('pp'), addr(var('p1')))), es(asg(deref(deref(var('pp'))), lit(42))), es(inc('post+', deref(var('pp')))), es(asg(deref(var('p1')), lit(43))),
                p.dump(var('a'), 5 * SIZE[t]), p.put(T, idx(deref(var('pp')), num(-1))), p.put(T, idx(idx(var('pp'), lit(0)), lit(1)))]
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
        ctx.count('accesses', 60)
    return out


def graph(rng, name, ctx):
    """Structures that point to one another, some before they are defined; random walks with arithmetic on the pointers on the way."""
    p = Prog(name)
    ns = rng.choice([1, 2, 2, 3])
    pads = [CHAR, INT, LONG, A(CHAR, 3), A(INT, 2), P(CHAR)]
    ss = []
    for k in range(ns):
        ms = [('v', ('i', rng.choice(TN)))] + [('p%d' % j, P(S(j + 1))) for j in range(ns)] + [('q', P(P(S(rng.randrange(ns) + 1)))), ('f%d' % k, rng.choice(pads))]
        if rng.random() < .5: ms.append(('w', A(P(S(rng.randrange(ns) + 1)), 2)))
        if k and rng.random() < .5: ms.append(('in', S(rng.randrange(k) + 1)))
        rng.shuffle(ms)
        ss.append(p.struct(ms, 'N%d' % (k + 1)))
    n = 5
    for k, s in enumerate(ss):
        p.globals += [('pool%d' % k, A(s, n), None), ('cell%d' % k, A(P(s), n), None)]
    body = []
    for k in range(ns):
        p.func('get%d' % k, P(ss[k]), [(P(ss[k]), 'a'), (INT, 'i')], block(ret(bin_('+', var('a'), var('i')))))
    memb = lambda k: p.structs[k][1]

    def target(k): return addr(idx(var('pool%d' % k), lit(rng.randrange(1, 3))))
    for k in range(ns):
        body.append(for_(decl(INT, 'i', lit(0)), bin_('<', var('i'), lit(n)), inc('post+', var('i')), block(
            es(asg(dot(idx(var('pool%d' % k), var('i')), 'v'), bin_('+', lit(10 * k + 1), var('i')))), es(asg(idx(var('cell%d' % k), var('i')), bin_('+', var('pool%d' % k), lit(2)))))))
    for k in range(ns):
        for i in range(n):
            o = lambda: idx(var('pool%d' % k), lit(i))
            for m, t in memb(k):
                if t[0] == 'p' and t[1][0] == 's': body.append(es(asg(dot(o(), m), target(t[1][1] - 1))))
                elif t[0] == 'p' and t[1][0] == 'p': body.append(es(asg(dot(o(), m), addr(idx(var('cell%d' % (t[1][1][1] - 1)), lit(rng.randrange(1, 3)))))))
                elif m == 'w':
                    for z in range(2): body.append(es(asg(idx(dot(o(), m), lit(z)), target(t[1][1][1] - 1))))

    def walk(k, d):
        """An expression of type pointer to structure k that points to element 1 or 2 of its pool, one element off at most in between."""
        if d <= 0: return addr(idx(var('pool%d' % k), lit(rng.choice([1, 2]))))
        c = rng.randrange(9)
        if c == 0:
            x = rng.choice([-1, 1])
            return bin_('-' if x > 0 else '+', bin_('+' if x > 0 else '-', walk(k, d - 1), lit(1)), lit(1))
        if c == 1: return addr(idx(bin_('+', walk(k, d - 1), lit(1)), num(-1)))
        if c == 2: return call('get%d' % k, call('get%d' % k, walk(k, d - 1), lit(2)), num(-2))
        if c == 3: return addr(deref(walk(k, d - 1)))
        j = rng.randrange(ns)
        ops = [m for m, t in memb(j) if t == P(S(k + 1))]
        ops += [m for m, t in memb(j) if t == P(P(S(k + 1)))] + [m for m, t in memb(j) if m == 'w' and t[1] == P(S(k + 1))]
        if not ops: return walk(k, d - 1)
        m = rng.choice(ops)
        b = walk(j, d - 1)
        e = rng.choice([lambda: arrow(b, m), lambda: dot(deref(b), m), lambda: dot(idx(b, lit(0)), m), lambda: arrow(bin_('+', bin_('-', b, lit(1)), lit(1)), m)])()
        if m == 'q': return rng.choice([deref, lambda x: idx(x, lit(1)), lambda x: deref(bin_('+', x, lit(1)))])(e)
        if m == 'w': return idx(e, lit(rng.randrange(2)))
        return e
    for _ in range(ctx.n(10, 14)):
        k = rng.randrange(ns)
        e = walk(k, rng.choice([1, 2, 3, 3, 4]))
        vt = [t for m, t in memb(k) if m == 'v'][0]
        off = lambda x: p.put(LONG, bin_('-', cast(P(CHAR), x), cast(P(CHAR), var('pool%d' % k))))
        body += [off(e), p.put(vt, arrow(e, 'v')), p.put(vt, dot(idx(e, lit(1)), 'v')), off(bin_('+', e, lit(2))), p.put(LONG, bin_('-', e, var('pool%d' % k))), p.put(INT, sze(deref(e)))]
        l = rng.choice([arrow(walk(j, 1), m) for j in range(ns) for m, t in memb(j) if t == P(S(k + 1))])
        body += [off(inc(rng.choice(['pre+', 'post+']), l)), off(l), off(inc(rng.choice(['pre-', 'post-']), l)), off(l), off(opasg('+', l, lit(1))), off(opasg('-', l, lit(1)))]
        body.append(es(opasg('+', arrow(e, 'v'), lit(3))))
        ctx.count('accesses', 13)
    for k in range(ns): body += [p.put([t for m, t in memb(k) if m == 'v'][0], dot(idx(var('pool%d' % k), lit(i)), 'v')) for i in range(n)]
    p.func('main', INT, [], block(*body, ret(lit(0))))
    return p


def run(ctx):
    from ..findings import known
    known(ctx)
    ctx.programs(arith(ctx) + loops(ctx) + [choices(ctx.rng, 'P12.ch%d' % i, ctx) for i in range(ctx.n(40, 80))] + [graph(ctx.rng, 'P12.g%d' % i, ctx) for i in range(ctx.n(25, 60))] + [shape_prog(ctx.rng, 'P12.s%d' % i, ctx) for i in range(ctx.n(60, 150))])
    rnd = 0
    while not ctx.quick and ctx.left() > 60 and not ctx.viol:
        rnd += 1
        ctx.programs(arith(ctx, '.r%d' % rnd) + [choices(ctx.rng, 'P12.r%d.ch%d' % (rnd, i), ctx) for i in range(40)] + [graph(ctx.rng, 'P12.r%d.g%d' % (rnd, i), ctx) for i in range(40)] + [shape_prog(ctx.rng, 'P12.r%d.s%d' % (rnd, i), ctx) for i in range(120)])
