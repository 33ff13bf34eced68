"""P11: scopes, name spaces, storage of objects that are alive together."""
from ..cast import *
from ..pyev import *
from ..findings import known
from .p12 import sz

NAMES = ['a', 'b', 'c', 'd', 'e']
TAGS = ['a', 'b', 'T', 'U']
TNAMES = ['a', 'b', 'T', 'V']


class Scopes:
    """Random nest of scopes. Every object holds a value of its own, so any confusion shows."""

    def __init__(self, p, rng, ctx):
        self.p, self.rng, self.ctx = p, rng, ctx
        if rng.random() < .5: self.NAMES, self.TAGS, self.TNAMES, self.MEM = NAMES, TAGS, TNAMES, ['a', 'b', 'c', 'T', 'next']
        else:
            n = spell(rng, 8)
            self.NAMES, self.TAGS, self.TNAMES, self.MEM = n[:5], [n[0], n[1], n[5], n[6]], [n[0], n[1], n[5], n[7]], [n[0], n[1], n[2], n[5], n[6]]
        self.env = [{}]          # name -> ('v', type) | ('e', value) | ('f', ...)
        self.tags = [{}]         # tag -> struct type
        self.tds = [{}]          # typedef name -> type
        self.u = rng.randrange(1, 30)
        self.np = 0
        self.sptrs = []
        self.ptrs = []           # (pointer variable, type, depth of the pointer, depth of the object)

    def uniq(self):
        self.u += 1
        return self.u

    def look(self, tab, n):
        for s in reversed(tab):
            if n in s: return s[n]
        return None

    def visible(self):
        r = {}
        for s in self.env: r.update(s)
        for s in self.tds:
            for n in s: pass
        return r

    def td_visible(self, n):
        """Is the innermost meaning of n a typedef name?"""
        for e, t in zip(reversed(self.env), reversed(self.tds)):
            if n in t: return True
            if n in e: return False
        return False

    def meaning(self, n):
        for e, t in zip(reversed(self.env), reversed(self.tds)):
            if n in t: return ('t', t[n])
            if n in e: return e[n]
        return None

    # --- declarations
    def declare_one(self, ss):
        rng, p = self.rng, self.p
        r = rng.random()
        here_e, here_t, here_s = self.env[-1], self.tds[-1], self.tags[-1]
        n = rng.choice(self.NAMES)
        free = n not in here_e and n not in here_t and not self.td_visible(n)
        if r < .5 and free:
            t = rng.choice([INT, INT, CHAR, LONG, UINT, A(CHAR, rng.randint(1, 7)), A(INT, 2), P(INT)])
            if rng.random() < .3:
                k = rng.choice(self.TNAMES)
                m = self.meaning(k)
                if m and m[0] == 't' and k != n: t = N(k, m[1])
            T = strip(t)
            if T[0] == 'p' or T[0] == 's':
                t = T = INT
            if T[0] == 'a':
                v = il(*[num(self.uniq() % 120) for _ in range(T[2])]) if rng.random() < .8 else None
                if v is None: ss.append(decl(t, n)); ss.append(es(asg(idx(var(n), lit(T[2] - 1)), lit(self.uniq() % 120))))
                else: ss.append(decl(t, n, v))
                here_e[n] = ('v', T, v is not None)
            else:
                ini = lit(self.uniq() % 120)
                q = rng.choice(self.NAMES)
                m = self.meaning(q)
                if q != n and m and m[0] in 'ev' and (m[0] == 'e' or m[1][0] == 'i') and rng.random() < .3: ini = bin_('+', var(q), lit(1)) if False else var(q)
                elif rng.random() < .06: ini = sze(var(n))
                ss.append(decl(t, n, ini))
                here_e[n] = ('v', T, True)
        elif r < .62 and free:
            m = [x for x in self.NAMES if x not in here_e and x not in here_t and not self.td_visible(x)]
            rng.shuffle(m)
            m = m[:rng.randint(1, 2)]
            cs = [(x, self.uniq() * 3) for x in m]
            tag = [x for x in self.TAGS if x not in here_s]
            e = enum_(cs)
            if tag and rng.random() < .5:
                tg = self.pick_tag(tag)
                here_s[tg] = 'enum'
                e['_s'] = 'enum %s {%s};' % (tg, ', '.join('%s = %d' % c for c in cs))
            ss.append(e)
            for x, v in cs: here_e[x] = ('e', v)
        elif r < .66 and free:
            tg = [(x, self.look(self.tags, x)) for x in self.TAGS]
            tg = [(x, s) for x, s in tg if s and s != 'enum']
            if tg:
                x, s = rng.choice(tg)
                ss.append(decl(s, n, il(*[lit(self.uniq() % 120) for _ in p.structs[s[1] - 1][1]])))
                here_e[n] = ('v', s, True)
        elif r < .76:
            tg = [x for x in self.TAGS if x not in here_s]
            if tg:
                tg = self.pick_tag(tg)
                mem = [x for x in self.MEM if not self.td_visible(x)]
                rng.shuffle(mem)
                s = p.struct([(x, ('i', rng.choice(['char', 'int', 'long']))) for x in mem[:rng.randint(1, 3)]], tg)
                p.inner.add(s[1])
                here_s[tg] = s
                nm = [x for x in self.NAMES if x not in here_e and x not in here_t and not self.td_visible(x)]
                ss.append(raw(p.struct_text(s) + ';'))
                if nm:
                    x = rng.choice(nm)
                    here_e[x] = ('v', s, True)
                    ss.append(decl(s, x, il(*[lit(self.uniq() % 120) for _ in p.structs[s[1] - 1][1]])))
        elif r < .88:
            k = rng.choice(self.TNAMES)
            if k not in here_e and k not in here_t and not self.td_visible(k):
                t = rng.choice([INT, CHAR, LONG, UINT, A(CHAR, 3), A(INT, 2)])
                ss.append(raw('typedef ' + declare(t, k, p) + ';'))
                here_t[k] = t
        else:
            vs = [(x, v) for x, v in self.visible().items() if v[0] == 'v' and v[1][0] == 'i' and self.meaning(x) is v]
            st = [(x, v) for x, v in self.visible().items() if v[0] == 'v' and v[1][0] == 's' and self.meaning(x) is v
                  and self.look(self.tags, p.structs[v[1][1] - 1][0]) == v[1]]
            if st and rng.random() < .6:
                x, v = rng.choice(st)
                self.np += 1
                pn = 'p%d' % self.np
                ss.append(decl(P(v[1]), pn, addr(var(x))))
                self.sptrs.append((pn, v[1], len(self.env)))
                self.ctx.count('pointers to structures')
            elif vs:
                x, v = rng.choice(vs)
                self.np += 1
                pn = 'p%d' % self.np
                ss.append(decl(P(v[1]), pn, addr(var(x))))
                self.ptrs.append((pn, v[1], len(self.env)))
        self.ctx.count('declarations')

    # --- observations
    def observe(self, ss):
        p, rng = self.p, self.rng
        for x in self.NAMES:
            m = self.meaning(x)
            if m is None or m[0] == 'f': continue
            if m[0] == 't': ss.append(p.put(INT, szt(N(x, m[1]))))
            elif m[0] == 'e': ss.append(p.put(INT, var(x)))
            elif m[1][0] == 'i': ss.append(p.put(m[1], var(x)))
            elif m[1][0] == 'a':
                ss.append(p.put(m[1][1], idx(var(x), lit(m[1][2] - 1))))
                if m[2]: ss.append(p.dump(var(x), sz(m[1], p)))
            elif m[1][0] == 's':
                for k, t in p.structs[m[1][1] - 1][1]: ss.append(p.put(t, dot(var(x), k)))
            if m[0] == 'v' and rng.random() < .3: ss.append(p.put(INT, sze(var(x))))
        for pn, t, d in self.ptrs: ss.append(p.put(t, deref(var(pn))))
        for pn, s, d in self.sptrs:
            k, t = rng.choice(p.structs[s[1] - 1][1])
            ss.append(p.put(t, arrow(var(pn), k)))
            if self.look(self.tags, p.structs[s[1] - 1][0]) != s: self.ctx.count('members of hidden structures')
        for tg in self.TAGS:
            s = self.look(self.tags, tg)
            if s and s != 'enum': ss.append(p.put(INT, szt(s)))
        for k in self.TNAMES:
            m = self.meaning(k)
            if m and m[0] == 't' and k not in self.NAMES: ss.append(p.put(INT, szt(N(k, m[1]))))
        self.ctx.count('observations')

    def modify(self, ss):
        p, rng = self.p, self.rng
        vs = [(x, v) for x, v in self.visible().items() if v[0] == 'v' and self.meaning(x) is v]
        if not vs: return
        x, v = rng.choice(vs)
        if v[1][0] == 'i': ss.append(es(asg(var(x), lit(self.uniq() % 120))))
        elif v[1][0] == 'a': ss.append(es(asg(idx(var(x), lit(v[1][2] - 1)), lit(self.uniq() % 120))))
        elif v[1][0] == 's':
            k, _ = rng.choice(p.structs[v[1][1] - 1][1])
            ss.append(es(asg(dot(var(x), k), lit(self.uniq() % 120))))
        if self.ptrs and rng.random() < .4:
            pn, t, d = rng.choice(self.ptrs)
            ss.append(es(asg(deref(var(pn)), lit(self.uniq() % 120))))

    def push(self): self.env.append({}); self.tags.append({}); self.tds.append({})

    def pop(self):
        d = len(self.env)
        self.ptrs = [q for q in self.ptrs if q[2] < d]
        self.sptrs = [q for q in self.sptrs if q[2] < d]
        self.env.pop(); self.tags.pop(); self.tds.pop()

    def body(self, depth, width):
        """Statements of the current scope."""
        rng, p = self.rng, self.p
        ss = []
        for _ in range(width):
            r = rng.random()
            if r < .5: self.declare_one(ss)
            elif r < .62: self.modify(ss)
            elif r < .72: self.observe(ss)
            elif r < .78 and self.meaning('helper') and self.meaning('helper')[0] == 'f': ss.append(p.put(INT, call('helper', lit(self.uniq() % 50))))
            elif depth > 0: ss.append(self.nested(depth - 1))
        self.observe(ss)
        return ss

    def nested(self, depth):
        rng, p = self.rng, self.p
        k = rng.randrange(5)
        self.nl = getattr(self, 'nl', 0) + 1
        tw = 'w%d' % self.nl
        p.globals.append((tw, INT, None))
        self.push()
        if k == 1:
            n = [x for x in self.NAMES if not self.td_visible(x)]
            if n:
                n = rng.choice(n)
                v = self.uniq() % 120
                self.env[-1][n] = ('v', INT, True)
                self.push()
                b = self.body(depth, 3)
                self.pop()
                # the loop variable may have been changed: run at most twice
                f = for_(decl(INT, n, lit(v)), inc('post-', var(tw)), asg(var(n), bin_('+', var(n), lit(1))), block(*b))
                self.pop()
                return block(es(asg(var(tw), lit(2))), f)
        if k >= 2 and rng.random() < .5:      # a tag or an enumeration declared in the head of the statement
            e, pre = self.clause()
            self.push()
            b = block(*self.body(depth, 4))
            self.pop()
            if k == 2:
                self.push()
                c = block(*self.body(depth, 3))
                self.pop()
                n = if_(bin_('>' if rng.random() < .5 else '<', e, lit(0)), b, c)
            elif k == 3: n = while_(land(inc('post-', var(tw)), e), b)
            else:
                cl = rng.randrange(4)
                if cl == 3: n = switch(cond(e, lit(3), lit(0)), block(case(lit(3), block(b, brk())), default(p.put(INT, lit(0)))))
                else:
                    h = [asg(var(tw), lit(2)), bin_('>', var(tw), lit(0)), inc('post-', var(tw))]
                    if cl == 0: h[0] = asg(var(tw), cond(e, lit(2), lit(0)))
                    if cl == 1: h[1] = land(h[1], e)
                    if cl == 2: h[2] = asg(var(tw), bin_('-', var(tw), cond(e, lit(1), lit(0))))
                    n = for_(*h, b)
            ins = [(x, 'tag') for x in self.tags[-1]] + [(x, 'name') for x in self.env[-1]]
            self.pop()
            # what the head declared is forgotten: the names mean what they meant before, or are free
            self.push()
            after = []
            for x, kind in ins:
                if kind == 'tag':
                    s = self.look(self.tags, x)
                    if s and s != 'enum': after.append(p.put(INT, szt(s)))
                    s = p.struct([('m' if rng.random() < .5 or self.td_visible('a') else 'a', ('i', rng.choice(['char', 'int', 'long']))) for _ in 'x'], x)
                    p.inner.add(s[1])
                    after += [raw(p.struct_text(s) + ';'), p.put(INT, szt(s))]
                    self.nl += 1
                    (m, mt), o = p.structs[s[1] - 1][1][0], 'o%d' % self.nl
                    after += [decl(s, o), es(asg(dot(var(o), m), lit(self.uniq()))), p.put(mt, dot(var(o), m))]
                else:
                    m = self.meaning(x)
                    if m and m[0] in 'ev' and (m[0] == 'e' or m[1][0] == 'i'): after.append(p.put(INT, var(x)))
                    after += [decl(INT, x, lit(self.uniq())), p.put(INT, var(x))]
            self.pop()
            n = block(*pre, n)
            n['_bare'] = 1
            return block(es(asg(var(tw), lit(2))), n, *([block(*after)] if rng.random() < .3 else after))
        b = self.body(depth, 4)
        self.pop()
        if k == 2: return if_(bin_('>', var(tw), num(-5)), block(*b), p.put(INT, lit(0)))
        if k == 3: return block(es(asg(var(tw), lit(1))), while_(inc('post-', var(tw)), block(*b)))
        if k == 4: return switch(lit(3), block(case(lit(3), block(*b, brk())), default(p.put(INT, lit(0)))))
        return block(*b)


    def pick_tag(self, tg):
        """Rather a tag that hides that of a visible object."""
        us = {self.p.structs[v[1][1] - 1][0] for v in self.visible().values() if v[0] == 'v' and v[1][0] == 's'} | {self.p.structs[s[1] - 1][0] for _, s, _ in self.sptrs}
        h = [x for x in tg if x in us]
        if h and self.rng.random() < .7:
            self.ctx.count('tags of visible objects hidden')
            return self.rng.choice(h)
        return self.rng.choice(tg)

    def clause(self):
        """An expression with a positive value that declares a tag or an enumeration in the current scope, and what the machine must know."""
        rng, p = self.rng, self.p
        tg = [x for x in self.TAGS if x not in self.tags[-1]]
        if not tg: return lit(1), []
        tg = self.pick_tag(tg)
        if rng.random() < .6:
            mem = [x for x in self.MEM if not self.td_visible(x)]
            rng.shuffle(mem)
            s = p.struct([(x, ('i', rng.choice(['char', 'int', 'long']))) for x in mem[:rng.randint(1, 3)]], tg)
            p.inner.add(s[1])
            self.tags[-1][tg] = s
            e, pre = szt(s), []
            e['_s'] = 'sizeof(%s)' % p.struct_text(s)
            self.ctx.count('structures declared in a clause')
        else:
            cs = [x for x in self.NAMES if x not in self.env[-1] and not self.td_visible(x)]
            rng.shuffle(cs)
            cs = [(x, self.uniq() * 3) for x in cs[:rng.randint(1, 2)]]
            if not cs: return lit(1), []
            tg = rng.choice([tg, ''])
            if tg: self.tags[-1][tg] = 'enum'
            n = enum_(cs)
            n['_s'] = ''
            for x, v in cs: self.env[-1][x] = ('e', v)
            e, pre = szt(INT), [n]
            e['_s'] = 'sizeof(enum %s {%s})' % (tg, ', '.join('%s = %d' % c for c in cs))
            self.ctx.count('enumerations declared in a clause')
        return e, pre


def scope_prog(rng, pid, ctx):
    p = Prog(pid)
    g = Scopes(p, rng, ctx)
    for n in rng.sample(g.NAMES, rng.randint(1, 4)):
        t = ('i', rng.choice(['int', 'long', 'char']))
        p.globals.append((n, t, lit(g.uniq())))
        g.env[0][n] = ('v', t, True)
    fn = [n for n in g.NAMES if n not in g.env[0]]
    if fn and rng.random() < .5:      # a function whose name can be hidden
        n = fn[0]
        p.func(n, INT, [(INT, g.NAMES[-1])], block(ret(bin_('+', var(g.NAMES[-1]), lit(1)))))
        g.env[0][n] = ('f',)
    # helper with parameters that hide globals
    g.env[0]['helper'] = ('f',)
    g.push()
    g.env[-1][g.NAMES[0]] = ('v', INT, True)
    hb = g.body(1, 4)
    hb = [s for s in hb]
    g.pop()
    p.func('helper', INT, [(INT, g.NAMES[0])], block(*hb, ret(var(g.NAMES[0]))))
    # calls of helper inside helper would recurse for ever: drop them
    p.funcs[-1] = p.funcs[-1][:3] + (drop_calls(p.funcs[-1][3], 'helper'),)
    g.push()
    b = g.body(ctx.n(3, 4), 7)
    g.pop()
    p.func('main', INT, [], block(*b, ret(lit(0))))
    return p


def drop_calls(n, f):
    if n['k'] == '{': return dict(n, ss=[drop_calls(s, f) for s in n['ss'] if not uses(s, f) or s['k'] in ('{', 'if', 'while', 'for', 'sw', 'case', 'dflt')])
    if n['k'] in ('if',): return dict(n, a=drop_calls(n['a'], f), b=n['b'] and drop_calls(n['b'], f))
    if n['k'] in ('while', 'for', 'sw', 'case', 'dflt'): return dict(n, b=drop_calls(n['b'], f))
    return n


def uses(n, f): return f in names_in(n)


def file_scope(ctx):
    """Name spaces and declarations at file scope, written by hand."""
    out = []
    rng = ctx.rng
    p = Prog('P11.spaces')
    x = p.struct([('x', INT), ('y', CHAR), ('z', INT)], 'x')
    y = p.struct([('x', CHAR), ('y', x)], 'y')
    p.enums = [('z', 7)]
    p.globals += [('x', x, il(lit(1), lit(2), lit(3))), ('y', INT, lit(4))]
    p.func('f', INT, [(INT, 'x'), (P(y), 'y')], block(ret(bin_('+', bin_('+', var('x'), dot(arrow(var('y'), 'y'), 'z')), bin_('+', var('z'), arrow(var('y'), 'x'))))))
    p.func('g', INT, [(INT, 'f')], block(ret(bin_('*', var('f'), lit(2)))))
    body = [decl(y, 'q', il(lit(10), lit(20), lit(21), lit(22))), p.put(INT, dot(var('x'), 'x')), p.put(INT, dot(var('x'), 'z')), p.put(INT, var('y')), p.put(INT, var('z')),
            p.put(INT, call('f', lit(5), addr(var('q')))), p.put(INT, call('g', call('f', dot(dot(var('q'), 'y'), 'x'), addr(var('q'))))),
            block(decl(INT, 'z', lit(9)), p.put(INT, var('z')), decl(x, 'x', il(var('z'), lit(5))), p.put(INT, dot(var('x'), 'x')), p.put(INT, dot(var('x'), 'z')), decl(INT, 'f', lit(33)), p.put(INT, call('g', var('f')))),
            p.put(INT, var('z')), p.put(INT, dot(var('x'), 'x')), p.put(INT, call('f', var('y'), addr(var('q')))), p.dump(addr(var('q')), sz(y, p)) if False else p.put(INT, szt(y))]
    p.func('main', INT, [], block(*body, ret(lit(0))))
    out.append(p)
    # many objects alive together, of all sizes, in nested blocks
    for k in range(ctx.n(6, 20)):
        p = Prog('P11.live%d' % k)
        body, chk, opens = [], [], []
        u = 1
        blocks = []
        cur = body
        allchk = []
        for i in range(rng.randint(8, 16)):
            t = rng.choice([CHAR, INT, LONG, A(CHAR, rng.randint(1, 9)), A(INT, rng.randint(1, 3)), A(LONG, 2), p.struct([('c', CHAR), ('l', LONG), ('d', CHAR)]) if i % 5 == 0 else CHAR])
            n = 'o%d' % i
            cur.append(decl(t, n))
            if t[0] == 'i': ls = [(var(n), t)]
            elif t[0] == 'a': ls = [(idx(var(n), lit(j)), t[1]) for j in range(t[2])]
            else: ls = [(dot(var(n), m), mt) for m, mt in p.structs[t[1] - 1][1]]
            for e, et in ls:
                u += 1
                cur.append(es(asg(e, lit(u % 127))))
                allchk.append((e, et))
            if rng.random() < .35:
                nb = []
                blocks.append((cur, nb))
                cur = nb
        cur += [p.put(et, e) for e, et in allchk]
        for outer, inner in reversed(blocks):
            outer.append(block(*inner))
            names = {s['n'] for s in outer if s['k'] == 'decl'}
            for o, i_ in blocks:
                if o is outer: break
                names |= {s['n'] for s in o if s['k'] == 'decl'}
            names |= {s['n'] for s in body if s['k'] == 'decl'}
            outer += [p.put(et, e) for e, et in allchk if names_in(e) <= names]
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    return out


def run(ctx):
    known(ctx)
    small = [scope_prog(ctx.rng, 'P11.s%d' % i, ctx) for i in range(ctx.n(60, 150))]
    ctx.machine.cfg = 'CMachineSane.cfg'
    ctx.programs(file_scope(ctx) + small[:20])
    ctx.machine.cfg = 'CMachine.cfg'
    ctx.programs(small[20:])
    rnd = 0
    while not ctx.quick and ctx.left() > 60 and not ctx.viol:
        rnd += 1
        ctx.programs([scope_prog(ctx.rng, 'P11.r%d.s%d' % (rnd, i), ctx) for i in range(100)])
