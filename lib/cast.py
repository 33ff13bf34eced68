"""Syntax trees of the C subset: construction, rendering as C text, export to the CMachine specification."""
import itertools, random

VOID = ('v',)
CHAR, INT, UINT, LONG, ULONG, LLONG, ULLONG = (('i', n) for n in ('char', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong'))
INTS = [CHAR, INT, UINT, LONG, ULONG, LLONG, ULLONG]
SPELL = {'char': 'char', 'int': 'int', 'uint': 'unsigned int', 'long': 'long', 'ulong': 'unsigned long',
         'llong': 'long long', 'ullong': 'unsigned long long'}
SFX = {'char': 'c', 'int': 'i', 'uint': 'u', 'long': 'l', 'ulong': 'ul', 'llong': 'll', 'ullong': 'ull'}
SIZE = {'char': 1, 'int': 4, 'uint': 4, 'long': 8, 'ulong': 8, 'llong': 8, 'ullong': 8}
SIGNED = {'char': True, 'int': True, 'uint': False, 'long': True, 'ulong': False, 'llong': True, 'ullong': False}


def P(t): return ('p', t)
def A(t, n): return ('a', t, n)
def S(i): return ('s', i)
def F(r, ps): return ('f', r, tuple(ps))


def N(name, t): return ('n', name, t)       # a type written as a name: typedef name or enum


def J(t): return ('j', t)                   # a parameter written as an array or a function


def strip(t):
    """The type without the names it was written with."""
    if t[0] == 'n': return strip(t[2])
    if t[0] == 'j': return P(strip(t[1][1])) if t[1][0] == 'a' else P(strip(t[1]))
    if t[0] in 'pa': return (t[0], strip(t[1])) + tuple(t[2:])
    if t[0] == 'f': return ('f', strip(t[1]), tuple(strip(x) for x in t[2]))
    return t


def base_name(t, prog):
    if t[0] == 'n': return t[1]
    if t[0] == 'v': return 'void'
    if t[0] == 'i': return SPELL[t[1]]
    if t[0] == 's': return 'struct ' + prog.structs[t[1] - 1][0]
    raise ValueError(t)


def declare(t, name, prog, params=None):
    """C declaration of name with type t (without the semicolon)."""
    d = name
    prec = 2
    first = True
    while True:
        if d and prog.wild and prog.wild.random() < .12:
            d = '(' + d + ')'
            prec = 2
        if t[0] == 'j':
            t = t[1]
            continue
        if t[0] == 'p':
            d = '*' + d
            prec = 1
            t = t[1]
        elif t[0] == 'a':
            if prec == 1: d = '(' + d + ')'
            d += '[' + (str(t[2]) if t[2] >= 0 else '') + ']'
            prec = 2
            t = t[1]
        elif t[0] == 'f':
            if prec == 1: d = '(' + d + ')'
            if first and params is not None:
                ps = ', '.join(declare(pt, pn, prog) for pt, pn in zip(t[2], params)) or 'void'
            else:
                ps = ', '.join(declare(pt, '', prog) for pt in t[2]) or 'void'
            d += '(' + ps + ')'
            prec = 2
            t = t[1]
        else:
            return (base_name(t, prog) + ' ' + d).strip()
        first = False


# --- expressions -------------------------------------------------------------------------------
def digits(v, base):
    if v == 0: return [0]
    r = []
    while v: r.append(v % base); v //= base
    return r[::-1]


def lit(v, sf='', base=10, spell=None):
    """Non-negative integer constant. spell overrides the text (it must denote the same digits)."""
    dg = digits(v, base)
    if spell is None:
        spell = {10: '%d', 16: '0x%x', 8: '0%o'}[base] % v if not (base == 8 and v == 0) else '00'
        spell += sf
    sf = ''.join(sorted(sf.lower(), key=lambda c: 0 if c == 'u' else 1))
    return {'k': 'lit', 'dg': dg, 'bs': base, 'sf': sf, '_s': spell}


def num(v, sf=''):
    return lit(v, sf) if v >= 0 else un('-', lit(-v, sf))


def chr_(src):       # src: source characters between the quotes
    return {'k': 'chr', 's': [ord(c) for c in src], '_s': "'" + src + "'"}


def str_(src):
    return {'k': 'str', 's': [ord(c) for c in src], '_s': '"' + src + '"'}


def var(n): return {'k': 'v', 'n': n}
def un(o, a): return {'k': 'un', 'o': o, 'a': a}
def bin_(o, a, b): return {'k': 'b', 'o': o, 'a': a, 'b': b}
def land(a, b): return {'k': '&&', 'a': a, 'b': b}
def lor(a, b): return {'k': '||', 'a': a, 'b': b}
def cond(c, a, b): return {'k': '?', 'c': c, 'a': a, 'b': b}
def asg(a, b): return {'k': '=', 'a': a, 'b': b}
def opasg(o, a, b): return {'k': 'op=', 'o': o, 'a': a, 'b': b}
def inc(o, a): return {'k': '++', 'o': o, 'a': a}
def call(f, *as_): return {'k': 'call', 'f': var(f) if isinstance(f, str) else f, 'as': list(as_)}
def cast(t, a): return {'k': 'cast', 't': t, 'a': a}
def szt(t): return {'k': 'szt', 't': t}
def sze(a): return {'k': 'sze', 'a': a}
def idx(a, b): return {'k': '[]', 'a': a, 'b': b}
def dot(a, m): return {'k': '.', 'a': a, 'm': m}
def arrow(a, m): return {'k': '->', 'a': a, 'm': m}
def deref(a): return {'k': '*', 'a': a}
def addr(a): return {'k': '&', 'a': a}
# --- statements --------------------------------------------------------------------------------
def es(a): return {'k': 'e', 'a': a}
def empty(): return {'k': ';'}
def block(*ss): return {'k': '{', 'ss': list(ss)}
def if_(c, a, b=None): return {'k': 'if', 'c': c, 'a': a, 'b': b}
def while_(c, b): return {'k': 'while', 'c': c, 'b': b}
def for_(i, c, s, b): return {'k': 'for', 'i': i, 'c': c, 's': s, 'b': b}
def switch(c, b): return {'k': 'sw', 'c': c, 'b': b}
def case(v, b): return {'k': 'case', 'v': v, 'b': b}
def default(b): return {'k': 'dflt', 'b': b}
def brk(): return {'k': 'break'}
def cont(): return {'k': 'continue'}
def ret(a=None): return {'k': 'ret', 'a': a}
def decl(t, n, i=None): return {'k': 'decl', 't': t, 'n': n, 'i': i}
def enumeration(cs):
    """Declarations of one enumeration in a block: (name, constant expression or None)."""
    out = [{'k': 'enx', 'n': c, 'a': x, 'p': cs[j - 1][0] if j else ''} for j, (c, x) in enumerate(cs)]
    out[0]['_cs'] = cs
    return out


def enum_(cs): return {'k': 'enum', 'cs': cs}
def raw(text): return {'k': 'nop', '_s': text}      # declarations the machine need not know
def il(*xs): return {'k': 'il', 'xs': list(xs)}


BINP = {'*': 13, '/': 13, '%': 13, '+': 12, '-': 12, '<<': 11, '>>': 11, '<': 10, '>': 10, '<=': 10, '>=': 10,
        '==': 9, '!=': 9, '&': 8, '^': 7, '|': 6}
KIDS = {'un': ['a'], 'cast': ['a'], '*': ['a'], '&': ['a'], '.': ['a'], '->': ['a'], '++': ['a'], 'sze': ['a'],
        'b': ['a', 'b'], '&&': ['a', 'b'], '||': ['a', 'b'], '=': ['a', 'b'], 'op=': ['a', 'b'], '[]': ['a', 'b'],
        '?': ['c', 'a', 'b'], 'e': ['a'], 'if': ['c', 'a', 'b'], 'while': ['c', 'b'], 'for': ['i', 'c', 's', 'b'],
        'sw': ['c', 'b'], 'case': ['v', 'b'], 'dflt': ['b'], 'ret': ['a'], 'decl': ['i'], 'enx': ['a']}


def spell(rng, n):
    """n distinct names that are easily taken for one another."""
    w = rng.choice(['a', 'ab', 'kx', 'zeta', '_q', 'Tm', 'v_', 'if_', 'in', 'doo', 'longer', 'returns', 'intx'])
    long = w + 'u' * rng.choice([6, 7, 8, 14, 15, 22, 30, 31, 32, 62, 63, 64, 100, 127, 254, 255, 256])
    abc = list('abcd')
    rng.shuffle(abc)
    perm = [''.join(q) for q in itertools.permutations(abc)]
    fam = [[w + 'xyzuvwst'[:i] for i in range(9)],                          # beginnings of one another
           ['xyzuvwst'[i:] + w for i in range(9)],                          # ends of one another
           [''.join(c.upper() if m >> i & 1 else c for i, c in enumerate('qrst')) for m in range(1, 16)],
           [long + c for c in 'abcdefghi'],                                 # the same up to a late character
           [long + 'z' * i for i in range(9)],
           ['_' * i + w + '_' * j for i in range(3) for j in range(3)],
           [w + d for d in ('0', '00', '01', '1', '10', '100', '_1', '1_', '2', '02')],
           perm,                                                            # the same characters (and hash value)
           [k + c for k in ('int', 'if', 'for', 'do', 'char', 'case', 'else', 'long', 'void') for c in ('_', 'x', '0')]]
    f = rng.choice(fam)
    while len(f) < n: f = f + [x + 'r' for x in f]
    return rng.sample(f, n)


class Prog:
    def __init__(self, pid='p', paren='min'):
        self.id = pid
        self.structs = []      # (tag, [(name, type)])
        self.globals = []      # (name, type, init)
        self.funcs = []        # (name, ftype, params, body)
        self.externs = []      # (name, ftype, kind)
        self.enums = []        # file-scope enumeration constants: (name, value), or the list of one enumeration: (name, literal, name or None)
        self.paren = paren     # 'min': only needed parentheses, 'full': all
        self.protos = []       # function names to declare first
        self.pre = ''          # extra text at the top
        self.companion = ''    # C source compiled by the system compiler and linked in
        self.wild = None       # random source for redundant parentheses in declarators
        self.mid = []          # lines printed after the structures (typedefs)
        self.foreign = set()   # functions compiled by the system compiler
        self.inner = set()     # structs declared elsewhere than at the top
        self.tags = set()      # features used (for reports)

    def struct(self, members, tag=None):
        self.structs.append((tag or 'S%d' % (len(self.structs) + 1), list(members)))
        return S(len(self.structs))

    def struct_text(self, s):
        tag, ms = self.structs[s[1] - 1]
        return 'struct %s { %s }' % (tag, ' '.join(declare(t, n, self) + ';' for n, t in ms))

    def extern(self, name, ft, kind):
        if not any(e[0] == name for e in self.externs):
            self.externs.append((name, ft, kind))
        return name

    def put(self, t, e):
        """Statement that records the value of e converted to type t."""
        n = 'put_' + SFX[t[1]]
        self.extern(n, F(VOID, [t]), 'put')
        return es(call(n, e))

    def dump(self, e, n):
        self.extern('dump', F(VOID, [P(VOID), INT]), 'dump')
        return es(call('dump', e, lit(n)))

    def align(self, e, n):
        """n: a divisor of the alignment of the object e points to"""
        self.extern('align', F(VOID, [P(VOID), INT]), 'align')
        return es(call('align', e, lit(n)))

    def puts(self, e):
        self.extern('put_s', F(VOID, [P(CHAR)]), 'puts')
        return es(call('put_s', e))

    def func(self, name, rt, params, body):
        """params: [(type, name)]"""
        self.funcs.append((name, F(rt, [t for t, _ in params]), [n for _, n in params], body))

    # --- rendering ---
    def ex(self, n, lvl=0):
        t, p = self._ex(n)
        return '(' + t + ')' if p < lvl or (self.paren == 'full' and p < 15 and lvl > 0) else t

    def _ex(self, n):
        k = n['k']
        if '_s' in n: return n['_s'], 16
        if k == 'v': return n['n'], 16
        if k == 'un':
            t = self.ex(n['a'], 14)
            return n['o'] + (' ' if t[:1] in '+-' and n['o'] in '+-' else '') + t, 14
        if k == '*': return '*' + self.ex(n['a'], 14), 14
        if k == '&':
            t = self.ex(n['a'], 14)
            return '&' + (' ' if t[:1] == '&' else '') + t, 14
        if k == 'cast': return '(' + declare(n['t'], '', self) + ')' + self.ex(n['a'], 14), 14
        if k == 'szt': return 'sizeof(' + declare(n['t'], '', self) + ')', 14
        if k == 'sze':
            t = self.ex(n['a'], 14)
            return 'sizeof' + ('' if t.startswith('(') else ' ') + t, 14
        if k == '++':
            o = n['o']
            s = '++' if o[-1] == '+' else '--'
            if o.startswith('pre'):
                t = self.ex(n['a'], 14)
                return s + (' ' if t[:1] in '+-' else '') + t, 14
            return self.ex(n['a'], 15) + s, 15
        if k == '[]': return self.ex(n['a'], 15) + '[' + self.ex(n['b']) + ']', 15
        if k in ('.', '->'): return self.ex(n['a'], 15) + k + n['m'], 15
        if k == 'call': return self.ex(n['f'], 15) + '(' + ', '.join(self.ex(a, 2) for a in n['as']) + ')', 15
        if k == 'b':
            p = BINP[n['o']]
            return self.ex(n['a'], p) + ' ' + n['o'] + ' ' + self.ex(n['b'], p + 1), p
        if k == '&&': return self.ex(n['a'], 5) + ' && ' + self.ex(n['b'], 6), 5
        if k == '||': return self.ex(n['a'], 4) + ' || ' + self.ex(n['b'], 5), 4
        if k == '?': return self.ex(n['c'], 4) + ' ? ' + self.ex(n['a']) + ' : ' + self.ex(n['b'], 3), 3
        if k == '=': return self.ex(n['a'], 14) + ' = ' + self.ex(n['b'], 2), 2
        if k == 'op=': return self.ex(n['a'], 14) + ' ' + n['o'] + '= ' + self.ex(n['b'], 2), 2
        if k == 'il': return '{' + ', '.join(self.ex(x, 2) for x in n['xs']) + '}', 16
        raise ValueError(k)

    def st(self, n, ind=1):
        k = n['k']
        w = '    ' * ind
        if '_s' in n: return w + n['_s'] + '\n'
        if k == ';': return w + ';\n'
        if k == 'e': return w + self.ex(n['a']) + ';\n'
        if k == '{' and n.get('_bare'): return ''.join(self.st(s, ind) for s in n['ss'])      # a scope of the machine without braces
        if k == '{': return w + '{\n' + ''.join(self.st(s, ind + 1) for s in n['ss']) + w + '}\n'
        if k == 'if':
            t = w + 'if (' + self.ex(n['c']) + ')\n' + self.st(n['a'], ind + 1)
            if n['b'] is not None: t += w + 'else\n' + self.st(n['b'], ind + 1)
            return t
        if k == 'while': return w + 'while (' + self.ex(n['c']) + ')\n' + self.st(n['b'], ind + 1)
        if k == 'for':
            i = ';' if n['i'] is None else (self.st(n['i'], 0).strip() if n['i']['k'] == 'decl' else self.ex(n['i']) + ';')
            return (w + 'for (' + i + ' ' + ('' if n['c'] is None else self.ex(n['c'])) + '; ' +
                    ('' if n['s'] is None else self.ex(n['s'])) + ')\n' + self.st(n['b'], ind + 1))
        if k == 'sw': return w + 'switch (' + self.ex(n['c']) + ')\n' + self.st(n['b'], ind + 1)
        if k == 'case': return w + 'case ' + self.ex(n['v'], 3) + ':\n' + self.st(n['b'], ind + 1)
        if k == 'dflt': return w + 'default:\n' + self.st(n['b'], ind + 1)
        if k in ('break', 'continue'): return w + k + ';\n'
        if k == 'ret': return w + 'return' + ('' if n['a'] is None else ' ' + self.ex(n['a'])) + ';\n'
        if k == 'decl':
            return w + declare(n['t'], n['n'], self) + ('' if n['i'] is None else ' = ' + self.ex(n['i'], 2)) + ';\n'
        if k == 'enx': return w + self.enum_text('', n['_cs']) if '_cs' in n else ''
        if k == 'enum': return w + 'enum {' + ', '.join('%s = %d' % (c, v) for c, v in n['cs']) + '};\n'
        raise ValueError(k)

    def text(self):
        if self.wild: self.wild = random.Random(self.id)
        o = [self.pre] if self.pre else []
        o += self.types()
        for n, t, k in self.externs: o.append(declare(t, n, self) + ';\n')
        for n, t, ps, b in self.funcs:
            if n in self.protos or n in self.foreign: o.append(declare(t, n, self) + ';\n')
        for n, t, i in self.globals:
            o.append(declare(t, n, self) + ('' if i is None else ' = ' + self.ex(i, 2)) + ';\n')
        for n, t, ps, b in self.funcs:
            if n not in self.foreign: o.append(declare(t, n, self, ps) + ' ' + self.st(b, 0))
        return ''.join(o)

    def foreign_text(self):
        """The unit for the system compiler."""
        if not self.foreign: return self.companion
        w, self.wild = self.wild, None
        o = self.types()
        for n, t, k in self.externs: o.append(declare(t, n, self) + ';\n')
        for n, t, ps, b in self.funcs: o.append(declare(t, n, self) + ';\n')
        for n, t, i in self.globals: o.append('extern ' + declare(t, n, self) + ';\n')
        for n, t, ps, b in self.funcs:
            if n in self.foreign: o.append(declare(t, n, self, ps) + ' ' + self.st(b, 0))
        self.wild = w
        return self.companion + ''.join(o)

    def types(self):
        o = []
        for i, (tag, ms) in enumerate(self.structs):
            if i + 1 in self.inner: continue
            o.append('struct %s {\n%s};\n' % (tag, ''.join('    %s;\n' % declare(t, n, self) for n, t in ms)))
        for e in self.enums: o.append('enum {%s = %d};\n' % e if isinstance(e, tuple) else self.enum_text('', e))
        return o + self.mid

    def enum_text(self, tag, cs):
        return 'enum ' + tag + '{' + ', '.join(c + ('' if x is None else ' = ' + (x if isinstance(x, str) else self.ex(x, 3))) for c, x in cs) + '};\n'

    # --- export ---
    def export(self):
        nodes = []

        def put(n):
            if n is None: return 0
            d = {k: v for k, v in n.items() if k[0] != '_'}
            if 't' in d: d['t'] = strip(d['t'])
            for f in KIDS.get(n['k'], []): d[f] = put(n[f])
            if n['k'] == 'call':
                d['f'] = put(n['f'])
                d['as'] = [put(a) for a in n['as']]
            if n['k'] in ('{',): d['ss'] = [put(a) for a in n['ss']]
            if n['k'] == 'il': d['xs'] = [put(a) for a in n['xs']]
            nodes.append(d)
            return len(nodes)

        gl = [{'n': n, 't': strip(t), 'i': put(i)} for n, t, i in self.globals]
        fn = [{'n': n, 't': strip(t), 'ps': ps, 'b': put(b)} for n, t, ps, b in self.funcs]
        en = []
        for e in self.enums:
            for j, (c, x) in enumerate([e] if isinstance(e, tuple) else e):
                en.append([c, 'n', x] if isinstance(x, int) else [c, 'v', x] if isinstance(x, str) else [c, 'e', put(x)] if x else [c, 'n', 0] if j == 0 else [c, '+', 0])
        main = [f['n'] for f in fn].index('main') + 1
        return {'id': self.id, 'st': [[[m, strip(t)] for m, t in ms] for _, ms in self.structs], 'nd': nodes, 'gl': gl,
                'fn': fn, 'ex': [{'n': n, 't': strip(t), 'k': k} for n, t, k in self.externs], 'en': en, 'main': main}


def names_in(n, acc=None):
    """Names used in a tree."""
    acc = set() if acc is None else acc
    if isinstance(n, dict):
        if n.get('k') == 'v': acc.add(n['n'])
        for v in n.values(): names_in(v, acc)
    elif isinstance(n, (list, tuple)):
        for v in n: names_in(v, acc)
    return acc


def prune(prog, decls, body):
    """Declarations (and globals of prog) that body needs."""
    used = names_in(body)
    keep = []
    for d in reversed(decls):
        if d['n'] in used:
            keep.append(d)
            names_in(d, used)
    prog.globals = [g for g in prog.globals if g[0] in used]
    return keep[::-1]
