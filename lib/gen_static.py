"""Texts for the static semantics: matrices of constructs, and random programs that are nearly right."""
import itertools, re

# operands: (declarations at file scope, declarations in the function, expression)
S = 'struct S { int a; char b; };'
T = 'struct T { int a; char b; };'
OPERANDS = [
    ('', '', '1'), ('', '', '0'), ('', '', "'a'"), ('', '', '"str"'), ('', '', '5000000000'), ('', '', '7u'),
    ('', 'char c;', 'c'), ('', 'int i;', 'i'), ('unsigned u;', '', 'u'), ('', 'long l;', 'l'), ('', 'unsigned long ul;', 'ul'),
    ('enum E { EA, EB };', '', 'EA'), ('enum E { EA, EB };', 'enum E e;', 'e'),
    ('', 'int *pi;', 'pi'), ('char *pc;', '', 'pc'), ('', 'unsigned *pq;', 'pq'), ('', 'void *pv;', 'pv'), ('', 'int **pp;', 'pp'), ('', 'void **pvv;', 'pvv'), ('', 'int ***ppp;', 'ppp'),
    (S, 'struct S *ps;', 'ps'), (T, 'struct T *pt;', 'pt'), ('struct U;', 'struct U *pu;', 'pu'),
    ('', 'int (*pa)[3];', 'pa'), ('', 'int (*pb)[4];', 'pb'),
    ('', 'int (*pf)(int);', 'pf'), ('', 'int (*pg)(long);', 'pg'), ('', 'int (*ph)(int, int);', 'ph'), ('', 'void (*pw)(int);', 'pw'),
    ('', 'int a[3];', 'a'), ('char ca[4];', '', 'ca'), ('', 'int m[2][3];', 'm'), ('', 'int *ap[2];', 'ap'),
    (S, 'struct S s;', 's'), (T + ' struct T t;', '', 't'), (S, 'struct S sa[2];', 'sa'),
    ('int f(int x);', '', 'f'), ('void v(void);', '', 'v()'), ('void v(void);', '', 'v'), ('int f(int x);', '', 'f(1)'),
    ('', 'int i;', '(i + 1)'), ('', 'int *pi;', '*pi'), (S, 'struct S *ps;', 'ps->a'), (S, 'struct S s;', 's.b'), ('', 'int a[3];', 'a[1]'),
    ('', 'int i;', '&i'), ('', 'int a[3];', '&a'), ('int f(int x);', '', '&f'), ('int f(int x);', '', '*f'), ('', 'void *pv;', '*pv'),
    ('', 'int i;', 'i++'), ('', 'int *pi;', 'pi--'), ('', 'int i;', '(i)'), ('', 'int i;', '!i'), ('', 'int i;', 'sizeof i'),
    ('', 'char c;', '(char)c'), ('', 'int *pi;', '(void *)pi'), ('', 'long l;', '(l = 1)'), ('', 'int i;', '(i ? i : i)'),
    (S + ' struct S *g(int x);', '', 'g(1)'), ('void *w(void);', '', 'w()'), ('', 'int m[2][3];', 'm[1]'), ('', 'int (*pa)[3];', '*pa'),
]
BINARY = ['*', '/', '%', '+', '-', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '^', '|', '&&', '||']
ASSIGN = ['=', '*=', '/=', '%=', '+=', '-=', '<<=', '>>=', '&=', '^=', '|=']
UNARY = ['%s++', '%s--', '++%s', '--%s', '&%s', '*%s', '+%s', '-%s', '~%s', '!%s', 'sizeof %s', '%s.a', '%s.b', '%s->a', '%s->zz', '%s.zz', '%s()', '%s(1)',
         '%s(1, 2)', '%s[1]', '1[%s]', '(%s)', '&*%s', '*&%s', '&%s[0]', '%s = %s', '- - %s', '!!%s', '&&%s', '(%s)++', '**%s', '&(%s)', 'sizeof(%s)']
TYPES = [('', 'char'), ('', 'int'), ('', 'unsigned'), ('', 'long'), ('', 'void'), ('', 'int *'), ('', 'char *'), ('', 'void *'), ('', 'int **'), ('', 'void **'),
         (S, 'struct S'), (S, 'struct S *'), ('struct U;', 'struct U *'), ('struct U;', 'struct U'), ('', 'int [3]'), ('', 'int (*)[3]'), ('', 'int (*)(int)'), ('', 'int (int)'),
         ('enum E { EA, EB };', 'enum E'), ('typedef int W;', 'W'), ('typedef int X[3];', 'X'), ('typedef int Y(int);', 'Y'), ('typedef int Y(int);', 'Y *')]
OBJECTS = [(f, d, n) for f, d, n in OPERANDS if re.fullmatch(r'[a-z]+', n)]


def merge(*xs):
    """Declarations of several operands, each once."""
    seen, out = set(), []
    for x in xs:
        for d in re.findall(r'struct \w+ \{[^}]*\};|enum \w+ \{[^}]*\};|[^;]+;', x):
            d = d.strip()
            if d and d not in seen:
                seen.add(d)
                out.append(d)
    return ' '.join(out)


def body(fs, ds, stmts, ret='int', tail='return 0;'): return '%s %s main(void) { %s %s %s }' % (merge(*fs), ret, merge(*ds), stmts, tail)


def matrix(full=True, rng=None):
    """(family, text): every operator on every pair of operands; contexts on every operand."""
    O = OPERANDS
    for (fa, da, a), (fb, db, b) in itertools.product(O, O):
        for o in BINARY: yield 'binary', body((fa, fb), (da, db), '%s %s %s;' % (a, o, b))
    for (fa, da, a), (fb, db, b) in itertools.product(O, O):
        for o in ASSIGN: yield 'assign', body((fa, fb), (da, db), '%s %s %s;' % (a, o, b))
    for (fa, da, a), (fb, db, b) in itertools.product(O, O):
        yield 'index', body((fa, fb), (da, db), '%s[%s];' % (a, b))
        yield 'conditional', body((fa, fb), (da, db, 'int q;'), 'q ? %s : %s;' % (a, b))
    yield from contexts()


def contexts():
    O = OPERANDS
    for f, d, e in O:
        for u in UNARY: yield 'unary', body((f,), (d,), u.replace('%s', e) + ';')
        for g, t in TYPES:
            yield 'cast', body((f, g), (d,), '(%s)%s;' % (t, e))
            if t not in ('int [3]', 'int (*)[3]', 'int (*)(int)', 'int (int)', 'void'):
                yield 'initializer', body((f, g), (d,), '%s z = %s;' % (t, e))
                yield 'braced', body((f, g), (d,), '%s z = { %s };' % (t, e))
                yield 'return', '%s %s r(void) { %s return %s; }' % (merge(f, g), t, d, e)
                yield 'argument', body((f, g), (d, '%s h(%s x);' % ('int', t)), 'h(%s);' % e) if False else '%s int h(%s x); int main(void) { %s h(%s); return 0; }' % (merge(f, g), t, d, e)
                yield 'global', '%s %s %s z = %s;' % (merge(f, g), d, t, e)
        for s in ['if (%s) ;', 'while (%s) ;', 'for (; %s; ) ;', 'for (%s; ; ) break;', 'for (; ; %s) break;', 'switch (%s) ;', 'switch (1) { case %s: ; }', 'switch (1) { case 1: ; case %s: ; }',
                  'int z[%s];', 'enum { Z = %s };', '%s ? 1 : 2;', 'return %s;', '(void)%s;', '{ %s; }', 'int z[3] = { %s };', 'char z[4] = %s;', 'char z[4] = { %s };', 'int z[2][2] = { { %s } };',
                  'int z[2][2] = { %s, 2, 3 };', 'case %s: ;', '%s;;', 'if (1) %s; else %s;', 'int z = 1 + %s;', 'int z[3] = %s;']:
            yield 'context', body((f,), (d,), s.replace('%s', e))
        yield 'void return', '%s void r(void) { %s return %s; }' % (f, d, e)
        yield 'member', '%s struct Z { int a; int *p; char c[3]; }; int main(void) { %s struct Z z = { %s }; return 0; }' % (f, d, e)
        yield 'member', '%s struct Z { int a; int *p; char c[3]; }; int main(void) { %s struct Z z = { 1, %s }; return 0; }' % (f, d, e)
        yield 'member', '%s struct Z { int a; int *p; char c[3]; }; int main(void) { int q; %s struct Z z = { 1, &q, %s }; return 0; }' % (f, d, e)
        yield 'global array', '%s %s int z[3] = { 1, %s };' % (f, d, e)


# declarators: every small combination of pointer, array, function and parentheses over some base types
def declarators():
    D = ['x']
    for _ in range(3):
        D += ['*' + d for d in D] + ['(%s)' % d for d in D if d != 'x'] + [d + '[2]' for d in D] + [d + '(int)' for d in D] + [d + '(void)' for d in D]
        D = sorted(set(D), key=lambda d: (len(d), d))
        D = [d for d in D if len(re.findall(r'\*|\[|\(int|\(void', d)) <= 3 and d.count('((') == 0]
    B = [('', 'int'), ('', 'void'), ('struct S { int a; };', 'struct S'), ('struct U;', 'struct U'), ('typedef int X[3];', 'X'), ('typedef int Y(int);', 'Y'), ('typedef void V;', 'V')]
    for (f, b), d in itertools.product(B, D):
        yield 'declarator', '%s %s %s;' % (f, b, d)
        yield 'declarator', '%s int main(void) { %s %s; return 0; }' % (f, b, d)
        yield 'declarator', '%s typedef %s %s; int y;' % (f, b, d)
        yield 'declarator', '%s struct Q { %s %s; int k; }; struct Q q;' % (f, b, d)
        yield 'declarator', '%s int g(%s %s); int y;' % (f, b, d)
        yield 'declarator', '%s int g(%s %s) { return 0; }' % (f, b, d)
        a = d.replace('x', '')
        yield 'declarator', '%s int main(void) { return sizeof(%s %s) > 0; }' % (f, b, a)
        yield 'declarator', '%s int g(%s %s); int y;' % (f, b, a)
        yield 'declarator', '%s int main(void) { int i; (%s %s)i; return 0; }' % (f, b, a)
        yield 'declarator', '%s %s %s { }' % (f, b, d)


# specifiers: every sequence of up to 4 of the words
def specifiers():
    W = ['int', 'char', 'long', 'unsigned', 'void', 'typedef', 'struct S', 'enum E', 'T']
    for n in range(0, 5):
        for w in itertools.product(W, repeat=n):
            if n == 4 and len(set(w) & {'struct S', 'enum E', 'T', 'void'}) > 1: continue
            yield 'specifiers', 'struct S { int a; }; enum E { A }; typedef long T; %s x; int y;' % ' '.join(w)


# the same words where a declaration, parameter, member or type name has them
SPEC_AT = ['int f(@);', 'int f(@ a) { return 0; }', 'int f(int b, @ a);', 'struct Q { @ m; };', 'int f(int a) { @ x; return 0; }', 'int f(int a) { for (@ i = 0; i < 3; i++) ; return 0; }', 'int f(int a) { return (@)a; }', 'int f(int *a) { (@ *)a; return 0; }',
           'int f(int a) { return sizeof(@); }', '@ f(int a);', '@ *f(int a);', 'typedef @ X; X x;', 'typedef @ X; X *x;', '@ *p;', '@ a[3];', 'int (*f)(@);', '@ (*f)(int);', 'int f(@);  int g(void) { return f(); }', 'int f(@); int g(void) { return f(1); }', 'int f(@ (a));', '@;', 'int f(int a) { @; return 0; }']


def specifiers_at():
    W = ['int', 'char', 'long', 'unsigned', 'void', 'typedef', 'struct S', 'enum E', 'T', 'V']
    for n in range(0, 4):
        for w in itertools.product(W, repeat=n):
            if n == 3 and len(set(w) & {'struct S', 'enum E', 'T', 'V', 'void'}) > 1: continue
            for c in SPEC_AT: yield 'specifiers_at', 'struct S { int a; }; enum E { A }; typedef long T; typedef void V; ' + c.replace('@', ' '.join(w))


def params():
    P = ['int', 'int a', 'int b', 'void', 'void a', 'void *', 'void *a', 'int a[3]', 'int [3]', 'int a[]', 'int (int)', 'int a(int)', 'int (*)(int)', 'int (*a)(int)', 'struct S a', 'struct S *a', 'struct U *a', 'struct U a', 'T', 'T a', 'T T', 'T *', 'T (a)', 'T (T)',
         'V', 'V a', 'F', 'F a', 'F *a', '...', '', 'a', '1', 'int a = 1', 'typedef int a', 'unsigned', 'int a[2][3]', 'int *a[2]', 'int a, b', 'int a;', 'enum E', 'enum E a', 'A']
    C = ['int f(@);', 'int f(@) { return 0; }', 'int f(@) { return a; }', 'int f(@) { int a; return 0; }', 'int f(@) { { int a; } return b; }', 'int (*f)(@);', 'typedef int X(@); X *x;', 'int f(int (*g)(@));', 'int f(int x) { return sizeof(int (*)(@)); }', 'int f(int x) { int (*g)(@); return 0; }',
         'struct Q { int (*m)(@); };', 'int (*f(@))(int);', 'int (*f(int a))(@);']
    for n in (1, 2):
        for w in itertools.product(P, repeat=n):
            for c in C: yield 'params', 'struct S { int m; }; struct U; enum E { A }; typedef int T; typedef void V; typedef int F(int); ' + c.replace('@', ', '.join(w))


# names: declare a name twice, use it in and out of its scope
def names():
    D = [('object', 'int n;'), ('long object', 'long n;'), ('array', 'int n[3];'), ('array 4', 'int n[4];'), ('function', 'int n(int q);'), ('function 2', 'int n(long q);'), ('typedef', 'typedef int n;'),
         ('typedef long', 'typedef long n;'), ('enumerator', 'enum { n };'), ('structure', 'struct n { int a; };'), ('enumeration', 'enum n { n1 };'), ('tag', 'struct n;'), ('tag use', 'struct n *p_@;'),
         ('enum use', 'enum n e_@;'), ('initialized', 'int n = 1;'), ('definition', 'int n(int q) { return q; }'), ('definition void', 'void n(void) { }'), ('pointer', 'int *n;'), ('none', '')]
    U = ['n;', 'n = 1;', 'n(1);', 'n();', 'n x_u;', 'struct n x_u;', 'enum n x_u;', 'struct n *x_u;', '(n)1;', 'sizeof(n);', '&n;', 'n[0];', '*n;', 'switch (1) { case n: ; }', 'int z[n];', 'n: ;', ';']
    k = [0]

    def at(t):
        k[0] += 1
        return t.replace('@', str(k[0]))
    for (_, a), (_, b) in itertools.product(D, D):
        yield 'names', at(a) + ' ' + at(b) + ' int y;'
        if 'definition' in a or '{ return' in a or '{ }' in a: continue
        yield 'names', at(a) + ' int main(void) { ' + at(b) + ' return 0; }' if '{ }' not in b and 'return' not in b else at(a) + ' int y;'
        if '{ }' in b or 'return' in b: continue
        yield 'names', 'int main(void) { ' + at(a) + ' ' + at(b) + ' return 0; }'
        yield 'names', 'int main(void) { ' + at(a) + ' { ' + at(b) + ' } return 0; }'
        for u in U:
            yield 'names', at(a) + ' int main(void) { ' + at(b) + ' ' + u + ' return 0; }'
            yield 'names', at(a) + ' int main(void) { { ' + at(b) + ' } ' + u + ' return 0; }'
            yield 'names', at(a) + ' int fn(int n) { ' + u + ' { ' + at(b) + ' ' + u + ' } return 0; }'


HEADS = ['if (i)', 'else', 'while (i)', 'for (;;)', 'for (int j = 0; j < 2; j++)', 'switch (i)', 'case 1:', 'case 2:', 'default:', '{', '}', 'break;', 'continue;', 'return 0;', 'i++;', ';', 'int i;', 'int k;', 'k++;', 'j++;']


def statements(n):
    """Every sequence of n heads."""
    for w in itertools.product(HEADS, repeat=n):
        t = ' '.join(w)
        if t.count('{') != t.count('}'): continue
        yield 'statements', 'int main(void) { int i = 0; %s }' % t


def members():
    M = ['int a;', 'int b;', 'int a, b;', 'int a, a;', 'char a[3];', 'int a(int);', 'int (*a)(int);', 'struct Z a;', 'struct Z *a;', 'struct W a;', 'struct W *a;', 'struct U a;', 'struct U *a;', 'void a;',
         'void *a;', 'struct { int a; } b;', 'struct { int a; };', 'enum { A } a;', 'enum { A } b;', 'int;', ';', 'typedef int a;', 'int a = 1;', 'int a : 3;', 'T a;', 'F a;', 'V a;', 'T T;', 'struct W { int a; } b;', 'int a[0];', 'int *a, b;', 'A a;', 'int']
    for n in (0, 1, 2):
        for w in itertools.product(M, repeat=n):
            yield 'members', 'struct W { int q; }; struct U; typedef int T; typedef int F(int); typedef void V; struct Z { %s }; struct Z z;' % ' '.join(w)
            yield 'members', 'struct W { int q; }; struct U; typedef int T; typedef int F(int); typedef void V; int main(void) { struct Z { %s } z; return z.a; }' % ' '.join(w)


def initializers(n):
    """Initializers of up to n tokens for some types."""
    W = ['{', '}', ',', '1', '"ab"', 'p', 's']
    Ty = ['int x', 'int *x', 'char x[3]', 'char x[2]', 'int x[2]', 'int x[2][2]', 'struct S x', 'struct S x[2]', 'char x[2][2]', 'struct R x', 'char *x', 'char *x[2]']
    for k in range(1, n + 1):
        for w in itertools.product(W, repeat=k):
            t = ' '.join(w)
            if t.count('{') != t.count('}') or not any(c in t for c in '1"ps'): continue
            if ', ,' in t: continue
            for x in Ty:
                yield 'initializers', 'struct S { int a; char b; }; struct R { struct S s; char c[2]; int *q; }; int main(void) { int *p; struct S s; %s = %s; return 0; }' % (x, t)
                if k < n: yield 'initializers', 'struct S { int a; char b; }; struct R { struct S s; char c[2]; int *q; }; %s = %s;' % (x, t)


def clauses():
    """Tags and enumerators declared and used in the heads and the substatements of statements, and around them."""
    X = ['sizeof(struct S { int a; })', 'sizeof(enum { A })', 'sizeof(enum S { B })', 'sizeof(struct S)', 'A', 'B', '1']
    T = ['if (@) @;', 'if (@) @; else @;', 'if (@) { @; @; } else @;', 'while (@) @;', 'while (@) { @; @; }', 'for (i = @; @; i = @) @;', 'for (int j = @; @; i++) { @; @; }', 'switch (@) { case 1: @; }', 'switch (@) case 1: @;',
         'if (i) while (@) @; else @;', '{ @; @; } @;', '@; if (@) @;', 'while (@) if (@) @;']
    P = ['', ' @;', ' struct S q;', ' struct S { char b; } q;', ' enum { A };', ' int A;']
    for t in T:
        for p in P:
            k = (t + p).count('@')
            for w in itertools.product(X, repeat=k):
                if sum(c != '1' for c in w) > 3: continue
                b = t + p
                for c in w: b = b.replace('@', c, 1)
                yield 'clauses', 'int main(void) { int i = 0; ' + b + ' return 0; }'
                if k < 3: yield 'clauses', 'struct S { long z; }; enum { A = 5, B }; int main(void) { int i = 0; ' + b + ' return 0; }'


def deep_initializers(rng, n):
    """Initializers of random aggregates with braces left out, lists cut short and elements added."""
    for _ in range(n):
        tags = []

        def ty(d):
            r = rng.random()
            if d == 0 or r < (0, .45, .25, 0)[d]: return ('i', rng.choice(['int', 'char', 'long']))
            if r < (0, .6, .4, .1)[d]: return ('a', ('i', 'char'), rng.randint(2, 3))
            if r < .7: return ('a', ty(d - 1), rng.randint(1, 3))
            ms = [ty(d - 1) for _ in range(rng.randint(1, 3))]
            tags.append('struct T%d { %s };' % (len(tags), ' '.join(dec(m, 'm%d' % i) + ';' for i, m in enumerate(ms))))
            return ('s', len(tags) - 1, ms)

        def dec(t, x):
            while t[0] == 'a': x, t = '%s[%d]' % (x, t[2]), t[1]
            return (t[1] if t[0] == 'i' else 'struct T%d' % t[1]) + ' ' + x

        def subs(t): return [t[1]] * t[2] if t[0] == 'a' else t[2]

        def items(t, top):
            """The elements of a list for t."""
            if t[0] == 'a' and t[1] == ('i', 'char') and rng.random() < .3: return ['"%s"' % ('abcd'[:max(0, t[2] - rng.choice([0, 1, 1, 1, 2, -1]))])]
            out = []
            for u in subs(t):
                if u[0] == 'i': out.append('1' if rng.random() < .97 else rng.choice(['{ 1 }', '{ 1, 2 }', '{ { 1 } }', 'i', '{ }']))
                elif rng.random() < .5: out.append(lst(u))
                else: out += items(u, False)
            return out

        def lst(t):
            l = items(t, True)
            r = rng.random()
            if r < .2: l = l[:rng.randint(1, len(l))]
            elif r < .28: l = l + [rng.choice(['1', '{ 1 }', '"a"'])]
            elif r < .31: l.insert(rng.randrange(len(l) + 1), rng.choice(['1', '{ 1 }', '{ 1, 2 }', '"a"']))
            return '{ ' + ', '.join(l) + (',' if rng.random() < .1 else '') + ' }'

        t = ty(3)
        if t[0] == 'i': t = ('a', t, 2)
        d = '%s = %s;' % (dec(t, 'x'), lst(t))
        if rng.random() < .3: yield 'deep initializers', ' '.join(tags) + ' ' + d
        else: yield 'deep initializers', ' '.join(tags) + ' int main(void) { int i = 3; ' + d + ' return 0; }'


# constructs nested at random: an expression inside expressions inside statements inside functions
ECTX = ['(@)', '@ + 1', '1 - @', '!@', '-@', '@ ? 1 : 2', '1 ? @ : 3', '0 ? 1 : @', '1 && @', '@ || 0', 'fz(@)', 'fz2(1, @)', 'fz2(@, 2)', 'az[@]', 'kz = @', 'kz += @', '(int)@', '(char)@', 'sizeof (@)',
        '~@', '@ * 2', '@ << 1', '@ == 1', '@ < 2', '@ & 3', 'pz[@]', '*(pz + @)', 'fz(fz(@))', 'sz.a = @', 'spz->b = @', 'az[1] = @', '*pz = @', '&*@', '*&@', '(@)[0]', '(@).a', '(@)->a', '(void)@', '@ % 5', '(kz = @) + 1']
SCTX = ['{ @ }', 'if (kz) @', 'if (kz) ; else @', 'while (kz) @', 'for (;;) @', 'for (int iz = 0; iz < 2; iz++) @', 'switch (kz) { case 1: @ }', 'switch (kz) { default: @ }', 'switch (kz) { case 1: break; case 2: @ break; default: ; }',
        '{ int kz; @ }', '{ kz++; @ kz--; }', '{ { } @ { } }', 'if (kz) { } else if (az[0]) @ else ;', 'while (1) { break; @ }', 'switch (kz) @', '{ typedef int tz; @ }', '{ return 1; @ }']
LEAF = ['@;', 'kz = @;', 'return @;', 'if (@) ;', 'while (@) ;', 'for (@;;) break;', 'for (; @;) break;', 'for (;; @) break;', 'for (int iz = @; ; ) break;', 'switch (@) ;', '{ int nz = @; }', '{ int nz[2] = { 1, @ }; }',
        '{ int nz[2][2] = { { 1 }, { 2, @ } }; }', '{ struct Z nz = { @ }; }', '{ struct Z nz = { 1, @ }; }', '{ int *nz = @; }', '{ char nz = @, mz = 1; }', '{ int nz = 1, mz = @; }', '{ void *nz = @; }', 'fz(@);', '{ struct Z *nz = @; }']
JUMPS = ['break;', 'continue;', 'case 1: ;', 'default: ;', 'return;', 'return 1;', 'int kz;', 'int az;', 'typedef int kz;', 'undeclared;', 'fz();', 'fz(1, 2);', '1 = 2;', 'case kz: ;', 'az = az;', 'sz = 1;', 'struct Z { int q; };',
         'struct Y yz;', 'enum { kz };', 'enum Y yz;', 'kz', ')', '}', '{', 'else ;', 'int;', 'void vz;', 'int fz;', 'int wz = sz;', 'int wz[2] = { 1, 2, 3 };', 'char wz[1] = "ab";', 'kz.a;', 'sz.q;', 'spz.a;', 'sz->a;', '*kz;', '&1;', '++1;',
         'pz = &kz;', 'pz = az;', 'pz = &az;', 'pz = kz;', 'kz = pz;', 'spz = &sz;', 'spz = pz;', 'pz = spz;', 'if (sz) ;', 'while (sz) ;', 'for (; sz; ) ;', 'switch (pz) ;', 'switch (sz) ;', 'sizeof fz;', '(struct Z)kz;', '(int)sz;', 'fz(sz);',
         'fz(pz);', 'fz2(1, sz);', 'sz + 1;', 'pz + pz;', 'pz * 2;', '-pz;', '~pz;', '!sz;', 'pz - spz;', 'pz < spz;', 'pz == kz;', 'kz ? pz : 1;', 'kz ? spz : pz;', 'kz(1);', 'az(1);', 'kz[1];', 'az[pz];', 'az[sz];', '1++;', 'az++;', 'fz++;', 'fz = 1;']
ZPRE = 'struct Z { int a; char b; }; int fz(int xz); int fz2(int xz, long yz); int az[3]; '
ZLOC = 'int kz = 1; int *pz = &kz; struct Z sz; struct Z *spz = &sz; '


def nested(rng, n):
    """n random nestings of a construct."""
    for _ in range(n):
        fs, ds = '', ''
        k = rng.random()
        if k < .45:      # an expression
            (fa, da, a), (fb, db, b) = rng.choice(OPERANDS), rng.choice(OPERANDS)
            e, fs, ds = a, fa, da
            if rng.random() < .6:
                fs, ds = merge(fa, fb), merge(da, db)
                r = rng.random()
                e = '%s %s %s' % (a, rng.choice(BINARY), b) if r < .6 else '%s %s %s' % (a, rng.choice(ASSIGN), b) if r < .8 else '%s[%s]' % (a, b) if r < .9 else '1 ? %s : %s' % (a, b)
            elif rng.random() < .5: e = rng.choice(UNARY).replace('%s', a)
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                if rng.random() < .7: e = '(%s)' % e
                e = rng.choice(ECTX).replace('@', e)
            s = rng.choice(LEAF).replace('@', e)
        elif k < .8: s = rng.choice(JUMPS)
        else: s = rng.choice(JUMPS) + ' ' + rng.choice(JUMPS)
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4])): s = rng.choice(SCTX).replace('@', s)
        pre = rng.choice(['', '', 'int gz(int qz) { return qz; } ', 'void hz(void) { return; } ', 'typedef int tz; ', 'int oz = 3; '])
        post = rng.choice(['', '', ' int iz(int qz) { return qz; }', ' void jz(void) { }', ' int uz;'])
        yield 'nested', pre + fs + ' ' + ZPRE + rng.choice(['int main(void)', 'int mz(int lz)', 'long mz(long lz, char *cz)']) + ' { ' + ZLOC + ds + ' ' + s + ' return 0; }' + post


def everything(depth):
    """All families; depth 0 small, 1 usual, 2 deep."""
    yield from contexts()
    yield from declarators()
    yield from specifiers()
    yield from names()
    yield from members()
    yield from statements(3)
    yield from initializers(4 if depth < 2 else 6)
    if depth: yield from matrix()
    if depth > 1: yield from statements(4)
