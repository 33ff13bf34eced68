"""P16: well-formed programs are accepted and yield assembly that links.

The same reading of texts as in P15: of those that CStatic.tla finds well-formed, TLC checks that the compiler
was silent, wrote an assembly file, that the assembler took it and that it defines the program's names and no others.
Whole programs are linked together as well."""
import itertools, os, re
from .. import gen_static as G
from ..common import *
from ..corpus import collect
from ..mutate import *
from ..static import judge
from . import p15


def families(ctx):
    rng = ctx.rng
    yield 'hand', [('hand', t) for t in HAND]
    yield 'corpus', [('corpus', t) for t in [p.text() for p in collect(rng, ctx.n(.1, .5), ctx.n(25, 150))] if len(t) < ctx.n(3000, 10000)]
    yield 'spellings', list(spellings(rng, ctx.n(600, 6000)))
    yield 'valid', list(valid(rng, ctx.n(5000, 50000)))
    for f, q in (('contexts', 4000), ('declarators', 3000), ('names', 4000), ('members', 600), ('specifiers', 700), ('specifiers_at', 2000), ('params', 2500)):
        L = list(dict.fromkeys(getattr(G, f)()))
        yield f, L if not ctx.quick else rng.sample(L, min(q, len(L)))
    yield 'deep', list(deep(rng, ctx.n(2500, 30000)))
    yield 'statements', p15.pick(ctx, G.statements(3), 2000)
    yield 'deep initializers', list(dict.fromkeys(G.deep_initializers(rng, ctx.n(2500, 40000))))
    yield 'clauses', p15.pick(ctx, G.clauses(), 2500, 40000)
    yield 'matrix', p15.pick(ctx, G.matrix(), 8000)
    if not ctx.quick: yield 'mutations', p15.mutations(ctx, 6000)


# expressions of few operands that keep as much as possible in registers
DEEP = ['a', 'c', '1', '*q', '**r', 'f(#)', 'fp(#)', '(*fp)(#)', 'b[#]', 'm[#][#]', 'p->x', 'p->y[#]', 's.y[#]', 's.x', '(a = #)', '(b[#] = #)', '(*q = #)', 'a++', 'b[#]++', '(*q)++', '++*q', '--b[#]', '(a += #)', '(b[#] += #)', '(p->y[#] -= #)', '-#', '!#', '~#', '(char)#',
        '(long)#', '(# ? # : #)', '(# && #)', '(# || #)', 'h(#, #, #)', '*(q + #)', '(q + #)[#]', '(&b[#] - b)', '(# % #)', '(# / #)', '(# << #)', '(# + #)', '(# - #)', '(# < #)', '(# == #)', '(# * #)']


def deep(rng, n):
    for _ in range(n):
        e, top = '#', rng.randint(3, 7)
        while '#' in e:
            room = top - len(re.findall(r'(?!char|long)\b\w+', e)) - e.count('#')
            l = rng.choice([l for l in DEEP if len(re.findall(r'(?!char|long)\b\w+', l)) + l.count('#') - 1 <= room] or ['a', '1', 'c'])
            i = e.rfind('#') if rng.random() < .7 else e.find('#')
            e = e[:i] + l + e[i + 1:]
        yield 'deep', ('struct S { int x; long y[3]; }; int f(int x) { return x; } int h(int x, int y, int z) { return x + y + z; } '
                       'long g(int a, long *b, struct S *p, int *q, int (*fp)(int), int **r) { struct S s; int m[2][2]; char c; ' + rng.choice(['return %s;', '%s;', 'if (%s) ;', 'f(%s);']) % e + ' return 0; }')


# names that mean something to an assembler, or collide with what the compiler makes up
WORDS = '''rax eax al rsp rbp rdi rip r8 r15 st xmm0 cs ds mov add sub call ret push pop text data globl byte quad zero string ptr offset L L0 L1 LC LC0 _L0 _ __ ___ a1 x_1 main2 start _start end etext bss section type
 size align long2 and or not xor shl shr sal sar mod eq ne lt gt le ge dword qword word tbyte near far short2 flat rep lock nop hlt printf malloc exit free strlen abs x X Xx xX int2 Int INT retq leaq LMAIN0 LMAIN MAIN0 LF0 f_0 sp bp ip ah bl'''.split()


def spellings(rng, n):
    for w in WORDS:
        yield 'spelling', 'int %s; int main(void) { %s = 1; return %s - 1; }' % (w, w, w)
        yield 'spelling', 'int %s(int a) { return a; } int main(void) { return %s(0); }' % (w, w)
        yield 'spelling', 'int %s[3] = { 1, 2, 3 }; int main(void) { return %s[1] - 2; }' % (w, w)
        yield 'spelling', 'int %s(int a) { return a; } int main(void) { int (*p)(int) = %s; return p(0); }' % (w, w)
        yield 'spelling', 'struct %s { int %s; } %s; int main(void) { return %s.%s; }' % (w, w, w, w, w)
        yield 'spelling', 'char %s[4] = "abc"; int f(int %s) { int a = %s; { int %s = a; return %s; } } int main(void) { return f(%s[3]); }' % (w, w, w, w, w, w)
        yield 'spelling', 'int %s(void); int main(void) { return 0; } int f(void) { return %s(); }' % (w, w)
    A = 'abcxyzLRXYZ_0123456789'
    for _ in range(n):
        ws = set()
        while len(ws) < 3:
            w = rng.choice('abcxyzLRX_') + ''.join(rng.choice(A) for _ in range(rng.choice([0, 1, 2, 3, 8, 31, 63, 200])))
            if w not in KEYWORDS and w != 'main': ws.add(w)
        yield 'spelling', 'int %s = 3; int %s(int a) { if (a) while (a) { a--; } return %s; } int main(void) { int %s = %s(1); return %s - 3; }' % (*list(ws)[:2], list(ws)[0], list(ws)[2], list(ws)[1], list(ws)[2])


INTS = ['1', '0', "'a'", '5000000000', '7u', 'c', 'i', 'u', 'l', 'EA', '*pi', 's.a', 'ps->b', 'a[1]', 'f(1)', 'i++', '--l', 'sizeof i', '(char)i', '(l = 1)', '!pi', 'pi == pj', 'pi - pj', '(i ? c : l)', '-c', '~u', 'm[1][2]', 'pc[0]', '"ab"[1]', '&i == pi', 'pf(2)', 'g(ps)->a', '**pp', 'pv == pv']
PTRS = ['pi', 'pj', '&i', 'a', 'm[1]', 'pi + 1', '*pp', '&a[1]', '(int *)pv', 'pi++', '(i ? pi : a)', '&s.a', '&*pi', '(pi = a)']
STMT = ['@;', 'i = @;', 'l += @;', 'if (@) ; else ;', 'while (@) break;', 'for (int k = @; k < 2; k++) ;', 'switch (@) { case 1: break; default: ; }', '{ int a = @; int b[2] = { @, @ }; }', 'f(@);', 'return @;', 'a[@] = @;', 's.b = @;', 'ps->a = @;', '*pi = @;', '{ struct S s = { @, @ }; }',
        'pi = #;', 'if (#) ;', '{ int *q = #; }', 'pp = &pi; *pp = #;', 'k(#, @);', 'pv = #;', '# == #;', '# < #;', '{ int (*pf)(int) = f; pf(@); }', '{ typedef int T; T t = @; }', '{ int c = @; { long c = @; } }']


def valid(rng, n):
    pre = 'struct S { int a; char b; }; enum E { EA, EB }; int f(int x); struct S *g(struct S *x); int k(int *x, long y); unsigned u; char *pc = 0; '.replace('char *pc = 0;', 'char *pc;')
    loc = 'char c = 1; int i = 2; long l = 3; int *pi = &i; int *pj = pi; int **pp = &pi; void *pv = pi; struct S s; struct S *ps = &s; int a[3]; int m[2][3]; int (*pf)(int) = f; '

    def e(d):
        if d <= 0 or rng.random() < .3: return rng.choice(INTS)
        o = rng.choice(['%s + %s', '%s - %s', '%s * %s', '(%s) / (%s)', '%s << %s', '(%s) < (%s)', '(%s) == (%s)', '(%s) & (%s)', '(%s) && (%s)', '(%s) || (%s)', '(%s) ^ (%s)', '(%s) %% (%s)', '(%s) | (%s)', '(%s) != (%s)', '(%s) >= (%s)', '(%s) >> (%s)'])
        r = rng.random()
        if r < .6: return '(' + o % (e(d - 1), e(d - 1)) + ')'
        return rng.choice(['-(@)', '!(@)', '~(@)', '(long)(@)', '(char)(@)', 'f(@)', 'a[@]', '(@ ? @ : @)', 'sizeof(@)', '(i = @)', 'k(#, @)', '*(# + (@))', '#[@]']).replace('@', '%s').replace('#', '\0') .replace('%s', '@') if False else fill(rng.choice(['-(@)', '!(@)', '~(@)', '(long)(@)', '(char)(@)', 'f(@)', 'a[@]', '((@) ? (@) : (@))', 'sizeof(@)', '(i = @)', 'k(#, @)', '*(# + (@))', '(#)[@]']), d - 1)

    def fill(t, d):
        while '@' in t: t = t.replace('@', e(d), 1)
        while '#' in t: t = t.replace('#', rng.choice(PTRS), 1)
        return t
    for _ in range(n):
        s = ' '.join(fill(rng.choice(STMT), rng.choice([0, 1, 1, 2])) for _ in range(rng.choice([1, 1, 2, 3])))
        for _ in range(rng.choice([0, 0, 1, 2])): s = rng.choice(['{ @ }', 'if (i) { @ }', 'while (i) { @ break; }', 'for (;;) { @ break; }', 'switch (i) { case 1: { @ } }', 'if (i) ; else { @ }', '{ int q = 1; @ }']).replace('@', s)
        yield 'valid', pre + 'int main(void) { ' + loc + s + ' return 0; }'


# units that may be linked with any other: everything they define has their number in its name
UNITS = ['char *n%d(void) { return "abc"; }', 'int n%d(int a) { if (a) return 1; while (a) { a--; } return a ? 2 : 3; }', 'int n%d = 5; int m%d[2] = { 1, 2 };',
         'int n%d(int a) { switch (a) { case 1: return 2; default: return a && 3; } }', 'struct S { int a; } n%d; enum E { A, B }; int m%d(void) { return B; }', 'char n%d[4] = "abc"; char *m%d(void) { char *p = "xyz"; return p; }',
         'typedef int T; T n%d(T x) { T l = x; for (T i = 0; i < 3; i++) l += i; return l; }', 'int n%d(int a) { return a || n%d(a - 1); }', 'int f(int a); int n%d(void) { int (*p)(int) = f; return p(1) + f(2); }',
         'void n%d(void) { } void m%d(void) { n%d(); char *s = "q"; "r"; }']


def link(ctx):
    """Whole valid programs alone, and several units together: the linker takes them, and the exit status is that of the first."""
    T = [t for t in HAND + [t for _, t in spellings(ctx.rng, 0)] if ' main(void)' in t and not re.search(r'\b(printf|malloc|exit|free|strlen|abs|_start|f\(void\) \{ return \w+\(\))\b', t)]
    T = [t for t in T if not re.search(r'int (\w+)\(void\); int main', t)]
    L = [(t,) for t in ctx.rng.sample(T, min(len(T), ctx.n(120, 600)))]
    for i in range(ctx.n(60, 400)):
        us = [u.replace('%d', str(j)) for j, u in enumerate(ctx.rng.choice(UNITS) for _ in range(ctx.rng.choice([1, 2, 3, 5])))]
        L.append(('int f(int a) { char *p = "m"; if (a) return p[1]; return 0; } int main(void) { return f(1); }', *us))
    rt = ctx.rt

    def one(a):
        i, ts = a
        ss = []
        for j, t in enumerate(ts):
            st, detail, s = rt.compile(t, 'link%d-%d' % (i, j))
            if st != 'ok': return None
            ss.append(s)
        exe = ss[0] + '.exe'
        rc, out, err = sh(['gcc', '-o', exe, *ss], timeout=60)
        if rc: rc, out, err = sh(['gcc', '-no-pie', '-o', exe, *ss], timeout=60)
        r = None
        if rc: r = ts, 'the linker rejects the output of well-formed programs', err.decode('latin-1')[-800:]
        elif len(ts) > 1:
            rc, out, err = sh([exe], timeout=20)
            if rc != 0: r = ts, 'units linked together do not run as they should', 'exit status %s' % rc
        if os.path.exists(exe): os.unlink(exe)
        return r
    for r in pmap(one, list(enumerate(L))):
        ctx.count('programs linked')
        if r and len(ctx.viol) < 12: ctx.violate(r[1], {**{'prog%d.c' % j: t for j, t in enumerate(r[0])}, 'linker.txt': r[2]})


def run(ctx):
    p15.run(ctx, 'good', families)
    if not ctx.viol: link(ctx)


HAND = '''struct S { int a; int b; }; int f(struct S *p) { struct S { char b; char c; } s; s.c = 1; { struct S { long b; }; p->a = s.c; } return p->b + s.b; }
struct S { int a; int b; } x; int main(void) { struct S { char c; }; x.b = 3; return sizeof(struct S) - sizeof(x) + x.b; }
int f(int n) { if (sizeof(struct S { char a; char b; }) == 2) n = 1; struct S { long x; long b; }; struct S s; s.x = 7; return s.x; }
int f(int n) { for (n = sizeof(struct S { char a; }); n > 9; n--) ; struct S { long x; }; struct S s; s.x = 7; { struct S { int q; } t; t.q = 1; s.x = t.q; } return s.x; }
struct S *p; struct S { int x; }; int f(void) { enum S { A }; return p->x + A; }
struct S *p; struct S { int x; }; int f(void) { struct S { char y; } s; s.y = p->x; return s.y; }
int f(enum { A, B } x) { return x == B; }
int f(enum E { A, B } x); int g(enum E { B, A } y); int h(void) { int A; A = 1; return A; }
int f(struct S { int a; } *p) { struct S s; s.a = p->a; return s.a; } struct S { long q; long r; } g;
int f(struct S *p); struct S { int a; }; struct S s; int g(void) { return s.a; }
int f(int n, char a[sizeof(n)]) { return a[n]; }
int (*f(int n))[3]; int *g(int n) { return &(*f(n))[n]; }
int *f(int n) { return (int *)0; } int **g(int n, int *p) { p = f(n); return &p == 0 ? (int **)0 : (int **)0; }
int f(int a, int g(int a, int b)) { return g(a, a); }
int f(int f) { return f; }
struct S { int a; }; int f(struct S *p) { struct S; struct S { struct S *n; int b; } s; s.n = &s; s.b = p->a; return s.n->n->b; }
struct S; int f(struct S *p); struct S { int a; }; int g(void) { struct S s; return f(&s); }
struct S { int a; }; int f(void) { struct S { struct S *s; int b; } x, y; x.s = &y; y.b = 4; return x.s->b; }
struct S { int a; }; struct T { struct S *p; }; int f(struct T *t) { struct S { char c; }; return t->p->a; }
struct S { int a; }; struct S *f(void); int g(void) { struct S { char c; }; return f()->a; }
typedef struct S { int a; } T; int f(T *t) { struct S { char c; } s; T u; u.a = t->a; s.c = u.a; return s.c; }
typedef struct S T; int f(T *t); struct S { int a; }; int f2(T *t) { struct S { char c; }; return f(t) + t->a; }
int f(void) { struct S { int a; } s; { struct S { char c; } t; t.c = 1; s.a = t.c; } { struct S { long l; } t; t.l = s.a; return t.l; } }
int f(void) { struct S { int a; } s; s.a = 1; return s.a; } int g(void) { struct S { char c[3]; } s; s.c[2] = 1; return sizeof(s); } struct S { long l; }; int h(struct S *p) { return p->l; }
int main(void) { return 0; }
int f(int a); int main(void) { return 0; }
int main(void) { int x; (void)x; return 0; }
int a[3] = { 1, 2, 3, }; int main(void) { return 0; }
enum E { A, B, }; int main(void) { return A; }
int x = { 1 }; int main(void) { return 0; }
char s[3] = "abc"; char t[4] = { "abc" }; char u[10] = "abc"; int main(void) { return 0; }
struct S; struct S *p; struct S { int a; }; struct S s; int main(void) { p = &s; return p->a; }
struct L { struct L *next; int v; }; int main(void) { struct L l; l.next = &l; return l.next->next->v * 0; }
int f(int a[3]) { return a[0]; } int main(void) { int b[3] = { 0 }; return f(b); }
int f(int g(int)) { return g(0); } int h(int a) { return a; } int main(void) { return f(h) + f(&h); }
int (*f(int a))(int); int main(void) { return 0; }
int (*t[3])(int); int main(void) { return 0; }
int (*(*x)[3])(int); int main(void) { return 0; }
typedef int (*F)(int); typedef F A[2]; A a; F *b(F f) { a[0] = f; return a; } int main(void) { return 0; }
typedef struct S { int a; } S2; S2 s; struct S *p; int main(void) { p = &s; return p->a; }
typedef struct { int a; } T; T t; int main(void) { T *p = &t; return p->a; }
int main(void) { for (;;) break; while (1) { break; } return 0; }
int main(void) { int i; for (i = 0; i < 3; i++) { if (i == 1) continue; } return 0; }
int main(void) { switch (1) { } switch (2) ; return 0; }
int main(void) { int a = 1; switch (a) { case 1: switch (a) { case 1: break; default: ; } break; case 2: default: ; } return 0; }
int main(void) { { } { ; } {{{}}} return 0; }
int f(int a) { if (a) return 1; else return 2; } int main(void) { return f(1) - 1; }
void f(void) { } void g(void) { return; } void h(int a) { if (a) return; f(); g(); } int main(void) { h(1); return 0; }
int f(int a, int b, int c, int d, int e, int g, int h, int i, int j) { return a + j; } int main(void) { return f(0, 1, 2, 3, 4, 5, 6, 7, 0); }
int x; int *f(int *p) { return p ? p : &x; } int main(void) { return *f(&x); }
int main(void) { int x = 1; int *p = &x; int **q = &p; **q = 0; return x; }
int main(void) { void *p; int x = 0; p = &x; int *q = p; return *q; }
int main(void) { char c = 'a'; int i = c; long l = i; unsigned u = l; unsigned long v = u; long long w = v; unsigned long long z = w; return z == 97 ? 0 : 1; }
int main(void) { int x = 0; { int x = 1; { int x = 2; } } return x; }
int x; int main(void) { int y = x; { int x = y; return x; } }
int main(void) { enum { A, B } e = B; return e - 1; }
int main(void) { struct { int a; char b[3]; } s; s.b[1] = 1; return s.b[1] - 1; }
int main(void) { int a[2][3] = { { 1, 2, 3 }, { 4, 5, 6 } }; int (*p)[3] = a; return p[1][2] - 6; }
int main(void) { int a[2][2] = { 1, 2, 3, 4 }; return a[1][1] - 4; }
long int unsigned a; int long b; long unsigned int long c; unsigned d; long e; int main(void) { return 0; }
int main(void) { return sizeof(int) == 4 && sizeof(char) == 1 && sizeof(long) == 8 && sizeof(int *) == 8 ? 0 : 1; }
int main(void) { return sizeof(int (*)(int)) - 8; }
int main(void) { int x = 3; return sizeof x++ - 4; }
int n(int n) { return n; } int main(void) { int main = n(0); return main; }
struct n { int n; }; int n(struct n *n) { return n->n; } int main(void) { struct n m; m.n = 0; return n(&m); }
int main(void) { int a = 1, *b = &a, c[2], (*d)(int); c[0] = *b; return c[0] - 1; }
int a, b = 1, c[2] = { 1 }, *d; int main(void) { return a; }
int main(void) { return "abc"[3]; }
int main(void) { char *s = "abc"; return s[3]; }
int main(void) { int a[3]; return &a[2] - &a[0] - 2; }
int f(void) { return 0; } int main(void) { return (*f)() + (&f)() + (**f)(); }
int main(void) { return 0; } int after;
'''.strip().split('\n')
