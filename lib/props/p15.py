"""P15: ill-formed programs are rejected and leave no output.

CStatic.tla reads each text and says whether it breaks a rule of C (syntax or constraint); the compiler is
run on the text beside an old output file or none, and TLC decides whether what was observed is allowed."""
from .. import gen_static as G
from ..corpus import collect
from ..mutate import *
from ..static import judge, observe
from ..findings import listed

WANT = 'bad'


def families(ctx):
    rng = ctx.rng
    yield 'hand', [('hand', t) for t in HAND]
    yield 'nested', list(G.nested(rng, ctx.n(6000, 60000)))
    for f, q in (('contexts', 3000), ('declarators', 2500), ('names', 4000), ('members', 1200), ('specifiers', 1000), ('specifiers_at', 3500), ('params', 3500)):
        L = list(dict.fromkeys(getattr(G, f)()))
        yield f, L if not ctx.quick else rng.sample(L, min(q, len(L)))
    yield 'statements', pick(ctx, G.statements(3), 2500)
    yield 'initializers', pick(ctx, G.initializers(ctx.n(5, 6)), 4000, 60000)
    yield 'deep initializers', list(dict.fromkeys(G.deep_initializers(rng, ctx.n(3000, 60000))))
    yield 'clauses', pick(ctx, G.clauses(), 2500, 40000)
    yield 'matrix', pick(ctx, G.matrix(), 8000)
    yield 'mutations', mutations(ctx, ctx.n(1500, 12000))
    if not ctx.quick: yield 'statements 4', pick(ctx, G.statements(4), 0, 30000)


def pick(ctx, gen, q, t=None):
    L = list(dict.fromkeys(gen))
    n = q if ctx.quick else t
    return L if n is None or n >= len(L) else ctx.rng.sample(L, n)


def mutations(ctx, n):
    """Valid programs of the other checks, each with one or two random edits."""
    ps = [p.text() for p in collect(ctx.rng, .1, 60)]
    ps = [tokens(t) for t in ps if len(t) < 1600]
    out = []
    while len(out) < n:
        ts = ctx.rng.choice(ps)
        names = [t for t in ts if re.match(r'[A-Za-z_]', t)]
        for _ in range(ctx.rng.choice([1, 1, 1, 2])): ts = mutate_tokens(ts, ctx.rng, names)
        out.append(('mutation', join(ts)))
    return out


# recorded findings: texts that C rejects and umlcc accepts
KNOWN = [('KF5', 'enum E x;'),
         ('KF7', 'struct { int a; } x; struct { int a; } *y; int f(void) { y = &x; return 0; }')]


def known(ctx):
    lst = listed()
    obs = observe(ctx, KNOWN)
    for k, t in KNOWN:
        o = obs[k]
        if o['rc'] == 0 and k in lst: ctx.known.append('id=%s %s' % (k, lst[k][1]))
        elif o['rc'] != 1 or not o['diag'] or o['out'] != 'kept': ctx.violate('%s: neither accepted nor rejected' % k, {'prog.c': t, 'observed.json': json.dumps(o)})


def run(ctx, want=WANT, fams=None):
    seen = {}
    if want == 'bad': known(ctx)
    for name, L in (fams or families)(ctx):
        if ctx.left() < 0 and not ctx.quick: break
        items = [('%s-%d' % (name.replace(' ', ''), i), t) for i, (_, t) in enumerate(L)]
        text = dict(items)
        t0 = time.time()
        res = judge(ctx, items, name.replace(' ', ''))
        ctx.cov.setdefault('seconds', {})[name] = round(time.time() - t0, 1)
        ctx.count('texts ' + name, len(res))
        for k, (v, why, c, o) in res.items():
            ctx.count('verdict ' + v)
            if v == want and want == 'bad': seen[why.split(':')[0]] = seen.get(why.split(':')[0], 0) + 1
            if v == want and c and len(ctx.viol) < 12:
                ctx.violate('%s: %s (%s)' % (k, c, why or 'well-formed'), {'prog.c': text[k], 'observed.json': json.dumps(o)})
        if not ctx.samples: ctx.samples += [{'text': text[k], 'verdict': list(v[:2]), 'exit': v[3]['rc']} for k, v in list(res.items())[:3]]
        if ctx.viol: break
    if want == 'bad': ctx.cov['rules broken (texts each)'] = dict(sorted(seen.items(), key=lambda x: -x[1])[:80])
    ctx.exhaustive = False


import json, re, time
HAND = '''struct n *p; enum n { A };
enum n { A }; struct n *p;
int f(struct S *p); struct S { int a; }; int g(void) { struct S s; return f(&s); }
int f(struct S { int a; } *p); struct S { int a; }; int g(void) { struct S s; return f(&s); }
int f(enum { A } x); int g(void) { return A; }
int f(enum { A } x) { return A; } int g(void) { return A; }
int f(enum { A } x) { int A; return 0; }
int f(enum { A } x, int A) { return A; }
int f(int A, enum { A } x) { return A; }
int f(struct S { int a; } *p) { struct S { char c; }; return 0; }
int f(struct S { int a; } *p) { return p->a; } struct S s;
int f(struct S *p) { return p->a; } struct S { int a; };
struct S { int a; }; int f(struct S *p) { struct S { int a; } s; p = &s; return 0; }
struct S { int a; }; int f(struct S *p) { { struct S { int b; } s; s.a = 1; } return 0; }
struct S { int a; }; int f(struct S *p) { { struct S { int b; } s; s.b = p->b; } return 0; }
struct S { int a; }; int f(struct S *p) { struct S; return sizeof(struct S); }
struct S { int a; }; int f(struct S *p) { struct S; struct S *q; q = p; return 0; }
struct S { int a; }; int f(struct S *p) { struct S; struct S *q; return q->a; }
struct S { int a; }; int f(struct S *p) { enum S { A }; struct S *q; return 0; }
struct S *p; int f(void) { struct S { int a; }; return p->a; }
struct S *p; int f(void) { struct S { int a; } s; p = &s; return 0; }
int f(void) { if (sizeof(struct S { int a; })) return 1; struct S s; return 0; }
int f(int n, char a[sizeof(m)], int m) { return n; }
struct S { struct S s; };
struct S { int a; }; int f(void) { struct S { struct S s; }; return 0; }
struct S { int a; }; struct T { struct S { int b; } s; };
int f(struct S { int x; } *p); int g(struct S { int y; } *p); int f(struct S *p) { return p->x; }
struct S { int a; }; struct S *g(void); int f(void) { struct S { int a; } *p; p = g(); return 0; }
int f(void) { struct S { int a; } *p; { struct S { int b; } s; p = &s; } return 0; }
int f(int f(int a, int b), int g) { return f(a, b); }
int f(int g(int a), int h) { return a; }
int f(void) { return 1 }
int f(void { return 1; }
int x
int f(void) { break; }
int f(void) { continue; }
int f(int a) { switch (a) { case 1: continue; } return 0; }
int f(int a) { if (a) break; return 0; }
int f(int a) { case 1: return 0; }
int f(int a) { default: return 0; }
int f(int a) { switch (a) { case 1: return 1; case 1: return 2; } return 0; }
int f(int a) { switch (a) { case 1: while (a) { case 2: ; switch (a) { case 2: ; } case 1: ; } } return 0; }
int f(int a) { switch (a) { default: return 1; default: return 2; } return 0; }
int f(int a) { switch (a) { default: switch (a) { default: ; } default: ; } return 0; }
int f(int a) { switch (a) { case 'a': ; case 97: ; } return 0; }
enum E { A, B = 0 }; int f(int a) { switch (a) { case A: ; case B: ; } return 0; }
int f(int a) { switch (a) { case a: ; } return 0; }
int f(int a) { while (a) ; continue; }
int f(int a) { for (int i = 0; i < a; i++) ; return i; }
int f(int a) { { int b = 1; } return b; }
int f(int a, int a) { return 0; }
int f(int a) { int a; return 0; }
int f(int a) { int b, b; return 0; }
int f(int a) { int b; int *b; return 0; }
int f(int a) { struct S { int x; int x; } s; return 0; }
struct S { int x; }; struct S { int x; };
struct S { int x; }; int f(struct S *p) { return p->y; }
struct S { int x; }; struct R { int x; }; int f(struct S *p) { struct R *q = p; return 0; }
struct S; int f(struct S *p) { return p->y; }
struct S; struct S s[2];
struct S; int f(void) { struct S s; return 0; }
struct S { struct S s; };
int f(void) { void v; return 0; }
void v[2];
int f(void v) { return 0; }
int f(void, int a);
int f(int a)(int b);
int f(int a)[2];
int a[2](int b);
int a[-1];
int a[0];
int n; int a[n];
int f(int a) { return f(); }
int f(int a) { return f(1, 2); }
int f(int a) { return g(1); }
int f(int *a) { return f(1); }
int f(int *a) { long *b; return f(b); }
int f(int *a) { return f(&a); }
int f(int (*g)(int)) { return 0; } int h(long a) { return 0; } int k(void) { return f(h); }
int f(int (*g)(int)) { return 0; } int h(int a, int b) { return 0; } int k(void) { return f(h); }
int f(int (*g)(int)) { return 0; } void h(int a) { } int k(void) { return f(h); }
void f(void) { return 1; }
int f(void) { return; }
int *f(int *a) { return 1; }
int *f(long *a) { return a; }
int f(int *a) { return a; }
int f(int a) { a = f; return 0; }
int f(int a) { f = a; return 0; }
int f(int a) { a++ = 1; return 0; }
int f(int a) { a + 1 = 1; return 0; }
int f(int a) { (a ? a : a) = 1; return 0; }
int f(int a) { ++a++; return 0; }
int f(int a) { &a++; return 0; }
int f(int a) { return &a; }
int f(int a) { return *a; }
int f(int a) { return a[0]; }
int f(int a) { return a(); }
int f(int a) { return a.x; }
int f(int a) { return a->x; }
int f(int *a) { return -a; }
int f(int *a) { return ~a; }
int f(int *a) { return +a; }
int f(int *a, int *b) { return a + b; }
int f(int *a, int *b) { return a * b; }
int f(int *a, long *b) { return a - b; }
int f(int *a, long *b) { return a < b; }
int f(int *a, long *b) { return a == b; }
int f(int *a, int b) { return a == b; }
int f(int *a, int b) { return a & b; }
int f(int *a, int b) { return b - a; }
int f(int *a, int b) { return a << b; }
int f(int *a, int b) { a *= b; return 0; }
int f(int *a, int b) { b += a; return 0; }
int f(int *a, int b) { b = b ? a : b; return 0; }
void v(void) { } int f(void) { return v(); }
void v(void) { } int f(void) { return v() + 1; }
void v(void) { } int f(void) { int a = v(); return 0; }
void v(void) { } int f(void) { if (v()) ; return 0; }
void v(void) { } int f(void) { return !v(); }
void v(void) { } int g(int a) { return 0; } int f(void) { return g(v()); }
struct S { int a; } s; int f(void) { return s; }
struct S { int a; } s; int f(void) { return s + 1; }
struct S { int a; } s; int f(void) { if (s) ; return 0; }
struct S { int a; } s; int f(void) { return s ? 1 : 2; }
struct S { int a; } s; int f(void) { return (int)s; }
struct S { int a; } s; int f(int b) { return (struct S)b; }
struct S { int a; } s; int f(void) { return s->a; }
struct S { int a; } s; int f(void) { return s[0]; }
struct S { int a; } *s; int f(void) { return s.a; }
struct S { int a; } s; int f(void) { s = 1; return 0; }
int a[3]; int f(void) { a = 0; return 0; }
int a[3]; int f(void) { a++; return 0; }
int a[3]; int f(void) { return a * 2; }
int a[3]; int f(void) { return (int[3])a; }
int f(void) { return sizeof(int (int)); }
int f(void) { return sizeof f; }
int f(void) { return sizeof(void); }
int x = 1, x = 2;
int x = y;
int y; int x = y;
int x = { 1, 2 };
int x[2] = { 1, 2, 3 };
int x[2] = 1;
int x[2][2] = { { 1, 2, 3 } };
int x[2][2] = { 1, 2, 3, 4, 5 };
char x[2] = "abc";
int x[3] = "ab";
struct S { int a; } s = 1;
struct S { int a; } s = { 1, 2 };
int f(void) { int *p = 1; return 0; }
int f(void) { int p = "a"; return 0; }
int f(void) { int *p = "a"; return 0; }
typedef int T; int f(void) { return T; }
typedef int T; int f(void) { T = 1; return 0; }
typedef int T = 1;
typedef int T; T T(int) { return 0; } T x
int f(void) = 1;
int f; int f(void) { return 0; }
int f(void) { return 0; } int f;
int f(void); long f(void);
int f(int a); int f(long a) { return 0; }
int f(void) { return 0; } int f(void) { return 1; }
enum E { A, A };
enum E { A }; enum E { B };
enum E { A }; int A;
enum E { A = x };
struct S { int a; }; enum S { A };
int f(void) { else return 0; }
int f(void) { if return 0; }
int f(void) { if (1) else return 0; }
int f(void) { while () ; }
int f(void) { for (1; 2) ; }
int f(void) { do ; while (1) }
int f(int a) { return a +; }
int f(int a) { return (a; }
int f(int a) { return a); }
int f(int a) { return a[; }
int f(int a) { a = = 1; return 0; }
int f(int a) { return a ? 1; }
int f(int a) { return a : 1; }
int f(int a) { int; int b c; return 0; }
int f(int a) { return 0; } }
int f(int a) { { return 0; }
int f(int a) { int return; return 0; }
int if;
int 1x;
unsigned void x;
long char x;
int int x;
long long long x;
unsigned unsigned x;
struct S int x;
int struct S x;
int f(void) { for (typedef int T;;) ; }
int f(void) { for (int g(int);;) ; }
int f(int a) { 1 = a; return 0; }
int f(int a) { "a" = a; return 0; }
int f(int a) { f(a) = a; return 0; }
int f(int a) { (char)a = a; return 0; }
int f(int a) { !a = a; return 0; }'''.split('\n')
