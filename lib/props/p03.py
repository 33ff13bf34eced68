"""P03: precedence, associativity, nesting.

Grammar.tla and Stmt.tla enumerate token strings together with the text in which every implied
parenthesis or brace is written out. Both texts of a string must be the same program."""
import json, os, re
from ..cast import *
from ..common import *
from . import p05, p07

RET = {'i': 'long', 'p': 'int *', 'q': 'struct S *'}
HEAD = '''typedef char T;
struct S { int m; int k; };
int x;
int y;
int *p;
struct S s;
struct S *q;
int f(int);
int g(int, int);
int m(int);
int c(int);
'''
DRIVER = r'''
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
struct S { int m; int k; };
extern int x, y, *p; extern struct S s, *q;
int arr[64]; struct S sa[64];
static int st, depth;
int f(int a) { printf("f%d ", a); return a * 3 + 1; }
int g(int a, int b) { printf("g%d,%d ", a, b); return a * 5 - b; }
int m(int a) { printf("m%d ", a); if (++depth > 200) { printf("stop"); fflush(stdout); _exit(9); } return a; }
int c(int a) { st = st * 1103515245 + 12345; printf("c%d ", a); if (++depth > 200) { printf("stop"); fflush(stdout); _exit(9); } return (st >> 16) % 3 == 0 ? 0 : (st >> 16) & 15; }
static void died(int n) { printf("signal%d", n); fflush(stdout); _exit(8); }
extern long fun(void);
int main(int argc, char **argv) {
    int v = atoi(argv[1]), i;
    static const int xs[] = {0, 1, 2, 3, -1, 7, 100, -77};
    signal(SIGSEGV, died); signal(SIGFPE, died); signal(SIGBUS, died); signal(SIGILL, died); alarm(5);
    for (i = 0; i < 64; i++) { arr[i] = (i * 7 + v * 3) % 11 - 3; sa[i].m = i + v; sa[i].k = -i; }
    x = xs[v & 7]; y = xs[(v * 3 + 1) & 7]; p = arr + 20 + v % 4; s.m = xs[(v + 2) & 7]; s.k = 5; q = sa + 9 + v % 3; st = v + 1;
    long r = fun();
    if (r >= (long)arr && r < (long)(arr + 64)) printf("arr+%ld", r - (long)arr);
    else if (r >= (long)sa && r < (long)(sa + 64)) printf("sa+%ld", r - (long)sa);
    else if (r == (long)&x) printf("&x"); else if (r == (long)&y) printf("&y"); else if (r == (long)&s) printf("&s");
    else printf("%ld", r);
    printf(" | %d %d %ld %d %d %ld |", x, y, (long)p - (long)arr, s.m, s.k, (long)q - (long)sa);
    for (i = 0; i < 64; i++) printf(" %d,%d,%d", arr[i], sa[i].m, sa[i].k);
    fflush(stdout);
    _exit(0);
}
'''
BIN = ['*', '/', '%', '+', '-', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '^', '|', '&&', '||']
ASG = ['=', '*=', '/=', '%=', '+=', '-=', '<<=', '>>=', '&=', '^=', '|=']
PRE = ['-', '+', '~', '!', '++', '--', '*', '&', 'sizeof', '(int)', '(char)', '(T)']
ALLBR = ['(', '[', 'f(', 'g(', '?']


def gcfg(operands, prefix, binary, assign, postfix, brackets, mx, mn=1):
    return dict(operands=operands, prefix=prefix, binary=binary, assign=assign, postfix=postfix, brackets=brackets, max=mx, min=mn)


def configs(ctx):
    q = ctx.quick
    # every chain of two (three) binary operators, every chain with conditional and assignment
    yield 'Grammar', 'binary', gcfg(['x'], [], BIN, [], [], [], 7), None
    yield 'Grammar', 'assign', gcfg(['x'], [], ['*', '-', '<', '==', '&&', '||', '|', '<<'], ['=', '+=', '>>='] if q else ASG, [], ['?'], 6 if q else 7), None
    yield 'Grammar', 'unary', gcfg(['x', 'p'], PRE, ['*', '-', '&', '==', '&&'] if q else BIN, ['='], ['++', '--'], [] if q else ['('], 4 if q else 5), None
    yield 'Grammar', 'postfix', gcfg(['p', 'q', 's', 'x'], ['*', '&', '++', 'sizeof', '-', '(int)'], ['+'], [], ['++', '.m', '->m'], ['[', '(', 'f('], 5 if q else 6), None
    yield 'Grammar', 'sizeof', gcfg(['x', 'sizeof(int)', 'sizeof(T)'], ['sizeof', '(T)', '-', '*', '&', '++'], ['*', '-', '&', '<'], [], ['++'], ['('], 4 if q else 5), None
    yield 'Grammar', 'paren', gcfg(['x'], ['-', '!'], ['+', '*', '&&', '<'], ['='], [], ['(', 'g(', '?'], 6 if q else 8), None
    yield 'Stmt', 'statements', dict(heads=['m', 'if', 'while', 'for', 'switch', 'case', '{', 'break', 'return'] if q else
                                     ['m', 'if', 'while', 'for', 'switch', 'case', '{', 'break', 'return', 'continue', ';'], max=5 if q else 7, min=1), None
    yield 'Stmt', 'ifelse', dict(heads=['m', 'if', 'while', '{', 'case', 'switch'], max=7 if q else 9, min=6), None
    # long texts: random behaviours
    yield 'Grammar', 'long', gcfg(['x', 'y', 'p', 's', 'q', '1', 'sizeof(int)'], PRE, BIN, ASG, ['++', '--', '.m', '->m'], ALLBR, 24, 9), ctx.n(500, 6000)
    yield 'Stmt', 'longst', dict(heads=['m', 'if', 'while', 'for', 'switch', 'case', '{', 'break', 'return', 'continue', ';'], max=26, min=10), ctx.n(300, 4000)


def generate(ctx, module, name, cfg, sim):
    f = ctx.work.path('gr', name + '.json')
    with open(f, 'w') as h: json.dump(cfg, h)
    args = ['-simulate', 'num=%d' % sim, '-depth', str(cfg['max'] + 1), '-seed', str(ctx.rng.randrange(1 << 40))] if sim else []
    r = tlc(ctx.work, module, env={'GR_CONFIG': f}, args=args, name='gr-' + name, workers=1 if sim else 4, timeout=800)
    tlc_ok(r, module + ' ' + name)
    xs = re.findall(r'<<\s*"X",\s*"([^"]*)",\s*"([^"]*)",\s*"(\w)"\s*>>', r['out'])
    ctx.states += r['distinct']
    ctx.transitions += r['generated']
    xs = sorted(set(xs))
    if sim:
        # the longest behaviours are the interesting ones, and each prefix is reported too
        ctx.rng.shuffle(xs)
        xs = sorted(xs[:sim * 3], key=lambda t: -len(t[0]))[:sim * 2]
    if not xs: raise ToolError('no strings from ' + name)
    ctx.cov['strings_' + name] = len(xs)
    return xs


def func(i, t, text, stmt):
    if t == 's': return 'int F%d(void) { %s return 99; }\n' % (i, text)
    return '%s F%d(void) { return %s; }\n' % (RET[t], i, text)


def split_asm(asm):
    """name -> body with labels numbered from zero"""
    out, cur = {}, None
    for l in asm.split('\n'):
        m = re.match(r'(F\d+):', l)
        if m: cur = out[m.group(1)] = []
        elif cur is not None:
            if re.match(r'\s*\.(globl|global|text|data|section)', l): continue
            cur.append(l.strip())
    res = {}
    for k, v in out.items():
        t = '\n'.join(x for x in v if x)
        names = {}
        res[k] = re.sub(r'\.L\w+', lambda m: names.setdefault(m.group(0), '.L%d' % len(names)), t)
    return res


class Batch:
    def __init__(self, ctx): self.ctx = ctx

    def compile(self, items, which, tag):
        """items: [(i, min, full, type)]; returns {i: asm or ('reject', why)}"""
        text = HEAD + ''.join(func(i, t, (a, b)[which], t) for i, a, b, t in items)
        st, det, s = self.ctx.rt.compile(text, tag, timeout=120)
        if st == 'ok':
            with open(s) as f: d = split_asm(f.read())
            for ext in ('.s', '.c'): os.unlink(s[:-2] + ext)
            if all('F%d' % i in d for i, _, _, _ in items): return {i: d['F%d' % i] for i, _, _, _ in items}
            if len(items) == 1: return {items[0][0]: ('missing', 'no such function in the output')}
        elif len(items) == 1: return {items[0][0]: (st, det[:300])}
        out = {}
        k = max(1, len(items) // 8)
        for j in range(0, len(items), k): out.update(self.compile(items[j:j + k], which, '%s_%d' % (tag, j)))
        return out


def behaviour(ctx, drv, item, which, tag):
    i, a, b, t = item
    text = (HEAD + func(i, t, (a, b)[which], t)).replace('F%d(void)' % i, 'fun(void)')
    st, det, s = ctx.rt.compile(text, tag)
    if st != 'ok': return [(st, det)]
    rc, _, err = sh(['gcc', '-no-pie', '-z', 'noexecstack', s, drv, '-o', s + '.x'])
    if rc != 0: return [('link', err.decode(errors='replace')[:300])]
    out = []
    for v in range(12):
        rc, o, e = sh([s + '.x', str(v)], timeout=20)
        # addresses as integers are not comparable between two links
        out.append((rc, o))
    return out


def compare(ctx, name, xs, confirmed):
    size = 400
    items = [(i, a, b, t) for i, (a, b, t) in enumerate(xs)]
    chunks = [items[j:j + size] for j in range(0, len(items), size)]
    jobs = [(n, w, c) for n, c in enumerate(chunks) for w in (0, 1)]
    B = Batch(ctx)
    res = pmap(lambda j: (j[1], B.compile(j[2], j[1], 'g%s%d_%d' % (name, j[0], j[1]))), jobs)
    mn, fl = {}, {}
    for w, d in res: (mn, fl)[w].update(d)
    diff = []
    for it in items:
        u, v = mn[it[0]], fl[it[0]]
        if isinstance(u, tuple) or isinstance(v, tuple):
            if all(isinstance(z, tuple) and 'too complex' in z[1] for z in (u, v)):
                ctx.count('texts_needing_more_registers')
                continue
            rej = 'as written: %s; with explicit grouping: %s' % (u if isinstance(u, tuple) else 'accepted', v if isinstance(v, tuple) else 'accepted')
            diff.append((it, rej))
        elif u != v: diff.append((it, None))
    ctx.count('texts_compared', len(items))
    ctx.count('texts_with_different_code', len(diff))
    diff.sort(key=lambda d: len(d[0][1]))
    for it, rej in diff[:80]:
        if len(ctx.viol) >= 8: break
        files = {'min.c': HEAD + func(it[0], it[3], it[1], it[3]), 'full.c': HEAD + func(it[0], it[3], it[2], it[3])}
        if rej:
            ctx.violate('%s | %s : %s' % (it[1], it[2], rej), files)
            continue
        if confirmed[0] is None:
            d = ctx.work.path('drv.c')
            with open(d, 'w') as f: f.write(DRIVER)
            o = ctx.work.path('drv.o')
            rc, _, err = sh(['gcc', '-w', '-O1', '-c', d, '-o', o])
            if rc != 0: raise ToolError('driver: ' + err.decode()[:500])
            confirmed[0] = o
        u = behaviour(ctx, confirmed[0], it, 0, 'b%s0' % name)
        v = behaviour(ctx, confirmed[0], it, 1, 'b%s1' % name)
        if u != v:
            files['runs.txt'] = json.dumps([[str(a), str(b)] for a, b in zip(u, v)], indent=0)
            ctx.violate('not the same program: %s | %s' % (it[1], it[2]), files)
    if not ctx.samples: ctx.samples.append({'text': items[0][1], 'grouped': items[0][2]})
    ctx.traces += len(items)


def run(ctx):
    ctx.rt
    confirmed = [None]
    gens = list(configs(ctx))
    outs = pmap(lambda g: (g[1], generate(ctx, *g)), gens, 4)
    for name, xs in outs:
        if len(xs) > 60000: xs = ctx.rng.sample(xs, 60000)
        ctx.samples.append({'config': name, 'text': xs[-1][0], 'grouped': xs[-1][1]})
        compare(ctx, name, xs, confirmed)
        if len(ctx.viol) >= 8: return
    if ctx.viol: return
    # the meaning of both renderings, judged by the abstract machine
    progs = []
    for i, p in enumerate(p05.random_progs(ctx, ctx.n(24, 100), 4, 12, 'P03.ex')):
        p.paren = ['min', 'full'][i % 2]
        progs.append(p)
    progs += [p07.flow_prog(ctx.rng, 'P03.st%d' % i, 4, 24, ('if', 'if', 'while', 'for', 'sw')) for i in range(ctx.n(24, 120))]
    ctx.programs(progs)
    rnd = 0
    while not ctx.quick and ctx.left() > 90 and not ctx.viol:
        rnd += 1
        for g in configs(ctx):
            if g[3] is None: continue
            compare(ctx, '%s%d' % (g[1], rnd), generate(ctx, g[0], '%s%d' % (g[1], rnd), g[2], g[3]), confirmed)
