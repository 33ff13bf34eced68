"""P18: compilation always terminates, without memory errors, deterministically.

Pipeline.tla says what a compilation can end in and that the end depends on the text alone. Each text is
compiled by several builds (sanitized, optimized, other compiler) in several surroundings; TLC checks that
the recorded history of the text is one of the specification's."""
import hashlib, json, os, re, shutil
from ..common import *
from ..corpus import collect
from ..mutate import *

SAN = ['-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=signed-integer-overflow', '-fno-omit-frame-pointer']


def nests(n):
    yield 'int main(void) { return ' + '(' * n + '1' + ')' * n + '; }\n'
    yield 'int main(void) { int a; a=1; ' + '{' * n + 'a=2;' + '}' * n + ' return a; }\n'
    yield 'int main(void) { int a; a=1; ' + 'if (a) ' * n + 'a=2; ' + 'else a=3; ' * (n // 2) + 'return a; }\n'
    yield 'int main(void) { int a; a=1; ' + 'while (a) {' * n + 'a=0;' + '}' * n + ' return a; }\n'
    yield 'int main(void) { int a; a=1; ' + 'for (;a;) ' * n + 'a=0;' + ' return a; }\n'
    yield 'int main(void) { int a; a=1; ' + ''.join('switch (a) { case %d: ' % i for i in range(n)) + 'a=0;' + '}' * n + ' return a; }\n'
    yield 'int f(int a) { return a; } int main(void) { return ' + 'f(' * n + '2' + ')' * n + '; }\n'
    yield 'int main(void) { int ' + '(' * n + 'a' + ')' * n + '; a=1; return a; }\n'
    yield 'int main(void) { int a; a = 1; return ' + '+'.join(['a'] * n) + '; }\n'
    yield 'int main(void) { int a; a = 1; return ' + '&&'.join(['a'] * n) + '; }\n'
    yield 'int main(void) { int a; a = 1; return ' + '?a:'.join(['a'] * min(n, 200)) + '; }\n'
    yield 'int main(void) { int a; a = 1; a' + '=a' * n + '; return a; }\n'
    yield 'int main(void) { int a; a = 1; return ' + '-~!' * n + 'a; }\n'
    yield 'int main(void) { int a; a = 1; return ' + '(char)(int)' * n + 'a; }\n'
    yield 'int main(void) { return ' + 'sizeof ' * n + '1 != 0; }\n'
    yield 'int main(void) { int ' + '*' * min(n, 60) + 'a; return sizeof a; }\n'
    yield 'int ' + 'a' * n + '(void) { return 1; } int main(void) { return ' + 'a' * n + '(); }\n'
    yield 'int main(void) { char s[%d] = "%s"; return s[0]; }\n' % (n + 1, 'x' * n)
    yield 'char s[%d] = "%s"; int main(void) { return s[0]; }\n' % (n + 4, '\\377' * n)
    yield 'int a[%d] = {%s}; int main(void) { return a[0]; }\n' % (n, ', '.join(str(i) for i in range(n)))
    yield 'int main(void) { int a[%d] = {%s}; return a[0]; }\n' % (n, ', '.join(str(i) for i in range(n)))
    yield 'struct S { %s }; int main(void) { struct S s; s.m%d = 1; return s.m%d; }\n' % (' '.join('int m%d;' % i for i in range(n)), n - 1, n - 1)
    yield 'enum E { %s }; int main(void) { return c%d; }\n' % (', '.join('c%d' % i for i in range(n)), n - 1)
    yield 'int f(%s) { return p0; } int main(void) { return f(%s); }\n' % (', '.join('int p%d' % i for i in range(n)), ', '.join('%d' % i for i in range(n)))
    yield ''.join('int g%d;\n' % i for i in range(n)) + 'int main(void) { return g%d; }\n' % (n - 1)
    yield ''.join('typedef int T%d;\n' % i for i in range(n)) + 'int main(void) { T%d x; x = 1; return x; }\n' % (n - 1)
    yield ''.join('int f%d(int a) { return a; }\n' % i for i in range(n)) + 'int main(void) { return f%d(2); }\n' % (n - 1)
    yield 'int main(void) { ' + ''.join('int v%d; ' % i for i in range(n)) + 'v0 = 1; return v0; }\n'
    yield 'int main(void) { ' + ''.join('{ int v; v = %d; } ' % i for i in range(n)) + 'return 0; }\n'
    yield 'struct S { int a%s; }; struct S s; int main(void) { return 0; }\n' % ''.join('[2]' for _ in range(min(n, 20)))
    yield '(' * n
    yield 'int main(void) {' * min(n, 50)
    yield 'int main(void) { return ' + '((int)' * n
    yield 'int main(void) { return ' + '(a = ' * n + '1' + ')' * n + '; }'
    yield 'int main(void) { int a[3] = ' + '{' * min(n, 300) + '1' + '}' * min(n, 300) + '; return a[0]; }\n'
    yield 'int ' + '(*' * n + 'f' + ')(int)' * n + '; int main(void) { return 0; }\n'
    yield 'int f(' + 'int (*g)(' * n + 'int' + ')' * n + '); int main(void) { return 0; }\n'


HAND = ['int ti[2147483648] = {7,8,9};','int a[1000000][1000000];','int *a[1000000000];','int *a[100000000];','struct S {int a[400000000]; int b[400000000];} s;','int f(void){int a[400000000]; int b[400000000]; return a[3] + b[5];}','typedef int T[1000000000]; T x;','int f(void){ return sizeof(int[1000000000]);}','int (*f[1000000000])(int);','int f(void){ int x; { int y[300000000]; } { int z[300000000]; z[1] = 2; } return 0; }', '', ' ', '\n', ';', ';;', '}', '{', 'int', 'int;', 'int x', 'int x;', 'x;', 'struct', 'struct S', 'struct S;', 'struct S {', 'struct S { int', 'struct S { int a; }', 'struct S {};', 'enum E {};', 'enum',
        'enum E { A', 'enum E { A = ', 'enum E { A, };', 'typedef', 'typedef int', 'typedef int T; T T;', 'typedef int T; T x; int T;', 'typedef T; ', 'int f(', 'int f(void', 'int f(int', 'int f(int a', 'int f(int,', 'int f(void, int);', 'int f(void) {',
        'int f(void) { return', 'int f(void) { if', 'int f(void) { if (', 'int f(void) { for (;;', 'int f(void) { for (int i', 'int f(void) { switch (1) { case', 'int f(void) { x: ; }', 'int f(void) { return f; }', 'int f(void) { f = 1; }',
        'void f(void) { return f(); }', 'int a[0];', 'int a[-1];', 'int a[', 'int a[2147483647];', 'int a[2147483647][2147483647];', 'int a[99999999999];', 'struct S s;', 'struct S { struct S s; };', 'struct S { struct S *s; }; struct S s; int main(void) { return s.s->s->x; }',
        'void x;', 'void a[3];', 'int f(void)[3];', 'int f(void)(void);', 'int (*a[3])(void);', 'int f(int a, int a) { return a; }', 'int f(int) { return 1; }', 'int f(void) { break; }', 'int f(void) { continue; }', 'int f(void) { case 1: ; }', 'int f(void) { default: ; }',
        'int f(void) { switch (1) { case 1: case 1: ; } }', 'int f(void) { int x = x; return x; }', 'int x = y;', 'int x = {1, 2};', 'int x = {};', 'int a[2] = {1, 2, 3};', 'char s[2] = "abc";', 'char s[3] = {"ab", "c"};', 'int a[2] = 1;', 'struct { int a; } x = 1;',
        'int f(void) { return 1 +; }', 'int f(void) { return (1; }', 'int f(void) { return 1); }', 'int f(void) { return *1; }', 'int f(void) { return &1; }', 'int f(void) { return 1.x; }', 'int f(void) { return x.y; }', 'int f(void) { return sizeof; }', 'int f(void) { return sizeof(void); }',
        'int f(void) { return sizeof(struct Q); }', 'int f(void) { return sizeof f; }', 'int f(void) { return "a" + "b"; }', 'int f(void) { return 1 ? 2; }', 'int f(void) { return 1 / 0; }', 'int f(void) { return 1 % 0; }', 'int x = 1 / 0;', 'int f(void) { return 1 << 100; }', 'int f(void) { int a; a(); }',
        'int f(void) { struct S { int a; } s; return s; }', 'int f(void) { struct S { int a; }; struct S { int b; }; }', 'enum E { A, A };', 'enum E { A = 2147483647, B };', 'struct S { int a; int a; };', 'int main; int main(void) { return 0; }', 'int f(void); int f(void); int g; int g;',
        'unsigned char c;', 'unsigned unsigned x;', 'long long long x;', 'int int x;', 'char int x;', 'struct S int x;', 'typedef int T; T int x;', 'int *p = 1;', 'int *p = 0;', 'char *p = "a";', 'int (x);', 'int (*x);', 'int *(*(*x));', 'int f(void) { { { { } } } }',
        '"', "'", '\\', '\'\\', '"\\', '0x', '0xg', '1e5', '1.5', '/* c */', '// c\n', '#define X\n', '@', '$', '`', '\x01', '\xff', '\xef\xbb\xbfint x;', 'int x;\r\n', 'int \xe3\x81\x82;', 'int x;\x1a']


def texts(ctx, n):
    r = ctx.rng
    base = collect(r, .15, 12 if ctx.quick else 40)
    valid = [p.text() for p in base]
    valid = [t for t in valid if len(t) < 20000]
    out = [('valid', t) for t in valid]
    out += [('hand', t) for t in HAND]
    for s in ([3, 17, 64, 300] if ctx.quick else [3, 17, 31, 32, 33, 64, 100, 129, 300, 1000]):
        out += [('nest%d' % s, t) for t in nests(s)]
    names = ['x', 'y', 'main', 'S1', 'put_i', 'v0', 'a', 'p']
    short = sorted(valid, key=len)[:len(valid) * 2 // 3]
    for _ in range(n):
        t = r.choice(short)
        ts = tokens(t)
        if len(ts) > 400:
            i = r.randrange(len(ts) - 300)
            ts = ts[:200] + ts[i:i + 100] if r.random() < .5 else ts[:300]
        for _ in range(r.choice([1, 1, 1, 2, 3, 8])): ts = mutate_tokens(ts, r, names)
        out.append(('tokens', join(ts)))
    for _ in range(n // 2):
        t = r.choice(short)
        for _ in range(r.choice([1, 1, 2, 5])): t = mutate_chars(t, r)
        out.append(('chars', t))
    # every prefix of a few programs
    for t in r.sample([x for x in short if len(x) < 2500] or short[:3], ctx.n(2, 10)):
        ts = tokens(t)
        out += [('prefix', join(ts[:i])) for i in range(0, len(ts), 1 if len(ts) < 400 else 2)]
    for h in HAND:
        if len(h) > 8: out += [('prefix', h[:i]) for i in range(1, len(h), ctx.n(4, 1))]
    for _ in range(n // 8): out.append(('junk', ''.join(r.choice(PUNCTS + KEYWORDS + ['x', '1', 'x', 'T', '"s"', "'c'"]) + ' ' for _ in range(r.randint(1, 40)))))
    for _ in range(n // 8): out.append(('binary', ''.join(chr(r.randrange(1, 256)) for _ in range(r.randint(1, 60)))))
    return list({t: k for k, t in out}.items())


PH = [('freader', 'reader'), ('lexer', 'lexer'), ('parser', 'parser'), ('resolver', 'resolver')]


def observe(exe, d, name, text, env, timeout=20):
    os.makedirs(d, exist_ok=True)
    c = os.path.join(d, name + '.c')
    s = c[:-1] + 's'
    with open(c, 'wb') as f: f.write(text.encode('latin-1'))
    rc, out, err = sh([exe, name + '.c'], cwd=d, env=env, timeout=timeout)
    if rc == 'timeout': rc, out, err = sh([exe, name + '.c'], cwd=d, env=env, timeout=3 * timeout)      # a busy machine
    err = err.decode(errors='replace')
    san = 'Sanitizer' in err or 'runtime error:' in err
    o = {'end': 'timeout' if rc == 'timeout' else 'sanitizer' if san else 'exit%d' % rc if rc >= 0 else 'signal%d' % -rc,
         'diag': bool(err.strip()), 'wrote': os.path.exists(s), 'asm': '', 'phase': '?', 'out': bool(out)}
    if o['wrote']:
        with open(s, 'rb') as f: o['asm'] = hashlib.sha1(f.read()).hexdigest()
        os.unlink(s)
    for a, b in PH:
        if 'Error occured in ' + a in err: o['phase'] = b
    if o['end'] == 'exit1' and out: o['end'] = 'exit1 with standard output'
    if open(c, 'rb').read() != text.encode('latin-1'): o['end'] = 'source changed'
    os.unlink(c)
    return o, err


def run(ctx):
    plain = ctx.umlcc()
    san, _ = build_umlcc(ctx.work, 'umlcc-san', SAN)
    builds = [('san', san, {'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=1:max_malloc_fill_size=65536:malloc_fill_byte=190'}),
              ('plain', plain, {'MALLOC_PERTURB_': '85', 'LC_ALL': 'C'}),
              ('again', plain, {'MALLOC_PERTURB_': '170', 'TZ': 'Asia/Tokyo', 'X' * 200: 'y' * 3000})]
    try:
        o2, _ = build_umlcc(ctx.work, 'umlcc-o2', ['-O2', '-fno-strict-aliasing'], cc='clang')
        builds.append(('clang', o2, {}))
        ms, _ = build_umlcc(ctx.work, 'umlcc-msan', ['-g', '-O1', '-fsanitize=memory', '-fno-sanitize-recover=all', '-fsanitize-memory-track-origins'], cc='clang')
        builds.append(('msan', ms, {'MSAN_OPTIONS': 'exit_code=77'}))
    except ToolError as e: ctx.assume.append('second compiler not usable: %s' % str(e)[:100])
    left = {b: 0 for b, _, _ in builds}

    def one(x):
        i, (t, kind) = x
        if ctx.left() < 5: return None
        obs, errs = [], []
        for b, exe, env in builds:
            if b in ('clang', 'msan') and i % 3 and ctx.quick: continue
            o, err = observe(exe, ctx.work.path('b-' + b + '/x' * (1 + i % 3), 'y')[:-2], 't%d' % i, t, dict({'PATH': '/usr/bin:/bin'}, **env))
            obs.append(o)
            errs.append((b, err))
            if o['end'] not in ('exit0', 'exit1'): break
        return {'id': str(i), 'obs': obs, 'kind': kind, 'text': t, 'errs': errs}

    rnd = 0
    while True:
        hs = [h for h in pmap(one, list(enumerate(texts(ctx, ctx.n(1400, 4000))))) if h]
        f = ctx.work.path('pl', 'h%d.ndjson' % rnd)
        with open(f, 'w') as w:
            for h in hs: w.write(json.dumps({'id': h['id'], 'obs': h['obs']}) + '\n')
        r = tlc(ctx.work, 'Pipeline', env={'PL_INPUT': f}, name='pl%d' % rnd, workers=4, timeout=600)
        tlc_ok(r, 'Pipeline')
        ctx.states += r['distinct']
        ctx.transitions += r['generated']
        acc = set(re.findall(r'<<\s*"ACC",\s*"(\d+)"\s*>>', r['out']))
        bad = [h for h in hs if h['id'] not in acc]
        for h in hs:
            ctx.count('texts_' + re.sub(r'\d+', '', h['kind']))
            for o in h['obs']: ctx.count('ended_' + ('ok' if o['end'] == 'exit0' else 'rejected_' + o['phase'] if o['end'] == 'exit1' else 'otherwise'))
        ctx.traces += len(hs)
        for h in bad[:10]:
            ctx.violate('%s text: the history of its compilations is not one of the specification: %s' % (h['kind'], '; '.join('%s: %s%s' % (b, o['end'], (' ' + o['asm'][:8]) if o['asm'] else '') for (b, _), o in zip(h['errs'], h['obs']))),
                        {'text.c': h['text'], 'observations.json': json.dumps(h['obs'], indent=1), 'stderr.txt': '\n'.join('== %s\n%s' % (b, e[:4000]) for b, e in h['errs'])})
        if rnd == 0:
            for h in ctx.rng.sample(hs, min(4, len(hs))): ctx.samples.append({'kind': h['kind'], 'text': h['text'][:300], 'ends': [o['end'] for o in h['obs']]})
        rnd += 1
        if ctx.quick or ctx.left() < 90 or ctx.viol: break
    ctx.assume.append('signed overflow inside the compiler is not reported; leaks are not reported; a compilation that takes over 80 s counts as not ending')
