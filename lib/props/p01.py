"""P01: source text is split into tokens by longest match, or rejected.

Lexer.tla reads every text over several small alphabets (TLC enumerates them all up to a length), and
longer given texts; the real lexer must find the tokens, or the error, the specification finds."""
import itertools, json, os, re
from ..common import *
from ..pyev import lit_type, Undef
from . import p05, p07

KEYWORDS = ['break', 'case', 'char', 'continue', 'default', 'else', 'enum', 'for', 'if', 'int', 'long', 'return', 'sizeof',
            'struct', 'switch', 'typedef', 'unsigned', 'void', 'while']
PUNCTS = ['[', ']', '(', ')', '{', '}', '.', '->', '++', '--', '&', '*', '+', '-', '~', '!', '/', '%', '<<', '>>', '<', '>', '<=', '>=', '==', '!=',
          '^', '|', '&&', '||', '?', ':', ';', '=', '*=', '/=', '%=', '+=', '-=', '<<=', '>>=', '&=', '^=', '|=', ',']
SAN = ['-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=signed-integer-overflow']
BLANKS = ' \t\n\v\f'


def codes(s): return list(s if isinstance(s, bytes) else s.encode('latin-1'))


def alphabets(ctx):
    q = ctx.quick
    yield 'punct', '-+=<>&|*/%!^.?,', 3 if q else 4
    yield 'punct2', '-><=+& ', 5 if q else 6
    yield 'brackets', '[](){};:~,a1 ', 3 if q else 4
    yield 'number', '0189xXaFuUlLg ', 4 if q else 5
    yield 'suffix', '0xuUlL1', 5 if q else 6
    yield 'quote', '\'"\\nx07aq\n ', 5 if q else 6
    yield 'escape', '\'\\x0378Af', 6 if q else 7
    yield 'word', 'if_I9 -', 5 if q else 6
    yield 'mix', 'a0\'"+\\ \n\xe3$', 5 if q else 6
    # each byte alone, and next to others
    yield 'byte', bytes(range(1, 256)), 1 if q else 2


def given(ctx, n):
    """Longer texts: words around the keywords, adjacent tokens, long tokens, broken ends."""
    r = ctx.rng
    out = []
    for k in KEYWORDS:
        out += [k, k + ' ', ' ' + k, k[:-1], k + 's', k + '1', k + '_', '_' + k, k.upper(), k.capitalize(), k + k, k + ';', '(' + k + ')', '1' + k, k + '\x01', k + '\xff', k + '"', k + "'a'"]
    for k in ['do', 'goto', 'const', 'auto', 'signed', 'short', 'float', 'extern', 'static', 'inline', 'main', '_', '__x', 'L', 'u', 'x', 'X0', 'e1']:
        out += [k, k + '1', k + k]
    for a in PUNCTS:
        out += [a, a + ' ']
        for b in r.sample(PUNCTS, 12 if ctx.quick else len(PUNCTS)): out.append(a + b)
    for _ in range(n):
        out.append(''.join(r.choice(PUNCTS) for _ in range(r.randint(2, 8))))
    words = lambda: r.choice([r.choice(KEYWORDS), r.choice(PUNCTS), r.choice(PUNCTS), number(r), quoted(r, "'"), quoted(r, '"'), ident(r), r.choice(BLANKS), ' ' * r.randint(1, 3)])
    for _ in range(n * 3):
        out.append(''.join(words() for _ in range(r.randint(1, 14))))
    # lengths around the growth of buffers
    for m in list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] + ([] if ctx.quick else [500, 511, 512, 513]):
        out += ['a' * m, '_' + '9' * m, '0' * m, '0x' + '0' * m + '7', '"' + 'b' * m + '"', '"' + '\\n' * m + '"', '"' + 'c' * m, "'" + 'd' * m + "'", ' ' * m + 'x', '1' * min(m, 19) + 'ul']
    for t in ('18446744073709551615', '18446744073709551616', '18446744073709551625', '18446744073709552000', '18446744073709560000', '18446744073709600000', '20000000000000000000', '99999999999999999999', '100000000000000000000', '9223372036854775808',
              '0xffffffffffffffff', '0x10000000000000000', '0x0000ffffffffffffffff', '0X1ffffffffffffffff', '01777777777777777777777', '02000000000000000000000', '00001777777777777777777777', '010000000000000000000000'):
        out += [t, t + 'u', t + 'ull', t + 'l', 'x=' + t + ';', '-' + t + ' +1']
    # the limits of each type with each suffix, in each base
    for k in (31, 32, 63, 64):
        for d in (-1, 0, 1):
            for fm in ('%d', '0x%x', '0%o'):
                for sf in ('', 'u', 'l', 'uL', 'LU', 'll', 'ULL', 'llu'): out.append(fm % ((1 << k) + d) + sf)
    # every escape of up to four digits, before each kind of character
    for k in range(1, 5):
        for ds in itertools.product('0378', repeat=k): out += ["'\\" + ''.join(ds) + "'", '"\\' + ''.join(ds) + '"']
    for k in range(0, 4):
        for ds in itertools.product('07fG', repeat=k): out += ["'\\x" + ''.join(ds) + "'", '"\\x' + ''.join(ds) + ' "']
    for c in range(1, 256): out += ["'\\" + chr(c) + "'", '"a\\' + chr(c) + 'b"']
    for _ in range(n):      # cut and damage
        t = ''.join(words() for _ in range(r.randint(2, 6)))
        i = r.randrange(len(t) + 1)
        out += [t[:i], t[i:], t[:i] + r.choice('\'"\\$@`#\x01\x7f\x80\xff\r\b') + t[i:]]
    return [t for t in dict.fromkeys(out) if '\0' not in t]


def ident(r): return ''.join(r.choice('abcxulXULef_ABZz') for _ in range(r.randint(1, 3))) + ''.join(r.choice('abz_09xul') for _ in range(r.randint(0, 6)))


def number(r):
    v = r.getrandbits(64) >> r.randrange(64)
    s = r.choice(['%d' % v, '0x%x' % v, '0X%X' % v, '0%o' % v, '0', '00', '0x0', '08', '09', '0x', '0xg'])
    return s + r.choice(['', '', 'u', 'l', 'L', 'ul', 'lU', 'll', 'LLu', 'ulL', 'lL', 'uu', 'lul', 'ullu', 'lll'])


def quoted(r, q):
    return q + ''.join(r.choice(['a', '0', ' ', '\\n', '\\0', '\\x41', '\\7', '\\077', '\\377', '\\400', '\\xff', '\\x100', '\\x0041', '\\\\', "\\'", '\\"', '\\?', '\\q', '\\',
                                 '"' if q == "'" else "'", '\xe3', '/*', '//', '\t']) for _ in range(r.choice([0, 1, 1, 1, 2, 3, 6]))) + r.choice([q, q, q, q, q, ''])


def render(tok):
    """A token of the specification as the harness prints it; None where C leaves the value open."""
    k, v, s = tok
    t = bytes(v)
    if k in ('kw', 'p'): return t.decode()
    if k == 'id': return 'id:' + t.hex()
    if k == 'str': return 'str:' + t.hex() + '00'
    if k == 'chr': return 'chr:%d' % v[0] if len(v) == 1 else 'chr:*'
    b = {'oct': 8, 'dec': 10, 'hex': 16}[k]
    n = int(t.decode(), b)
    sf = ''.join(sorted(bytes(s).decode().lower(), key=lambda c: 0 if c == 'u' else 1))
    if n >= 1 << 64: return 'int:*'
    try: ty = lit_type(n, b, sf)
    except Undef: return 'int:*:%d' % n
    return 'int:%s:%d' % (ty, n)


def same(want, got):
    w, g = want.split(' '), got.split(' ')
    return len(w) == len(g) and all(a == b or ('*' in a and a[:3] in ('chr', 'int') and re.fullmatch(re.escape(a).replace('\\*', '.*'), b)) for a, b in zip(w, g))


def spec(ctx, name, cfg):
    f = ctx.work.path('lx', name + '.json')
    cfg = dict(dict(alphabet=[], texts=[], max=0), **cfg, keywords=[codes(k) for k in KEYWORDS], puncts=[codes(p) for p in PUNCTS])
    with open(f, 'w') as h: json.dump(cfg, h)
    r = tlc(ctx.work, 'Lexer', env={'LX_CONFIG': f}, name='lx-' + name, workers=2, timeout=800)
    tlc_ok(r, 'Lexer ' + name)
    ctx.states += r['distinct']
    ctx.transitions += r['generated']
    out = []
    for l in r['out'].split('\n'):
        l = l.strip().strip('"').replace('\\"', '"')
        if l.startswith('<<"X", '): out.append(json.loads(l.replace('<<', '[').replace('>>', ']')))
    if not out: raise ToolError('Lexer %s printed nothing' % name)
    return [(bytes(t), v, toks) for _, t, v, toks in out]


def want(v, toks): return 'reject' if v == 'reject' else 'ok ' + ' '.join([render(t) for t in toks] + ['$'])


def replay(ctx, exe, name, cases):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')

    def feed(texts, timeout=300):
        rc, out, err = sh([exe], inp=b''.join(t.hex().encode() + b'\n' for t in texts), timeout=timeout, env=env)
        return rc, out.decode(errors='replace').split('\n')[:-1], err.decode(errors='replace')

    def one(part):
        bad, i = [], 0
        while i < len(part) and len(bad) < 3:
            rc, out, err = feed([c[0] for c in part[i:]])
            for c, g in zip(part[i:], out):
                if c[1] == 'loose' or same(want(c[1], c[2]), g): continue
                bad.append((c, g))
                break
            else:
                if len(out) < len(part) - i:
                    bad.append((part[i + len(out)], 'the lexer ended with %s: %s' % (rc, err[:800])))
                    i += len(out) + 1
                    continue
            break
        return bad
    size = max(1, (len(cases) + NCPU - 1) // NCPU)
    for bad in pmap(one, [cases[i:i + size] for i in range(0, len(cases), size)]):
        for (t, v, toks), g in bad:
            rc, out, err = feed([t], 30)
            g2 = out[0] if out else 'the lexer ended with %s: %s' % (rc, err[:800])
            if v == 'loose' and out or v != 'loose' and same(want(v, toks), g2): continue
            ctx.violate('%s: for the text %r the lexer gives %s, the specification %s' % (name, t.decode('latin-1'), g2, want(v, toks) if v != 'loose' else 'some answer'),
                        {'text.c': t, 'expected.txt': want(v, toks), 'got.txt': g2})
    ctx.traces += len(cases)
    ctx.count('texts_' + name, len(cases))


def programs(ctx, n):
    """Whole programs, with other blanks between the same tokens: the same assembly."""
    r = ctx.rng
    progs = p05.random_progs(ctx, n, 3, 6) + [p07.flow_prog(r, 'P01.flow%d' % i, 3, 14) for i in range(n)]
    texts = [p.text() for p in progs]
    toks = [re.findall(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|[A-Za-z_]\w*|\d\w*|' + '|'.join(re.escape(p) for p in sorted(PUNCTS, key=len, reverse=True)), t) for t in texts]

    def tight(ts):
        out = ts[0]
        for a, b in zip(ts, ts[1:]):
            glue = not (re.match(r'\w', b) and re.search(r'\w$', a) and a[0] not in '\'"') and not any(p.startswith(x + b[0]) for x in PUNCTS if a.endswith(x) for p in PUNCTS)
            out += ('' if glue else ' ') + b
        return out
    cases = []
    for t, ts in zip(texts, toks):
        cases.append((t, tight(ts), r.choice(BLANKS).join(ts), ''.join(x + ''.join(r.choice(BLANKS) for _ in range(r.randint(1, 3))) for x in ts)))
    return cases


def run(ctx):
    objs = compile_objs(ctx.work, 'san.obj', SAN)
    exe = build_harness(ctx.work, 'lex', VERIF + '/harness/lex.c', objs, SAN)
    jobs = [(n, dict(mode='all', alphabet=codes(a), max=m)) for n, a, m in alphabets(ctx)]
    texts = given(ctx, ctx.n(250, 4000))
    cases = programs(ctx, ctx.n(6, 60))
    longs = [t for c in cases for t in c]
    for i in range(0, len(texts), 1500): jobs.append(('given%d' % (i // 1500), dict(mode='given', texts=[codes(t) for t in texts[i:i + 1500]])))
    outs = pmap(lambda j: (j[0], spec(ctx, *j)), jobs, 4)
    for name, cs in outs:
        acc = [c for c in cs if c[1] == 'accept' and c[2]]
        x = ctx.rng.choice(acc) if acc else None
        if x: ctx.samples.append({'alphabet': name, 'text': x[0].decode('latin-1'), 'tokens': want(x[1], x[2])})
        replay(ctx, exe, re.sub(r'\d+$', '', name) if name.startswith('given') else name, cs)
    # the command: same tokens, same assembly; rejected texts are rejected
    rt = ctx.rt

    def comp(x):
        i, j, t = x
        st, det, s = rt.compile(t, 'sp%d_%d' % (i, j))
        return (st, open(s, 'rb').read() if st == 'ok' else det)
    flat = [(i, j, t) for i, c in enumerate(cases) for j, t in enumerate(c)]
    res = dict(zip([(i, j) for i, j, _ in flat], pmap(comp, flat)))
    for i, c in enumerate(cases):
        for j in range(1, len(c)):
            if res[i, j] != res[i, 0]:
                ctx.violate('the same tokens with other blanks between them give another result: %s / %s' % (res[i, 0][0], res[i, j][0]),
                            {'a.c': c[0], 'b.c': c[j], 'a.out': res[i, 0][1], 'b.out': res[i, j][1]})
    ctx.count('programs_respaced', len(flat))
    rej = [c for _, cs in outs for c in cs if c[1] == 'reject' and c[0]]
    rej = ctx.rng.sample(rej, min(len(rej), ctx.n(400, 4000)))
    pre = b'int main(void) { return 0; }\n'

    def rejected(x):
        i, c = x
        st, det, s = rt.compile(pre + c[0], 'rj%d' % i)
        return c, st, det
    for c, st, det in pmap(rejected, list(enumerate(rej))):
        if st != 'reject' or not det.split(' ', 1)[1].strip():
            ctx.violate('a text without a token sequence is not rejected with a diagnostic: %r gives %s' % (c[0].decode('latin-1'), st), {'text.c': pre + c[0], 'got.txt': det})
    ctx.count('rejected_by_command', len(rej))
    ctx.assume.append('the texts beyond the enumerated lengths are random')
