"""P02: values and types of literals, in every position."""
from ..cast import *
from ..pyev import *

SUFFIXES = ['', 'u', 'U', 'l', 'L', 'ul', 'uL', 'Ul', 'UL', 'lu', 'lU', 'Lu', 'LU', 'll', 'LL', 'ull', 'uLL', 'Ull', 'ULL', 'llu', 'llU', 'LLu', 'LLU']
IV = sorted({0, 1, 5, 7, 8, 9, 10, 15, 16, 63, 64, 99, 100, 127, 128, 255, 256, 511, 512, 4095, 4096, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1,
             2 ** 32, 2 ** 32 + 1, 2 ** 40, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 2, 2 ** 64 - 1, 123456789, 987654321987654321,
             0xabcdef, 0x123456789abcdef0, 0o12345670123})


def spellings(rng, v, sf):
    out = [(10, '%d' % v), (16, '0x%x' % v), (16, '0x%X' % v), (16, '0X%X' % v), (8, '0%o' % v)]
    out.append((16, '0x' + ''.join(rng.choice([c, c.upper()]) for c in '%x' % v)))
    out.append((16, '0x000%x' % v))
    out.append((8, '00%o' % v))
    return [(b, s + sf) for b, s in out if not (b == 10 and v == 0)] + ([(8, '0' + sf)] if v == 0 else [])


def L(v, b, s, sf):
    n = lit(v, sf, b, spell=s)
    # digits as written (leading zeros are harmless)
    return n


def ok(v, b, sf):
    sf = ''.join(sorted(sf.lower(), key=lambda c: 0 if c == 'u' else 1))
    try: return lit_type(v, b, sf)
    except Undef: return None


def observe(p, t, e):
    """Record value and, through conversions and sizeof, type of the literal e of type t."""
    ss = [p.put(('i', t), e), p.put(LLONG if t != 'llong' else ULLONG, e), p.put(INT, sze(e))]
    # signedness: -1 compared with the literal's type
    ss.append(p.put(INT, bin_('<', un('-', lit(1)), e)))
    ss.append(p.put(INT, bin_('<', lit(0), e)))
    ss.append(p.put(('i', t), bin_('/', e, lit(3))))
    return ss


def integers(ctx, per):
    out = []
    for si, sf in enumerate(SUFFIXES):
        p = Prog('P02.int.%d' % si)
        body = []
        for v in IV:
            sp = [x for x in spellings(ctx.rng, v, sf) if ok(v, x[0], sf)]
            for b, s in ctx.rng.sample(sp, min(per, len(sp))):
                body += observe(p, ok(v, b, sf), L(v, b, s, sf))
                ctx.count('integer_literals')
        for _ in range(per * 3):
            v = ctx.rng.getrandbits(64) >> ctx.rng.randrange(64)
            sp = [x for x in spellings(ctx.rng, v, sf) if ok(v, x[0], sf)]
            if sp:
                b, s = ctx.rng.choice(sp)
                body += observe(p, ok(v, b, sf), L(v, b, s, sf))
                ctx.count('integer_literals')
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    return out


def positions(ctx, n):
    """Literals as initializers, labels, sizes, enumeration values, indices, returned values, operands."""
    out = []
    for i in range(n):
        rng = ctx.rng
        p = Prog('P02.pos%d' % i)
        body = []
        small = [v for v in IV if v <= 2 ** 31 - 1]
        for k in range(6):
            t = rng.choice(list(SIZE))
            v = rng.choice(IV)
            sf = rng.choice(['', 'u', 'l', 'ul', 'll', 'ull'])
            b, s = rng.choice(spellings(rng, v, sf))
            if not ok(v, b, sf): continue
            e = L(v, b, s, sf)
            p.globals.append(('g%d' % k, ('i', t), e))
            p.globals.append(('ga%d' % k, A(('i', t), 3), il(lit(1), e)))
            p.func('f%d' % k, ('i', t), [], block(ret(e)))
            body += [p.put(('i', t), var('g%d' % k)), p.dump(var('ga%d' % k), 3 * SIZE[t]), decl(('i', t), 'l%d' % k, e), p.put(('i', t), var('l%d' % k)),
                     decl(A(('i', t), 3), 'la%d' % k, il(e, lit(2))), p.dump(var('la%d' % k), 3 * SIZE[t]), p.put(('i', t), call('f%d' % k)),
                     es(asg(var('l%d' % k), e)), p.put(('i', t), var('l%d' % k)), es(opasg('^', var('l%d' % k), e)), p.put(('i', t), var('l%d' % k))]
            ctx.count('literal_positions', 6)
        # case labels, array sizes, enumeration values (int constants, including characters)
        vs = rng.sample(small, 6)
        ls = []
        for v in vs:
            b, s = rng.choice(spellings(rng, v, ''))
            ls.append((v, L(v, b, s, '')))
        chars = rng.sample([("a", 97), ("\\n", 10), ("0", 48), ("\\x41", 65), ("\\101", 65), (" ", 32), ("\\\\", 92), ("\\'", 39), ("~", 126)], 3)
        seen = set(vs)
        for c, v in chars:
            if v not in seen:
                seen.add(v)
                ls.append((v, chr_(c)))
        sw = []
        for j, (v, e) in enumerate(ls): sw += [case(e, es(call('put_i', lit(j)))), brk()]
        sw += [default(es(call('put_i', lit(99))))]
        p.extern('put_i', F(VOID, [INT]), 'put')
        p.func('sel', VOID, [(LONG if rng.random() < .5 else INT, 'x')], block(switch(var('x'), block(*sw))))
        for v, e in ls: body += [es(call('sel', num(v))), es(call('sel', e))]
        body.append(es(call('sel', lit(77777))))
        for j, v in enumerate([v for v in rng.sample(small, len(small)) if 0 < v < 5000][:3]):
            b, s = rng.choice(spellings(rng, v, ''))
            body += [raw('char z%d[%s];' % (j, s)), p.put(INT, szt(A(CHAR, v))), {'k': 'e', 'a': {**call('put_i', {**szt(A(CHAR, v)), '_s': 'sizeof z%d' % j})}}]
        for j, v in enumerate(rng.sample(small, 3)):
            b, s = rng.choice(spellings(rng, v, ''))
            body += [{'k': 'enum', 'cs': [['E%d' % j, v], ['F%d' % j, v + 1 if v < 2 ** 31 - 1 else 0]],
                      '_s': 'enum {E%d = %s, F%d%s};' % (j, s, j, '' if v < 2 ** 31 - 1 else ' = 0')},
                     p.put(LONG, var('E%d' % j)), p.put(INT, var('F%d' % j))]
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    return out


def enumerations(ctx, n):
    """Enumeration constants, given and implied, wherever a literal may stand."""
    out = []
    rng = ctx.rng
    for i in range(n):
        p = Prog('P02.enum%d' % i)
        p.extern('put_i', F(VOID, [INT]), 'put')

        def value(last):
            r = rng.random()
            if r < .3: return None, last + 1
            if r < .6:
                c, v = rng.choice([('\\x80', -128), ('\\xff', -1), ('\\377', -1), ('\\xf0', -16), ('\\0', 0), ('a', 97), ('\\x7f', 127), ('\\n', 10)])
                return chr_(c), v
            v = rng.choice([0, 1, 2, 127, 128, 255, 256, 32767, 65535, 2 ** 31 - 9, 2 ** 31 - 2, rng.randrange(2 ** 31 - 10)])
            b, s = rng.choice(spellings(rng, v, ''))
            return L(v, b, s, ''), v

        def group(pre):
            cs, vs, last = [], [], -1
            for j in range(rng.randint(1, 6)):
                if last == 2 ** 31 - 1: break
                x, v = value(last)
                if cs and rng.random() < .15:
                    k = rng.randrange(len(cs))
                    x, v = var(cs[k][0]), vs[k]
                cs.append((pre + str(j), x))
                vs.append(v)
                last = v
            return cs, dict(zip([c for c, _ in cs], vs))
        # first those around zero, then any
        fixed = [[('\\x80', -128), 1, 1, ('\\xfd', -3), 1, 1, 1, 1], [1, 1, ('\\xff', -1), 1, ('\\375', -3), 1], [('\\xf0', -16), 1, ('\\x80', -128), 1]]
        if i < len(fixed):
            g, gv, last = [], {}, -1
            for j, x in enumerate(fixed[i]):
                v = last + 1 if x == 1 else x[1]
                g.append(('G%d' % j, None if x == 1 else chr_(x[0])))
                gv['G%d' % j] = last = v
        else: g, gv = group('G')
        p.enums = [[(c, x['n'] if x and x['k'] == 'v' else x) for c, x in g]]
        l, lv = group('L')
        body = enumeration(l)
        names = list(gv) + list(lv)
        vals = dict(gv, **lv)
        for c in names:
            body += observe(p, 'int', var(c))
            t = rng.choice(list(SIZE))
            body += [decl(('i', t), 'v' + c, var(c)), p.put(('i', t), var('v' + c)), decl(A(('i', t), 3), 'a' + c, il(var(c), lit(1), var(c))), p.dump(var('a' + c), 3 * SIZE[t]),
                     p.put(LONG, bin_(rng.choice('+-'), var(c), var(rng.choice(names))) if abs(vals[c]) < 2 ** 20 and all(abs(v) < 2 ** 30 for v in vals.values()) else var(c)),
                     p.put(INT, un('~', var(c))), p.put(LLONG, cast(('i', rng.choice(list(SIZE))), var(c)))]
            if 0 < vals[c] < 3000:
                body += [raw('char z%s[%s];' % (c, c)), {'k': 'e', 'a': {**call('put_i', {**sze(str_('x' * (vals[c] - 1))), '_s': 'sizeof z%s' % c})}}] if vals[c] < 300 else []
            if c in gv:
                t = rng.choice(list(SIZE))
                p.globals.append(('g' + c, ('i', t), var(c)))
                p.globals.append(('h' + c, A(('i', t), 3), il(lit(9), var(c))))
                body += [p.put(('i', t), var('g' + c)), p.dump(var('h' + c), 3 * SIZE[t])]
            ctx.count('enumeration_constants')
        # as labels
        for k, ns in enumerate([list(gv)]):
            seen, sw = set(), []
            for c in ns:
                if vals[c] in seen: continue
                seen.add(vals[c])
                sw += [case(var(c), es(call('put_i', lit(len(sw))))), brk()]
            sw.append(default(es(call('put_i', lit(99)))))
            for t in list(SIZE) if i < len(fixed) else rng.sample(list(SIZE), 3):
                f = 'sel_%s' % t
                p.func(f, VOID, [(('i', t), 'x')], block(switch(var('x'), block(*sw))))
                for c in ns: body.append(es(call(f, var(c))))
                body.append(es(call(f, un('-', lit(7)))))
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    return out


SIMPLE = {'\\n': 10, '\\t': 9, '\\r': 13, '\\a': 7, '\\b': 8, '\\f': 12, '\\v': 11, '\\\\': 92, "\\'": 39, '\\"': 34, '\\?': 63}


def elements():
    """Source spellings of single characters."""
    out = list(SIMPLE)
    out += [chr(c) for c in range(32, 127) if chr(c) not in '\\\'"']
    out += ['\\%o' % c for c in range(0, 256, 1)]
    out += ['\\%03o' % c for c in (0, 1, 7, 8, 63, 64, 127, 128, 255)] + ['\\00', '\\01', '\\07', '\\000']
    out += ['\\x%x' % c for c in range(256)] + ['\\x%X' % c for c in (0xab, 0xff, 0x7f, 0xc0)] + ['\\x0041', '\\x00ff']
    return out


def characters(ctx):
    els = elements() + ['"']
    out = []
    for i in range(0, len(els), 60):
        p = Prog('P02.chr%d' % i)
        body = []
        for e in els[i:i + 60]:
            body.append(p.put(INT, chr_(e)))
            ctx.count('character_constants')
        body += [p.put(INT, sze(chr_('a'))), decl(CHAR, 'c', chr_(els[i])), p.put(INT, var('c')), p.put(CHAR, chr_(els[i])), p.put(ULONG, chr_(els[i]))]
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    return out


def rand_str(rng, n):
    out, prev = '', ''
    els = ELS
    for _ in range(n):
        e = rng.choice(els)
        # a hexadecimal escape must not swallow the next character, an octal one of fewer than three digits neither
        if prev.startswith('\\x') and e[0] in '0123456789abcdefABCDEF': e = ' '
        if prev.startswith('\\') and prev[1:].isdigit() and e[0] in '01234567' and len(prev) < 4: e = rng.choice([e, '+'])
        if prev == '?' and e == '?': e = '.'
        out += e
        prev = e
    return out


ELS = elements() + ["'"]


def strings(ctx, n):
    """String literals as arguments, in arrays (local, global), through pointers, at several lengths."""
    out = []
    rng = ctx.rng
    for i in range(n):
        p = Prog('P02.str%d' % i)
        body = []
        for k in range(5):
            s = rand_str(rng, rng.choice([0, 1, 2, 3, 5, 8, 15]))
            e = str_(s)
            nb = len(decode(s)) + 1
            p.globals.append(('g%d' % k, A(CHAR, nb), e))
            p.globals.append(('h%d' % k, A(CHAR, nb + 2), e))
            body += [p.puts(e), p.dump(e, nb), p.put(INT, sze(e)), decl(A(CHAR, nb), 'l%d' % k, e), p.dump(var('l%d' % k), nb), p.put(INT, sze(var('l%d' % k))),
                     p.dump(var('g%d' % k), nb), p.put(INT, sze(var('g%d' % k))), p.dump(var('h%d' % k), nb + 2),
                     decl(P(CHAR), 'q%d' % k, e), p.put(CHAR, idx(var('q%d' % k), lit(nb - 1))), p.put(CHAR, deref(var('q%d' % k))), p.puts(var('q%d' % k)),
                     p.put(CHAR, idx(e, lit(nb - 1)))]
            ctx.count('string_literals')
        body.append(p.puts(str_('')))
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    return out


def escapes(ctx):
    """Escapes next to characters that would lengthen them, alone and in strings."""
    out = []
    oc = ['\\0', '\\1', '\\7', '\\12', '\\77', '\\00', '\\000', '\\012', '\\101', '\\377', '\\007']
    ss = [e + c for e in oc for c in ('0', '1', '7', '8', '9', 'a', '\\0', '\\n', '') if not (len(e) == 3 and c in ('0', '1', '7') and int(e[1:] + c, 8) > 255)]
    ss += ['\\x' + h + c for h in ('0', '7', 'a', 'F', '41', 'fF', '00', '0041', 'e0') for c in ('g', 'x', ' ', '\\x1', '\\1', 'G', '_', '')]
    ss += [a + b for a in SIMPLE for b in ('n', '0', '\\\\', '"'.replace('"', '\\"'), 'x1')]
    for i in range(0, len(ss), 24):
        p = Prog('P02.esc%d' % i)
        body = []
        for k, s in enumerate(ss[i:i + 24]):
            nb = len(decode(s)) + 1
            p.globals.append(('g%d' % k, A(CHAR, nb), str_(s)))
            body += [p.dump(str_(s), nb), p.put(INT, sze(str_(s))), p.dump(var('g%d' % k), nb), decl(A(CHAR, nb + 1), 'l%d' % k, str_(s)), p.dump(var('l%d' % k), nb + 1)]
            ctx.count('string_literals')
        p.func('main', INT, [], block(*body, ret(lit(0))))
        out.append(p)
    return out


def decode(s):
    """Characters of a string source (only to size the dumps)."""
    out, i = [], 0
    while i < len(s):
        if s[i] != '\\':
            out.append(s[i]); i += 1
        elif s[i + 1] == 'x':
            i += 2
            while i < len(s) and s[i] in '0123456789abcdefABCDEF': i += 1
            out.append('x')
        elif s[i + 1] in '01234567':
            j = i + 1
            while j < len(s) and j < i + 4 and s[j] in '01234567': j += 1
            out.append('o'); i = j
        else:
            out.append('e'); i += 2
    return out


def run(ctx):
    ctx.programs(integers(ctx, ctx.n(2, 8)) + characters(ctx) + escapes(ctx) + enumerations(ctx, ctx.n(40, 150)) + positions(ctx, ctx.n(16, 60)) + strings(ctx, ctx.n(30, 120)))
    while not ctx.quick and ctx.left() > 60 and not ctx.viol:
        ctx.programs(integers(ctx, 8) + enumerations(ctx, 60) + positions(ctx, 60) + strings(ctx, 120))
