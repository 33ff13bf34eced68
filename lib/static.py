"""Texts for CStatic.tla: tokens as JSON, verdicts back."""
import hashlib, json, os, re
from .common import *
from .pyev import lit_type, Undef
from .mutate import TOKEN, KEYWORDS

C_WORDS = set('''auto const do double extern float goto inline register restrict short signed static union volatile
 _Alignas _Alignof _Atomic _Bool _Complex _Generic _Imaginary _Noreturn _Static_assert _Thread_local asm typeof'''.split())
SIMPLE = {'n': 10, 't': 9, 'r': 13, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '\\': 92, "'": 39, '"': 34, '?': 63}


def chars(body):
    """The bytes of the inside of a character constant or string."""
    out, i = [], 0
    b = body
    while i < len(b):
        if b[i] != '\\':
            out += list(b[i].encode('latin-1', 'replace'))
            i += 1
        elif b[i + 1] == 'x':
            m = re.match(r'[0-9a-fA-F]+', b[i + 2:])
            out.append(int(m.group(), 16) & 255)
            i += 2 + len(m.group())
        elif b[i + 1] in '01234567':
            m = re.match(r'[0-7]{1,3}', b[i + 1:])
            out.append(int(m.group(), 8) & 255)
            i += 1 + len(m.group())
        else:
            out.append(SIMPLE[b[i + 1]])
            i += 2
    return out


def tok(w):
    """One token of the specification."""
    if w[0] == '"': return ['s', len(chars(w[1:-1])) + 1]
    if w[0] == "'":
        v = chars(w[1:-1])[0]
        return ['c', v - 256 if v > 127 else v]
    if w[0].isdigit():
        m = re.fullmatch(r'(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9]\d*)([uUlL]*)', w)
        if not m: return None
        d, sf = m.groups()
        base = 16 if d[:2] in ('0x', '0X') else 8 if d[0] == '0' else 10
        v = int(d, base)
        sf = ''.join(sorted(sf.lower(), key=lambda c: 0 if c == 'u' else 1))
        if sf not in ('', 'u', 'l', 'll', 'ul', 'ull'): return None
        try: t = lit_type(v, base, sf)
        except Undef: t = 'huge' if v >= 2 ** 64 else 'wide'
        return ['n', t, [v] if v < 2 ** 31 else []]
    if w in KEYWORDS: return ['k', w]
    if re.match(r'[A-Za-z_]', w): return ['u', w] if w in C_WORDS else ['i', w]
    return ['k', w]


def tokenize(text):
    """Tokens of a text, or None where it has none (that is the lexer's matter)."""
    out, i = [], 0
    while True:
        while i < len(text) and text[i] in ' \t\n\v\f': i += 1
        if i >= len(text): return out
        m = TOKEN.match(text, i)
        if not m: return None
        # a number runs into letters or digits
        if m.end() < len(text) and re.match(r'\w', text[m.end()]) and re.match(r'[\w]', m.group()): return None
        t = tok(m.group())
        if t is None: return None
        out.append(t)
        i = m.end()


def observe(ctx, items):
    """Compile every text; {id: observation}."""
    d = os.path.dirname(ctx.work.path('cs', 'obs', 'x'))
    os.makedirs(d, exist_ok=True)
    exe = ctx.umlcc()
    old = b'OLD OUTPUT'

    def some(part):
        res, objs = {}, []
        for k, text in part:
            c, s, o = ['%s/%s.%s' % (d, k, x) for x in ('c', 's', 'o')]
            with open(c, 'wb') as h: h.write(text.encode('latin-1'))
            stale = hash_id(k) & 1
            if stale:
                with open(s, 'wb') as h: h.write(old)
            rc, out, err = sh([exe, c], timeout=30)
            if os.path.exists(s):
                with open(s, 'rb') as h: a = h.read()
                st = 'kept' if stale and a == old else 'odd' if stale and old in a else 'new'
            else: st = 'odd' if stale else 'kept'
            r = {'rc': -1 if rc == 'timeout' or rc < 0 or rc > 125 else rc, 'diag': bool(err.strip()), 'out': st, 'asm': False, 'defs': [], 'refs': [],
                 'lim': b'too complex' in err or b'too many' in err and b'register' in err, 'err': err.decode('latin-1')[-300:], 'sout': bool(out)}
            if rc == 0 and st == 'new':
                arc, _, _ = sh(['as', '-o', o, s], timeout=30)
                if arc == 0:
                    r['asm'] = True
                    objs.append((k, o))
            res[k] = r
            for x in (c, s):
                if os.path.exists(x): os.unlink(x)
        if objs:
            rc, out, err = sh(['nm', '-A'] + [o for _, o in objs], timeout=60)
            by = {o: k for k, o in objs}
            for l in out.decode('latin-1').split('\n'):
                m = re.match(r'(.*\.o):\s*[0-9a-f]*\s+(\w) (\S+)$', l)
                if not m: continue
                if m.group(2) == 'U': res[by[m.group(1)]]['refs'].append(m.group(3))
                elif m.group(2).isupper(): res[by[m.group(1)]]['defs'].append(m.group(3))
            for _, o in objs: os.unlink(o)
        return res
    parts = [items[i:i + 64] for i in range(0, len(items), 64)]
    out = {}
    for r in pmap(some, parts): out.update(r)
    return out


def hash_id(k): return int(hashlib.md5(str(k).encode()).hexdigest()[:8], 16)


def judge(ctx, items, name='cs', chunk=2000):
    """items: [(id, text)] -> {id: (verdict, reason, complaint, observation)}; texts without tokens are left out."""
    todo = []
    for k, text in items:
        t = tokenize(text)
        if t is not None: todo.append((k, t))
    has = {k for k, _ in todo}
    obs = observe(ctx, [(k, x) for k, x in items if k in has])

    def one(a):
        n, part = a
        f = ctx.work.path('cs', '%s%d.json' % (name, n))
        with open(f, 'w') as h:
            for k, t in part: h.write(json.dumps({'id': k, 't': t, 'o': {x: obs[k][x] for x in ('rc', 'diag', 'out', 'asm', 'defs', 'refs', 'lim')}}) + '\n')
        r = tlc(ctx.work, 'CStatic', env={'CS_INPUT': f}, name='cs-%s%d' % (name, n), timeout=800, workers=1, heap='2g')
        os.unlink(f)
        return r
    out = {}
    # parts of about the same number of tokens, eight at least unless there is little to do
    total = sum(len(t) for _, t in todo)
    np = max(1, min(8, total // 1500), -(-len(todo) // chunk))
    parts, load = [[] for _ in range(np)], [0] * np
    for k, t in sorted(todo, key=lambda x: -len(x[1])):
        j = load.index(min(load))
        parts[j].append((k, t))
        load[j] += len(t) + 10
    for r in pmap(one, list(enumerate(parts))):
        tlc_ok(r, 'CStatic')
        ctx.states += r['distinct']
        ctx.transitions += r['generated']
        for l in r['out'].split('\n'):
            l = l.strip()
            if not l.startswith('"<<\\"V\\"'): continue
            v = json.loads(json.loads(l).replace('<<', '[').replace('>>', ']'))
            out[v[1]] = (v[2], v[3], v[4], obs[v[1]])
    missing = [k for k, _ in todo if k not in out]
    if missing: raise ToolError('CStatic gave no verdict on %s' % missing[:3])
    ctx.traces += len(out)
    return out


def verdicts(ctx, items): return {k: v[:2] for k, v in judge(ctx, items).items()}
