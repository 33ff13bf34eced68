"""Damaged texts: mutations and truncations of token sequences and of characters."""
import re
PUNCTS = ['<<=', '>>=', '->', '++', '--', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '*=', '/=', '%=', '+=', '-=', '&=', '^=', '|=',
          '[', ']', '(', ')', '{', '}', '.', '&', '*', '+', '-', '~', '!', '/', '%', '<', '>', '^', '|', '?', ':', ';', '=', ',']
KEYWORDS = ['break', 'case', 'char', 'continue', 'default', 'else', 'enum', 'for', 'if', 'int', 'long', 'return', 'sizeof', 'struct', 'switch', 'typedef', 'unsigned', 'void', 'while']
TOKEN = re.compile(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|[A-Za-z_]\w*|0[xX][0-9a-fA-F]+[uUlL]*|\d+[uUlL]*|' + '|'.join(re.escape(p) for p in PUNCTS))


def tokens(text): return TOKEN.findall(text)


def join(ts, rng=None):
    out, n = [], 0
    for t in ts:
        out.append(t)
        n += len(t) + 1
        out.append('\n' if t in (';', '{', '}') else ' ')
    return ''.join(out)


def mutate_tokens(ts, rng, names=None):
    """One random edit of a token sequence."""
    ts = list(ts)
    if not ts: return ts
    i = rng.randrange(len(ts))
    j = rng.randrange(len(ts))
    k = rng.choice(list(range(12)) + [6, 9, 10, 11] * 3)
    if k == 0: del ts[i]
    elif k == 1: ts.insert(i, ts[j])
    elif k == 2: ts[i], ts[j] = ts[j], ts[i]
    elif k == 3: ts[i] = rng.choice(PUNCTS)
    elif k == 4: ts[i] = rng.choice(KEYWORDS)
    elif k == 5: ts.insert(i, rng.choice(PUNCTS + KEYWORDS))
    elif k == 6: ts[i] = rng.choice(['0', '1', '2147483648', "'a'", '"s"', 'x', 'main', '99999999999999999999'])
    elif k == 7:
        i, j = min(i, j), max(i, j)
        if j - i < 40: ts[i:i] = ts[i:j]
        else: del ts[i:i + 3]
    elif k == 8: del ts[i:i + rng.randint(1, 6)]
    elif k == 9 and names: ts[i] = rng.choice(names)
    elif k == 10:      # exchange two names
        ids = [x for x, t in enumerate(ts) if re.match(r'[A-Za-z_]', t) and t not in KEYWORDS]
        if len(ids) > 1:
            a, b = rng.sample(ids, 2)
            ts[a] = ts[b]
    else:              # exchange two types
        ids = [x for x, t in enumerate(ts) if t in ('int', 'char', 'long', 'void', 'unsigned')]
        if ids: ts[rng.choice(ids)] = rng.choice(['int', 'char', 'long', 'void', 'unsigned', 'unsigned long', 'struct S', 'enum E', 'int *'])
    return ts


def mutate_chars(text, rng):
    i = rng.randrange(len(text) + 1)
    k = rng.randrange(5)
    if k == 0: return text[:i]
    if k == 1: return text[:i] + text[i + 1:]
    if k == 2: return text[:i] + chr(rng.randrange(1, 256)) + text[i:]
    if k == 3: return text[:i] + chr(rng.randrange(1, 256)) + text[i + 1:]
    j = rng.randrange(len(text) + 1)
    return text[:i] + text[j:j + rng.randint(1, 30)] + text[i:]
