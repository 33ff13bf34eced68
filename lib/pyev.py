"""Evaluation of pure integer expressions, only used to steer generators away from undefined operands.
(The oracle is the specification; a mistake here costs coverage, never a verdict.)"""
from .cast import *

RANK = {'char': 1, 'int': 2, 'uint': 2, 'long': 3, 'ulong': 3, 'llong': 4, 'ullong': 4}
UNS = {'int': 'uint', 'long': 'ulong', 'llong': 'ullong'}


def wrap(v, t):
    n = 8 * SIZE[t]
    v &= (1 << n) - 1
    if SIGNED[t] and v >> (n - 1): v -= 1 << n
    return v


def fits(v, t): return wrap(v, t) == v
def tmin(t): return -(1 << (8 * SIZE[t] - 1)) if SIGNED[t] else 0
def tmax(t): return (1 << (8 * SIZE[t] - 1)) - 1 if SIGNED[t] else (1 << (8 * SIZE[t])) - 1
def promote(t): return 'int' if t == 'char' else t


def common(a, b):
    a, b = promote(a), promote(b)
    if a == b: return a
    if SIGNED[a] == SIGNED[b]: return a if RANK[a] >= RANK[b] else b
    u, s = (b, a) if SIGNED[a] else (a, b)
    if RANK[u] >= RANK[s]: return u
    if SIZE[s] > SIZE[u]: return s
    return UNS[s]


class Undef(Exception): pass


def lit_type(v, base, sf):
    dec = base == 10
    c = {'': ['int', 'long', 'llong'] if dec else ['int', 'uint', 'long', 'ulong'], 'u': ['uint', 'ulong'],
         'l': ['long', 'llong'] if dec else ['long', 'ulong'], 'ul': ['ulong'], 'll': ['llong'] if dec else ['llong', 'ullong'],
         'ull': ['ullong']}[sf]
    for t in c:
        if fits(v, t): return t
    raise Undef


def binop(o, a, b):
    (ta, x), (tb, y) = a, b
    if o in ('<<', '>>'):
        t = promote(ta)
        n = 8 * SIZE[t]
        if y < 0 or y >= n: raise Undef
        if o == '>>': return t, x >> y
        r = x << y
        if SIGNED[t] and (x < 0 or not fits(r, t)): raise Undef
        return t, wrap(r, t)
    t = common(ta, tb)
    x, y = wrap(x, t), wrap(y, t)
    if o in ('==', '!=', '<', '>', '<=', '>='):
        return 'int', int({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[o])
    if o in '/%':
        if y == 0: raise Undef
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        if not fits(q, t): raise Undef
        return (t, q) if o == '/' else (t, x - q * y)
    r = {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y}[o]
    if SIGNED[t]:
        if not fits(r, t): raise Undef
        return t, r
    return t, wrap(r, t)


def ev(n, env):
    """(type name, value) of a pure integer expression; env: name -> (type name, value)."""
    k = n['k']
    if k == 'lit':
        v = 0
        for d in n['dg']: v = v * n['bs'] + d
        return lit_type(v, n['bs'], n['sf']), v
    if k == 'v': return env[n['n']]
    if k == 'un':
        t, v = ev(n['a'], env)
        if n['o'] == '!': return 'int', int(v == 0)
        t = promote(t)
        r = {'+': v, '-': -v, '~': ~v}[n['o']]
        if SIGNED[t] and not fits(r, t): raise Undef
        return t, wrap(r, t)
    if k == 'b': return binop(n['o'], ev(n['a'], env), ev(n['b'], env))
    if k == '&&':
        return 'int', int(ev(n['a'], env)[1] != 0 and ev(n['b'], env)[1] != 0)
    if k == '||':
        return 'int', int(ev(n['a'], env)[1] != 0 or ev(n['b'], env)[1] != 0)
    if k == '?':
        a, b = ev_type(n['a'], env), ev_type(n['b'], env)
        t = common(a, b)
        return t, wrap(ev(n['a'] if ev(n['c'], env)[1] else n['b'], env)[1], t)
    if k == 'cast': return n['t'][1], wrap(ev(n['a'], env)[1], n['t'][1])
    if k in ('szt', 'sze'): return 'ulong', 1
    if k == 'alias': return ev(n['a'], env)
    raise Undef


def ev_type(n, env):
    k = n['k']
    if k == 'lit': return ev(n, env)[0]
    if k == 'v': return env[n['n']][0]
    if k == 'un': return 'int' if n['o'] == '!' else promote(ev_type(n['a'], env))
    if k == 'b':
        if n['o'] in ('==', '!=', '<', '>', '<=', '>='): return 'int'
        if n['o'] in ('<<', '>>'): return promote(ev_type(n['a'], env))
        return common(ev_type(n['a'], env), ev_type(n['b'], env))
    if k in ('&&', '||'): return 'int'
    if k == '?': return common(ev_type(n['a'], env), ev_type(n['b'], env))
    if k == 'cast': return n['t'][1]
    if k in ('szt', 'sze'): return 'ulong'
    raise Undef


def const(t, v):
    """A constant expression of type t (name) and value v."""
    sf = {'char': '', 'int': '', 'uint': 'u', 'long': 'l', 'ulong': 'ul', 'llong': 'll', 'ullong': 'ull'}[t]
    if t == 'char': return cast(CHAR, num(v))
    if v == tmin(t) and SIGNED[t]: return bin_('-', num(v + 1, sf), lit(1, sf))
    return num(v, sf)


def plain_const(t, v):
    """As const, but the shortest spelling whose conversion to t gives v (for assignments)."""
    if v == tmin(t) and SIGNED[t] and SIZE[t] > 1: return const(t, v)
    return num(v) if fits(v, 'int') and v != tmin('int') else const(t, v)


VALS = {}
for _t in SIZE:
    _m, _M = tmin(_t), tmax(_t)
    VALS[_t] = sorted({0, 1, 2, 3, 7, 8, 31, 63, 100, 127, _M, _M - 1, _M // 2, _M // 2 + 1} |
                      ({-1, -2, -3, -7, -8, -100, -128, _m, _m + 1} if SIGNED[_t] else set()) |
                      ({255, 256, 32767, 32768, 65535, 65536, 0x7ffffffe} if _t != 'char' else set()) |
                      ({0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x123456789abcdef} if SIZE[_t] == 8 or _t == 'uint' else set()) |
                      ({-0x80000000, -0x80000001, -0x100000000} if SIZE[_t] == 8 and SIGNED[_t] else set()))
    VALS[_t] = [v for v in VALS[_t] if fits(v, _t)]
