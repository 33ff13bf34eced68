"""Reads assembly text (AT&T syntax) into the instruction records of spec/Abi.tla."""
import re

B64 = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'rsp'] + ['r%d' % i for i in range(8, 16)]
REG = {}
for r in B64:
    REG[r] = (r, 8)
for r in ('ax', 'bx', 'cx', 'dx', 'si', 'di', 'bp', 'sp'):
    REG['e' + r] = ('r' + r, 4)
    REG[r] = ('r' + r, 2)
for r in 'abcd':
    REG[r + 'l'] = ('r%sx' % r, 1)
    REG[r + 'h'] = ('r%sx' % r, 1)
for r in ('si', 'di', 'bp', 'sp'): REG[r + 'l'] = ('r' + r, 1)
for i in range(8, 16):
    for s, n in (('d', 4), ('w', 2), ('b', 1)): REG['r%d%s' % (i, s)] = ('r%d' % i, n)


class Unknown(Exception): pass


def operand(t):
    """('i',) immediate, ('r', reg, size), ('m', base, disp, index) memory"""
    t = t.strip()
    if t.startswith('$'): return ('i', t[1:])
    if t.startswith('*'): return ('*',) + operand(t[1:])
    if t.startswith('%'):
        if t[1:] not in REG: raise Unknown(t)
        return ('r',) + REG[t[1:]]
    m = re.match(r'^([^()]*)\(([^()]*)\)$', t)
    if m:
        parts = [x.strip() for x in m.group(2).split(',')]
        b = parts[0][1:] if parts[0] else ''
        x = parts[1][1:] if len(parts) > 1 and parts[1] else ''
        for r in (b, x):
            if r and r != 'rip' and r not in REG: raise Unknown(t)
        d = m.group(1).strip()
        try: disp = int(d, 0) if d else 0
        except ValueError: disp, b = None, 'rip' if b in ('', 'rip') else b
        return ('m', b, disp, x)
    return ('l', t)


def split(s):
    out, depth, cur = [], 0, ''
    for c in s:
        if c == '(': depth += 1
        if c == ')': depth -= 1
        if c == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else: cur += c
    if cur.strip(): out.append(cur)
    return out


X = ['x']     # a place the specification does not track


def loc(o, size):
    if o[0] == 'r': return ['r', o[1]] if size == 8 else ['p', o[1]]
    if o[0] == 'm' and o[1] in ('rbp', 'rsp') and not o[3] and o[2] is not None: return ['m', o[1], o[2], size]
    return X


def addr_regs(o):
    if o[0] == '*': return addr_regs(o[1:]) + ([o[2]] if o[1] == 'r' else [])
    if o[0] != 'm': return []
    return [r for r in (o[1], o[3]) if r and r != 'rip']


SZ = {'b': 1, 'w': 2, 'l': 4, 'q': 8}
JCC = {'j' + c for c in 'e ne a ae b be g ge l le s ns z nz c nc o no p np na nb nbe nae ng nge nl nle'.split()}
ALU = {'add', 'sub', 'and', 'or', 'xor', 'adc', 'sbb', 'imul', 'sal', 'sar', 'shl', 'shr', 'rol', 'ror'}


def strip_suffix(m, names):
    if m in names: return m, None
    if m[-1] in SZ and m[:-1] in names: return m[:-1], SZ[m[-1]]
    return None, None


def instr(mn, ops):
    """Record: k kind, r registers whose value is used, s source place, d written place(s), n number, t target"""
    R = {'k': 'op', 'r': [], 's': X, 'd': X, 'd2': X, 'n': 0, 't': ''}
    o = [operand(x) for x in ops]

    def size(i, sfx):
        return sfx or (o[i][2] if o[i][0] == 'r' else None) or 8

    if mn in ('nop', 'endbr64', 'cld', 'hlt', 'ud2'): return R
    if mn in ('ret', 'retq'): return dict(R, k='ret')
    if mn in ('leave', 'leaveq'): return dict(R, k='leave')
    if mn == 'jmp':
        if o[0][0] != 'l': raise Unknown('jmp')
        return dict(R, k='jmp', t=o[0][1])
    if mn in JCC: return dict(R, k='jcc', t=o[0][1])
    if mn in ('call', 'callq'): return dict(R, k='call', r=addr_regs(o[0]))
    b, s = strip_suffix(mn, {'push', 'pop'})
    if b == 'push': return dict(R, k='push', s=loc(o[0], 8), r=addr_regs(o[0]))
    if b == 'pop': return dict(R, k='pop', d=loc(o[0], 8), r=addr_regs(o[0]))
    if mn in ('cltd', 'cqto', 'cqo', 'cdq', 'cwtd'): return dict(R, r=['rax'], d=['r', 'rdx'])
    if mn in ('cltq', 'cwtl', 'cbtw', 'cdqe', 'cwde', 'cbw', 'cltl', 'cltw'): return dict(R, r=['rax'], d=['r', 'rax'])
    if mn.startswith('set') and len(o) == 1: return dict(R, d=loc(o[0], 1), r=addr_regs(o[0]))
    if mn.startswith('cmov') and len(o) == 2: return dict(R, r=addr_regs(o[0]) + [x[1] for x in o if x[0] == 'r'], s=loc(o[0], 8), d=loc(o[1], 8))
    m = re.match(r'^mov([sz])([bwl])([wlq])$', mn)
    if m: return dict(R, k='cv', s=loc(o[0], SZ[m.group(2)]), d=loc(o[1], 8 if o[1][0] == 'r' else SZ[m.group(3)]), r=addr_regs(o[0]) + addr_regs(o[1]))
    b, s = strip_suffix(mn, {'mov', 'movabs'})
    if b and len(o) == 2:
        sz = size(1, s) if o[1][0] == 'r' else size(0, s)
        # a 32-bit move clears the upper half, so it defines the whole register
        full = sz if sz in (8, 1, 2) else 4
        if o[0][0] == 'r' and o[1][0] == 'r' and sz == 8: return dict(R, k='mov', s=loc(o[0], 8), d=loc(o[1], 8))
        if sz == 8: return dict(R, k='mov', s=loc(o[0], 8), d=loc(o[1], 8), r=addr_regs(o[0]) + addr_regs(o[1]))
        return dict(R, k='cv', s=loc(o[0], full), d=loc(o[1], 8) if o[1][0] == 'r' and full == 4 else loc(o[1], full), r=addr_regs(o[0]) + addr_regs(o[1]))
    b, s = strip_suffix(mn, {'lea'})
    if b: 
        if o[1][0] == 'r' and o[1][1] == 'rsp':
            if o[0][1] in ('rbp', 'rsp') and not o[0][3] and o[0][2] is not None: return dict(R, k='leasp', s=['m', o[0][1], o[0][2], 8])
            raise Unknown(mn)
        return dict(R, r=[x for x in addr_regs(o[0]) if x not in ('rbp', 'rsp')], d=loc(o[1], 8))
    b, s = strip_suffix(mn, {'cmp', 'test'})
    if b: return dict(R, r=sum((addr_regs(x) for x in o), []) + [x[1] for x in o if x[0] == 'r'], s=next((loc(x, size(0, s)) for x in o if x[0] == 'm'), X))
    b, s = strip_suffix(mn, {'div', 'idiv', 'mul'})
    if b or (strip_suffix(mn, {'imul'})[0] and len(o) == 1):
        return dict(R, r=['rax'] + (['rdx'] if b in ('div', 'idiv') else []) + addr_regs(o[0]) + ([o[0][1]] if o[0][0] == 'r' else []),
                    s=loc(o[0], 8) if o[0][0] == 'm' else X, d=['r', 'rax'], d2=['r', 'rdx'])
    b, s = strip_suffix(mn, {'imul'})
    if b and len(o) == 3: return dict(R, r=addr_regs(o[1]) + ([o[1][1]] if o[1][0] == 'r' else []), d=loc(o[2], 8))
    b, s = strip_suffix(mn, ALU)
    if b and len(o) == 2:
        if o[1][0] == 'r' and o[1][1] == 'rsp':
            if o[0][0] != 'i' or b not in ('add', 'sub') or not re.match(r'^-?(0x)?[0-9a-fA-F]+$', o[0][1]): raise Unknown(mn)
            v = int(o[0][1], 0)
            return dict(R, k='sp', n=v if b == 'add' else -v)
        if b in ('xor', 'sub') and o[0] == o[1] and o[0][0] == 'r': return dict(R, d=loc(o[1], 8))
        return dict(R, r=sum((addr_regs(x) for x in o), []) + [x[1] for x in o if x[0] == 'r'], s=loc(o[0], size(1, s)) if o[0][0] == 'm' else (loc(o[1], size(0, s)) if o[1][0] == 'm' else X),
                    d=loc(o[1], size(0, s)) if o[1][0] == 'm' else ['r', o[1][1]])
    b, s = strip_suffix(mn, {'neg', 'not', 'inc', 'dec', 'sal', 'sar', 'shl', 'shr'})
    if b and len(o) == 1: return dict(R, r=addr_regs(o[0]) + ([o[0][1]] if o[0][0] == 'r' else []), s=loc(o[0], 8) if o[0][0] == 'm' else X, d=loc(o[0], 8) if o[0][0] == 'm' else ['r', o[0][1]])
    b, s = strip_suffix(mn, {'xchg'})
    if b: return dict(R, r=[x[1] for x in o if x[0] == 'r'], d=loc(o[0], 8), d2=loc(o[1], 8))
    raise Unknown(mn)


def functions(text):
    """[(name, [records with k='lab' for labels], reason or None)]"""
    out, cur, sect = [], None, 'text'
    for l in text.split('\n'):
        l = l.split('#')[0].rstrip()
        if not l.strip(): continue
        m = re.match(r'^\s*([\w.$]+):\s*$', l)
        if m:
            if m.group(1).startswith('.L'):
                if cur is not None and sect == 'text': cur[1].append({'k': 'lab', 't': m.group(1)})
            elif sect == 'text':
                cur = [m.group(1), [], None]
                out.append(cur)
            else: cur = None
            continue
        w = l.strip().split(None, 1)
        if w[0].startswith('.'):
            if w[0] in ('.text', '.data', '.bss', '.rodata'): sect = w[0][1:]
            elif w[0] == '.section': sect = 'text' if w[1].startswith('.text') else 'data'
            continue
        if cur is None or sect != 'text': continue
        try: cur[1].append(instr(w[0], split(w[1]) if len(w) > 1 else []))
        except Unknown as e: cur[2] = '%s (%s)' % (l.strip(), e)
        except (IndexError, ValueError) as e: cur[2] = '%s (%s)' % (l.strip(), e)
    return out


def spec_function(fid, recs):
    labs = {r['t']: i + 1 for i, r in enumerate(recs) if r['k'] == 'lab'}
    code = []
    for r in recs:
        c = {'k': 'op', 'r': [], 's': X, 'd': X, 'd2': X, 'n': 0, 't': 0} if r['k'] == 'lab' else dict(r)
        if r['k'] in ('jmp', 'jcc'):
            if r['t'] not in labs: return None
            c['t'] = labs[r['t']]
        elif r['k'] != 'lab': c['t'] = 0
        code.append(c)
    return {'id': fid, 'code': code}
