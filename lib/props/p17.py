"""P17: the command reads one .c file and writes only its .s file on success.

Driver.tla is a transition system over a small file system; TLC enumerates histories of edits and
invocations with the expected exit status and file system after each step, and each history is
replayed with the real command in a scratch directory as an unprivileged user."""
import json, os, re, shutil, stat, subprocess, tempfile
from ..common import *

V1 = 'int main(void) { return 0; }\n'
V2 = 'int g = 5;\nint f(int a) { return a + g; }\nint main(void) { int i; for (i = 0; i < 3; i++) g = f(i); return g; }'
V3 = ''.join('int f%d(int a) { return a * %d + (a << 3); }\n' % (i, i) for i in range(900)) + 'int main(void) { return f1(2); }\n'
LATIN = 'char s[9] = "caf\xe9\xff";\nint main(void) { return s[3]; }\n'
CONTENTS = {'V1': V1, 'V2': V2, 'V3': V3, 'V4': LATIN, 'LEX': 'int main(void) { return 0; }\n$', 'SYN': 'int main(void) { return 0; ', 'SYN2': V3 + 'int main(', 'SEM': 'int main(void) { return y; }\n',
            'SEM2': V1.replace('return 0', 'int x; int x; return 0'), 'REG': None, 'EMPTY': '', 'NUL': V1 + '\0 }}}', 'BIN': '\x7fELF\x02\x01\xff\xfe', 'OLD': 'old assembly\n' * 40, 'OLD2': ''}
VALID = ['V1', 'V2', 'V3', 'V4']
SFX = '.s'


def target(p): return p[:-1] + 's'


def scenarios(ctx, perms):
    """(name, config, simulate): configurations of the model."""
    q = ctx.quick
    srcs = ['f:' + c for c in CONTENTS if not c.startswith('OLD')] + ['-', 'D'] + (['n:V1', 'r:V1'] if perms else [])
    tgts = ['-', 'f:OLD', 'f:OLD2', 'f:SV2', 'D', 'F'] + (['r:OLD', 'n:OLD'] if perms else [])
    names = ['a.c', '.c', 'a.b.c', 'x.c.c', 'a b.c', '-o.c', 'caf\xe9.c', 'd.d/k.c', 'd/.c', 'L' * 200 + '.c', 'a"\'$(x)%d%s.c']
    bad = ['a', 'a.s', 'a.cc', 'a.C', 'c', 'ac', 'a.c.', 'a.h', 'a.c.h', 'd.c/b', '.', 'a.c ']
    frozen = ['ro/a.c', 'ro/a.s'] if perms else []
    z = [['', 'zz.c']]
    for i, nm in enumerate(names + (['ro/a.c'] if perms else [])):
        t = target(nm)
        paths = [nm, t, 'o.c', 'o.s']
        one = [[[w, nm]] for w in ['', './', '@', 'd/../']]
        args = one + [[], [['', 'zz.c']], [['', '']], [['', nm], ['', nm]], [['', nm], ['', 'o.c']], [['', '-o'], ['', nm]], [['', nm], ['', '']], [['', 'o.c'], ['', nm]], [['', nm], ['', t]]]
        few = i > 0
        yield 'names%d' % i, dict(paths=paths, frozen=frozen, valid=VALID, start={'o.c': 'f:V1', 'o.s': 'f:OLD'}, focus=[[nm, srcs if not few or not q else ['f:V1', 'f:V3', 'f:SEM', 'f:SYN', '-', 'D'], tgts if not few or not q else ['-', 'f:OLD', 'D'], t]],
                                  args=args if not few or not q else one[:3] + [[], [['', nm], ['', nm]]], puts=[], pairs=[], max=1), None
    # names that are not sources: even with a valid program inside
    paths = sorted(set(x for b in bad if b != '.' for x in (b, b + '.s', b[:-1] + 's')) | {'o.c', 'o.s'})
    yield 'bad', dict(paths=paths, frozen=[], valid=VALID, start=dict({b: 'f:V1' for b in bad if b not in ('.', 'd.c/b')}, **{'d.c/b': 'f:V1', 'o.c': 'f:V1'}), focus=[],
                      args=[[[w, b]] for b in bad for w in ('', './', '@')], puts=[], pairs=[], max=1), None
    # histories: edits and invocations, alone or two at a time
    a, b = [['', 'a.c']], [['', 'b.c']]
    put = [['a.c', 'f:' + c] for c in ('V1', 'V3', 'SEM')] + [['b.c', 'f:V2'], ['a.c', '-'], ['a.s', 'f:OLD'], ['a.s', '-']]
    H = dict(paths=['a.c', 'a.s', 'b.c', 'b.s', 'd/a.c', 'd/a.s'], frozen=[], valid=VALID, start={'a.c': 'f:V2', 'b.c': 'f:V1', 'd/a.c': 'f:V3'}, focus=[],
             args=[a, b, a + b], puts=put, pairs=[[a, b], [a, [['', 'd/a.c']]]], max=2 if q else 3)
    yield 'hist', H, None
    put2 = [[p, 'f:' + c] for p in ('a.c', 'b.c', 'd/a.c') for c in ('V1', 'V2', 'V3', 'V4', 'SEM', 'LEX', 'SYN2', 'NUL', 'EMPTY', 'REG')] + [[p, e] for p in ('a.s', 'b.s', 'd/a.s') for e in ('-', 'f:OLD', 'D', 'F') + (('r:OLD',) if perms else ())]
    yield 'long', dict(H, puts=put2, args=[a, b, a + b, [['@', 'a.c']], [['', 'd/a.c']], [['./', 'b.c']], []], max=12), 40 if q else 600


class World:
    """The scratch directory in which one history is replayed."""

    def __init__(self, ctx, exe, uid, conts, asm, i):
        self.exe, self.uid, self.conts, self.asm = exe, uid, conts, asm
        self.root = '%s/h%s' % (exe[1], i)

    def full(self, p): return os.path.join(os.fsencode(self.root + '/w'), p.encode('latin-1'))

    def body(self, c): return self.asm[c[1:]] if c.startswith('S') and c[1:] in self.asm else self.conts[c]

    def put(self, p, e):
        f = self.full(p)
        if os.path.islink(f) or os.path.isfile(f): os.unlink(f)
        elif os.path.isdir(f): os.rmdir(f)
        if e == '-': return
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if e == 'D': os.mkdir(f)
        elif e == 'F': os.symlink('/dev/full', f)
        else:
            with open(f, 'wb') as h: h.write(self.body(e[2:]))
            if self.uid is not None: os.chown(f, self.uid, self.uid)
            os.chmod(f, {'f': 0o644, 'r': 0o444, 'n': 0o200}[e[0]])
        if self.uid is not None and e == 'D': os.chown(f, self.uid, self.uid)

    def make(self, paths, row):
        shutil.rmtree(self.root, ignore_errors=True)
        for d in ('w/d', 'w/d.d', 'w/d.c', 'w/ro', 'tmp'): os.makedirs('%s/%s' % (self.root, d))
        for p, e in zip(paths, row): self.put(p, e)
        if self.uid is not None:
            for d in ('w', 'w/d', 'w/d.d', 'w/d.c', 'tmp'): os.chown('%s/%s' % (self.root, d), self.uid, self.uid)
            os.chmod(self.root + '/w/ro', 0o755)

    def snapshot(self):
        """Everything in the directories, as entries."""
        out = {}
        for base in ('w', 'tmp'):
            for d, ds, fs in os.walk(os.fsencode('%s/%s' % (self.root, base))):
                rel = os.path.relpath(d, os.fsencode(self.root + '/' + base)).decode('latin-1')
                for n in ds + fs:
                    f = os.path.join(d, n)
                    k = (('' if base == 'w' else '#tmp/') + ('' if rel == '.' else rel + '/') + n.decode('latin-1'))
                    if os.path.islink(f): out[k] = 'F' if os.readlink(f) == b'/dev/full' else 'link'
                    elif os.path.isdir(f): out[k] = 'D'
                    else:
                        m = stat.S_IMODE(os.stat(f).st_mode)
                        data = open(f, 'rb').read()
                        out[k] = ({0o444: 'r', 0o200: 'n'}.get(m, 'f'), data)
        return out

    def expected(self, paths, row):
        out = {}
        for p, e in zip(paths, row):
            if e == '-': continue
            out[p] = e if e in 'DF' else (e[0], self.body(e[2:]))
            d = os.path.dirname(p)
            while d:
                out[d] = 'D'
                d = os.path.dirname(d)
        for d in ('d', 'd.d', 'd.c', 'ro'): out[d] = 'D'
        return out

    def spawn(self, args):
        av = [self.exe[0]] + [(b'' if w == '' else os.fsencode(self.root) + b'/w/' if w == '@' else w.encode()) + p.encode('latin-1') for w, p in args]
        kw = {} if self.uid is None else dict(user=self.uid, group=self.uid, extra_groups=[])
        return subprocess.Popen(av, cwd=self.root + '/w', stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                env={'PATH': '/usr/bin:/bin', 'TMPDIR': self.root + '/tmp', 'HOME': self.root + '/tmp'}, **kw), av

    def close(self): shutil.rmtree(self.root, ignore_errors=True)


def judge(w, paths, step, before):
    """Replay one step; returns a description of the difference or None."""
    op, what, codes, row = step
    if op == 'put':
        w.put(what[0], what[1])
        return None
    procs = [w.spawn(a) for a in what]
    probs = []
    for (p, av), ok in zip(procs, codes):
        try: out, err = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            probs.append('%s does not end' % av)
            continue
        if (p.returncode == 0) != ok: probs.append('%s exits with %s, specified: %s' % (av, p.returncode, 'success' if ok else 'failure'))
        elif p.returncode < 0: probs.append('%s is killed by signal %d' % (av, -p.returncode))
        elif ok and err.strip(): probs.append('%s succeeds but prints %r' % (av, err[:200]))
        elif not ok and not err.strip(): probs.append('%s fails without a diagnostic' % av)
        if out: probs.append('%s prints to standard output: %r' % (av, out[:200]))
    got, exp = w.snapshot(), w.expected(paths, row)
    for k in sorted(set(got) | set(exp)):
        if got.get(k) != exp.get(k):
            probs.append('%r is %s, specified: %s' % (k, brief(got.get(k)), brief(exp.get(k))))
    return '; '.join(probs) or None


def brief(e): return 'absent' if e is None else e if isinstance(e, str) else 'a file (%s) of %d bytes starting %r' % (e[0], len(e[1]), e[1][:30])


def histories(ctx, name, cfg, sim, rnd=0):
    f = ctx.work.path('dr', '%s%d.json' % (name, rnd))
    with open(f, 'w') as h: json.dump(cfg, h)
    args = ['-simulate', 'num=%d' % sim, '-depth', str(cfg['max'] + 3), '-seed', str(ctx.rng.randrange(1 << 40))] if sim else []
    r = tlc(ctx.work, 'Driver', env={'DR_CONFIG': f}, args=args, name='dr-%s%d' % (name, rnd), workers=1, timeout=600)
    tlc_ok(r, 'Driver ' + name)
    ctx.states += r['distinct']
    ctx.transitions += r['generated']
    out = []
    for l in r['out'].split('\n'):
        if not l.startswith('"<<\\"X\\"'): continue
        l = json.loads(l)
        out.append(json.loads(re.sub(r'\bTRUE\b', 'true', re.sub(r'\bFALSE\b', 'false', l)).replace('<<', '[').replace('>>', ']'))[1])
    if not out: raise ToolError('Driver %s gave no histories' % name)
    return out


def run(ctx):
    umlcc = ctx.umlcc()
    box = tempfile.mkdtemp(prefix='umlcc-verif-box-')
    os.chmod(box, 0o755)
    try:
        exe = box + '/umlcc'
        shutil.copy(umlcc, exe)
        os.chmod(exe, 0o755)
        uid = None
        if os.getuid() == 0:
            try:
                if subprocess.run(['/bin/true'], user=65534, group=65534, extra_groups=[]).returncode == 0: uid = 65534
            except (OSError, subprocess.SubprocessError): pass
        perms = uid is not None
        if not perms: ctx.assume.append('no unprivileged user here: permission scenarios skipped')
        conts = {k: (v or '').encode('latin-1') for k, v in CONTENTS.items()}
        conts['REG'] = too_complex().encode()
        # what each valid program compiles to, in a place of its own
        asm = {}
        for v in VALID:
            st, det, s = ctx.rt.compile(conts[v], 'ref' + v)
            if st != 'ok': asm[v] = b'(not compiled)'
            else: asm[v] = open(s, 'rb').read()
        cfgs = list(scenarios(ctx, perms))
        outs = pmap(lambda c: (c, histories(ctx, *c)), cfgs, 6)
        n = 0
        for (name, cfg, sim), hs in outs:
            replay(ctx, (exe, box), uid, conts, asm, name, cfg, hs)
            ctx.samples.append({'config': name, 'history': [(s[0], str(s[1])[:80], s[2]) for s in hs[len(hs) // 2][1:6]]})
        rnd = 0
        while not ctx.quick and ctx.left() > 60 and not ctx.viol:
            rnd += 1
            c = cfgs[-1]
            replay(ctx, (exe, box), uid, conts, asm, 'long', c[1], histories(ctx, c[0], c[1], 800, rnd))
        limits(ctx, (exe, box), uid, conts, asm)
    finally:
        shutil.rmtree(box, ignore_errors=True)


def too_complex():
    """An expression that needs more registers than there are."""
    e = 'a'
    for i in range(11): e = '(a + %d) * (%s)' % (i, e)
    return 'int main(void) { int a; a = 1; return %s; }\n' % e


def replay(ctx, exe, uid, conts, asm, name, cfg, hs):
    paths = cfg['paths']

    def one(x):
        i, h = x
        w = World(ctx, exe, uid, conts, asm, '%s_%s' % (name, i))
        try:
            w.make(paths, h[0][3])
            for n, s in enumerate(h[1:]):
                p = judge(w, paths, s, h[n][3])
                if p: return h, n, p
        finally: w.close()
        return None
    bad = [b for b in pmap(one, list(enumerate(hs))) if b]
    for h, n, p in bad[:5]:
        again = one(('again', h))
        if not again: continue
        ctx.violate('%s: step %d: %s' % (name, again[1] + 1, again[2]), {'history.json': json.dumps(dict(paths=paths, history=h), indent=1), 'what.txt': again[2]})
    ctx.traces += len(hs)
    ctx.count('invocations', sum(len(s[1]) for h in hs for s in h if s[0] in ('run', 'both')))
    ctx.count('histories', len(hs))


def limits(ctx, exe, uid, conts, asm):
    """Faults: the output cannot be written beyond some size. The command must not report success."""
    import resource, signal
    for lim in [0, 1, 10, 100, 4095, 4096, 5000, 20000]:
        for v in VALID:
            w = World(ctx, exe, uid, conts, asm, 'lim%d%s' % (lim, v))
            w.make(['a.c', 'o.s'], ['f:' + v, 'f:OLD'])

            def pre():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
                if uid is not None:
                    os.setgroups([])
                    os.setgid(uid)
                    os.setuid(uid)
            p = subprocess.run([exe[0], 'a.c'], cwd=w.root + '/w', preexec_fn=pre, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
            got = w.snapshot()
            ok = len(asm[v]) <= lim
            prob = None
            if (p.returncode == 0) != ok: prob = 'exit status %s with at most %d bytes of output possible, %d needed' % (p.returncode, lim, len(asm[v]))
            elif not ok and not p.stderr.strip(): prob = 'no diagnostic when the output cannot be written'
            elif got.get('a.c') != ('f', conts[v]) or got.get('o.s') != ('f', conts['OLD']): prob = 'another file changed'
            elif ok and got.get('a.s') != ('f', asm[v]): prob = 'wrong output'
            w.close()
            if prob: ctx.violate('limit %d, %s: %s' % (lim, v, prob), {'a.c': conts[v], 'what.txt': prob})
            ctx.count('fault_runs')
