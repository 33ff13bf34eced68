"""Build the code under test, run programs, run TLC."""
import glob, itertools, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    """The machinery itself failed; never reported as a violation."""


def sh(cmd, timeout=120, cwd=None, env=None, inp=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, stdin=subprocess.DEVNULL if inp is None else None)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 'timeout', e.stdout or b'', e.stderr or b''


def pmap(f, xs, n=NCPU):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


class Work:
    """Scratch directory of one run."""

    def __init__(self, tag):
        self.dir = tempfile.mkdtemp(prefix='umlcc-verif-%s-' % tag)

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def sources(with_main=True):
    xs = sorted(glob.glob(REPO + '/src/**/*.c', recursive=True))
    return [x for x in xs if with_main or x != REPO + '/src/main.c']


def compile_objs(work, name, flags, cc='gcc'):
    out = work.path(name, 'x')[:-2]
    srcs = sources()

    def one(s):
        o = os.path.join(out, os.path.relpath(s, REPO + '/src').replace('/', '_')[:-2] + '.o')
        rc, _, err = sh([cc, '-std=c99', '-D_POSIX_C_SOURCE=200809L', '-w'] + flags + ['-c', s, '-o', o])
        if rc != 0:      # as the Makefile compiles it
            rc, _, err = sh([cc, '-std=c99', '-w'] + flags + ['-c', s, '-o', o])
        if rc != 0: raise ToolError('compiling %s failed: %s' % (s, err.decode(errors='replace')[:2000]))
        return o
    objs = pmap(one, srcs)
    return {o: s for o, s in zip(objs, srcs)}


def build_umlcc(work, name='umlcc', flags=('-O1',), cc='gcc'):
    """The command itself, from the working tree."""
    objs = compile_objs(work, name + '.obj', list(flags), cc)
    exe = work.path(name)
    rc, _, err = sh([cc] + list(flags) + list(objs) + ['-o', exe])
    if rc != 0: raise ToolError('linking umlcc failed: ' + err.decode(errors='replace')[:2000])
    return exe, objs


def build_harness(work, name, src, objs, flags=('-O1',), cc='gcc'):
    """A harness of /verif linked against the sources of the code under test (without its main)."""
    exe = work.path(name)
    ol = [o for o, s in objs.items() if s != REPO + '/src/main.c']
    rc, _, err = sh([cc, '-std=gnu99', '-w', '-I' + REPO + '/src', '-I' + VERIF + '/harness'] + list(flags) + [src] + ol + ['-o', exe])
    if rc != 0: raise ToolError('building harness %s failed: %s' % (name, err.decode(errors='replace')[:3000]))
    return exe


# --- running compiled programs -----------------------------------------------------------------
class Runtime:
    def __init__(self, work, umlcc):
        self.work, self.umlcc = work, umlcc
        self.rt = [work.path('rt.o'), work.path('rt_entry.o')]
        for cmd in (['gcc', '-O1', '-ffreestanding', '-fno-stack-protector', '-fno-pie', '-c', VERIF + '/rt/rt.c', '-o', self.rt[0]],
                    ['gcc', '-c', VERIF + '/rt/rt_entry.S', '-o', self.rt[1]]):
            rc, _, err = sh(cmd)
            if rc != 0: raise ToolError('runtime: ' + err.decode())
        self.count = itertools.count(1)

    def name(self, prog):
        return '%s_%d' % (re.sub(r'\W', '_', prog.id), next(self.count))

    def compile(self, text, name, timeout=20):
        """Returns (status, detail, asm path). status: ok, reject, crash, timeout"""
        c = self.work.path('p', name + '.c')
        with open(c, 'wb') as f: f.write(text if isinstance(text, bytes) else text.encode('latin-1'))
        rc, out, err = sh([self.umlcc, c], timeout=timeout)
        err = err.decode(errors='replace')
        if rc == 'timeout': return 'timeout', err, None
        if rc == 0: return 'ok', err, c[:-2] + '.s'
        return ('reject' if rc == 1 else 'crash'), 'rc=%s %s' % (rc, err), None

    def run(self, prog, name):
        """Compile, link and run; returns the recorded trace (list of events) and notes."""
        st, det, s = self.compile(prog.text(), name)
        if st != 'ok': return [{'f': 'compile-' + st, 'a': []}], {'stage': 'compile', 'detail': det}
        rc, _, err = sh(['as', s, '-o', s + '.o'])
        if rc != 0: return [{'f': 'assemble-error', 'a': []}], {'stage': 'assemble', 'detail': err.decode(errors='replace')[:500]}
        objs = [s + '.o'] + self.rt
        if prog.companion or prog.foreign:
            with open(s + '.comp.c', 'w') as f: f.write(prog.foreign_text())
            rc, _, err = sh(['gcc', '-O2', '-ffreestanding', '-fno-stack-protector', '-fno-pie', '-fno-strict-aliasing', '-fwrapv', '-w', '-c', s + '.comp.c', '-o', s + '.comp.o'])
            if rc != 0: raise ToolError('companion: ' + err.decode()[:2000])
            objs.append(s + '.comp.o')
        exe = s[:-2] + '.exe'
        rc, _, err = sh(['ld', '-z', 'noexecstack', '-o', exe] + objs)
        if rc != 0: return [{'f': 'link-error', 'a': []}], {'stage': 'link', 'detail': err.decode(errors='replace')[:500]}
        rc, out, err = sh([exe], timeout=10)
        tr, notes = [], {'stage': 'run', 'rc': rc}
        for l in out.decode(errors='replace').split('\n'):
            if not l: continue
            w = l.split(' ')
            if w[0] == '#abi':
                notes['regs_ok'], notes['misaligned'] = w[1] == '1', w[2] == '1'
                continue
            try:
                tr.append({'f': w[0], 'a': [list(bytes.fromhex(x)) if x != '-' else [] for x in w[1:] if not x.startswith('r:')]})
            except ValueError:
                tr.append({'f': 'garbled', 'a': []})
                continue
            for x in w[1:]:
                if x.startswith('r:'): tr[-1]['r'] = list(bytes.fromhex(x[2:]))
        if rc == 'timeout': tr.append({'f': 'timeout', 'a': []})
        elif rc != 0: tr.append({'f': 'died', 'a': [], 'rc': rc})
        for x in (exe, s + '.o'):
            try: os.unlink(x)
            except OSError: pass
        return tr, notes


# --- TLC ---------------------------------------------------------------------------------------
def tlc(work, module, cfg=None, env=None, args=(), timeout=600, heap='6g', workers=NCPU, name=None):
    """Run TLC; returns dict with stdout, ok flag, states."""
    name = name or module
    meta = work.path('tlc', name, 'meta', 'x')[:-2]
    e = dict(os.environ)
    e.update(env or {})
    spec = VERIF + '/spec'
    os.makedirs(meta, exist_ok=True)
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xmx' + heap, '-Xss64m', '-cp', JAR, 'tlc2.TLC', '-config', cfg or (spec + '/' + module + '.cfg'),
           '-metadir', meta, '-workers', str(workers), '-noTE', '-nowarning'] + list(args) + [spec + '/' + module + '.tla']
    t = time.time()
    rc, out, err = sh(cmd, timeout=timeout, env=e, cwd=work.dir)
    out = out.decode(errors='replace')
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    r = {'rc': rc, 'out': out, 'wall': time.time() - t,
         'generated': int(m.group(1)) if m else 0, 'distinct': int(m.group(2)) if m else 0}
    m = re.findall(r'Progress: ([\d,]+) states checked', out)
    return r


def tlc_ok(r, what):
    """TLC must have finished without any error of its own."""
    if r['rc'] == 'timeout': raise ToolError(what + ': TLC timed out')
    if r['rc'] != 0: raise ToolError('%s: TLC failed (rc %s):\n%s' % (what, r['rc'], r['out'][-3000:]))


# TLC prints tuples such as <<"ACC", "id">> ; strings are escaped like TLA+ strings
def tuples(out, tag):
    pre = '<<"%s", ' % tag
    for l in out.split('\n'):
        if l.startswith(pre): yield l
