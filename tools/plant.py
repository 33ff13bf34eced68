#!/usr/bin/env python3
"""Plant a bug: apply edits to /repo, confirm it builds, passes the tests and fails its demonstration,
store it under seeded/<id>/, run the property's quick check against it, undo.
   plant.py FILE.json    [{id, property, edits:[[file, old, new]], needs, breaks, prog, ext?, demo?}]
   plant.py --recheck [ids]   rerun the checks against the stored ones
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# compiles prog.c with umlcc%(lnk)s and runs it: it returns 0 when it behaves as C says
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp "$D/prog.c" "$T/prog.c"
U=$PWD/_build/bin/umlcc
cd "$T" || exit 2
timeout 20 "$U" prog.c >out.txt 2>&1 || { cat out.txt; exit 1; }
gcc -no-pie -o prog prog.s %(ext)s2>ld.txt || { cat ld.txt; exit 1; }
timeout 20 ./prog
r=$?
echo "exit $r"
[ $r -eq 0 ]
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
def undo():
    sh('git -C /repo checkout -- .')
def build():
    return sh('bash /opt/vp/build.sh').returncode == 0
def tests():
    sh('bash /opt/vp/test.sh /tmp/plant_out.json')
    o = json.load(open('/tmp/plant_out.json')); b = json.load(open('/opt/vp/BASELINE.json'))
    return sorted(set(b['stable']) - set(o['passed']))
def demo(d):
    return sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo').returncode
def check(p):
    env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
    r = subprocess.run(['python3', 'check.py', p], cwd=V, env=env, capture_output=True, text=True, errors='replace')
    return r.returncode, [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')][:2]
def main():
    if sys.argv[1] == '--recheck':
        ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
        for i in ids:
            d = V + '/seeded/' + i
            m = json.load(open(d + '/meta.json'))
            try:
                a = sh('git -C /repo apply %s/patch.diff' % d)
                if a.returncode: print(i, 'does not apply', a.stderr); continue
                print(i, m['property'], *check(m['property']), flush=True)
            finally:
                undo()
        return
    base = None
    for b in json.load(open(sys.argv[1])):
        i = b['id']; d = V + '/seeded/' + i
        try:
            undo()
            bad = None
            for f, old, new in b['edits']:
                s = open('/repo/' + f).read()
                if s.count(old) < 1 or (s.count(old) > 1 and not b.get('all')): bad = 'edit matches %d times in %s' % (s.count(old), f); break
                if s.count(old) > 1 and b.get('all'): s = s.replace(old, new)
                else: s = s.replace(old, new, 1)
                open('/repo/' + f, 'w').write(s)
            if bad: print(i, bad); continue
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            if 'demo' in b: open(d + '/demo.sh', 'w').write(b['demo'])
            else: open(d + '/demo.sh', 'w').write(DEMO % dict(lnk=' and ext.c with gcc, links them' if 'ext' in b else '', ext='"$D/ext.c" ' if 'ext' in b else ''))
            os.chmod(d + '/demo.sh', 0o755)
            for k, n in (('prog', 'prog.c'), ('ext', 'ext.c')):
                if k in b: open(d + '/' + n, 'w').write(b[k])
            for n, t in b.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            keep = False
            if not build(): print(i, 'does not build')
            else:
                t = tests()
                if t: print(i, 'fails tests', t[:5])
                else:
                    w = demo(d)
                    undo(); build()
                    wo = demo(d)
                    if w == 0 or wo != 0: print(i, 'demo with', w, 'without', wo)
                    else: keep = True
            if not keep:
                sh('rm -rf ' + d); continue
            sh('git -C /repo apply %s/patch.diff' % d)
            print(i, b['property'], *check(b['property']), flush=True)
        finally:
            undo()
    build()
main()
