"""Known findings: genuine defects of umlcc that are recorded, not repaired (known_findings.txt).

Each is a fixed probe program together with the wrong trace the recorded defect produces. A probe that gives
exactly that trace is the known finding; one whose trace the specification allows has been repaired; any
other trace is a violation of its own."""
import json, os
from .cast import *
from .common import VERIF


def kf1():
    p = Prog('KF1')
    p.extern('id_i', F(INT, [INT]), 'id')
    body = [decl(A(INT, 3), 'a', il(lit(1), lit(2), lit(3))), es(opasg('+', idx(var('a'), call('id_i', lit(1))), lit(5))), p.dump(var('a'), 12)]
    p.func('main', INT, [], block(*body, ret(lit(0))))
    return p


def kf2():
    p = Prog('KF2')
    body = [decl(A(INT, 4), 'a', il(lit(1), lit(2), lit(3), lit(4))), decl(P(INT), 'q', var('a')), es(opasg('+', deref(inc('post+', var('q'))), lit(10))),
            p.dump(var('a'), 16), p.put(LONG, bin_('-', var('q'), var('a')))]
    p.func('main', INT, [], block(*body, ret(lit(0))))
    return p


def kf3():
    p = Prog('KF3')
    body = [decl(A(INT, 4), 'a'), decl(P(INT), 'q', addr(idx(var('a'), lit(1)))), decl(P(INT), 'r', addr(idx(var('a'), lit(3)))),
            p.put(INT, bin_('<', bin_('-', var('q'), var('r')), lit(0))), p.put(LONG, bin_('/', bin_('-', var('q'), var('r')), lit(2)))]
    p.func('main', INT, [], block(*body, ret(lit(0))))
    return p


def kf9():
    p = Prog('KF9')
    body = [decl(INT, 'i', lit(1)), decl(LONG, 'x', lit(2)), p.put(LONG, var('x')), p.align(addr(var('x')), 4), p.align(addr(var('x')), 8)]
    p.func('main', INT, [], block(*body, ret(lit(0))))
    return p


# property -> [(id, probe, what)]
KNOWN = {
    'P14': [('KF1', kf1), ('KF2', kf2)],
    'P12': [('KF3', kf3)],
    'P04': [('KF9', kf9)],
}


def listed():
    r = {}
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        if l.startswith('KNOWN-FINDING: '):
            w = l.strip().split(' ', 3)
            r[w[2].split('=', 1)[1]] = (w[1].split('=', 1)[1], w[3])
    return r


def known(ctx):
    ks = KNOWN.get(ctx.pid, [])
    if not ks: return
    lst = listed()
    with open(os.path.join(VERIF, 'lib', 'findings.json')) as f: stored = json.load(f)
    todo = []
    for k, mk in ks:
        p = mk()
        tr, notes = ctx.rt.run(p, ctx.rt.name(p))
        if k in lst and lst[k][0] == ctx.pid and tr == stored.get(k):
            ctx.known.append('id=%s %s' % (k, lst[k][1]))
            ctx.count('known_findings_confirmed')
        else: todo.append(p)
    ctx.programs(todo, what='probes')


if __name__ == '__main__':      # python3 -m lib.findings: show the traces of the probes
    from .ctx import Ctx
    c = Ctx('P14', 'quick', 1)
    r = {k: c.rt.run(mk(), k)[0] for ks in KNOWN.values() for k, mk in ks}
    print(json.dumps(r, indent=0))
    c.work.close()
