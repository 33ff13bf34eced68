#!/usr/bin/env python3
"""why.py <replay dir>...: where the specification stops following a recorded trace."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *
w = Work('why')
for d in sys.argv[1:]:
    x = json.load(open(d + '/prog.json'))
    x['tr'] = json.load(open(d + '/trace.json'))
    f = w.path('in.ndjson')
    open(f, 'w').write(json.dumps(x) + '\n')
    r = tlc(w, 'CMachine', cfg=VERIF + '/spec/CMachineWhy.cfg', env={'CM_INPUT': f})
    ti = max([int(y) for y in re.findall(r'<<"TI", "[^"]*", (\d+)>>', r['out'])] or [-1])
    print(d, 'states', r['distinct'], 'rc', r['rc'], 'ACC' if '"ACC"' in r['out'] else 'UB' if '"UB"' in r['out'] else 'REJ', 'followed', ti, 'of', len(x['tr']))
    print('   next events:', x['tr'][ti:ti + 2])
    if r['rc'] != 0: print(r['out'][-1500:])
w.close()
