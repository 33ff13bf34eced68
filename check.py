#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property of umlcc with its TLA+ specification."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from lib.ctx import Ctx
from lib.common import ToolError


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    ctx = Ctx(a.property, tier, seed)
    mod = importlib.import_module('lib.props.' + a.property.lower())
    try:
        mod.run(ctx)
    except ToolError as e:
        print('check error: %s' % e, file=sys.stderr)
        ctx.work.close()
        return 2
    except Exception:
        traceback.print_exc()
        ctx.work.close()
        return 2
    return ctx.finish()


sys.exit(main())
