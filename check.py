#!/usr/bin/env python3
"""python3 check.py PROPERTY   (VERIF_TIER, VERIF_SEED)"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import lib, props
try: import pqprops
except ImportError: pqprops = None

def main():
    prop = sys.argv[1]
    f = getattr(props, prop.lower(), None) or getattr(pqprops, prop.lower())
    ctx = lib.Ctx(prop, os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1')))
    try:
        ctx.build()
        ctx.log('built')
        f(ctx)
    except lib.ToolError as e:
        print('ERROR', e)
        if not ctx.violations: return 2
    return ctx.finish()

if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
