#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [-v] [--budget S]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from symex.boot import boot
boot()

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    import logging
    logging.disable(logging.CRITICAL)
    from symex import runner
    if a.selftest:
        from symex import harness
        harness.sym_lib()
        harness.real_lib()
        print('ok')
        sys.exit(0)
    sys.exit(runner.run_property(a.prop, a.tier, int(os.environ.get('VERIF_SEED', '1')), a.budget, a.jobs, a.v))
