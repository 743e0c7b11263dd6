#!/usr/bin/env python3
"""replay.py <replay.json>: re-run a recorded counterexample on the untouched package"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from symex.boot import boot
boot()
import importlib
from symex import harness as HN
b = json.load(open(sys.argv[1]))
mod = importlib.import_module('props.' + b['property'].lower())
case = mod.cases(b['tier'])[b['case_index']]
r = HN.run_conc(mod.harness, case, b['assignment'])
print('case', case)
for k, v in (r[2].inputs if r[2] else {}).items():
    print('  %s = %r' % (k, v))
print('observed', r[2].obs if r[2] else None)
print('result:', r[0], r[1])
sys.exit(1 if r[0] == 'fail' else 0)
