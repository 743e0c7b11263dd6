#!/usr/bin/env python3
"""dbg.py PROP CASEINDEX|json-substr [tier]: explore one case in-process, printing outcomes (development aid)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symex.boot import boot
boot()
import importlib, traceback, time, json
from symex import harness as HN, core
mod = importlib.import_module('props.' + sys.argv[1].lower())
tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
cs = mod.cases(tier)
sel = sys.argv[2]
idx = [int(sel)] if sel.isdigit() else [i for i, c in enumerate(cs) if sel in json.dumps(c, default=repr)][:3]
orig = HN.H.call
def call(self, f, *a, **k):
    o = orig(self, f, *a, **k)
    if not o.ok and os.environ.get('TB'):
        traceback.print_exception(o.exc, limit=-int(os.environ['TB']))
    return o
HN.H.call = call
for i in idx:
    print('CASE', i, cs[i])
    st = core.Stats(); work = [[]]; n = 0; t0 = time.time()
    while work and n < int(os.environ.get('N', 20)):
        p = work.pop(); n += 1
        t1 = time.time()
        r, ctx, d = HN.run_sym(mod.harness, cs[i], p, st, time.time() + 120)
        work.extend(ctx.pending)
        print(n, r, 'forks', len(ctx.trail) if hasattr(ctx,'trail') else '', 'pend', len(ctx.pending), 't %.2f' % (time.time()-t1), (str(d)[:300] if r != 'done' else d.obs))
        if r == 'violation':
            print('   ', d.label, d.assignment)
            c = HN.run_conc(mod.harness, cs[i], d.assignment)
            print('   conc', c[0], c[1][-1500:], c[2].inputs)
        if r == 'engine' and os.environ.get('TB'):
            traceback.print_exception(d, limit=-8)
    print('left', len(work), 'total %.1f' % (time.time()-t0), st.queries, 'q', st.solver_s, st.weakened, st.unknown)
