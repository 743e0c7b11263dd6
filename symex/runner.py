"""Explores every path of every case of a property in a process pool, replays
counterexamples and path witnesses on the untouched package, writes evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from collections import deque
from . import core
from .core import Stats
from . import harness as HN

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timer:
    pass


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)


def explore_slice(task):
    """worker: explore a case from the given prefixes for at most `slice_s`"""
    modname, tier, ci, prefixes, slice_s, hard_deadline, validate, opts = task
    t0 = time.time()
    try:
        mod = importlib.import_module(modname)
        cases = mod.cases(tier)
        case = cases[ci]
        stats = Stats()
        work = [list(map(_tup, p)) for p in prefixes]
        res = {'ci': ci, 'viol': [], 'unconf': [], 'left': [], 'engine': [], 'cut': 0, 'harness_err': []}
        nval = 0
        out_obs = []
        while work:
            now = time.time()
            if now - t0 > slice_s or now > hard_deadline:
                break
            prefix = work.pop()
            dl = min(hard_deadline, now + opts.get('path_s', 60))
            st, ctx, d = HN.run_sym(mod.harness, case, prefix, stats, dl)
            if opts.get('max_dev') is None:
                work.extend(ctx.pending)
            else:
                work.extend(p for p in ctx.pending if sum(1 for x in p if x is False) <= opts['max_dev'])
            if st == 'infeasible':
                stats.infeasible += 1
                continue
            if st == 'budget':
                res['cut'] += 1
                continue
            if st == 'engine':
                key = 'engine: %s' % (str(d)[:160],)
                stats.weakened[key] = stats.weakened.get(key, 0) + 1
                res['engine'].append(str(d)[:300])
                continue
            if st == 'violation':
                r = HN.run_conc(mod.harness, case, d.assignment)
                if r[0] == 'fail':
                    res['viol'].append((d.label, r[1], d.assignment, _desc(r[2])))
                    if len(res['viol']) >= 4:
                        break
                else:
                    res['unconf'].append((d.label, r[0], r[1][-600:], d.assignment))
                continue
            stats.paths += 1
            k = 'paths' if True else ''
            # witness validation on the real code
            if validate and nval < validate:
                from .core import CUR
                CUR.ctx = ctx
                ctx.deadline = None
                try:
                    asg = ctx.assignment()
                except core.Control:
                    asg = None
                CUR.ctx = None
                if asg is not None:
                    nval += 1
                    r = HN.run_conc(mod.harness, case, asg)
                    if r[0] == 'fail':
                        res['viol'].append(('witness replay: ' + r[1], r[1], asg, _desc(r[2])))
                        if len(res['viol']) >= 4:
                            break
                    elif r[0] == 'error':
                        res['harness_err'].append(r[1][-800:])
                    elif r[0] == 'ok':
                        if r[2].obs == d.obs:
                            stats.witness_ok += 1
                        else:
                            stats.witness_diff.append((str(case)[:100], str(d.obs)[:200], str(r[2].obs)[:200],
                                                       str(asg)[:300]))
                        if len(out_obs) < 2:
                            out_obs.append({'case': jsonable(case), 'inputs': _desc(r[2]), 'observed': jsonable(r[2].obs)})
        res['left'] = work
        res['stats'] = stats
        res['samples'] = out_obs
        res['wall'] = time.time() - t0
        return res
    except BaseException as e:      # noqa
        return {'ci': ci, 'fatal': traceback.format_exc(limit=-8), 'wall': time.time() - t0}


def _tup(x):
    return tuple(x) if isinstance(x, list) else x


def _desc(h):
    return {k: repr(v)[:200] for k, v in (h.inputs if h is not None else {}).items()}


def case_key(case):
    return json.dumps(case, sort_keys=True, default=repr)


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def matches(k, prop, case, label, conc_label):
    if k['property'] != prop:
        return False
    if k.get('label') not in (None, label, conc_label):
        return False
    c = k.get('case')
    if c is not None:
        if any(case.get(a) != b for a, b in c.items()):
            return False
    return True


def run_property(prop, tier, seed, budget=None, jobs=None, verbose=False):
    modname = 'props.' + prop.lower()
    mod = importlib.import_module(modname)
    t0 = time.time()
    budget = budget or (mod.BUDGET[tier] if hasattr(mod, 'BUDGET') else {'quick': 420, 'thorough': 780}[tier])
    jobs = jobs or min(8, os.cpu_count() or 1)
    HN.sym_lib()
    HN.real_lib()
    cases = mod.cases(tier)
    total = Stats()
    hard = t0 + budget
    opts = getattr(mod, 'OPTS', {})
    validate = opts.get('validate', 6)
    queue = deque((i, [[]]) for i in range(len(cases)))
    pool = mp.get_context('fork').Pool(jobs, maxtasksperchild=40)
    inflight = []
    viol, unconf, fatal, harness_err, engine, samples = [], [], [], [], [], []
    done_slices = {}
    cut = 0
    left = {}
    nslices = {}
    spent = {}
    try:
        while queue or inflight:
            while queue and len(inflight) < jobs * 2 and time.time() < hard:
                ci, pf = queue.popleft()
                n = nslices.get(ci, 0)
                nslices[ci] = n + 1
                sl = min(opts.get('slice', 4), 1.0 + n)
                v = validate if n < 4 else 1
                inflight.append((ci, pool.apply_async(explore_slice, ((modname, tier, ci, pf, sl, hard, v, opts),))))
            if time.time() >= hard and queue:
                for ci, pf in queue:
                    left[ci] = left.get(ci, 0) + len(pf)
                queue.clear()
            if not inflight:
                break
            nxt = []
            progressed = False
            for ci, ar in inflight:
                if not ar.ready():
                    nxt.append((ci, ar))
                    continue
                progressed = True
                r = ar.get()
                spent[ci] = spent.get(ci, 0) + r.get('wall', 0)
                if 'fatal' in r:
                    fatal.append((jsonable(cases[ci]), r['fatal']))
                    continue
                total.merge(r['stats'])
                cut += r['cut']
                engine += r['engine']
                viol += [(ci,) + x for x in r['viol']]
                unconf += [(ci,) + x for x in r['unconf']]
                harness_err += r['harness_err']
                if len(samples) < 6:
                    samples += r['samples'][:1]
                lf = r['left']
                if lf:
                    if time.time() < hard:
                        # share work: split into chunks
                        k = max(1, min(len(lf), jobs))
                        # only split when the queue is short
                        if len(queue) + len(nxt) < jobs:
                            chunks = [lf[i::k] for i in range(k)]
                        else:
                            chunks = [lf]
                        for c in chunks:
                            queue.append((ci, c))
                    else:
                        left[ci] = left.get(ci, 0) + len(lf)
            inflight = nxt
            known = load_known()
            new = [v for v in viol if not any(matches(k, prop, cases[v[0]], v[1], v[2]) for k in known)]
            if new and not os.environ.get('VERIF_ALL') and (len(new) >= 3 or time.time() - t0 > 5 or not (queue or inflight)):
                break
            if time.time() > hard + 90:
                fatal.append(('runner', 'workers did not stop after the budget: %s' % [jsonable(cases[c]) for c, _ in inflight][:8]))
                break
            if not progressed:
                time.sleep(0.01)
    finally:
        pool.terminate()
        pool.join()
    wall = time.time() - t0
    known = load_known()
    new, old = [], {}
    for v in viol:
        k = next((k for k in known if matches(k, prop, cases[v[0]], v[1], v[2])), None)
        if k is None:
            new.append(v)
        else:
            old[k['what']] = old.get(k['what'], 0) + 1
    # ---- evidence
    cov = {
        'states': total.paths,
        'transitions': total.forks + total.paths,
        'traces_validated_against_impl': total.witness_ok,
        'samples': samples or [{'note': 'no path completed'}],
        'cases': len(cases),
        'paths_infeasible': total.infeasible,
        'solver_queries': total.queries,
        'solver_seconds': round(total.solver_s, 2),
        'solver_unknown': total.unknown,
        'assertions': total.obligations,
        'assertions_discharged': total.discharged,
        'assertions_discharged_by_simplification': total.trivial,
        'functions_encoded': sorted(total.functions),
        'bounds': mod.BOUNDS if isinstance(mod.BOUNDS, (str, list, dict)) else str(mod.BOUNDS),
        'outside_the_claim': getattr(mod, 'OUTSIDE', ''),
        'reachability': total.covers,
        'weakened': total.weakened,
        'unexplored_prefixes': sum(left.values()) + cut,
        'unconfirmed_counterexamples': [(jsonable(cases[u[0]]), u[1], u[2], str(u[3])[-300:]) for u in unconf[:5]],
        'witness_disagreements': total.witness_diff[:5],
        'witness_disagreement_count': len(total.witness_diff),
        'exhaustive': not left and not cut and not fatal and not engine and not unconf and total.unknown == 0
                      and not total.weakened and opts.get('max_dev') is None,
        'explanation': 'every feasible path of the harness over the instrumented current source of the functions '
                       'listed; each assertion is an SMT query path-condition and not(assertion); a state is one '
                       'complete symbolic path (a set of concrete runs), a transition one branch decision; one '
                       'solver-chosen witness per sampled path is re-run on the untouched package',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS, 'wall_s': round(wall, 2),
          'violations': len(new)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    print('%s %s: %d cases, %d paths (%d infeasible), %d assertions (%d discharged), %d queries, solver %.1fs, '
          'wall %.1fs, witnesses %d ok / %d differ, left %d, cut %d, weakened %s' % (
              prop, tier, len(cases), total.paths, total.infeasible, total.obligations, total.discharged,
              total.queries, total.solver_s, wall, total.witness_ok, len(total.witness_diff), sum(left.values()), cut,
              dict(list(total.weakened.items())[:6])))
    if verbose:
        print('covers', total.covers)
        print('functions', sorted(total.functions))
        for w in total.witness_diff[:8]:
            print('WITNESS DIFF', w)
        for u in unconf[:8]:
            print('UNCONFIRMED', jsonable(cases[u[0]]), u[1], u[2], u[3], str(u[4])[:600])
        for e in harness_err[:3]:
            print('HARNESS ERROR', e)
        print('slowest', [(jsonable(cases[c]), round(n, 1)) for c, n in sorted(spent.items(), key=lambda x: -x[1])[:25]])
        print('left by case', [(jsonable(cases[c]), n) for c, n in sorted(left.items(), key=lambda x: -x[1])[:25]])
    for what in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    for f in fatal[:3]:
        print('FATAL', f[0], f[1])
    for u in unconf[:3]:
        print('INCONCLUSIVE counterexample did not reproduce on the real code: case=%s %s (%s)' % (
            case_key(cases[u[0]])[:200], u[1], u[2]))
    rc = 0
    if new:
        ci, label, clabel, asg, desc = min(new, key=lambda v: (len(str(v[4])), str(v)))
        body = {'property': prop, 'tier': tier, 'case_index': ci, 'case': jsonable(cases[ci]), 'label': label,
                'concrete_label': clabel, 'assignment': asg, 'inputs': desc}
        hsh = hashlib.sha1(json.dumps(body, sort_keys=True, default=repr).encode()).hexdigest()[:10]
        d = os.path.join(ROOT, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, '%s-%s.json' % (prop, hsh))
        with open(rp, 'w') as f:
            json.dump(body, f, indent=1, default=repr)
        for v in (new[:6] if not os.environ.get('VERIF_ALL') else sorted({(v[1], v[2], case_key(cases[v[0]])): v for v in new}.values(), key=lambda v: v[1])):
            print('  violated: %s [%s] case=%s' % (v[1], v[2], case_key(cases[v[0]])[:300]))
            if verbose:
                print('     inputs', {k: x for k, x in v[4].items()})
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if fatal or (total.paths == 0 and cases and not unconf):
        print('ERROR: the check could not run to completion')
        return 2
    if total.paths == 0 and cases:
        print('INCONCLUSIVE: no path was decided: the code uses something the models do not cover')
    miss = [c for c in getattr(mod, 'COVERS', []) if not total.covers.get(c)]
    if miss:
        print('note: reachability goals not hit this run: %s' % miss)
    if harness_err:
        print('note: harness errors in concrete replay: %d (%s)' % (len(harness_err), harness_err[0][-200:]))
    return rc


COMMON_ASSUMPTIONS = [
    'CPython 3.12 / numpy / h5py behave as modelled in /verif/symex (models are cross-checked on every run by '
    're-running solver witnesses on the untouched package)',
    'z3 is trusted for unsat answers; unknown is recorded, never counted as discharged',
]
