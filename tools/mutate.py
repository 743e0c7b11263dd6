#!/usr/bin/env python3
"""mutate.py gen OUT.json SEED N | tests OUT.json | checks OUT.json: plants small random changes in copies of /repo, keeps those
that pass the stable tests and runs the checks on them; reports what no check finds.  A tool of development, no check."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
W = '/tmp/w/mut'
FILES = ['dmap/dmap.py', 'dmap/superdarn.py', 'utils/conversions.py', 'dmap/datastructures.py', 'borealis/borealis.py', 'borealis/borealis_site.py',
         'borealis/borealis_array.py', 'borealis/base_format.py', 'borealis/borealis_formats.py', 'borealis/borealis_restructure.py',
         'borealis/borealis_convert.py', 'borealis/borealis_utilities.py']
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!=', '<=', '>='], ast.NotEq: ['=='], ast.In: ['not in'],
       ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/', '+'], ast.Div: ['*', '//'], ast.FloorDiv: ['/'], ast.Mod: ['*'], ast.Pow: ['*']}
ATTR = {'int16': 'int32', 'int32': 'int64', 'int8': 'uint8', 'uint8': 'int8', 'uint32': 'int32', 'float32': 'float64', 'float64': 'float32',
        'complex64': 'complex128', 'uint16': 'int16', 'uint64': 'int64', 'int64': 'uint64', 'zeros': 'ones', 'floor': 'ceil', 'real': 'imag',
        'imag': 'real', 'minimum': 'maximum', 'append': 'extend', 'keys': 'values', 'nan': 'inf', 'cumprod': 'cumsum', 'copy': 'view'}


def mutants(f):
    src = open(W + '/base/pydarnio/' + f).read()
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    out = []

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, what):
        s, e = span(n)
        if b[s:e].decode() != new:
            out.append({'file': f, 'line': n.lineno, 's': s, 'e': e, 'old': b[s:e].decode(), 'new': new, 'what': what})

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = n.name
            if fn in ('__repr__', '__str__'):
                return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and 'log' in seg(n).split('(')[0]:
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format':
            return
        if isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, '%s %s %s' % (seg(n.left), o, seg(n.comparators[0])), 'cmp')
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                add(n, '%s %s %s' % (seg(n.left), o, seg(n.right)), 'bin')
        if isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + o.join('(%s)' % seg(v) for v in n.values) + ')', 'bool')
            for k in range(len(n.values)):
                add(n, '(' + {' or ': ' and ', ' and ': ' or '}[o].join(seg(v) for j, v in enumerate(n.values) if j != k) + ')', 'drop operand')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, seg(n.operand), 'unary')
        if isinstance(n, ast.Constant):
            if type(n.value) is int:
                add(n, str(n.value + 1), 'const')
                if n.value:
                    add(n, str(n.value - 1), 'const')
            elif type(n.value) is bool:
                add(n, str(not n.value), 'const')
            elif type(n.value) is str and n.value and len(n.value) < 40 and '{' not in n.value:
                add(n, repr(n.value + '_'), 'text')
        if isinstance(n, ast.Attribute) and n.attr in ATTR:
            add(n, seg(n.value) + '.' + ATTR[n.attr], 'attr')
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                add(n.lower, seg(n.lower) + '+1', 'slice')
            if n.upper is not None:
                add(n.upper, '(' + seg(n.upper) + ')-1', 'slice')
        if isinstance(n, (ast.Assign, ast.AugAssign)) and n.col_offset > 4:
            if isinstance(n, ast.AugAssign) or not isinstance(n.targets[0], ast.Name):
                add(n, 'pass', 'delete')
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, 'pass', 'delete')
        if isinstance(n, (ast.Break, ast.Continue)):
            add(n, 'pass', 'delete')
        if isinstance(n, ast.If):
            add(n.test, 'True', 'cond')
            add(n.test, 'False', 'cond')
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
        if isinstance(n, ast.ListComp) and n.generators[0].ifs:
            add(n.generators[0].ifs[0], 'True', 'cond')
        if isinstance(n, ast.Call) and n.keywords and isinstance(n.func, (ast.Attribute, ast.Name)):
            for k in n.keywords:
                if k.arg:
                    s0 = '%s(%s)' % (seg(n.func), ', '.join([seg(a) for a in n.args] + [seg(j) if j.arg else '**' + seg(j.value) for j in n.keywords if j is not k]))
                    add(n, s0, 'keyword')
        for c in ast.iter_child_nodes(n):
            visit(c, fn)
    visit(ast.parse(src), '')
    for m in out:
        new = b[:m['s']] + m['new'].encode() + b[m['e']:]
        try:
            compile(new.decode(), f, 'exec')
            m['ok'] = True
        except SyntaxError:
            m['ok'] = False
    return [m for m in out if m['ok']]


def copy(m, d):
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', W + '/base', d], check=True)
    p = os.path.join(d, 'pydarnio', m['file'])
    b = open(p, 'rb').read()
    open(p, 'wb').write(b[:m['s']] + m['new'].encode() + b[m['e']:])


def test(i, m, stable):
    d = '%s/c%d' % (W, i)
    copy(m, d)
    for s in ('test.sh', 'run_unittest.py', 'results.py'):
        t = open('/opt/vp/' + s).read().replace('/repo', d).replace('/opt/vp/run_unittest.py', d + '/vp_run_unittest.py').replace(
            '/opt/vp/results.py', d + '/vp_results.py')
        open('%s/vp_%s' % (d, s), 'w').write(t)
    env = dict(os.environ, PYTHONPATH=d)
    try:
        subprocess.run(['bash', '-c', 'ulimit -v 3500000; timeout 200 bash %s/vp_test.sh %s/o.json' % (d, d)], env=env, capture_output=True)
        r = set(json.load(open(d + '/o.json'))['passed'])
        m['tests'] = [t for t in stable if t not in r and not t.startswith('tests.unit.test_borealis.TestBorealisWrite::')]
    except Exception as e:
        m['tests'] = [str(e)]
    shutil.rmtree(d, ignore_errors=True)


DM = ['C04', 'C19', 'C02', 'C01', 'C03', 'C06', 'C05', 'C18', 'C17', 'C14']
BO = ['C08', 'C10', 'C09', 'C07', 'C13', 'C12', 'C11', 'C18', 'C14', 'C15', 'C16', 'C17']
ORD = {'dmap/dmap.py': DM, 'dmap/superdarn.py': ['C06', 'C05', 'C18', 'C17', 'C14', 'C15'], 'utils/conversions.py': DM, 'dmap/datastructures.py': DM,
       'borealis/borealis_convert.py': ['C14', 'C15', 'C16', 'C18', 'C13', 'C17'],
       'borealis/borealis_restructure.py': ['C11', 'C13', 'C18', 'C17']}


def check(m, d):
    copy(m, d)
    m['found'] = None
    m['odd'] = []
    extra = os.environ.get('EXTRA', '').split()
    for c in extra + ORD.get(m['file'], BO):
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=W + '/ev')
        r = subprocess.run(['timeout', '900', 'python3', 'check.py', c, '--tier', 'quick'], cwd=W + '/verif', env=env, capture_output=True, text=True)
        if r.returncode == 1 and 'VIOLATION' in r.stdout:
            m['found'] = c
            break
        if r.returncode != 0:
            m['odd'].append([c, r.returncode, (r.stdout + r.stderr)[-300:]])
        if 'INCONCLUSIVE' in r.stdout or "weakened {}" not in r.stdout:
            m['odd'].append([c, r.returncode, r.stdout[-600:]])
    shutil.rmtree(d, ignore_errors=True)


def main():
    mode, out = sys.argv[1:3]
    if mode == 'gen':
        shutil.rmtree(W + '/base', ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', W + '/base'], check=True)
        random.seed(int(sys.argv[3]))
        per = int(sys.argv[4])
        res = []
        for f in (sys.argv[5:] or FILES):
            ms = mutants(f)
            res += random.sample(ms, min(per, len(ms)))
            print(f, len(ms))
        json.dump(res, open(out, 'w'), indent=1)
        return
    ms = json.load(open(out))
    if mode == 'tests':
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        with ThreadPoolExecutor(int(os.environ.get('JOBS', '8'))) as ex:
            list(ex.map(lambda x: test(x[0], x[1], stable), [x for x in enumerate(ms) if 'tests' not in x[1]]))
        json.dump(ms, open(out, 'w'), indent=1)
        print(len(ms), 'mutants', sum(not m['tests'] for m in ms), 'pass the tests')
    elif mode == 'checks':
        shutil.rmtree(W + '/verif', ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', '/verif', W + '/verif'], check=True)
        for i, m in enumerate(ms):
            if m['tests'] or 'found' in m:
                continue
            check(m, W + '/chk')
            print(i, m['found'], m['file'], m['line'], m['what'], repr(m['old'][:80]), '->', repr(m['new'][:80]), m['odd'] and [x[:2] for x in m['odd']], flush=True)
            json.dump(ms, open(out, 'w'), indent=1)


main()
