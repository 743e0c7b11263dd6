#!/usr/bin/env python3
"""seed.py SPEC.py...: builds seeded/<id>/ from a spec (ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS), confirming in /repo
that the demo passes without and fails with the change and that the stable tests still pass.  Options:
--check also runs the property's quick check against it; --only-check just that."""
import json
import os
import shutil
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def clean():
    sh('git -C /repo checkout -- .')


def stable_ok():
    sh('bash /opt/vp/test.sh /tmp/w/seed_t.json')
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    r = json.load(open('/tmp/w/seed_t.json'))
    passed = set(r.get('passed') or [k for k, v in r.items() if v in ('passed', True)])
    bad = [t for t in base if t not in passed]
    return bad


def run(spec, opts):
    ns = {}
    exec(open(spec).read(), ns)
    sid = ns['ID']
    d = os.path.join(ROOT, 'seeded', sid)
    if sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip():
        sys.exit('repo not clean')
    if '--only-check' not in opts:
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in ns['EDITS']:
                p = os.path.join('/repo', f)
                s = open(p).read()
                n = ns.get('COUNT', 1)
                if s.count(old) < 1 or (n == 1 and s.count(old) != 1):
                    print(sid, 'EDIT does not match once:', f, s.count(old), old[:60])
                    return
                open(p, 'w').write(s.replace(old, new))
            diff = sh('git -C /repo diff').stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'])
            open(os.path.join(d, 'demo.sh'), 'w').write(
                '#!/bin/bash\n# exit 0 when the behaviour is right\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore\n'
                'D=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d) || exit 1\ntrap \'rm -rf "$T"\' EXIT\ncd "$T"\n'
                '/opt/venv/bin/python "$D/demo.py"\n')
            json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            if '--notest' not in opts:
                bad = stable_ok()
                print(sid, 'stable tests broken:' if bad else 'stable ok', bad[:3])
            r = sh('bash %s/demo.sh' % d, cwd='/repo')
            print(sid, 'demo with change: exit', r.returncode, (r.stdout + r.stderr).strip()[-200:])
        finally:
            clean()
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        print(sid, 'demo without change: exit', r.returncode, (r.stdout + r.stderr).strip()[-300:])
    if '--check' in opts or '--only-check' in opts:
        print(sh('git -C /repo apply %s/patch.diff' % d).stderr)
        try:
            r = sh('python3 check.py %s --tier quick' % ns['PROPERTY'], cwd=ROOT)
            print(sid, ns['PROPERTY'], 'check exit', r.returncode, (r.stdout + r.stderr)[-700:])
        finally:
            clean()


for a in [x for x in sys.argv[1:] if not x.startswith('--')]:
    run(a, sys.argv[1:])
