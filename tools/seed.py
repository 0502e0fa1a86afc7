#!/usr/bin/env python3
"""Plant one bug: tools/seed.py SPEC.py -> /verif/seeded/<id>/ (kept only if it builds, passes the stable tests and its
demonstration separates it from the unchanged tree).

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file under src/hookeai, old, new)], DEMO (python source)."""
import json, os, runpy, shutil, subprocess, sys
HEAD = '''import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src', 'hookeai'))
import torch
torch.set_default_dtype(torch.float64)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(spec):
    s = runpy.run_path(spec)
    d = '/verif/seeded/' + s['ID']
    wt = '/tmp/seedwt_' + s['ID']
    shutil.rmtree(wt, ignore_errors=True)
    sh('cp -a /repo %s' % wt)
    try:
        for f, old, new in s['EDITS']:
            p = os.path.join(wt, 'src/hookeai', f)
            t = open(p).read()
            if t.count(old) < 1:
                print('NOT FOUND', f, old); return 1
            if t.count(old) > 1 and not s.get('MULTI'):
                print('AMBIGUOUS', f, old, t.count(old)); return 1
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=wt).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(HEAD + s['DEMO'])
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg\n'
                                        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'),
                  indent=1)
        a = sh('bash %s/demo.sh' % d, cwd='/repo')
        b = sh('bash %s/demo.sh' % d, cwd=wt)
        ok = a.returncode == 0 and b.returncode != 0
        tail = lambda r: (r.stdout + r.stderr).strip().splitlines()[-1:]
        print(s['ID'], 'clean', a.returncode, tail(a), 'patched', b.returncode, tail(b))
        # stable tests on the patched copy
        t = sh('cd %s && MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir=%s tests/fetorch/element '
               'tests/fetorch/math tests/fetorch/structure 2>&1 | tail -15' % (wt, wt))
        print(t.stdout.strip().splitlines()[-1:])
        bad = [n for n in json.load(open('/opt/vp/BASELINE.json'))['stable'] if ('FAILED' in t.stdout and n.split('::')[1] in t.stdout)]
        print('stable broken:', bad)
        if not ok or bad:
            shutil.rmtree(d); print('DISCARDED'); return 1
        if '-n' not in sys.argv:
            r = sh('VF_SRC=%s/src/hookeai python3 run.py %s' % (wt, s['PROPERTY']), cwd='/verif')
            print('check', s['PROPERTY'], 'exit', r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l][:2])
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    return 0


sys.exit(max(main(p) for p in sys.argv[1:] if not p.startswith('-')))
