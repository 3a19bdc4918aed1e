#!/usr/bin/env python3
"""Confirms a planted change: tools/plant.py SPEC.py [--no-tests]

SPEC.py defines ID, PROPERTY, EDITS = [(file, old, new), ...], DEMO (Python
source), NEEDS and BREAKS. In a scratch copy of /repo the edits are applied;
the demonstration has to pass without and fail with them and the stable tests
have to pass with them. Then seeded/<ID>/ is written."""
import json, os, runpy, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1])
ID = spec['ID']
wt = '/tmp/plant-' + ID
shutil.rmtree(wt, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', wt], check=True)
for f, old, new in spec['EDITS']:
    p = os.path.join(wt, f)
    s = open(p, encoding='utf-8').read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w', encoding='utf-8').write(s.replace(old, new))
diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout
d = os.path.join(VERIF, 'seeded', ID)
tmp = tempfile.mkdtemp()
with open(os.path.join(tmp, 'demo.sh'), 'w') as f:
    f.write('#!/bin/bash\n# exit 0: behaviour as stated; run with cwd = the flavio tree\n'
            'here=$(cd "$(dirname "$0")" && pwd)\n'
            'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"\n'
            'exec timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"\n')
os.chmod(os.path.join(tmp, 'demo.sh'), 0o755)
open(os.path.join(tmp, 'demo.py'), 'w').write(spec['DEMO'].lstrip())
open(os.path.join(tmp, 'patch.diff'), 'w').write(diff)
json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']),
          open(os.path.join(tmp, 'meta.json'), 'w'), indent=1)
ok = True
for cwd, want in (('/repo', 0), (wt, 1)):
    r = subprocess.run(['bash', os.path.join(tmp, 'demo.sh')], cwd=cwd, capture_output=True, text=True)
    print(ID, 'demo', cwd, 'exit', r.returncode, (r.stdout + r.stderr)[-400:].strip())
    ok &= (r.returncode == 0) == (want == 0)
r = subprocess.run(['git', '-C', '/repo', 'apply', '--check', os.path.join(tmp, 'patch.diff')])
ok &= r.returncode == 0
if ok and '--no-tests' not in sys.argv:
    t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + wt).replace('/opt/vp/run.XXXXXX', '/tmp/run.XXXXXX')
    t = t.replace('export PYTHONDONTWRITEBYTECODE=1', 'export PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1' % wt)
    sh = os.path.join(tmp, 't.sh')
    open(sh, 'w').write(t)
    out = '/tmp/plant-%s.json' % ID
    subprocess.run(['bash', sh, out], capture_output=True)
    os.remove(sh)
    res = json.load(open(out))
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    miss = sorted(set(base) - set(res['passed']))
    print(ID, 'tests:', len(res['passed']), 'passed; missing', miss[:5])
    ok &= not miss
if ok:
    shutil.rmtree(d, ignore_errors=True)
    shutil.move(tmp, d)
    os.chmod(d, 0o755)
print(ID, 'KEPT' if ok else 'REJECTED', 'copy left in', wt)
sys.exit(not ok)
