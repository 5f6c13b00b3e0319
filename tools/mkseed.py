#!/usr/bin/env python3
"""mkseed.py: builds /verif/seeded/<id>/ from a spec file (python): dict with
id, property, needs, breaks, edits=[(file, old, new)], demo (python source).
Verifies everything in a scratch copy of /repo before keeping it."""
import sys, os, subprocess, shutil, tempfile, json
spec = {}
exec(open(sys.argv[1]).read(), spec)
D = '/verif/seeded/' + spec['id']
tmp = tempfile.mkdtemp(prefix='seed_')
repo = tmp + '/repo'
try:
    subprocess.check_call(['cp', '-a', '/repo', repo])
    for f, old, new in spec['edits']:
        p = repo + '/' + f
        s = open(p, encoding='utf-8').read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w', encoding='utf-8').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', repo, 'diff']).decode()
    assert diff
    # blame: changed original lines must not be ours
    os.makedirs(D, exist_ok=True)
    open(D + '/patch.diff', 'w').write(diff)
    open(D + '/demo.py', 'w').write(spec['demo'])
    open(D + '/demo.sh', 'w').write('''#!/bin/sh
# exit 0: the property holds; nonzero: it is broken
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$PYTHONPATH"
exec "$PY" "$(dirname "$0")/demo.py"
''')
    os.chmod(D + '/demo.sh', 0o755)
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(D + '/meta.json', 'w'), indent=1)
    a = subprocess.run([D + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run([D + '/demo.sh'], cwd=repo, capture_output=True, text=True)
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'vp_seed', '--timeout=300', '--continue-on-collection-errors', '-W', 'ignore:unclosed file <_io.BufferedReader:ResourceWarning', 'qsymm'], cwd=repo, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONPATH=repo + ':/opt/vp/pytest_plugins', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1'))
    last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]
    c = subprocess.run([sys.executable, '/verif/check.py', spec['property']], capture_output=True, text=True, cwd='/verif',
                       env=dict(os.environ, QSYMM_ROOT=repo, SA_EVIDENCE=tmp))
    print(spec['id'], spec['property'], 'demo clean', a.returncode, 'demo bug', b.returncode, '| tests', t.returncode, last, '| check', c.returncode)
    if a.returncode or not b.returncode or t.returncode:
        print('NOT VALID', a.stdout[-500:], a.stderr[-800:], b.stdout[-300:], t.stdout[-1500:])
        shutil.rmtree(D)
    else:
        print('   ', b.stderr.strip().splitlines()[-1:] )
finally:
    shutil.rmtree(tmp)
