#!/usr/bin/env python3
"""Self-test of the checks on edited copies of the package (never on /repo itself).

selftest.py [property ...]   runs every variant of tools/variants.py:
  bug variants must be reported by the property's check, refactoring variants
  must leave all listed checks quiet."""
import os, sys, shutil, subprocess, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
REPO = '/repo'

def run(prop, root, ev):
    env = dict(os.environ, QSYMM_ROOT=root, SA_EVIDENCE=ev, VERIF_TIER='quick')
    p = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), prop], env=env, capture_output=True, text=True, cwd=HERE)
    return p.returncode, p.stdout + p.stderr

def one(v):
    kind, props, f, edits = v[:4]
    d = tempfile.mkdtemp(prefix='st_')
    try:
        os.makedirs(d + '/qsymm'); os.makedirs(d + '/ev')
        for x in os.listdir(REPO + '/qsymm'):
            if x.endswith('.py'):
                shutil.copy(REPO + '/qsymm/' + x, d + '/qsymm/' + x)
        p = d + '/qsymm/' + f
        s = open(p, encoding='utf-8').read()
        for old, new in edits:
            if s.count(old) < 1:
                return v, 'STALE', old
            s = s.replace(old, new, 1)
        open(p, 'w', encoding='utf-8').write(s)
        compile(s, f, 'exec')
        res = []
        for prop in props:
            rc, out = run(prop, d, d + '/ev')
            res.append((prop, rc, out))
        if kind == 'bug':
            ok = any(rc == 1 for _, rc, _ in res)
            return v, 'caught' if ok else ('MISSED' if all(rc in (0, 1) for _, rc, _ in res) else 'ERROR'), '' if ok else res[0][2][-1500:]
        bad = [(p_, rc, o) for p_, rc, o in res if rc != 0]
        return v, 'quiet' if not bad else 'FALSE-ALARM', bad[0][2][-2500:] if bad else ''
    finally:
        shutil.rmtree(d)

def main():
    import variants
    want = [a for a in sys.argv[1:] if not a.startswith('-')]
    vs = [v for v in variants.ALL if not want or set(want) & set(v[1])]
    if want:
        vs = [(v[0], [p for p in v[1] if p in want] or v[1], *v[2:]) for v in vs]
    n = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for v, r, out in ex.map(one, vs):
            n[r] = n.get(r, 0) + 1
            if r not in ('caught', 'quiet') or '-v' in sys.argv:
                print('%-12s %s %s %s :: %s' % (r, v[0], ','.join(v[1]), v[2], v[4] if len(v) > 4 else v[3][0][1][:100]))
                if out and '-q' not in sys.argv:
                    print('    ' + out.replace('\n', '\n    '))
    print(n)
main()
