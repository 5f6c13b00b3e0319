#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = 'abstract interpretation (gated value numbering over a free *-algebra)'
TECH = {}
def t(p, tech, note):
    TECH[p] = (tech, note)
COMMON = ('Static: decides from the parsed source of qsymm/*.py on every run, nothing is executed. Established for all inputs '
          'in the abstract scenarios listed in the evidence; trusts the modelled meaning of numpy/sympy operations; '
          'constructs outside the vocabulary are reported as undetermined in the evidence, never as violations. ')
t('C01', ABS, COMMON + 'Numerical helpers (allclose, _inv_int) are taken at their documented meaning; closeness is read as equality.')
t('C02', ABS, COMMON + 'U is assumed unitary, R invertible; powers are unrolled for n in -3..3.')
t('C03', ABS, COMMON + 'Model.rotate_momenta/conj/transform_symbolic are letters here; their own meaning is C04/C07.')
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'claims.py')) else None
NA = {
 'C40': 'completeness of the search over a candidate group depends on numerical null spaces and on which unitary parts exist for the given matrices; no static argument in reach bounds that',
 'C41': 'linear independence and completeness of numerically computed solution spaces are runtime quantities (ranks of data-dependent matrices)',
 'C42': 'accuracy of SVD/QR/row reduction within a tolerance is a floating-point runtime property',
 'C43': 'whether the returned group is the full holohedry depends on numerical lattice geometry (Voronoi cells, tolerances)',
 'C44': 'the dimension of the space of allowed Hamiltonians is a rank of data-dependent matrices',
 'C45': 'equality of numerical evaluations goes through sympy printing/lambdify code generation and floating point; the term-level part is covered by C04-C08',
 'C46': 'closest-vector optimality depends on numerical lattice geometry; the code-level preconditions are part of C31',
 'C47': 'preservation of a span after rounding to digits is a numerical rank property',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in TECH and os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i,
                       'technique': TECH[i][0], 'level': 'other', 'level_note': TECH[i][1]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no sound static check has been built for this property yet')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, json"', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are pure static analyses of /repo/qsymm/*.py using only the Python standard library. No hooks in /repo.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not applicable')
