"""C01: composition law of symmetry operations."""
from .common import *


def run(ck):
    ck.rule('the abstract value of g1*g2 (free *-algebra words gated by the flags) equals the reference '
            'R1.R2, c1^c2, a1^a2, U1.(c1 ? U2^* : U2), s1|s2 in every scenario of None-ness of U and representation of R')
    it = make(ck)
    w = where(ck, it, 'groups', 'PointGroupElement', '__mul__')
    kinds = [('int', 'int'), ('int', 'float'), ('float', 'int'), ('float', 'float'), ('exact', 'exact'),
             ('int', 'exact'), ('exact', 'int'), ('float', 'exact'), ('exact', 'float')]
    for k1, k2 in kinds:
        for u1 in (True, False):
            for u2 in (True, False):
                if (k1, k2) != ('int', 'int') and not (u1 and u2):
                    continue

                def go(k1=k1, k2=k2, u1=u1, u2=u2):
                    it = make(ck)
                    st = state()
                    g1, g2 = pge(it, st, '1', u1, k1), pge(it, st, '2', u2, k2)
                    f1, f2 = it.get(st, g1).fields, it.get(st, g2).fields
                    v, s = absrun(it, it.method('groups', 'PointGroupElement', '__mul__'), [g1, g2], st)
                    if {k1, k2} == {'float', 'exact'}:
                        bad = [x for c, x in leaves(v) if not isinstance(x, Exc)]
                        if not bad:
                            return Verdict('eq')
                        if any(isinstance(x, Opq) for x in bad):
                            return Verdict('unk', 'unknown outcome', (), v)
                        return Verdict('ne', 'mixing exact and floating-point rotations must be rejected', (), v)
                    U = matmul_v(f1['U'], ite(f1['conjugate'], lift(conj, f2['U']), f2['U'])) if u1 and u2 else NONE
                    return cmp_fields(v, {
                        'R': matmul(f1['R'], f2['R']),
                        'conjugate': bxor(f1['conjugate'], f2['conjugate']),
                        'antisymmetry': bxor(f1['antisymmetry'], f2['antisymmetry']),
                        'U': U,
                        '_strict_eq': bor(f1['_strict_eq'], f2['_strict_eq'])})
                ck.ob('product R %s x %s, U1 %s, U2 %s' % (k1, k2, 'given' if u1 else 'None', 'given' if u2 else 'None'), w, go)


def matmul_v(a, b):
    return lift(matmul, a, b)
