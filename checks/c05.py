"""C05: equality, hashing and ordering of symmetry operations; Bloch coefficients."""
from .common import *
from sa.compare import compare_any
from sa import terms as T
from sa import compare as CMP
from sa import modelrep as M

PGE = 'PointGroupElement'


def proport(u, v):
    """Reference forms of `u and v are equal up to a phase` (both unitary)."""
    d = lambda x: transpose(conj(x))
    for w in (matmul(d(u), v), matmul(d(v), u), matmul(u, d(v)), matmul(v, d(u))):
        yield band(pred(P('prop', w)), close(lift(L.absval, atom('propcoef', (w,), 's')), Const(1)) if hasattr(L, 'absval')
                   else close(fn('abs', [atom('propcoef', (w,), 's')]), Const(1)))


def eqspecs(f1, f2, exact):
    R = B.eq(f1['R'], f2['R']) if exact else close(f1['R'], f2['R'])
    basic = band(R, bnot(bxor(f1['conjugate'], f2['conjugate'])), bnot(bxor(f1['antisymmetry'], f2['antisymmetry'])))
    strict = bor(f1['_strict_eq'], f2['_strict_eq'])
    u1, u2 = f1['U'], f2['U']
    if u1 == NONE and u2 == NONE:
        us = [TRUE]
    elif u1 == NONE or u2 == NONE:
        us = [FALSE]
    else:
        us = list(proport(u1, u2))
    return [band(basic, bor(bnot(strict), u)) for u in us]


def lex(f1, f2):
    """Flags first, then the identity, then the rotation."""
    c1, c2, a1, a2 = f1['conjugate'], f2['conjugate'], f1['antisymmetry'], f2['antisymmetry']
    R1, R2 = f1['R'], f2['R']
    fl = bor(band(bnot(c1), c2), band(bnot(bxor(c1, c2)), bnot(a1), a2))
    same = band(bnot(bxor(c1, c2)), bnot(bxor(a1, a2)))
    out = []
    for e1 in (0, 1):
        for e2 in (0, 1):
            d = [B.shape_of(R1).items[0], B.shape_of(R2).items[0]]
            i1, i2 = B.eq(R1, fn('eye', [d[e1]], 'm')), B.eq(R2, fn('eye', [d[e2]], 'm'))
            out.append(bor(fl, band(same, bor(band(i1, bnot(i2)), band(bnot(bxor(i1, i2)), B.lt(R1, R2))))))
    return out


TYPES = (('int', 'int', True), ('float', 'float', False), ('exact', 'exact', True), ('float', 'exact', False),
         ('exact', 'float', False), ('int', 'exact', False), ('int', 'float', False))


def run(ck):
    ck.rule('the value of == equals the reference relation for every combination of rotation types and presence of U; '
            'hash values of elements that the relation identifies are the same function of the shared parts; < equals the '
            'lexicographic reference order; == and != of Bloch coefficients are total, complementary and coherent with hash')
    it = make(ck)
    w = where(ck, it, 'groups', PGE, '__eq__')
    CMP.FREE.add('prop')
    for t1, t2, ex in TYPES:
        for u1, u2 in ((True, True), (True, False), (False, True), (False, False)):
            def go(t1=t1, t2=t2, ex=ex, u1=u1, u2=u2):
                it = make(ck)
                st = state()
                g, h = pge(it, st, '1', u1, t1), pge(it, st, '2', u2, t2)
                f1, f2 = it.get(st, g).fields, it.get(st, h).fields
                v, s = absrun(it, it.method('groups', PGE, '__eq__'), [g, h], st)
                v = lift_truth(v)
                return compare_any(v, eqspecs(f1, f2, ex), {'abs', 'propcoef'}, 'strict')
            ck.ob('g1 == g2, R %s/%s, U %s/%s' % (t1, t2, 'given' if u1 else 'None', 'given' if u2 else 'None'), w, go)
    w = where(ck, it, 'groups', PGE, '__hash__')
    for t1, t2, ex in (('int', 'int', True), ('float', 'float', False), ('exact', 'exact', True), ('float', 'exact', False)):
        for u1, u2 in ((True, True), (True, False)):
            def go(t1=t1, t2=t2, ex=ex, u1=u1, u2=u2):
                it = make(ck)
                st = state()
                g, h = pge(it, st, '1', u1, t1), pge(it, st, '2', u2, t2)
                f1, f2 = it.get(st, g).fields, it.get(st, h).fields
                f2['conjugate'], f2['antisymmetry'] = f1['conjugate'], f1['antisymmetry']
                if ex:
                    f2['R'] = f1['R']
                hv = []
                for x in (g, h):
                    v, s = absrun(it, it.method('groups', PGE, '__hash__'), [x], st.copy())
                    hv.append(v)
                r = compare(hv[0], hv[1], {'hash', 'R1', 'R2', 'U1', 'U2', 's1', 's2', 'c1', 'a1', 'c2', 'a2'}, 'strict')
                if r.kind == 'ne':
                    r.why = 'equal elements, different hashes: %r and %r' % (hv[0], hv[1])
                return r
            ck.ob('hash of equal elements, R %s/%s, U given/%s' % (t1, t2, 'given' if u2 else 'None'), w, go)
    w = where(ck, it, 'groups', PGE, '__lt__')
    for t1, t2, ex in TYPES:
        def go(t1=t1, t2=t2):
            it = make(ck)
            st = state()
            g, h = pge(it, st, '1', True, t1), pge(it, st, '2', True, t2)
            f1, f2 = it.get(st, g).fields, it.get(st, h).fields
            v, s = absrun(it, it.method('groups', PGE, '__lt__'), [g, h], st)
            return compare_any(lift_truth(v), lex(f1, f2), {'eye', 'dim'}, 'strict')
        ck.ob('g1 < g2, R %s/%s' % (t1, t2), w, go)
    bloch(ck)


def lift_truth(v):
    def leaf(x):
        if isinstance(x, (Exc, Opq)) or x in (TRUE, FALSE):
            return x
        return truth(x)
    return lift(leaf, v)


def bloch(ck):
    it = make(ck)
    h1, h2 = M.symvec('h1'), M.symvec('h2')
    a, b = M.sym('a'), M.sym('b')
    bc = lambda h, c: M.bloch(h, c)
    BC = 'BlochCoeff'
    cases = [('equal prefactors', bc(h1, a), bc(h2, a), band(close(h1, h2), B.eq(B.shape_of(h1), B.shape_of(h2))), close(h1, h2)),
             ('different prefactors', bc(h1, a), bc(h1, b), FALSE, FALSE),
             ('same', bc(h1, a), bc(h1, a), TRUE, TRUE)]
    others = [('None', NONE), ('text', Const('a')), ('symbol', a), ('tuple', Tup([h1, a])), ('list', Tup([])), ('number 2', Const(2))]
    for op in ('__eq__', '__ne__'):
        w = where(ck, it, 'model', BC, op)
        for nm, x, y, want, alt in cases:
            def go(x=x, y=y, want=want, alt=alt, op=op):
                it = make(ck)
                f = it.method('model', BC, op)
                v, s = absrun(it, f, [x, y], state())
                ws = [want, alt]
                if op == '__ne__':
                    ws = [bnot(z) for z in ws]
                return compare_any(lift_truth(v), ws, {'h1', 'h2', 'a', 'b', 'shape'}, 'strict')
            ck.ob('BlochCoeff %s, %s' % ({'__eq__': '==', '__ne__': '!='}[op], nm), w, go)
        for nm, y in others:
            def go(y=y, op=op):
                it = make(ck)
                f = it.method('model', BC, op)
                v, s = absrun(it, f, [bc(h1, a), y], state())
                for cube, x in leaves(v):
                    if isinstance(x, Exc):
                        return Verdict('ne' if not cube else 'unk', 'raises %s' % x.name, cube, v, None)
                return compare(lift_truth(v), FALSE if op == '__eq__' else TRUE, {'h1', 'a'}, 'strict')
            ck.ob('BlochCoeff %s %s' % ({'__eq__': '==', '__ne__': '!='}[op], nm), w, go)
    w = where(ck, it, 'model', BC, '__hash__')

    def go():
        it = make(ck)
        f = it.method('model', BC, '__hash__')
        x, _ = absrun(it, f, [bc(h1, a)], state())
        y, _ = absrun(it, f, [bc(h2, a)], state())
        r = compare(x, y, {'hash', 'h1', 'h2', 'a'}, 'strict')
        if r.kind == 'ne':
            r.why = 'coefficients with close hoppings have different hashes: %r and %r' % (x, y)
        return r
    ck.ob('hash of equal Bloch coefficients', w, go)
