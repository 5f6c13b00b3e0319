"""C03: the documented symmetry action on models."""
from .common import *


def run(ck):
    ck.rule('abstract value of apply(model) with H an opaque matrix-valued function letter equals the documented word '
            '+-U H(+-R^-1 k)^(*) U^dagger (for every flag combination) and i[H,U] + i dH/dk_i R_ij k_j for generators')
    it = make(ck)
    w = where(ck, it, 'groups', 'PointGroupElement', 'apply')
    for k in ('int', 'float', 'exact'):
        for u in (True, False):
            def go(k=k, u=u):
                it = make(ck)
                st = state()
                g = pge(it, st, '1', u, k)
                f = it.get(st, g).fields
                v, s = absrun(it, it.method('groups', 'PointGroupElement', 'apply'), [g, H()], st)
                Ri = inverse(f['R'])
                c = f['conjugate']
                rot = lambda r: B.fn('rot', [H(), r], 'x', (), 'Model')
                h = ite(c, conj(rot(neg(Ri))), rot(Ri))
                h = ite(f['antisymmetry'], lift(neg, h), h)
                if u:
                    U = f['U']
                    h = lift(lambda x: matmul(matmul(U, x), conj(transpose(U))), h)
                return compare(v, h, {'R1', 'U1'}, 'strict')
            ck.ob('PointGroupElement.apply, R %s, U %s' % (k, 'given' if u else 'None'), w, go)
    w = where(ck, it, 'groups', 'ContinuousGroupGenerator', 'apply')
    for r in (True, False):
        for u in (True, False):
            def go(r=r, u=u):
                it = make(ck)
                st = state()
                R = mat('Rg', 'np.ndarray', ('hermitian',)) if r else NONE
                U = mat('Ug', 'np.ndarray', ('hermitian',)) if u else NONE
                g = it.alloc(st, HInst(it.func('groups', 'ContinuousGroupGenerator'), {'R': R, 'U': U}))
                v, s = absrun(it, it.method('groups', 'ContinuousGroupGenerator', 'apply'), [g, H()], st)
                want = cgg_action(H(), R, U)
                return compare(v, want, {'Rg', 'Ug'}, 'skip')
            ck.ob('ContinuousGroupGenerator.apply, R %s, U %s' % ('given' if r else 'None', 'given' if u else 'None'), w, go)
    explicit(ck)
    point(ck)


def explicit(ck):
    """Generators acting on models with given terms, momenta in an order of their own."""
    from . import mscen as S
    from .mcommon import Sc, cmp_model, M, T
    from sa import arrays as AR
    k1, k2 = S.MOM
    a, b = S.a, S.b
    r = atom('r', (), 's', ('real',), 'float')
    it = make(ck)
    w = where(ck, it, 'groups', 'ContinuousGroupGenerator', 'apply')
    mi, pi = mul(Const(-1j), r), mul(Const(1j), r)
    for fmt in ('np.ndarray', 'csr_matrix', 'LinearOperator'):
        for u in (True, False):
            for _ in (0,):
                def go(fmt=fmt, u=u):
                    F = S.Fmt(fmt)
                    s = Sc(ck)
                    s.it.ext_over['sympy.diff'] = M.f_diff
                    R = AR.mk([[Const(0), mi], [pi, Const(0)]])
                    U = S.Fmt('np.ndarray').v('U1')
                    A = [F.v('A%d' % i) for i in range(4)]
                    keys = [mul(a, k1), mul(k2, k2), b, mul(b, S.expo(k1))]
                    m = F.m(s, list(zip(keys, A)))
                    g = s.it.alloc(s.st, HInst(s.it.func('groups', 'ContinuousGroupGenerator'), {'R': R, 'U': U if u else NONE}))
                    v = s.call(g, 'apply', m)
                    # i sum dH/dk_i R_ij k_j with R_12 = -i r, R_21 = i r
                    want = [(mul(a, k2), mul(r, A[0])), (mul(k1, k2), mul(mul(Const(-2), r), A[1])),
                            (mul(mul(b, k2), S.expo(k1)), mul(mul(Const(1j), r), A[3]))]
                    if u:
                        want += [(k, mul(Const(1j), add(matmul(x, U), matmul(U, x), -1))) for k, x in zip(keys, A)]
                    # products with the dense U are dense
                    return cmp_model(v, F.want(want, fmt='np.ndarray' if u else fmt))
                ck.ob('ContinuousGroupGenerator.apply, given terms%s [%s]' % (', U' if u else '', fmt), w, go)


def point(ck):
    """Point group elements acting on models with given terms: H(k) -> +-U H(+-R^-1 k)^(*) U^dagger."""
    from . import mscen as S
    from .mcommon import Sc, cmp_model, M, T
    from sa import arrays as AR
    k1, k2 = S.MOM
    a, b = S.a, S.b
    it = make(ck)
    w = where(ck, it, 'groups', 'PointGroupElement', 'apply')
    REP = [((0, -1), (1, 0)), ((0, 1), (1, 0)), ((-1, 0), (0, 1)), ((1, 1), (0, 1)), ((0, -1), (1, -1))]
    for R in REP:
        (p, q), (r, t) = R
        det = p * t - q * r
        inv = ((t * det, -q * det), (-r * det, p * det))
        for c in (False, True):
            for n in (False, True):
                def go(R=R, inv=inv, c=c, n=n):
                    F = S.Fmt('np.ndarray')
                    s = Sc(ck)
                    A = [F.v('A%d' % i) for i in range(4)]
                    keys = [mul(a, k1), mul(k1, k2), b, mul(b, S.expo(k1))]
                    m = F.m(s, list(zip(keys, A)))
                    U = F.v('U1')
                    g = pge(s.it, s.st, '1', True, 'int')
                    h = s.it.get(s.st, g)
                    h.fields.update(R=AR.mk([[Const(x) for x in row] for row in R], RT['int']), U=U, conjugate=Const(c), antisymmetry=Const(n))
                    s.it.summaries['linalg._inv_int'] = lambda it, args, kw, st, node: AR.mk([[Const(x) for x in row] for row in inv], RT['int'])
                    v = s.call(g, 'apply', m)
                    sg = -1 if c else 1
                    k = [add(mul(Const(sg * row[0]), k1), mul(Const(sg * row[1]), k2)) for row in inv]
                    cj = (lambda x: M.flip_i(x)) if c else (lambda x: x)
                    out = {}
                    for key, x in zip(keys, A):
                        x = conj(x) if c else x
                        x = matmul(matmul(U, x), conj(transpose(U)))
                        x = neg(x) if n else x
                        y = cj(key)
                        y = M.replace(y, {k1: k[0], k2: k[1]})
                        for k_, co in poly(y).terms.items():
                            z = simplify(Poly({k_: (Fraction(1), Fraction(0))}, 's'))
                            y2 = mul(simplify(Poly({((), ()): co}, 's')), x)
                            out[z] = add(out[z], y2) if z in out else y2
                    return cmp_model(v, F.want(list(out.items())))
                ck.ob('PointGroupElement.apply, given terms, R %s%s%s' % (R, ', conjugate' if c else '', ', antisymmetric' if n else ''), w, go)


def cgg_action(h, R, U):
    """i[H, U] + i sum_ij dH/dk_i R_ij k_j"""
    zero = letter(Atom('zeros', (), 'x'))
    a = b = zero
    if R != NONE:
        n = B.shape_of(R).items[0]
        rng = B.fn('range', [n], 's', (), 'coll')
        b1, b2 = Binder(rng), Binder(rng)
        i, j = pos_i(b1), pos_i(b2)
        key = L.generic_key(h)
        mom = B.fn('momenta', [h], 's', (), 'coll')
        item = lambda x: B.fn('item', [mom, x])
        body = B.fsum([b1, b2], TRUE, mul(mul(B.fn('diff', [key, item(i)]), B.idx(R, Tup([i, j]))), item(j)))
        t = L.trf_letter(h, body)
        a = ite(close(R, Const(0)), zero, mul(Const(1j), t))
    if U != NONE:
        c = mul(Const(1j), add(matmul(h, U), matmul(U, h), -1))
        b = ite(close(U, Const(0)), zero, c)
    return lift(add, a, b)


def pos_i(b):
    return letter(Atom('i', (b,), 's', ('real',), 'int'))
