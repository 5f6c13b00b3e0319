"""Scenarios of Model methods with their reference results, shared by the
checks of C04, C06-C11. Each scenario covers one class of inputs: partition of
the keys, storage format, kept symbols."""
from .mcommon import *

MOM = (KY, KX)
a, b, c, d = (sym(x) for x in 'abcd')
ONEK = T.SConst(1)
SCEN = []
COO = []


class Scenario:
    def __init__(self, name, method, fn, tags, cls):
        self.name, self.method, self.fn, self.tags, self.cls = name, method, fn, tags, cls


def scen(method, name, tags, cls='Model'):
    def deco(f):
        SCEN.append(Scenario(name, method, f, tags.split(), cls))
        return f
    return deco


def for_fmts(method, name, tags, fmts=FMTS, cls='Model'):
    def deco(f):
        for fmt in fmts:
            def g(s, fmt=fmt):
                return f(s, Fmt(fmt))
            SCEN.append(Scenario('%s [%s]' % (name, fmt), method, g, tags.split(), cls))
        if 'csr_matrix' in fmts:
            COO.append(Scenario('%s [coo_matrix]' % name, method, lambda s: f(s, Fmt('coo_matrix')), tags.split(), cls))
        return f
    return deco


class Fmt:
    """Values and models of one storage format."""
    def __init__(self, fmt):
        self.fmt = fmt
        self.scalar = fmt == 'np.complex128'
        self.dense = fmt in ('np.ndarray', 'np.complex128')

    def sh(self, r='n', c='n'):
        return () if self.scalar else (r, c)

    def v(self, name, r='n', c='n'):
        # free letters: different from 0 and from each other
        return val(name, r, c, self.fmt, ('sym',))

    def m(self, s, terms, keep=(), momenta=MOM, sh=None, **kw):
        return s.model(terms, shape=self.sh() if sh is None else sh, fmt=self.fmt, keep=keep, momenta=momenta, **kw)

    def want(self, terms, keep=(), momenta=MOM, sh=None, fmt=None, cls='Model'):
        return Want(terms, shape=self.sh() if sh is None else sh, fmt=fmt or self.fmt, keep=keep, momenta=momenta, cls=cls)


def prods(l, r, op):
    """Terms of a product, coinciding factors added."""
    out = {}
    for k1, v1 in l:
        for k2, v2 in r:
            k = mul(k1, k2)
            out[k] = add(out[k], op(v1, v2)) if k in out else op(v1, v2)
    return list(out.items())


# -- sums

@for_fmts('__add__', 'model + model, factors only left / both / only right', 'C07 C09 C10')
def _(s, F):
    A1, A2, B1, B2 = (F.v(x) for x in ('A1', 'A2', 'B1', 'B2'))
    l, r = F.m(s, [(a, A1), (b, A2)]), F.m(s, [(b, B1), (c, B2)])
    return s.call(l, '__add__', r), F.want([(a, A1), (b, add(A2, B1)), (c, B2)])


@for_fmts('__add__', 'model + model with kept symbols', 'C07 C09 C10')
def _(s, F):
    A1, A2, B1, B2 = (F.v(x) for x in ('A1', 'A2', 'B1', 'B2'))
    l, r = F.m(s, [(a, A1), (b, A2)], keep=[a, b, c]), F.m(s, [(b, B1), (c, B2)], keep=[a, b, c])
    return s.call(l, '__add__', r), F.want([(a, A1), (b, add(A2, B1)), (c, B2)], keep=[a, b, c])


@for_fmts('__sub__', 'model - model', 'C07 C09 C10')
def _(s, F):
    A1, A2, B1, B2 = (F.v(x) for x in ('A1', 'A2', 'B1', 'B2'))
    l, r = F.m(s, [(a, A1), (b, A2)]), F.m(s, [(b, B1), (c, B2)])
    return s.call(l, '__sub__', r), F.want([(a, A1), (b, add(A2, B1, -1)), (c, neg(B2))])


@for_fmts('__sub__', 'model - model with kept symbols', 'C07 C09 C10')
def _(s, F):
    A1, A2, B1, B2 = (F.v(x) for x in ('A1', 'A2', 'B1', 'B2'))
    l, r = F.m(s, [(a, A1), (b, A2)], keep=[a, b, c]), F.m(s, [(b, B1), (c, B2)], keep=[a, b, c])
    return s.call(l, '__sub__', r), F.want([(a, A1), (b, add(A2, B1, -1)), (c, neg(B2))], keep=[a, b, c])


@for_fmts('__sub__', 'empty model - model', 'C07')
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    return s.call(F.m(s, []), '__sub__', F.m(s, [(a, A1), (b, A2)], keep=[a, b])), F.want([(a, neg(A1)), (b, neg(A2))], keep=[a, b])


@for_fmts('__sub__', 'model - empty model', 'C07 C09')
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    return s.call(F.m(s, [(a, A1), (b, A2)], keep=[a, b]), '__sub__', F.m(s, [])), F.want([(a, A1), (b, A2)], keep=[a, b])


@for_fmts('__sub__', 'model - constant', 'C07 C09 C10')
def _(s, F):
    A1, A2, C = F.v('A1'), F.v('A2'), F.v('C')
    return s.call(F.m(s, [(a, A1), (ONEK, A2)], keep=[a, ONEK]), '__sub__', C), F.want([(a, A1), (ONEK, add(A2, C, -1))], keep=[a, ONEK])


@for_fmts('__add__', 'model + constant, kept symbols', 'C07 C09')
def _(s, F):
    A1, A2, C = F.v('A1'), F.v('A2'), F.v('C')
    return s.call(F.m(s, [(a, A1), (ONEK, A2)], keep=[a, ONEK]), '__add__', C), F.want([(a, A1), (ONEK, add(A2, C))], keep=[a, ONEK])


@for_fmts('__add__', 'model + 0', 'C07 C09 C10')
def _(s, F):
    A1 = F.v('A1')
    return s.call(F.m(s, [(a, A1)], keep=[a, c]), '__add__', Const(0)), F.want([(a, A1)], keep=[a, c])


@for_fmts('__radd__', '0 + model', 'C07 C09 C10')
def _(s, F):
    A1 = F.v('A1')
    return s.call(F.m(s, [(a, A1)], keep=[a, c]), '__radd__', Const(0)), F.want([(a, A1)], keep=[a, c])


@for_fmts('__add__', 'model + empty model', 'C07 C09')
def _(s, F):
    A1 = F.v('A1')
    return s.call(F.m(s, [(a, A1)], keep=[a, c]), '__add__', F.m(s, [])), F.want([(a, A1)], keep=[a, c])


@for_fmts('__add__', 'empty model + model', 'C07')
def _(s, F):
    A1 = F.v('A1')
    return s.call(F.m(s, []), '__add__', F.m(s, [(a, A1)], keep=[a, c])), F.want([(a, A1)], keep=[a, c])


for meth, side in (('__add__', 'model + constant'), ('__radd__', 'constant + model')):
    @for_fmts(meth, side + ', no constant term before', 'C07 C09 C10')
    def _(s, F, meth=meth):
        A1, C = F.v('A1'), F.v('C')
        return s.call(F.m(s, [(a, A1)]), meth, C), F.want([(a, A1), (ONEK, C)])

    @for_fmts(meth, side + ', constant term present', 'C07 C09 C10')
    def _(s, F, meth=meth):
        A1, A2, C = F.v('A1'), F.v('A2'), F.v('C')
        return s.call(F.m(s, [(a, A1), (ONEK, A2)]), meth, C), F.want([(a, A1), (ONEK, add(A2, C))])


@scen('__add__', 'scalar model + number', 'C07 C09')
def _(s):
    F = Fmt('np.complex128')
    A1 = F.v('A1')
    return s.call(F.m(s, [(a, A1)]), '__add__', Const(2)), F.want([(a, A1), (ONEK, Const(2))])


# -- scaling

@for_fmts('__neg__', '-model', 'C07 C09 C10')
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    return s.call(F.m(s, [(a, A1), (b, A2)], keep=[a, b]), '__neg__'), F.want([(a, neg(A1)), (b, neg(A2))], keep=[a, b])


for meth, side in (('__mul__', 'model * number'), ('__rmul__', 'number * model')):
    @for_fmts(meth, side, 'C07 C09 C10')
    def _(s, F, meth=meth):
        A1, A2 = F.v('A1'), F.v('A2')
        z = Const(3j)
        return s.call(F.m(s, [(a, A1), (b, A2)], keep=[a, b]), meth, z), F.want([(a, mul(A1, z)), (b, mul(A2, z))], keep=[a, b])


@for_fmts('__truediv__', 'model / number', 'C07 C09 C10')
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    return s.call(F.m(s, [(a, A1), (b, A2)], keep=[a, b]), '__truediv__', Const(4)), F.want([(a, mul(A1, Const(0.25))), (b, mul(A2, Const(0.25)))], keep=[a, b])


for meth, side in (('__mul__', 'model * symbol'), ('__rmul__', 'symbol * model')):
    @for_fmts(meth, side, 'C07 C09 C10 C08')
    def _(s, F, meth=meth):
        A1, A2 = F.v('A1'), F.v('A2')
        return s.call(F.m(s, [(a, A1), (b, A2)]), meth, c), F.want([(mul(a, c), A1), (mul(b, c), A2)])

    @for_fmts(meth, side + ' with kept symbols', 'C07 C09 C10')
    def _(s, F, meth=meth):
        A1, A2 = F.v('A1'), F.v('A2')
        keep = [a, b, mul(a, c)]
        return s.call(F.m(s, [(a, A1), (b, A2)], keep=keep), meth, c), F.want([(mul(a, c), A1)], keep=keep)


# -- products

for meth, op, side in (('__mul__', B.emul, '*'), ('__matmul__', matmul, '@')):
    fm = ('np.ndarray', 'np.complex128') if meth == '__mul__' else ('np.ndarray', 'csr_matrix', 'LinearOperator')

    @for_fmts(meth, 'model %s model' % side, 'C07 C09 C10', fm)
    def _(s, F, meth=meth, op=op):
        A1, A2, B1, B2 = (F.v(x) for x in ('A1', 'A2', 'B1', 'B2'))
        l, r = [(a, A1), (b, A2)], [(c, B1), (d, B2)]
        o = mul if F.scalar else op
        return s.call(F.m(s, l), meth, F.m(s, r)), F.want(prods(l, r, o))

    @for_fmts(meth, 'model %s model, coinciding products' % side, 'C07 C08', fm)
    def _(s, F, meth=meth, op=op):
        A1, A2, B1, B2 = (F.v(x) for x in ('A1', 'A2', 'B1', 'B2'))
        l, r = [(a, A1), (mul(a, b), A2)], [(b, B1), (ONEK, B2)]
        o = mul if F.scalar else op
        return s.call(F.m(s, l), meth, F.m(s, r)), F.want(prods(l, r, o))

    @for_fmts(meth, 'model %s model with kept symbols' % side, 'C07 C09 C10', fm)
    def _(s, F, meth=meth, op=op):
        A1, A2, B1, B2 = (F.v(x) for x in ('A1', 'A2', 'B1', 'B2'))
        l, r = [(a, A1), (b, A2)], [(c, B1), (d, B2)]
        k1, k2 = [a, b, mul(a, c)], [c, d, mul(b, d)]
        o = mul if F.scalar else op
        return (s.call(F.m(s, l, keep=k1), meth, F.m(s, r, keep=k2)),
                F.want([(k, v) for k, v in prods(l, r, o) if k in (mul(a, c), mul(b, d))], keep=k1 + k2))

    @for_fmts(meth, 'model %s model, every product discarded' % side, 'C07 C09', fm)
    def _(s, F, meth=meth, op=op):
        A1, B1 = F.v('A1'), F.v('B1')
        return (s.call(F.m(s, [(a, A1)], keep=[a]), meth, F.m(s, [(c, B1)], keep=[c])),
                F.want([], keep=[a, c]))

    @for_fmts(meth, 'empty model %s model' % side, 'C07 C09', fm)
    def _(s, F, meth=meth, op=op):
        B1 = F.v('B1')
        return s.call(F.m(s, []), meth, F.m(s, [(c, B1)])), F.want([])

    @for_fmts(meth, 'model %s array' % side, 'C07 C09 C10', ('np.ndarray', 'csr_matrix'))
    def _(s, F, meth=meth, op=op):
        A1, A2, M_ = F.v('A1'), F.v('A2'), F.v('M')
        op = op if F.dense else matmul
        return s.call(F.m(s, [(a, A1), (b, A2)], keep=[a, b]), meth, M_), F.want([(a, op(A1, M_)), (b, op(A2, M_))], keep=[a, b])

    @for_fmts(meth[:2] + 'r' + meth[2:], 'array %s model' % side, 'C07 C09 C10', ('np.ndarray', 'csr_matrix'))
    def _(s, F, meth=meth, op=op):
        A1, A2, M_ = F.v('A1'), F.v('A2'), F.v('M')
        op = op if F.dense else matmul
        return s.call(F.m(s, [(a, A1), (b, A2)], keep=[a, b]), meth[:2] + 'r' + meth[2:], M_), F.want([(a, op(M_, A1)), (b, op(M_, A2))], keep=[a, b])


@for_fmts('__matmul__', 'model @ model, rectangular', 'C07 C09', ('np.ndarray', 'csr_matrix', 'LinearOperator'))
def _(s, F):
    A1, B1, B2 = F.v('A1', 'n', 'm'), F.v('B1', 'm', 'l'), F.v('B2', 'm', 'l')
    l, r = [(a, A1)], [(c, B1), (d, B2)]
    return s.call(F.m(s, l, sh=('n', 'm')), '__matmul__', F.m(s, r, sh=('m', 'l'))), F.want(prods(l, r, matmul), sh=('n', 'l'))


@for_fmts('__matmul__', 'empty model @ model, rectangular', 'C09', ('np.ndarray', 'csr_matrix', 'LinearOperator'))
def _(s, F):
    B1 = F.v('B1', 'm', 'l')
    return s.call(F.m(s, [], sh=('n', 'm')), '__matmul__', F.m(s, [(c, B1)], sh=('m', 'l'))), F.want([], sh=('n', 'l'))


@for_fmts('__matmul__', 'model @ array, rectangular', 'C07 C09', ('np.ndarray', 'csr_matrix'))
def _(s, F):
    A1, M_ = F.v('A1', 'n', 'm'), F.v('M', 'm', 'l')
    return s.call(F.m(s, [(a, A1)], sh=('n', 'm')), '__matmul__', M_), F.want([(a, matmul(A1, M_))], sh=('n', 'l'))


@for_fmts('__rmatmul__', 'array @ model, rectangular', 'C07 C09', ('np.ndarray', 'csr_matrix'))
def _(s, F):
    A1, M_ = F.v('A1', 'n', 'm'), F.v('M', 'l', 'n')
    return s.call(F.m(s, [(a, A1)], sh=('n', 'm')), '__rmatmul__', M_), F.want([(a, matmul(M_, A1))], sh=('l', 'm'))


@for_fmts('__mul__', 'matrix model * scalar model', 'C07 C09', ('np.ndarray', 'csr_matrix', 'LinearOperator'))
def _(s, F):
    G = Fmt('np.complex128')
    A1, A2, B1, B2 = F.v('A1'), F.v('A2'), G.v('B1'), G.v('B2')
    l, r = [(a, A1), (b, A2)], [(b, B1), (a, B2)]
    return s.call(F.m(s, l), '__mul__', G.m(s, r)), F.want(prods(l, r, mul))


@for_fmts('__mul__', 'scalar model * matrix model', 'C07 C09', ('np.ndarray', 'csr_matrix', 'LinearOperator'))
def _(s, F):
    G = Fmt('np.complex128')
    A1, A2, B1, B2 = F.v('A1'), F.v('A2'), G.v('B1'), G.v('B2')
    l, r = [(b, B1), (a, B2)], [(a, A1), (b, A2)]
    return s.call(G.m(s, l), '__mul__', F.m(s, r)), F.want(prods(l, r, mul))


# -- transposition, trace, copies

@for_fmts('T', 'transpose', 'C07 C09 C10', ('np.ndarray', 'csr_matrix', 'LinearOperator'))
def _(s, F):
    A1, A2 = F.v('A1', 'n', 'm'), F.v('A2', 'n', 'm')
    return s.call(F.m(s, [(a, A1), (b, A2)], keep=[a, b], sh=('n', 'm')), 'T'), F.want([(a, transpose(A1)), (b, transpose(A2))], keep=[a, b], sh=('m', 'n'))


@for_fmts('trace', 'trace', 'C07 C09 C10', ('np.ndarray', 'csr_matrix'))
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    t = lambda x: B.fn('trace', [x])
    return s.call(F.m(s, [(a, A1), (b, A2)], keep=[a, b]), 'trace'), F.want([(a, t(A1)), (b, t(A2))], keep=[a, b], sh=(), fmt='np.complex128')


@for_fmts('copy', 'copy', 'C09 C10 C08')
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    return s.call(F.m(s, [(a, A1), (b, A2)], keep=[a, b]), 'copy'), F.want([(a, A1), (b, A2)], keep=[a, b])


@for_fmts('zeros_like', 'zeros_like', 'C09')
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    return s.call(F.m(s, [(a, A1), (b, A2)], keep=[a, b]), 'zeros_like'), F.want([], keep=[a, b])


@for_fmts('around', 'round', 'C09 C10', ('np.ndarray',))
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    r = lambda x: B.fn('round', [x, Const(5)], 'm')
    return s.call(F.m(s, [(a, A1), (b, A2)], keep=[a, b]), 'around', Const(5)), F.want([(a, r(A1)), (b, r(A2))], keep=[a, b])


@for_fmts('eliminate_zeros', 'eliminate_zeros of an empty model', 'C09', ('np.ndarray', 'csr_matrix'))
def _(s, F):
    return s.call(F.m(s, [], keep=[a, b]), 'eliminate_zeros'), F.want([], keep=[a, b])


for meth, fmt in (('toarray', 'np.ndarray'), ('tocsr', 'csr_matrix')):
    @for_fmts(meth, meth, 'C09 C10 C23', ('np.ndarray', 'csr_matrix', 'LinearOperator'))
    def _(s, F, meth=meth, fmt=fmt):
        A1, A2 = F.v('A1', 'n', 'm'), F.v('A2', 'n', 'm')
        return s.call(F.m(s, [(a, A1), (b, A2)], keep=[a, b], sh=('n', 'm')), meth), F.want([(a, A1), (b, A2)], keep=[a, b], sh=('n', 'm'), fmt=fmt)


# -- momentum rotation and conjugation

RTYPES = ('np.ndarray', 'ta.ndarray_int', 'sympy.ImmutableMatrix')


def R2(typ='np.ndarray'):
    return M.array([[M.num('R%d%d' % (i, j)) for j in range(2)] for i in range(2)], typ)


def R3(typ='np.ndarray'):
    return M.array([[M.num('R%d%d' % (i, j)) for j in range(3)] for i in range(3)], typ)


def r(i, j):
    return M.num('R%d%d' % (i, j))


for typ in RTYPES:
    @for_fmts('rotate_momenta', 'k -> R k, R %s' % typ, 'C04 C09 C10 C08', FMTS if typ == 'np.ndarray' else ('np.ndarray',))
    def _(s, F, typ=typ):
        A1, A2, A3 = F.v('A1'), F.v('A2'), F.v('A3')
        k = (KY, KX)
        # a k0, k1, b ; k0 -> r00 k0 + r01 k1
        l = [(mul(a, k[0]), A1), (k[1], A2), (b, A3)]
        w = [(mul(a, k[0]), mul(r(0, 0), A1)), (mul(a, k[1]), mul(r(0, 1), A1)),
             (k[0], mul(r(1, 0), A2)), (k[1], mul(r(1, 1), A2)), (b, A3)]
        return s.call(F.m(s, l), 'rotate_momenta', R2(typ)), F.want(w)


@for_fmts('rotate_momenta', 'k -> R k, terms that meet after rotation', 'C04 C08')
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    k = (KY, KX)
    l = [(k[0], A1), (k[1], A2)]
    w = [(k[0], add(mul(r(0, 0), A1), mul(r(1, 0), A2))), (k[1], add(mul(r(0, 1), A1), mul(r(1, 1), A2)))]
    return s.call(F.m(s, l), 'rotate_momenta', R2()), F.want(w)


@for_fmts('rotate_momenta', 'k -> R k, second order', 'C04', ('np.ndarray', 'np.complex128'))
def _(s, F):
    A1 = F.v('A1')
    k = (KY, KX)
    w = [(mul(k[0], k[0]), mul(mul(r(0, 0), r(1, 0)), A1)), (mul(k[1], k[1]), mul(mul(r(0, 1), r(1, 1)), A1)),
         (mul(k[0], k[1]), mul(add(mul(r(0, 0), r(1, 1)), mul(r(0, 1), r(1, 0))), A1))]
    return s.call(F.m(s, [(mul(k[0], k[1]), A1)]), 'rotate_momenta', R2()), F.want(w)


@for_fmts('rotate_momenta', 'k -> R k in three dimensions', 'C04', ('np.ndarray',))
def _(s, F):
    A1 = F.v('A1')
    k = (KX, KY, KZ)
    w = [(k[j], mul(r(2, j), A1)) for j in range(3)]
    return s.call(F.m(s, [(k[2], A1)], momenta=k), 'rotate_momenta', R3()), F.want(w, momenta=k)


@for_fmts('rotate_momenta', 'exchange of two momenta', 'C04 C08', ('np.ndarray',))
def _(s, F):
    # simultaneous replacement: k0 -> k1, k1 -> k0
    A1, A2 = F.v('A1'), F.v('A2')
    k = (KX, KY)
    X = M.array([[Const(0), Const(1)], [Const(1), Const(0)]], 'ta.ndarray_int')
    return s.call(F.m(s, [(mul(a, k[0]), A1), (k[1], A2)], momenta=k), 'rotate_momenta', X), F.want([(mul(a, k[1]), A1), (k[0], A2)], momenta=k)


def expo(x):
    return B.epow(mul(Const(1j), x))


@for_fmts('conj', 'complex conjugation', 'C04 C09 C10')
def _(s, F):
    A1, A2, A3 = F.v('A1'), F.v('A2'), F.v('A3')
    k = MOM[0]
    l = [(mul(a, k), A1), (mul(b, expo(k)), A2), (mul(b, expo(neg(k))), A3)]
    w = [(mul(a, k), conj(A1)), (mul(b, expo(neg(k))), conj(A2)), (mul(b, expo(k)), conj(A3))]
    return s.call(F.m(s, l, keep=[a, b]), 'conj'), F.want(w, keep=[a, b])


# Bloch models

h1, h2 = symvec('h1'), symvec('h2')


def bl(h, co=ONEK):
    return bloch(h, co)


@for_fmts('conj', 'complex conjugation of a Bloch model', 'C04 C09 C10', cls='BlochModel')
def _(s, F):
    A1, A2, A3 = F.v('A1'), F.v('A2'), F.v('A3')
    l = [(bl(h1, a), A1), (bl(h2, mul(b, expo(c))), A2), (bl(neg(h1), a), A3)]
    w = [(bl(neg(h1), a), conj(A1)), (bl(neg(h2), mul(b, expo(neg(c)))), conj(A2)), (bl(h1, a), conj(A3))]
    return s.call(F.m(s, l), 'conj'), F.want(w, cls='BlochModel')


for typ in RTYPES:
    @for_fmts('rotate_momenta', 'hopping -> R^T hopping, R %s' % typ, 'C04 C09 C10', FMTS if typ == 'np.ndarray' else ('np.ndarray',), cls='BlochModel')
    def _(s, F, typ=typ):
        A1, A2, A3 = F.v('A1'), F.v('A2'), F.v('A3')
        v = lambda n: M.array([M.num(n + '0'), M.num(n + '1')])
        rt = lambda n: M.array([add(mul(r(0, i), M.num(n + '0')), mul(r(1, i), M.num(n + '1'))) for i in range(2)])
        l = [(bl(v('p'), a), A1), (bl(v('q'), mul(b, expo(c))), A2), (bl(v('p'), b), A3)]
        w = [(bl(rt('p'), a), A1), (bl(rt('q'), mul(b, expo(c))), A2), (bl(rt('p'), b), A3)]
        return s.call(F.m(s, l), 'rotate_momenta', R2(typ)), F.want(w, cls='BlochModel')


@for_fmts('__add__', 'Bloch model + Bloch model', 'C07 C09 C10', cls='BlochModel')
def _(s, F):
    A1, A2, B1, B2 = (F.v(x) for x in ('A1', 'A2', 'B1', 'B2'))
    l, r_ = F.m(s, [(bl(h1, a), A1), (bl(h2, a), A2)]), F.m(s, [(bl(h2, a), B1), (bl(h2, b), B2)])
    return s.call(l, '__add__', r_), F.want([(bl(h1, a), A1), (bl(h2, a), add(A2, B1)), (bl(h2, b), B2)], cls='BlochModel')


@for_fmts('__sub__', 'Bloch model - Bloch model', 'C07 C09', cls='BlochModel')
def _(s, F):
    A1, A2, B1 = (F.v(x) for x in ('A1', 'A2', 'B1'))
    l, r_ = F.m(s, [(bl(h1, a), A1), (bl(h2, a), A2)]), F.m(s, [(bl(h2, a), B1)])
    return s.call(l, '__sub__', r_), F.want([(bl(h1, a), A1), (bl(h2, a), add(A2, B1, -1))], cls='BlochModel')


for meth, op, side in (('__mul__', B.emul, '*'), ('__matmul__', matmul, '@')):
    @for_fmts(meth, 'Bloch model %s Bloch model' % side, 'C06 C07 C09 C10 C08', ('np.ndarray', 'np.complex128') if side == '*' else ('np.ndarray', 'csr_matrix', 'LinearOperator'), cls='BlochModel')
    def _(s, F, meth=meth, op=op):
        A1, A2, B1, B2 = (F.v(x) for x in ('A1', 'A2', 'B1', 'B2'))
        o = mul if F.scalar else op
        l, r_ = F.m(s, [(bl(h1, a), A1), (bl(h2, ONEK), A2)]), F.m(s, [(bl(h2, b), B1), (bl(h1, mul(a, b)), B2)])
        t = [(bl(add(h1, h2), mul(a, b)), o(A1, B1)), (bl(add(h1, h1), mul(mul(a, a), b)), o(A1, B2)),
             (bl(add(h2, h2), b), o(A2, B1)), (bl(add(h1, h2), mul(a, b)), o(A2, B2))]
        w = {}
        for k_, v_ in t:
            w[k_] = add(w[k_], v_) if k_ in w else v_
        return s.call(l, meth, r_), F.want(list(w.items()), cls='BlochModel')


for meth, side in (('__mul__', 'Bloch model * symbol'), ('__rmul__', 'symbol * Bloch model')):
    @for_fmts(meth, side, 'C06 C07 C09 C10 C08', cls='BlochModel')
    def _(s, F, meth=meth):
        A1, A2 = F.v('A1'), F.v('A2')
        return (s.call(F.m(s, [(bl(h1, a), A1), (bl(h2, ONEK), A2)]), meth, c),
                F.want([(bl(h1, mul(a, c)), A1), (bl(h2, c), A2)], cls='BlochModel'))


for meth in ('copy', '__neg__'):
    @for_fmts(meth, '%s of a Bloch model' % meth, 'C06 C07 C09 C10', cls='BlochModel')
    def _(s, F, meth=meth):
        A1, A2 = F.v('A1'), F.v('A2')
        o = neg if meth == '__neg__' else (lambda x: x)
        keep = [bl(h1, a), bl(h2, ONEK)]
        return s.call(F.m(s, [(bl(h1, a), A1), (bl(h2, ONEK), A2)], keep=keep), meth), F.want([(bl(h1, a), o(A1)), (bl(h2, ONEK), o(A2))], keep=keep, cls='BlochModel')


# -- Bloch coefficients and conversions

def v2(n):
    return M.array([M.num(n + '0'), M.num(n + '1')])


def phase(n, momenta=MOM):
    return expo(add(mul(momenta[0], M.num(n + '0')), mul(momenta[1], M.num(n + '1'))))


def bloch_key(x, momenta):
    """Reference meaning of _to_bloch_coeff on prefactor * e^(i k.d)."""
    p = poly(x)
    if isinstance(x, Rec):
        return x
    if p is None or len(p.terms) != 1:
        return NotImplemented
    mom = [poly(k) for k in momenta.items]
    co, hop = Const(1), [Const(0)] * len(mom)
    for f in M.factors(p):
        at = B.single_atom(f) if isinstance(f, Poly) else None
        if at is not None and at.name == 'epow':
            for t in M.monomials(at.args[0]):
                i = [j for j, k in enumerate(mom) if any(isinstance(z, Atom) and letter(z) == k for z in walk(t))]
                if len(i) > 1:
                    return NotImplemented
                if i:
                    q = mul(t, T.inverse(mom[i[0]]))
                    hop[i[0]] = add(hop[i[0]], mul(q, Const(-1j)))
                else:
                    co = mul(co, B.epow(t))
        else:
            co = mul(co, f)
    return bloch(M.array(hop), co)


def with_bloch(s):
    s.it.summaries['model._to_bloch_coeff'] = lambda it, a, kw, st, n: bloch_key(it.snap(a[0], st), it.snap(a[1], st))
    return s


@scen('__mul__', 'BlochCoeff * BlochCoeff', 'BC', cls='BlochCoeff')
def _(s):
    return s.call_rec(bl(h1, a), '__mul__', bl(h2, b)), bl(add(h1, h2), mul(a, b))


for _n, _x, _y in (('equal prefactors', bl(h1, a), bl(h2, a)), ('equal hoppings', bl(h1, a), bl(h1, b)), ('a factor with itself', bl(h1, a), bl(h1, a)),
                   ('left prefactor 1', bl(h1, ONEK), bl(h2, b)), ('right prefactor 1', bl(h1, a), bl(h2, ONEK)), ('opposite hoppings', bl(h1, a), bl(neg(h1), b)),
                   ('inverse prefactors', bl(h1, a), bl(h2, T.inverse(a)))):
    @scen('__mul__', 'BlochCoeff * BlochCoeff, ' + _n, 'BC', cls='BlochCoeff')
    def _(s, x=_x, y=_y):
        return s.call_rec(x, '__mul__', y), bl(add(x.items[0], y.items[0]), mul(x.items[1], y.items[1]))


@scen('__mul__', 'BlochCoeff * symbol', 'BC', cls='BlochCoeff')
def _(s):
    return s.call_rec(bl(h1, a), '__mul__', b), bl(h1, mul(a, b))


@scen('__rmul__', 'symbol * BlochCoeff', 'BC', cls='BlochCoeff')
def _(s):
    return s.call_rec(bl(h1, a), '__rmul__', b), bl(h1, mul(a, b))


@scen('copy', 'copy of a BlochCoeff', 'BC', cls='BlochCoeff')
def _(s):
    return s.call_rec(bl(h1, a), 'copy'), bl(h1, a)


for ns in (False, True):
    @scen('tosympy', 'BlochCoeff.tosympy%s' % (' (nsimplify)' if ns else ''), 'BC', cls='BlochCoeff')
    def _(s, ns=ns):
        return s.call_rec(bl(v2('d'), a), 'tosympy', Tup(list(MOM)), nsimplify=TRUE if ns else FALSE), mul(a, phase('d'))

    @for_fmts('tomodel', 'Bloch model to model%s' % (' (nsimplify)' if ns else ''), 'C06 C09 C10', cls='BlochModel')
    def _(s, F, ns=ns):
        A1, A2, A3 = F.v('A1'), F.v('A2'), F.v('A3')
        l = [(bl(v2('p'), a), A1), (bl(v2('q'), mul(b, expo(c))), A2), (bl(M.array([Const(0), Const(0)]), ONEK), A3)]
        w = [(mul(a, phase('p')), A1), (mul(mul(b, expo(c)), phase('q')), A2), (ONEK, A3)]
        return (s.call(F.m(s, l, keep=[k for k, _ in l]), 'tomodel', nsimplify=TRUE if ns else FALSE),
                F.want(w, keep=[k for k, _ in w]))


@for_fmts('tomodel', 'empty Bloch model to model', 'C06 C09', cls='BlochModel')
def _(s, F):
    return s.call(F.m(s, []), 'tomodel'), F.want([])


@for_fmts('__init__', 'Bloch model from model', 'C06 C08 C09 C10', cls='BlochModel')
def _(s, F):
    A1, A2, A3 = F.v('A1'), F.v('A2'), F.v('A3')
    l = [(mul(a, phase('p')), A1), (mul(mul(b, expo(c)), phase('q')), A2), (ONEK, A3)]
    w = [(bl(v2('p'), a), A1), (bl(v2('q'), mul(b, expo(c))), A2), (bl(M.array([Const(0), Const(0)]), ONEK), A3)]
    return s.new('BlochModel', F.m(s, l, keep=[k for k, _ in l], cls='Model')), F.want(w, keep=[k for k, _ in w], cls='BlochModel')


@for_fmts('__init__', 'Bloch model from empty model', 'C06 C09', cls='BlochModel')
def _(s, F):
    return s.new('BlochModel', F.m(s, [], cls='Model')), F.want([], cls='BlochModel')


@for_fmts('__init__', 'Bloch model from a dict of Bloch coefficients', 'C06 C08 C09 C10', cls='BlochModel')
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    l = [(bl(v2('p'), a), A1), (bl(v2('q'), a), A2)]
    return s.new('BlochModel', s.dict(l), momenta=Tup(list(MOM))), F.want(l, cls='BlochModel')


@for_fmts('__init__', 'Bloch model from a dict of expressions', 'C06 C08 C09 C10', cls='BlochModel')
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    l = [(mul(a, phase('p')), A1), (b, A2)]
    w = [(bl(v2('p'), a), A1), (bl(M.array([Const(0), Const(0)]), b), A2)]
    return s.new('BlochModel', s.dict(l), momenta=Tup(list(MOM))), F.want(w, cls='BlochModel')


# -- construction and collection of terms

@for_fmts('__init__', 'model from a dict', 'C08 C09 C10')
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    return s.new('Model', s.dict([(a, A1), (b, A2)]), momenta=Tup(list(MOM))), F.want([(a, A1), (b, A2)])


@for_fmts('__init__', 'model from a dict with text keys naming the same symbol', 'C08')
def _(s, F):
    A1, A2, A3 = F.v('A1'), F.v('A2'), F.v('A3')
    return s.new('Model', s.dict([(a, A1), (b, A2), (Const('a'), A3)])), F.want([(a, add(A1, A3)), (b, A2)], momenta=None)


@for_fmts('__init__', 'model from a dict, kept symbols', 'C08 C09 C24')
def _(s, F):
    A1, A2, A3 = F.v('A1'), F.v('A2'), F.v('A3')
    return (s.new('Model', s.dict([(a, A1), (b, A2), (Const('a'), A3)]), keep=s.list([a, c]), momenta=Tup(list(MOM))),
            F.want([(a, add(A1, A3))], keep=[a, c]))


@for_fmts('__init__', 'model from a dict, normalised', 'C08 C09 C10')
def _(s, F):
    A1, A2, A3, A4 = F.v('A1'), F.v('A2'), F.v('A3'), F.v('A4')
    l = [(mul(Const(2), a), A1), (a, A2), (add(mul(Const(3j), mul(a, b)), c), A3), (c, A4)]
    w = [(a, add(mul(Const(2), A1), A2)), (mul(a, b), mul(Const(3j), A3)), (c, add(A3, A4))]
    return s.new('Model', s.dict(l), normalize=TRUE, momenta=Tup(list(MOM))), F.want(w)


@for_fmts('__init__', 'model from a dict, normalised constant terms', 'C08')
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    return s.new('Model', s.dict([(add(a, Const(2)), A1), (ONEK, A2)]), normalize=TRUE), F.want([(a, A1), (ONEK, add(mul(Const(2), A1), A2))], momenta=None)


@for_fmts('transform_symbolic', 'symbols mapped to one symbol', 'C08 C09 C10')
def _(s, F):
    A1, A2, A3 = F.v('A1'), F.v('A2'), F.v('A3')
    f = s.user(lambda x: M.replace(x, {b: a}))
    return s.call(F.m(s, [(a, A1), (b, A2), (c, A3)]), 'transform_symbolic', f), F.want([(a, add(A1, A2)), (c, A3)])


@for_fmts('transform_symbolic', 'symbols mapped to sums with numerical factors', 'C08 C09')
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    f = s.user(lambda x: M.replace(x, {b: add(mul(Const(2), a), neg(c))}))
    return s.call(F.m(s, [(a, A1), (b, A2)]), 'transform_symbolic', f), F.want([(a, add(A1, mul(Const(2), A2))), (c, neg(A2))])


@for_fmts('transform_symbolic', 'term mapped to zero', 'C08', ('np.ndarray', 'csr_matrix'))
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    f = s.user(lambda x: Const(0) if x == b else x)
    return s.call(F.m(s, [(a, A1), (b, A2)]), 'transform_symbolic', f), F.want([(a, A1)])


@for_fmts('__getitem__', 'coefficient by text key', 'C08v')
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    return s.call(F.m(s, [(a, A1), (b, A2)]), '__getitem__', Const('b')), A2


@for_fmts('eliminate_zeros', 'eliminate_zeros keeps terms above the tolerance', 'X', ('np.ndarray',))
def _(s, F):
    A1 = F.v('A1')
    return s.call(F.m(s, [(a, A1)]), 'eliminate_zeros'), F.want([(a, A1)])


@for_fmts('subs', 'subs: symbols become equal', 'C08 C10', ('np.ndarray', 'csr_matrix', 'np.complex128'))
def _(s, F):
    A1, A2, A3 = F.v('A1'), F.v('A2'), F.v('A3')
    return s.call(F.m(s, [(a, A1), (b, A2), (c, A3)]), 'subs', b, a), F.want([(a, add(A1, A2)), (c, A3)])


@for_fmts('subs', 'subs: pairs given as a dict', 'C08 C09', ('np.ndarray', 'csr_matrix'))
def _(s, F):
    A1, A2, A3 = F.v('A1'), F.v('A2'), F.v('A3')
    return s.call(F.m(s, [(a, A1), (mul(b, c), A2), (c, A3)]), 'subs', s.dict([(a, d), (b, d)])), \
        F.want([(d, A1), (mul(c, d), A2), (c, A3)])


@for_fmts('subs', 'subs: momentum renamed', 'C08 C09', ('np.ndarray', 'csr_matrix'))
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    return s.call(F.m(s, [(mul(a, KY), A1), (mul(KX, KY), A2)]), 'subs', KY, d), \
        F.want([(mul(a, d), A1), (mul(KX, d), A2)], momenta=(d, KX))


@for_fmts('subs', 'subs: momentum replaced by a number', 'C08 C09', ('np.ndarray', 'csr_matrix'))
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    return s.call(F.m(s, [(mul(a, KY), A1), (KX, A2)]), 'subs', KY, Const(2)), \
        F.want([(a, mul(Const(2), A1)), (KX, A2)], momenta=(KX,))


@for_fmts('subs', 'subs: symbol replaced by another with a factor', 'C08 C09', ('np.ndarray', 'csr_matrix'))
def _(s, F):
    A1, A2 = F.v('A1'), F.v('A2')
    return s.call(F.m(s, [(a, A1), (b, A2)]), 'subs', b, mul(Const(3), a)), \
        F.want([(a, add(A1, mul(Const(3), A2)))])


@for_fmts('__init__', 'Bloch model: single exponential, other exponential, power', 'C06 C08', cls='BlochModel')
def _(s, F):
    A1, A2, A3, A4 = (F.v(x) for x in ('A1', 'A2', 'A3', 'A4'))
    zero_ = M.array([Const(0), Const(0)])
    l = [(phase('p'), A1), (expo(c), A2), (mul(mul(a, a), phase('q')), A3), (mul(a, b), A4)]
    w = [(bl(v2('p'), ONEK), A1), (bl(zero_, expo(c)), A2), (bl(v2('q'), mul(a, a)), A3), (bl(zero_, mul(a, b)), A4)]
    return s.new('BlochModel', F.m(s, l, cls='Model')), F.want(w, cls='BlochModel')


@for_fmts('subs', 'subs on an empty model: momentum renamed', 'C09', ('np.ndarray',))
def _(s, F):
    return s.call(F.m(s, []), 'subs', KY, d), F.want([], momenta=(d, KX))


# -- construction from text

def parsed(s, terms):
    """The parsing steps as given summaries: the text denotes these terms."""
    H = atom('parsed', (), 's', ('sym',), 'sympy.Matrix')
    vals = {}
    s.parse = []

    def sympify(it, a, kw, st, n):
        f = it.func('kwant_continuum', 'sympify')
        d = it.bind_args(f, list(a), dict(kw), st)
        x = it.snap(a[0] if a else kw.get('expr', NONE), st)
        if isinstance(x, Poly):
            return x
        s.parse.append({k: it.snap(v, st) for k, v in (d or {}).items()})
        return H if x == Const('text') else NotImplemented

    def monomials(it, a, kw, st, n):
        l = []
        for i, (k, v) in enumerate(terms):
            x = atom('coefficient', (Const(i),), 's', ('sym',), 'sympy.Matrix')
            vals[x] = v
            l.append(Tup([k, x]))
        return it.alloc(st, HSeq('dict', [Seg((), TRUE, x) for x in l]))

    def lambdify(it, a, kw, st, n):
        v = vals.get(it.snap(a[0], st))
        if v is None:
            return Opq('lambdify', tuple(a))
        name = 'user.coefficient%d' % len(it.ext_over)
        it.ext_over[name] = lambda it, a, kw, st, n: v
        return Ext(name)
    kc = 'kwant_continuum.'
    s.it.summaries[kc + 'sympify'] = sympify
    s.it.summaries[kc + 'monomials'] = monomials
    s.it.summaries[kc + 'lambdify'] = lambdify
    s.it.summaries[kc + 'make_commutative'] = lambda it, a, kw, st, n: a[0]
    s.it.summaries['model.substitute_exponents'] = lambda it, a, kw, st, n: a[0]
    s.it.method_over['atoms'] = lambda it, o, a, kw, st, n: it.alloc(st, HSeq('set', [Seg((), TRUE, x) for x in (a_, b)])) if o == H else NotImplemented
    return s


a_ = a


@for_fmts('__init__', 'model from text', 'C08 C09', ('np.ndarray',))
def _(s, F):
    A1, A2, A3 = F.v('A1'), F.v('A2'), F.v('A3')
    parsed(s, [(a, A1), (mul(a, b), A2), (ONEK, A3)])
    return s.new('Model', Const('text'), momenta=Tup(list(MOM))), F.want([(a, A1), (mul(a, b), A2), (ONEK, A3)])


@for_fmts('__init__', 'model from text, kept symbols', 'C09 C24', ('np.ndarray',))
def _(s, F):
    A1, A2, A3 = F.v('A1'), F.v('A2'), F.v('A3')
    parsed(s, [(a, A1), (mul(a, b), A2), (ONEK, A3)])
    return s.new('Model', Const('text'), momenta=Tup(list(MOM)), keep=s.list([mul(a, b), ONEK, c])), F.want([(mul(a, b), A2), (ONEK, A3)], keep=[mul(a, b), ONEK, c])


@for_fmts('__init__', 'model from a dict, normalised, kept symbols', 'C09 C24', ('np.ndarray', 'csr_matrix'))
def _(s, F):
    A1, A2, A3 = F.v('A1'), F.v('A2'), F.v('A3')
    l = [(mul(Const(2), a), A1), (add(mul(a, b), c), A2), (c, A3)]
    return s.new('Model', s.dict(l), keep=s.list([a, c]), normalize=TRUE, momenta=Tup(list(MOM))), F.want([(a, mul(Const(2), A1)), (c, add(A2, A3))], keep=[a, c])
