"""C32: models are equal iff all their terms are, absent terms being zero."""
from .mcommon import *
from . import mscen as S

a, b, c = S.a, S.b, S.c
bl, v2, ONEK = S.bl, S.v2, S.ONEK


def kinds(it):
    """Decided closeness: the same letter is close, different letters (none of
    which is zero) are not."""
    def close_(it, args, kw, st, node=None):
        x, y = it.snap(args[0], st), it.snap(args[1], st)

        def leaf(x, y):
            if x == y or zero(x) and zero(y):
                return TRUE
            p, q = poly(x), poly(y)
            if p is None or q is None or is_unk(x) or is_unk(y):
                return pred(P('close', x, y))
            return FALSE
        return lift(leaf, x, y)
    it.summaries['linalg.allclose'] = close_
    it.ext_over['numpy.allclose'] = close_


def cases(F, cls):
    A, B_, C_, D = (F.v(x) for x in ('A1', 'A2', 'B1', 'B2'))
    Z = F.zero
    k = (a, b, c) if cls == 'Model' else (bl(v2('p'), a), bl(v2('q'), a), bl(v2('r'), b))
    x, y, z = k
    yield 'the same terms', [(x, A), (y, B_)], [(x, A), (y, B_)], True
    yield 'the same terms in another order', [(x, A), (y, B_)], [(y, B_), (x, A)], True
    yield 'one shared term differs', [(x, A), (y, B_)], [(x, A), (y, C_)], False
    yield 'the first shared term differs', [(x, A), (y, B_)], [(x, C_), (y, B_)], False
    yield 'exchanged coefficients', [(x, A), (y, B_)], [(x, B_), (y, A)], False
    yield 'a term only on the left', [(x, A), (y, B_)], [(x, A)], False
    yield 'a term only on the right', [(x, A)], [(x, A), (y, B_)], False
    yield 'other factors', [(x, A)], [(y, A)], False
    yield 'different terms on both sides', [(x, A), (y, B_)], [(x, A), (z, B_)], False
    yield 'a zero term only on the left', [(x, A), (y, Z)], [(x, A)], True
    yield 'a zero term only on the right', [(x, A)], [(x, A), (y, Z)], True
    yield 'different zero terms', [(x, A), (y, Z)], [(x, A), (z, Z)], True
    yield 'only zero terms', [(y, Z)], [(z, Z)], True
    yield 'zero terms against an empty model', [(x, Z), (y, Z)], [], True
    yield 'an empty model against zero terms', [], [(x, Z), (y, Z)], True
    yield 'terms against an empty model', [(x, A)], [], False
    yield 'an empty model against terms', [], [(x, A)], False
    yield 'zero and other terms against an empty model', [(x, Z), (y, A)], [], False
    yield 'an empty model against zero and other terms', [], [(x, A), (y, Z)], False
    yield 'empty models', [], [], True
    for nm in ('0', '{}'):
        yield 'terms against %s' % nm, [(x, A), (y, B_)], nm, False
        yield 'one of the terms zero against %s' % nm, [(x, Z), (y, B_)], nm, False
        yield 'the other term zero against %s' % nm, [(x, A), (y, Z)], nm, False
        yield 'zero terms against %s' % nm, [(x, Z), (y, Z)], nm, True
        yield 'an empty model against %s' % nm, [], nm, True


class F_(S.Fmt):
    @property
    def zero(self):
        return Const(0) if self.scalar else fn('zeros', [Const('n'), Const('n')], 'm')


def zmat(F, s):
    m = F.m(s, [])
    v = s.call(m, '__missing__', a)
    return s.it.snap(v, s.after)


def run(ck):
    ck.rule('abstract interpretation of allclose and == over the term-partition domain: for every partition of the '
            'symbolic factors into shared ones and ones of either side, with coefficients that are equal, different or zero '
            '(closeness of two coefficients is decided by their letters), the truth value is that of the reference '
            'relation: equal iff all coefficients are, absent ones being zero')
    for cls in ('Model', 'BlochModel'):
        it = make(ck)
        for fmt in ('np.ndarray', 'csr_matrix', 'np.complex128'):
            for meth in ('allclose', '__eq__'):
                f = it.func('model', cls).lookup(meth)
                if f is None:
                    raise AnchorMissing('%s.%s' % (cls, meth))
                w = '%s:%d %s.%s' % (ck.pkg.modules['model'].path, f.node.lineno, cls, meth)
                probe = F_(fmt)
                for nm, *_ in cases(probe, cls):
                    def go(nm=nm, fmt=fmt, cls=cls, meth=meth):
                        F = F_(fmt)
                        s = Sc(ck, cls)
                        kinds(s.it)
                        l, r, want = next(t[1:] for t in cases(F, cls) if t[0] == nm)
                        L_ = F.m(s, l)
                        R_ = Const(0) if r == '0' else s.dict([]) if r == '{}' else F.m(s, r)
                        v = s.call(L_, meth, R_)
                        for cube, x in leaves(v):
                            if isinstance(x, Exc):
                                return Verdict('ne' if not cube else 'unk', 'raises %s' % x.name, cube, v, None)
                        t = lift(lambda x: x if isinstance(x, (Exc, Opq)) or x in (TRUE, FALSE) else truth(x), v)
                        return compare(t, TRUE if want else FALSE, {'A1', 'A2', 'B1', 'B2', 'zeros'}, 'strict')
                    ck.ob('%s %s: %s [%s]' % (cls, '==' if meth == '__eq__' else meth, nm, fmt), w, go)
