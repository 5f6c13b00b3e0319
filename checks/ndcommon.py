"""Helpers of the checks over the constant-extent array domain."""
from .common import *
from sa import nd
from sa import ndlib as ND
from sa.nd import A, Bad
from sa import terms as T


def mkn(ck, **kw):
    it = make(ck, **kw)
    it.explicit = it.nd = True

    def allclose(it, args, kw, st, node):
        r = ND.call(it, 'numpy.allclose', args[:2], {}, st, node)
        return r if r is not None else close(it.snap(args[0], st), it.snap(args[1], st))
    it.summaries['linalg.allclose'] = allclose
    return it


def real(n, *ix):
    return atom(n, tuple(Const(i) for i in ix), 's', ('real',), 'float')


def rat(p, q=1):
    return simplify(Poly({((), ()): (Fraction(p, q), Fraction(0))}, 's', 'float'))


def const(rows):
    """Table of numbers."""
    if isinstance(rows, A):
        return rows
    def nest(x):
        return Tup([nest(y) for y in x]) if isinstance(x, (list, tuple)) else x if isinstance(x, V) else Const(x)
    return nd.from_nested(nest(rows))


def eye(n):
    return nd.build((n, n), lambda ix: Const(1 if ix[0] == ix[1] else 0))


def dag(a):
    return nd.transpose(a).map(T.conj)


def mm(*l):
    r = l[0]
    for x in l[1:]:
        r = nd.matmul(r, x)
    return r


def kr(*l):
    r = l[0]
    for x in l[1:]:
        r = nd.kron(r, x)
    return r


def scale(c, a):
    return a.map(lambda x: T.mul(c, x))


SX, SY, SZ = const([[0, 1], [1, 0]]), const([[0, -1j], [1j, 0]]), const([[1, 0], [0, -1]])
PAULI = [SX, SY, SZ]


def same(x, y, vocab, reduce=None, why=''):
    """Entrywise equality of two tables."""
    if not isinstance(x, A) or not isinstance(y, A):
        return Verdict('unk', 'no table ' + why)
    if x.shape != y.shape:
        return Verdict('ne', '%s: extents %s instead of %s' % (why, x.shape, y.shape))
    for k, (p, q) in enumerate(zip(x.data, y.data)):
        if not settled(p, vocab):
            return Verdict('unk', '%s: unknown entry %s' % (why, str(p)[:150]))
        d = T.sub(p, q)
        if reduce is not None:
            d = reduce(d)
        if not iszero(d):
            ix = []
            for n in reversed(x.shape):
                ix.append(k % n)
                k //= n
            return Verdict('ne', '%s: entry %s is %s instead of %s' % (why, tuple(ix[::-1]), str(p)[:300], str(q)[:300]))
    return Verdict('eq')


def iszero(d):
    p = poly(d)
    if p is None:
        return False
    if not p.terms:
        return True
    n = nd.num(d)
    return n is not None and abs(n) < 1e-11


def settled(p, vocab):
    """Built only from understood letters."""
    if is_bool(p) and not isinstance(p, Const):
        return False
    for x in walk(p):
        if isinstance(x, (Opq, Undef)) or isinstance(x, Atom) and x.name not in vocab and x.name not in ('sqrt', 'pi'):
            return False
    return isinstance(p, (Const, Poly))


def outcomes(v):
    """[(cube, value)] of a gated value."""
    return list(leaves(v))


def table(v):
    try:
        return nd.of(v)
    except Bad:
        return None


def worst(l):
    r = Verdict('eq')
    for v in l:
        if v.kind == 'ne':
            return v
        if v.kind == 'unk' and r.kind == 'eq':
            r = v
    return r


def rank(rows, tol=1e-9):
    """Rank of a list of equally long real or complex rows."""
    m = [list(r) for r in rows]
    n = len(m[0]) if m else 0
    r = 0
    for c in range(n):
        p = max(range(r, len(m)), key=lambda i: abs(m[i][c]), default=None)
        if p is None or abs(m[p][c]) < tol:
            continue
        m[r], m[p] = m[p], m[r]
        x = m[r][c]
        pr = [y / x for y in m[r]]
        m[r] = pr
        for i in range(r + 1, len(m)):
            f = m[i][c]
            if abs(f) > 1e-14:
                m[i] = [u - f * w for u, w in zip(m[i], pr)]
        r += 1
        if r == len(m):
            break
    return r
