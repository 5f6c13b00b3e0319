"""C31: basis reduction keeps the lattice, Voronoi neighbours come in opposite pairs."""
import itertools
from .ndcommon import *

NRM = ('numpy.linalg.norm', 'scipy.linalg.norm')
NE = lambda why: Verdict('ne', why)
UNK = lambda why: Verdict('unk', why)


def names_in(v):
    return {x.name for x in walk(v) if isinstance(x, Atom)}


class Reduce:
    """Analyses lll on a symbolic basis; the outcomes of its size comparisons are given."""

    def __init__(self, ck, m, n, seq, size):
        self.it = it = mkn(ck)
        self.m, self.n = m, n
        self.seq, self.size = list(seq), size
        self.unknown = []
        self.cnt = 0
        self.frames = None
        self.memo = {}
        it.summaries['kwant_linalg_lll.gs_coefficient'] = lambda it, a, k, st, node: self.fresh('g', a, st)
        it.summaries['kwant_linalg_lll.is_c_reduced'] = lambda it, a, k, st, node: TRUE
        for f in NRM:
            it.ext_over[f] = lambda it, a, k, st, node: self.fresh('nrm', a, st)
        for f in ('numpy.round', 'numpy.rint', 'numpy.around', 'builtins.round'):
            it.ext_over[f] = self.round
        for f in ('numpy.linalg.lstsq', 'scipy.linalg.lstsq'):
            it.ext_over[f] = self.lstsq
        it.ext_over['numpy.allclose'] = lambda it, a, k, st, node: TRUE
        orig = it.truthy

        def truthy(v, st):
            return self.resolve(orig(v, st))
        it.truthy = truthy
        self.B = nd.build((m, n), lambda ix: real('B', *ix))

    def fresh(self, name, a, st):
        self.cnt += 1
        return real(name, self.cnt)

    def round(self, it, a, k, st, node):
        x = it.snap(a[0], st)
        if len(a) > 1 or k or isinstance(x, Ite) or not isinstance(x, (Poly, Const)):
            return NotImplemented
        if nd.num(x) is not None:
            return NotImplemented
        if isinstance(x, Poly) and x.kind == 's':
            p = T.sub(x, Const(0))
            if names_in(x) <= {'k'}:
                return x
            return self.memo.setdefault(x.key(), real('k', len(self.memo)))
        return NotImplemented

    def lstsq(self, it, a, k, st, node):
        self.frames = {}
        for nm, v in st.frames.get(it.ctx[-1].fid, {}).items():
            t = table(it.snap(v, st)) if isinstance(v, V) and not isinstance(v, Ite) else None
            if t is not None:
                self.frames[nm] = t
        return Tup([nd.back(nd.build((self.m, self.m), lambda ix: real('coef', *ix)), 'np.ndarray'), NONE, NONE, NONE])

    def resolve(self, v):
        while isinstance(v, Ite) and v not in (TRUE, FALSE):
            if isinstance(v.p, P) and v.p.name in ('lt', 'le'):
                ns = names_in(v.p.args[0]) | names_in(v.p.args[1])
                if 'nrm' in ns:
                    # the documented test: the next vector is long enough
                    r = self.seq.pop(0) if self.seq else True
                    pos = v.p.args[0]
                    v = v.hi if r == self.positive(v) else v.lo
                    continue
                if ns & {'g', 'k'}:
                    v = v.hi if self.size else v.lo
                    continue
            return v
        return v

    @staticmethod
    def positive(v):
        return v.hi == TRUE

    def run(self):
        it = self.it
        st = state()
        v, s = absrun(it, it.func('kwant_linalg_lll', 'lll'), [nd.back(self.B, 'np.ndarray')], st, {})
        return it.snap(v, s)


def integral(v, B):
    """M with v = M B, entries integer combinations of rounded numbers; or an explanation."""
    m, n = B.shape
    rows = []
    for i in range(m):
        row = None
        for c in range(n):
            p = poly(v.data[i * n + c])
            if p is None:
                return None, UNK('entry %s' % str(v.data[i * n + c])[:120])
            coef = [Const(0)] * m
            rest = v.data[i * n + c]
            for j in range(m):
                b = B.data[j * n + c]
                coef[j] = T.sub(subst(rest, {b: Const(1)}), subst(rest, {b: Const(0)}))
            back = Const(0)
            for j in range(m):
                back = T.add(back, T.mul(coef[j], B.data[j * n + c]))
            if any('B' in names_in(x) for x in coef) or not iszero(T.sub(back, rest)):
                return None, UNK('entry %s' % str(rest)[:200]) if '?' in str(rest) else NE('entry %s is no combination of the basis vectors' % str(rest)[:200])
            if row is None:
                row = coef
            elif any(not iszero(T.sub(x, y)) for x, y in zip(row, coef)):
                return None, NE('vector %d mixes components: %s, %s' % (i, [str(x)[:80] for x in row], [str(x)[:80] for x in coef]))
        for x in row:
            ns = names_in(x)
            if ns - {'k'}:
                return None, NE('vector %d: coefficient %s is not an integer' % (i, str(x)[:120])) if ns <= {'k', 'g', 'nrm'} and '?' not in str(x) else UNK('coefficient %s' % str(x)[:120])
            p = poly(x)
            for c in (p.terms.values() if p is not None else ()):
                c0 = c[0] if isinstance(c, tuple) else c
                if Fraction(c0).denominator != 1 or isinstance(c, tuple) and c[1]:
                    return None, NE('vector %d: coefficient %s is not an integer' % (i, str(x)[:120]))
        rows.append(row)
    return rows, None


def det(m):
    if len(m) == 1:
        return m[0][0]
    r = Const(0)
    for j in range(len(m)):
        t = T.mul(m[0][j], det([x[:j] + x[j + 1:] for x in m[1:]]))
        r = T.add(r, t if j % 2 == 0 else T.neg(t))
    return r


def lattice(d, v):
    out = [x for _, x in leaves(v) if not isinstance(x, Exc)]
    if not out:
        return NE('raises %s' % ', '.join(sorted({x.name for _, x in leaves(v)})))
    if len(out) > 1:
        return UNK('several results')
    v = out[0]
    if not isinstance(v, Tup) or len(v.items) != 2:
        return UNK('result %s' % str(v)[:200])
    t = table(v.items[0])
    if t is None:
        return UNK('basis %s' % str(v.items[0])[:200])
    if t.shape != d.B.shape:
        return NE('extents %s' % (t.shape,))
    M, bad = integral(t, d.B)
    if bad:
        return bad
    D = det(M)
    if iszero(T.sub(D, Const(1))) or iszero(T.add(D, Const(1))):
        return book(d, t)
    return NE('the transformation has determinant %s' % str(D)[:200])


def book(d, t):
    """vectors = coefficients times orthogonalised vectors, if both can be told apart."""
    if d.frames is None:
        return Verdict('eq')
    m, n = d.m, d.n
    same_ = lambda a, b: a.shape == b.shape and all(iszero(T.sub(x, y)) for x, y in zip(a.data, b.data))
    ortho = [x for x in d.frames.values() if x.shape == (m, n) and not same_(x, d.B) and not same_(x, t)]
    coef = [x for x in d.frames.values() if x.shape == (m, m)]
    if m == n or len(ortho) != 1 or len(coef) != 1 or m > 2:
        return Verdict('eq')
    p = nd.matmul(coef[0], ortho[0])
    for x, y in zip(p.data, t.data):
        if not iszero(T.sub(x, y)):
            if '?' in str(x) or '?' in str(y):
                return UNK('bookkeeping')
            return NE('the Gram-Schmidt coefficients no longer belong to the vectors: %s instead of %s' % (str(x)[:200], str(y)[:200]))
    return Verdict('eq')


def whole(x):
    for a in list(walk(x)):
        if isinstance(a, Atom) and a.name == 'trunc' and len(a.args) == 1 and names_in(a.args[0]) <= {'c'}:
            x = subst(x, {letter(a): a.args[0]})
    return x


def voronoi(ck, w, dim, n, pattern):
    it = mkn(ck)
    Bt = nd.build((dim, n), lambda ix: real('B', *ix))
    calls, todo = [], list(pattern or ())

    def cvp(it, a, k, st, node):
        i = len(calls)
        calls.append(it.snap(a[0], st))
        if len(a) < 2 or table(it.snap(a[1], st)) is None:
            return NotImplemented
        return nd.back(nd.build((1, dim), lambda ix: atom('c', (Const(i), Const(ix[1])), 's', ('real',), 'int')), 'np.ndarray')
    it.summaries['kwant_linalg_lll.cvp'] = cvp
    it.ext_over['numpy.round'] = it.ext_over['numpy.rint'] = lambda it, a, k, st, node: a[0]

    def all_(it, a, k, st, node):
        return (TRUE if todo.pop(0) else FALSE) if todo else NotImplemented
    if pattern is not None:
        it.ext_over['numpy.all'] = all_
    v, s = absrun(it, it.func('kwant_linalg_lll', 'voronoi'), [nd.back(Bt, 'np.ndarray')], state(), {'reduced': TRUE if pattern is not None else FALSE})
    v = it.snap(v, s)
    if isinstance(v, Exc):
        return NE('raises %s' % v.name)
    t = table(v) if not isinstance(v, Ite) else None
    if t is None or len(t.shape) != 2:
        return UNK('neighbours %s' % str(v)[:200])
    N = 2 ** dim - 1
    keep = [i for i in range(N) if pattern is None or pattern[i]]
    if t.shape != (2 * len(keep), dim):
        return NE('%d rows instead of %d' % (t.shape[0], 2 * len(keep)))
    # entries are integers: conversion to int keeps them
    t = nd.A(t.shape, [whole(x) for x in t.data])
    if any('?' in str(x) for x in t.data):
        return UNK('neighbours %s' % str(t.data[:3])[:200])
    h = len(keep)
    for i in range(h):
        for j in range(dim):
            a, b = t.data[i * dim + j], t.data[(i + h) * dim + j]
            if not iszero(T.add(a, b)):
                return NE('rows %d and %d are not opposite: %s and %s' % (i, i + h, str(a)[:80], str(b)[:80]))
    # every nonzero half lattice point once: twice the vector from the closest lattice point
    half = [tuple(p) for p in itertools.product((0, 1), repeat=dim)][1:]
    left = list(half)
    for i in range(h):
        row = t.data[i * dim:(i + 1) * dim]
        ids = {x.args[0].v for y in row for x in walk(y) if isinstance(x, Atom) and x.name == 'c'}
        if len(ids) != 1:
            return UNK('row %s' % str(row)[:200])
        c = ids.pop()
        p = table(calls[c])
        hit = None
        for q in half:
            want = [Const(0)] * n
            for j in range(dim):
                want = [T.add(x, T.mul(rat(q[j], 2) if q[j] else Const(0), Bt.data[j * n + e])) for e, x in enumerate(want)]
            if p is not None and all(iszero(T.sub(x, y)) for x, y in zip(p.data, want)):
                hit = q
        if hit is None:
            return NE('closest vector searched for %s' % str([str(x)[:60] for x in p.data])) if p is not None and names_in(calls[c]) <= {'B'} else UNK('call %s' % str(calls[c])[:100])
        want = [T.sub(T.mul(Const(2), atom('c', (Const(c), Const(j)), 's', ('real',), 'int')), Const(hit[j])) for j in range(dim)]
        if not any(all(iszero(T.sub(x, T.mul(Const(s), y))) for x, y in zip(row, want)) for s in (1, -1)):
            return NE('row %s, expected twice the vector from the lattice point to the half point: %s' % ([str(x)[:60] for x in row], [str(x)[:60] for x in want]))
        if hit not in left:
            return NE('half point %s used twice' % (hit,))
        left.remove(hit)
    return Verdict('eq')


def run(ck):
    ck.rule('the reduced vectors, determined for a symbolic basis with rounded numbers as integer letters, are the basis times a matrix of integers '
            'of determinant one; the two halves of the list of neighbours are opposite')
    it = mkn(ck)
    w, wv = where(ck, it, 'kwant_linalg_lll', 'lll'), where(ck, it, 'kwant_linalg_lll', 'voronoi')
    for m, n, depth in ((1, 1, 0), (1, 2, 0), (2, 2, 4), (2, 3, 4), (3, 3, 4)):
        seqs = [tuple(s) for k in range(depth + 1) for s in itertools.product((True, False), repeat=k) if not s or not s[-1]]
        for seq in seqs if m > 1 else [()]:
            for size in (True, False) if m > 1 else (True,):
                def go():
                    d = Reduce(ck, m, n, seq, size)
                    return lattice(d, d.run())
                ck.ob('lll, %d vectors in %d dimensions, comparisons %s, coefficients %s' % (m, n, ''.join('+' if x else '-' for x in seq) or 'none',
                                                                                         'large' if size else 'small'), w, go)
    for dim, n in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3)):
        ck.ob('voronoi, %d vectors in %d dimensions' % (dim, n), wv, lambda: voronoi(ck, wv, dim, n, None))
        N = 2 ** dim - 1
        pats = itertools.product((True, False), repeat=N) if N <= 3 else [[True] * N, [i % 2 == 0 for i in range(N)], [i in (1, 2, 6) for i in range(N)]]
        for p in pats:
            if any(p):
                ck.ob('voronoi, minimal set, %d vectors in %d dimensions, kept %s' % (dim, n, ''.join('+' if x else '-' for x in p)), wv,
                      lambda: voronoi(ck, wv, dim, n, p))
