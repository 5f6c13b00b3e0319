"""C23: results do not depend on the storage format."""
from .mrun import *
from sa import nd as NN
from sa import lib as L
from sa import interp as I
from fractions import Fraction


def run(ck):
    ck.rule(RULE)
    from . import mscen
    run_scen(ck, None, None, lambda sc: any('[%s]' % f in sc.name for f in ('csr_matrix', 'LinearOperator', 'np.complex128')))
    run_scen(ck, None, ('terms', 'momenta', 'keep', 'shape', 'class'), scens=mscen.COO)
    tolerance(ck)
    nullspaces(ck)
    pruning(ck)
    equations(ck)


# --- linalg.allclose -----------------------------------------------------------------------------

from .ndcommon import *
from .c26 import upto_sign, cmat, cplx
from .c14 import summary, lst

LIN = 'linalg'
KINDS = ('np.ndarray', 'csr_matrix', 'sparse', 'LinearOperator')
WORD = {'np.ndarray': 'array', 'csr_matrix': 'csr_matrix', 'sparse': 'other sparse matrix', 'LinearOperator': 'LinearOperator'}
NOT = 'no such operation: '


def kind(v):
    return next(iter(v.typ)) if isinstance(v, Poly) and v.kind != 's' and v.typ and len(v.typ) == 1 else None


def invalid(op, v):
    return Opq(NOT + op + ' of ' + WORD.get(kind(v), 'this'), ())


def broken(v):
    """Operation that the format does not have."""
    return next((x.tag for x in walk(v) if isinstance(x, Opq) and x.tag.startswith(NOT)), None)


def stored(v):
    t = table(v)
    return None if t is None else [x for x in t.data if not iszero(x)]


def big(vs):
    """Largest of non-negative numbers."""
    out = {}
    for x in vs:
        p = poly(x)
        if p is not None and not p.terms:
            continue
        a = T.single(x) if hasattr(T, 'single') else None
        l = [x]
        if isinstance(x, Poly) and len(x.terms) == 1:
            (k, c), = x.terms.items()
            if not k[1] and len(k[0]) == 1 and c == (1, 0):
                at = k[0][0][0][0]
                if getattr(at, 'name', '') == 'big':
                    l = list(at.args)
        for y in l:
            out[y.key()] = y
    if not out:
        return Const(0)
    if len(out) == 1:
        return next(iter(out.values()))
    return atom('big', tuple(out[k] for k in sorted(out)), 's', ('real',), 'float')


def absolute(x):
    if nd.num(x) is not None:
        return ND.s_abs(x)
    return Const(0) if iszero(x) else atom('abs', (upto_sign(x),), 's', ('real',), 'float')


def kinds(it):
    """Operations of the formats: what a format does not have gives an invalid value."""
    def entries(v, op):
        if kind(v) in ('LinearOperator', 'sparse') and op in ('max', 'data', 'size', 'nnz', 'sum', 'reduction'):
            return None
        return table(v)

    def abs_(it, a, k, st, node):
        x = it.snap(a[0], st)
        if kind(x) == 'LinearOperator':
            return invalid('abs', x)
        t = table(x)
        if t is None:
            return NotImplemented
        return ND.back(t.map(absolute), kind(x)) if t.shape or isinstance(x, Poly) and x.kind != 's' else absolute(x)

    def max_(it, a, k, st, node):
        l = [it.snap(x, st) for x in a]
        vs = []
        for x in l:
            if kind(x) in ('LinearOperator', 'sparse'):
                return invalid('max', x)
            t = table(x)
            if t is None or broken(x):
                return next((Opq(broken(y), ()) for y in l if broken(y)), NotImplemented)
            vs += list(t.data)
        if not vs:
            return Opq(NOT + 'max of no entries', ())
        if all(nd.num(x) is not None for x in vs):
            return NotImplemented
        return big(vs)

    def attr(it, o, name, st, node):
        x = it.snap(o, st) if not isinstance(o, Poly) else o
        if kind(x) is None:
            return None
        if name == 'A' or name in ('data', 'size', 'nnz') and kind(x) == 'LinearOperator' or name == 'data' and kind(x) == 'sparse':
            return invalid(name, x)
        if kind(x) in ('csr_matrix', 'sparse') and name in ('data', 'size', 'nnz'):
            s = stored(x)
            if s is None:
                return None
            return ND.back(A([len(s)], s), 'np.ndarray') if name == 'data' else Const(len(s))
        return None

    def binop(it, op, a, b, st):
        x, y = it.snap(a, st), it.snap(b, st)
        if op in ('Sub', 'Add') and 'LinearOperator' in (kind(x), kind(y)) and kind(x) != kind(y):
            return invalid('sum', x if kind(x) == 'LinearOperator' else y)
        if op in ('Sub', 'Add') and {kind(x), kind(y)} == {'sparse'}:
            t = ND.binop(it, op, x, y)
            return None if t is None else L.retyp(t, 'sparse')
        if op == 'Pow' and kind(x) in ('csr_matrix', 'sparse', 'coo_matrix') and y == Const(2):
            # the matrix power
            t = table(x)
            return ND.back(mm(t, t), kind(x)) if t is not None and t.ndim == 2 and t.shape[0] == t.shape[1] else invalid('power', x)
        return None
    for n in ('numpy.abs', 'numpy.absolute', 'builtins.abs'):
        it.ext_over[n] = abs_
    for n in ('numpy.max', 'numpy.amax', 'builtins.max', 'numpy.maximum'):
        it.ext_over[n] = max_
    it.method_over['max'] = lambda it, o, a, kw, st, node: max_(it, [o], kw, st, node)
    it.attr_hook = attr
    it.binop_hook = binop


def pattern(name, pat, shape=(2, 2)):
    return NN.build(shape, lambda ix: real(name, *ix) if ix in pat else Const(0))


def tolerance(ck):
    f = 'allclose'
    w = where(ck, mkn(ck), LIN, f)
    full = [(0, 0), (0, 1), (1, 0)]
    cases = [('entries in both', full, [(0, 0), (1, 1)]), ('nothing stored on the left', [], [(1, 1)]), ('nothing stored on the right', [(0, 1)], []),
             ('nothing stored', [], [])]
    for ka in KINDS:
        for kb in KINDS:
            for nm, pa, pb in cases:
                ck.ob('%s of %s and %s, %s' % (f, WORD[ka], WORD[kb], nm), w, lambda ka=ka, kb=kb, pa=pa, pb=pb: close_case(
                    ck, ND.back(pattern('a', pa), ka), ND.back(pattern('b', pb), kb), pattern('a', pa), pattern('b', pb)))
    for k in KINDS:
        a = pattern('a', full)
        for num, x in (('number', real('z')), ('zero', Const(0))):
            sc = NN.build((), lambda ix: x)
            ck.ob('%s of %s and a %s' % (f, WORD[k], num), w, lambda k=k, x=x, sc=sc: close_case(ck, ND.back(a, k), x, a, sc))
            ck.ob('%s of a %s and %s' % (f, num, WORD[k]), w, lambda k=k, x=x, sc=sc: close_case(ck, x, ND.back(a, k), sc, a))
        for sa, sb in (((0, 2), (0, 2)), ((0, 2), (0, 3))):
            ck.ob('%s of %s without entries, %s extents' % (f, WORD[k], 'equal' if sa == sb else 'different'), w,
                  lambda k=k, sa=sa, sb=sb: empty_case(ck, k, sa, sb))


def closer(ck, a, b):
    it = mkn(ck)
    it.summaries.pop(LIN + '.allclose', None)
    kinds(it)
    seen = []

    def np_(it, a, k, st, node):
        v = dict(zip(('a', 'b', 'rtol', 'atol', 'equal_nan'), [it.snap(x, st) for x in a]))
        v.update({n: it.snap(x, st) for n, x in k.items()})
        seen.append(v)
        return pred(P('test', Const(len(seen))))
    it.ext_over['numpy.allclose'] = np_
    st = state()
    v, s = absrun(it, it.func(LIN, 'allclose'), [a, b], st, {'rtol': real('rt'), 'atol': real('at')})
    return v, seen


def close_case(ck, a, b, ta, tb):
    v, seen = closer(ck, a, b)
    bad = broken(v) or next((broken(x) for d in seen for x in d.values() if broken(x)), None)
    if bad:
        return Verdict('ne', bad, (), v, None)
    if isinstance(v, Exc):
        return Verdict('ne', 'raises %s' % v.name, (), v, None)
    if isinstance(v, Const) and isinstance(v.v, bool):
        d = ND.binop(None, 'Sub', ND.back(ta, None), ND.back(tb, None)) if False else None
        zero = all(iszero(x) for x in ta.data) and all(iszero(x) for x in tb.data)
        return Verdict('eq') if zero and v.v else Verdict('ne', 'is %s whatever the entries are' % v.v, (), v, None)
    if len(seen) != 1 or v != pred(P('test', Const(1))):
        return Verdict('unk', 'no single test', (), v, None)
    d = seen[0]
    x, y = table(d['a']), table(d['b'])
    if x is None or y is None:
        return Verdict('unk', 'no tables', (), v, None)
    diff = NN.ew(T.sub, x, y)
    want = NN.ew(T.sub, ta, tb)
    key = lambda t: {upto_sign(q).key() for q in t.data if not iszero(q)}
    for q in diff.data:
        if not settled(q, {'a', 'b', 'z'}):
            return Verdict('unk', 'entries', (), q, None)
    if key(diff) != key(want):
        return Verdict('ne', 'other differences of entries are tested', (), d['a'], ND.back(want))
    dflt = {'rtol': rat(1, 10**5), 'atol': rat(1, 10**8)}
    if table(d.get('rtol', dflt['rtol'])) is None or not iszero(d.get('rtol', dflt['rtol'])) and not all(iszero(q) for q in y.data):
        return Verdict('unk', 'elementwise relative tolerance', (), d.get('rtol'), None)
    tol = d.get('atol', dflt['atol'])
    ref = T.add(real('at'), T.mul(real('rt'), big([absolute(q) for q in ta.data + tb.data])))
    return compare(tol, ref, {'at', 'rt', 'abs', 'big', 'a', 'b', 'z'}, 'strict')


def empty_case(ck, k, sa, sb):
    e = lambda s: ND.back(A(list(s), []), k)
    v, seen = closer(ck, e(sa), e(sb))
    bad = broken(v)
    if bad:
        return Verdict('ne', bad, (), v, None)
    if isinstance(v, Exc):
        return Verdict('ne', 'raises %s' % v.name, (), v, None)
    if isinstance(v, Const) and isinstance(v.v, bool):
        return Verdict('eq') if v.v == (sa == sb) else Verdict('ne', 'is %s' % v.v, (), v, None)
    return Verdict('unk', 'undecided', (), v, None)


# --- linalg.nullspace ------------------------------------------------------------------------------

def nullspaces(ck):
    f = 'nullspace'
    w = where(ck, mkn(ck), LIN, f)
    for m, n in ((2, 2), (3, 2), (2, 3), (1, 3)):
        for small in range(min(m, n) + 1):
            s = [Const(3), Const(2), Const(1)][:min(m, n) - small] + [rat(1, 10**9)] * small
            for sp in (None, FALSE):
                for k in ('np.ndarray', 'csr_matrix', 'sparse'):
                    if sp is None and k != 'np.ndarray':
                        continue
                    for c in (None, TRUE):
                        ck.ob('%s of %s, %dx%d, %d small singular values, sparse=%s%s' % (f, WORD[k], m, n, small, 'default' if sp is None else sp, ', complement' if c else ''), w,
                              lambda m=m, n=n, s=s, sp=sp, k=k, c=c: dense_null(ck, m, n, s, sp, k, c))
    for k, sp in (('csr_matrix', None), ('csr_matrix', TRUE), ('sparse', None), ('np.ndarray', TRUE)):
        for N, step in ((4, None), (6, -2), (6, 3), (5, -3)) if k == 'csr_matrix' else ((5, -2),):
            for d in range(N - 1):
                if step and step > 0 and d > step:
                    continue
                ck.ob('%s of %s, size %d, dimension %d, sparse=%s, k_max=%s' % (f, WORD[k], N, d, 'default' if sp is None else sp, step or 'default'), w,
                      lambda k=k, sp=sp, N=N, d=d, step=step: sparse_null(ck, k, sp, N, d, step))
        for big_ in (13, 14):
            for d in (0, 9, 10, 11, big_ - 2):
                if k == 'csr_matrix' and sp is None:
                    ck.ob('%s of %s, size %d, dimension %d, default steps' % (f, WORD[k], big_, d), w,
                          lambda k=k, sp=sp, N=big_, d=d: sparse_null(ck, k, sp, N, d, None, rows=1))
        ck.ob('%s of %s, zero matrix, sparse=%s' % (f, WORD[k], 'default' if sp is None else sp), w, lambda k=k, sp=sp: zero_null(ck, k, sp))


def rows_verdict(v, want, why):
    bad = broken(v)
    if bad:
        return Verdict('ne', bad, (), v, None)
    if isinstance(v, Exc):
        return Verdict('ne', 'raises %s' % v.name, (), v, None)
    t = table(v)
    if t is None or t.ndim != 2:
        return Verdict('unk', 'no table', (), v, None)
    if not all(settled(x, {'vhr', 'vhi', 'wr', 'wi'}) for x in t.data):
        return Verdict('unk', 'entries', (), v, None)
    l = lambda rows: sorted(tuple(poly(x).key() for x in r) for r in rows)
    n = t.shape[1]
    found = [t.data[i * n:(i + 1) * n] for i in range(t.shape[0])]
    if l(found) != l(want):
        return Verdict('ne', why, (), v, Tup([Tup(list(r)) for r in want]))
    return Verdict('eq')


def dense_null(ck, m, n, s, sp, k, comp):
    it = mkn(ck)
    kinds(it)
    a = NN.build((m, n), lambda ix: real('a', *ix))
    vh = cmat('vh', n)
    calls = []

    def svd(it, ar, kw, st, node):
        x = table(it.snap(ar[0], st))
        full = it.snap(ar[1], st) if len(ar) > 1 else it.snap(kw.get('full_matrices', TRUE), st)
        if x is None or kind(it.snap(ar[0], st)) != 'np.ndarray' or not isinstance(full, Const):
            return invalid('svd', it.snap(ar[0], st)) if kind(it.snap(ar[0], st)) in ('csr_matrix', 'sparse', 'LinearOperator') else NotImplemented
        calls.append(x)
        r = vh if full.v else A([min(m, n), n], vh.data[:min(m, n) * n])
        return Tup([Opq('left vectors', ()), ND.back(A([len(s)], s), 'np.ndarray'), ND.back(r, 'np.ndarray')])
    for q in ('scipy.linalg.svd', 'numpy.linalg.svd'):
        it.ext_over[q] = svd
    kw = {}
    if sp is not None:
        kw['sparse'] = sp
    if comp is not None:
        kw['return_complement'] = comp
    v, st = absrun(it, it.func(LIN, 'nullspace'), [ND.back(a, k)], state(), kw)
    row = lambda i: [T.conj(x) for x in vh.data[i * n:(i + 1) * n]]
    big_ = [i for i in range(len(s)) if nd.num(s[i]).real > 1e-6]
    rest = [i for i in range(n) if i not in big_]
    for x in calls:
        if same(x, a, {'a'}).kind != 'eq':
            return Verdict('unk', 'svd of something else', (), ND.back(x), None)
    why = 'is not the span of the right singular vectors with small singular values'
    if comp is None:
        return rows_verdict(v, [row(i) for i in rest], why)
    if broken(v) or isinstance(v, Exc):
        return rows_verdict(v, [], why)
    if not isinstance(v, Tup) or len(v.items) != 2:
        return Verdict('unk', 'no pair', (), v, None)
    return worst([rows_verdict(v.items[0], [row(i) for i in rest], why), rows_verdict(v.items[1], [row(i) for i in big_], 'complement: ' + why)])


def sparse_null(ck, k, sp, N, d, step, rows=None):
    it = mkn(ck)
    kinds(it)
    m = rows or 2
    a = NN.build((m, N), lambda ix: cplx('a', *ix) if N < 7 else real('a', *ix))
    w = cmat('w', N)
    # eigenvalues of the vectors in the columns of w, in no order
    order = [(3 * i + 1) % N for i in range(N)] if N % 3 else list(range(N))[::-1]
    ev = [None] * N
    for i, j in enumerate(order):
        ev[j] = Const(0) if i < d else Const(1 + i)
    out = []

    def eigsh(it, ar, kw, st, node):
        names = ('A', 'k', 'M', 'sigma', 'which', 'v0', 'ncv', 'maxiter', 'tol', 'return_eigenvectors')
        p = {'k': Const(6), 'sigma': NONE, 'which': Const('LM'), 'return_eigenvectors': TRUE}
        p.update(zip(names, [it.snap(x, st) for x in ar]))
        p.update({q: it.snap(x, st) for q, x in kw.items()})
        x, kk = table(p['A']), p['k']
        if x is None or not isinstance(kk, Const) or not isinstance(p['which'], Const) or not isinstance(p['sigma'], (Const, Poly)) or p['return_eigenvectors'] != TRUE:
            return NotImplemented
        r = same(x, mm(dag(a), a), {'ar', 'ai', 'a'})
        if r.kind != 'eq':
            if r.kind == 'ne':
                out.append('eigenvectors of something other than the Gram matrix')
            return NotImplemented
        if not 0 < kk.v < N:
            out.append('%s eigenvalues of a matrix of size %s are requested' % (kk.v, N))
            return Opq(NOT + '%s eigenvalues of a matrix of size %s' % (kk.v, N), ())
        e = [nd.num(x).real for x in ev]
        sg = None if p['sigma'] == NONE else nd.num(p['sigma']).real
        val = {i: abs(e[i]) if sg is None else 1 / abs(e[i] - sg) if e[i] != sg else 1e300 for i in range(N)}
        if p['which'].v not in ('LM', 'SM'):
            return NotImplemented
        pick = sorted(range(N), key=lambda i: -val[i] if p['which'].v == 'LM' else val[i])[:kk.v]
        pick.sort(key=lambda i: e[i])
        vec = NN.build((N, kk.v), lambda ix: w.data[ix[0] * N + pick[ix[1]]])
        return Tup([ND.back(A([kk.v], [ev[i] for i in pick]), 'np.ndarray'), ND.back(vec, 'np.ndarray')])
    it.ext_over['scipy.sparse.linalg.eigsh'] = eigsh

    def close_(it, ar, kw, st, node):
        # letters are not small
        x, y = table(it.snap(ar[0], st)), table(it.snap(ar[1], st))
        if x is None or y is None or any(nd.num(q) is None and not isinstance(q, Poly) for q in x.data + y.data):
            return NotImplemented
        d = NN.ew(T.sub, x, y).data
        if all(nd.num(q) is not None for q in d):
            return NotImplemented
        return FALSE
    it.ext_over['numpy.allclose'] = close_

    def qr(it, ar, kw, st, node):
        # the eigenvectors are orthonormal already
        return Tup([it.snap(ar[0], st), Opq('triangle', ())])
    for q in ('scipy.linalg.qr', 'numpy.linalg.qr'):
        it.ext_over[q] = qr
    kw = {}
    if sp is not None:
        kw['sparse'] = sp
    if step:
        kw['k_max'] = Const(step)
    v, st = absrun(it, it.func(LIN, 'nullspace'), [ND.back(a, k)], state(), kw)
    if out:
        return Verdict('ne', out[0], (), v, None)
    want = [[w.data[r * N + j] for r in range(N)] for j in range(N) if iszero(ev[j])]
    return rows_verdict(v, want, 'is not the span of the eigenvectors of the zero eigenvalues')


def zero_null(ck, k, sp):
    it = mkn(ck)
    kinds(it)
    kw = {} if sp is None else {'sparse': sp}
    z = NN.build((2, 3), lambda ix: Const(0))
    v, st = absrun(it, it.func(LIN, 'nullspace'), [ND.back(z, k)], state(), kw)
    return rows_verdict(v, [[Const(int(i == j)) for j in range(3)] for i in range(3)], 'null space of zero is everything')


# --- pruning and rounding of values ----------------------------------------------------------------

SIZES = {  # entries, Frobenius norm against 5e-5
    'large': [[3, 0], [0, 4]],
    'norm above, entries below': [[4e-5, 4e-5], [4e-5, 0]],
    'norm above, largest singular value below': [[4e-5, 0], [0, 4e-5]],
    'norm below, sum of entries above': [[2e-5, 2e-5], [2e-5, 0]],
    'small': [[0, 1e-5], [0, 0]],
    'nothing stored': [[0, 0], [0, 0]],
}
KEPT = {None: 3, 'rtol': 5, 'atol': 1, 'large atol': 0}


def pruning(ck):
    w = where(ck, mkn(ck), 'model', 'Model', 'eliminate_zeros')
    for k in ('np.ndarray', 'csr_matrix', 'sparse'):
        for how in KEPT:
            for rev in (False, True):
                ck.ob('eliminate_zeros [%s]%s%s' % (k, ', ' + how if how else '', ', largest term last' if rev else ''), w, lambda k=k, how=how, rev=rev: prune(ck, k, how, rev))
    w = where(ck, mkn(ck), 'model', 'Model', 'around')
    for k in ('np.ndarray', 'csr_matrix', 'coo_matrix'):
        for d in (None, 1):
            ck.ob('around [%s]%s' % (k, ', %s digit' % d if d else ''), w, lambda k=k, d=d: rounding(ck, k, d))


def build(ck, it, st, terms, k):
    from . import mscen
    from sa import modelrep as MR
    dic = it.alloc(st, I.HSeq('dict', [Seg((), TRUE, Tup([x, v])) for x, v in terms]))
    for q in ('sympify', 'make_commutative'):
        it.summaries['kwant_continuum.' + q] = lambda it, a, kw, st, n: it.snap(a[0], st)
    fmt = I.Ext(MR.FORMATS.get(k, 'scipy.sparse.csc_matrix'))
    return it.alloc(st, I.HInst(it.func('model', 'Model'), {
        'data': dic, 'momenta': Tup(list(mscen.MOM)), 'keep': it.alloc(st, I.HSeq('set', [])), 'shape': Tup([Const(2), Const(2)]), 'format': fmt}))


def kept(v, want):
    from sa import modelrep as MR
    bad = broken(v)
    if bad:
        return Verdict('ne', bad, (), v, None)
    if isinstance(v, Exc):
        return Verdict('ne', 'raises %s' % v.name, (), v, None)
    d = MR.read(v)
    l = d and entries(d.get('data'))
    if l is None or any(not isinstance(p, Tup) or len(p.items) != 2 for p in l):
        return Verdict('unk', 'terms', (), v, None)
    found = {p.items[0].key(): p.items[1] for p in l}
    ref = {x.key(): t for x, t in want}
    for x, t in want:
        if x.key() not in found:
            return Verdict('ne', 'term %s is lost' % x, (), v, None)
        q = table(found[x.key()])
        if q is None or any(nd.num(y) is None for y in q.data):
            return Verdict('unk', 'value', (), found[x.key()], None)
        if q.shape != t.shape or any(abs(nd.num(y) - nd.num(z)) > 1e-12 for y, z in zip(q.data, t.data)):
            return Verdict('ne', 'value of term %s' % x, (), found[x.key()], ND.back(t))
    extra = [p.items[0] for p in l if p.items[0].key() not in ref]
    if extra:
        return Verdict('ne', 'term %s is kept' % extra[0], (), v, None)
    return Verdict('eq')


def exactly(x):
    return rat(*Fraction(str(x)).limit_denominator(10**9).as_integer_ratio()) if isinstance(x, float) else Const(x)


def numbers(rows):
    return NN.build((len(rows), len(rows[0])), lambda ix: exactly(rows[ix[0]][ix[1]]))


def prune(ck, k, how, rev):
    from . import mscen
    it = mkn(ck)
    kinds(it)
    st = state()
    terms = [(sym('t%d' % i), numbers(x)) for i, x in enumerate(SIZES.values())]
    n = KEPT[how]
    m = build(ck, it, st, [(x, ND.back(t, k)) for x, t in (terms[::-1] if rev else terms)], k)
    kw = {None: {}, 'rtol': {'rtol': rat(1, 10**6)}, 'atol': {'atol': rat(1, 10**3)}, 'large atol': {'atol': Const(10)}}[how]
    v, s = absrun(it, it.method('model', 'Model', 'eliminate_zeros'), [m], st, kw)
    return kept(v, terms[:n])


def rounding(ck, k, d):
    it = mkn(ck)
    kinds(it)

    def round_(it, a, kw, st, node):
        x, n = it.snap(a[0], st), it.snap(a[1], st) if len(a) > 1 else it.snap(kw.get('decimals', kw.get('ndigits', Const(0))), st)
        t = table(x)
        if t is None or not isinstance(n, Const) or any(nd.num(q) is None for q in t.data):
            return NotImplemented
        f = lambda q: exactly(round(nd.num(q).real, n.v))
        return ND.back(t.map(f), kind(x))
    for q in ('numpy.around', 'numpy.round'):
        it.ext_over[q] = lambda it, a, kw, st, node: (lambda x: invalid('around', x) if kind(x) in ('csr_matrix', 'sparse', 'coo_matrix') else round_(it, a, kw, st, node))(it.snap(a[0], st))
    it.ext_over['builtins.round'] = round_
    it.method_over['round'] = lambda it, o, a, kw, st, node: round_(it, [o] + list(a), kw, st, node)
    st = state()
    vals = [[[1.2345, 0], [0, -2.3456]], [[0.0004, 0], [0.0001, 0]], [[0.02, 0], [0, 0.04]]]
    terms = [(sym('t%d' % i), numbers(x)) for i, x in enumerate(vals)]
    m = build(ck, it, st, [(x, ND.back(t, k)) for x, t in terms], k)
    v, s = absrun(it, it.method('model', 'Model', 'around'), [m] + ([Const(d)] if d else []), st)
    want = [(x, numbers([[round(y, d or 3) for y in r] for r in l])) for (x, t), l in zip(terms, vals)]
    return kept(v, [(x, t) for x, t in want if any(not iszero(q) for q in t.data)])


# --- matrix equations in sparse algebra -------------------------------------------------------------

def equations(ck):
    from . import c26
    f = 'solve_mat_eqn'
    w = where(ck, mkn(ck), LIN, f)
    for m in (1, 2):
        for her in (FALSE, TRUE):
            for tl in (FALSE, TRUE):
                for conj in (FALSE, TRUE):
                    for k, sp in (('np.ndarray', TRUE), ('csr_matrix', TRUE), ('csr_matrix', FALSE), ('csr_matrix', None)):
                        ck.ob('%s: %d matrices (%s), sparse=%s hermitian=%s traceless=%s conjugate=%s' % (f, m, WORD[k], 'default' if sp is None else sp, her, tl, conj), w,
                              lambda m=m, her=her, tl=tl, conj=conj, k=k, sp=sp: c26.solve(ck, 2, m, her, tl, conj, False, sp, k))
