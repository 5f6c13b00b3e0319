"""The external vocabulary over the constant-extent array domain (nd.py).
Active when the analysis runs with it.nd; returns None where it does not apply."""
from . import nd
from .nd import A, Bad, of, back
from .terms import *
from . import terms as T
from . import build as B
import itertools

SPARSE = {'csr_matrix', 'coo_matrix', 'sparse', 'LinearOperator'}


def L_():
    from . import lib
    return lib


def I_():
    from . import interp
    return interp


def arr(v):
    return isinstance(v, Poly) and v.kind in ('m', 'v')


def tryof(v):
    try:
        return of(v)
    except Bad:
        return None


def bool_(v):
    return Const(bool(v))


# --- scalar functions ---------------------------------------------------------------

def s_div(x, y):
    q = poly(y)
    if q is None or q.const() == (0, 0):
        raise Bad('division')
    n = B.numconst(x)
    if n is not None and n == 0:
        return Const(0)
    return T.mul(x, T.inverse(q))


def s_pow(x, y):
    return B.power(x, y)


def s_cmp(op):
    def f(x, y):
        if is_bool(x) and is_bool(y) and op in ('Eq', 'NotEq'):
            r = bnot(bxor(x, y))
            return r if op == 'Eq' else bnot(r)
        a, b = nd.num(x), nd.num(y)
        if a is not None and b is not None:
            if op in ('Eq', 'NotEq'):
                eq = abs(a - b) <= 1e-13 * (1 + abs(a))
                return bool_(eq if op == 'Eq' else not eq)
            a, b = nd.real_num(x), nd.real_num(y)
            if abs(a - b) <= 1e-13 * (1 + abs(a)):
                return bool_(op in ('LtE', 'GtE'))
            return bool_({'Lt': a < b, 'Gt': a > b, 'LtE': a <= b, 'GtE': a >= b}[op])
        if op == 'Eq':
            return B.eq(x, y)
        if op == 'NotEq':
            return bnot(B.eq(x, y))
        return {'Lt': lambda: B.lt(x, y), 'Gt': lambda: B.lt(y, x), 'LtE': lambda: bnot(B.lt(y, x)), 'GtE': lambda: bnot(B.lt(x, y))}[op]()
    return f


def s_fn(name, real=True):
    def f(x):
        return fn_(name, x, real)
    return f


def fn_(name, x, real):
    return B.fn(name, [x], 's', ('real',) if real else (), 'float' if real else 'complex')


def invert(x):
    if not is_bool(x):
        raise Bad('bits')
    return bnot(x)


def s_abs(x):
    n = nd.num(x)
    if n is not None:
        c = B.numconst(x)
        if c is not None and not isinstance(c, complex):
            return Const(abs(c))
        if abs(n.imag) < 1e-14:
            return x if n.real >= 0 else T.neg(x)
        p = poly(x)
        return L_().sqrt_(T.mul(x, T.conj(x)))
    return fn_('abs', x, True)


def s_sign(x):
    n = nd.real_num(x)
    return Const(0 if abs(n) < 1e-14 else 1 if n > 0 else -1)


def s_imag(x):
    n = B.numconst(x)
    if n is not None:
        v = complex(n).imag
        return Const(int(v) if v == int(v) else v)
    half = Const(-0.5j)
    return T.mul(half, T.sub(x, T.conj(x)))


def s_real(x):
    p = poly(x)
    if p is not None and p.kind == 's':
        if p == poly(T.conj(x)):
            return x
        return T.mul(Const(0.5), T.add(x, T.conj(x)))
    return B.real_(x)


def s_close(x, y):
    a, b = nd.num(x), nd.num(y)
    if a is not None and b is not None:
        return bool_(abs(a - b) <= 1e-8 + 1e-5 * abs(b))
    return B.close(x, y)


def s_round(x):
    n = nd.num(x)
    if n is None:
        return B.fn('round', [x], 's', ('real',), None)
    return Const(round(n.real)) if abs(n.imag) < 1e-12 else None


def s_truth(x):
    return truth(x)


def s_sqrt(x):
    return L_().sqrt_(x)


def ext1(name):
    def f(x):
        return L_().EXT[name](None, [x], {}, None, None)
    return f


UFUNC1 = {
    'conj': T.conj, 'conjugate': T.conj, 'negative': T.neg, 'abs': s_abs, 'absolute': s_abs, 'real': s_real, 'imag': s_imag,
    'sqrt': s_sqrt, 'sign': s_sign, 'square': lambda x: T.mul(x, x), 'logical_not': lambda x: bnot(truth(x)), 'invert': invert, 'bitwise_not': invert,
    'sin': ext1('numpy.sin'), 'cos': ext1('numpy.cos'), 'tan': ext1('numpy.tan'), 'exp': ext1('numpy.exp'),
    'round': s_round, 'rint': s_round, 'around': s_round,
}
UFUNC2 = {
    'add': T.add, 'subtract': T.sub, 'multiply': T.mul, 'divide': s_div, 'true_divide': s_div, 'power': s_pow,
    'equal': s_cmp('Eq'), 'not_equal': s_cmp('NotEq'), 'less': s_cmp('Lt'), 'greater': s_cmp('Gt'),
    'less_equal': s_cmp('LtE'), 'greater_equal': s_cmp('GtE'),
    'logical_and': lambda x, y: band(truth(x), truth(y)), 'logical_or': lambda x, y: bor(truth(x), truth(y)),
    'isclose': s_close,
    'mod': lambda x, y: s_int(x, y, 'mod'), 'remainder': lambda x, y: s_int(x, y, 'mod'), 'floor_divide': lambda x, y: s_int(x, y, 'fd'),
}
BIN = {'Add': 'add', 'Sub': 'subtract', 'Mult': 'multiply', 'Div': 'divide', 'Pow': 'power', 'Mod': 'mod', 'FloorDiv': 'floor_divide',
       'BitAnd': 'logical_and', 'BitOr': 'logical_or'}


def s_int(x, y, op):
    a, b = B.numconst(x), B.numconst(y)
    if a is None or b is None or b == 0 or isinstance(a, complex) or isinstance(b, complex):
        raise Bad('integer operation')
    return Const(a % b if op == 'mod' else a // b)


def add_all(l):
    r = Const(0)
    for x in l:
        if is_bool(x):
            x = Const(int(x.v)) if isinstance(x, Const) else None
            if x is None:
                raise Bad('count of undecided')
        r = T.add(r, x)
    return r


def mul_all(l):
    r = Const(1)
    for x in l:
        r = T.mul(r, x)
    return r


def extreme(pick):
    def f(l):
        if not l:
            raise Bad('empty')
        return pick(l, key=nd.real_num)
    return f


REDUCE = {'sum': add_all, 'prod': mul_all, 'max': extreme(max), 'min': extreme(min), 'amax': extreme(max), 'amin': extreme(min),
          'all': lambda l: band(*[truth(x) for x in l]) if l else TRUE, 'any': lambda l: bor(*[truth(x) for x in l]) if l else FALSE,
          'mean': lambda l: T.mul(add_all(l), T.inverse(poly(Const(len(l))))),
          'count_nonzero': lambda l: add_all([Const(int(bool(truth(x).v))) for x in l])}


# --- argument helpers -----------------------------------------------------------------

def ival(v):
    if isinstance(v, Const) and isinstance(v.v, bool):
        return int(v.v)
    return nd.toint(v)


def ints(v):
    """Tuple of integers from an int, tuple or list value."""
    if isinstance(v, Tup):
        return [ival(x) for x in v.items]
    if isinstance(v, Seq):
        return [ival(x) for x in of(v).data]
    if arr(v):
        return [ival(x) for x in of(v).data]
    return [ival(v)]


def axis_of(v):
    if v is None or v == NONE:
        return None
    if isinstance(v, (Tup, Seq)):
        return ints(v)
    return ival(v)


def arg(args, kw, k, name, default=None):
    if k is not None and k < len(args):
        return args[k]
    return kw.get(name, default)


def elems(v):
    """Items of a sequence of arrays."""
    if isinstance(v, Tup):
        return [of(x) for x in v.items]
    if isinstance(v, Seq):
        if not all(isinstance(s, Seg) and not s.binders and s.guard == TRUE for s in v.segs):
            raise Bad('items')
        return [of(s.payload) for s in v.segs]
    return [x if isinstance(x, A) else A((), [x]) for x in of(v).rows()]


def items(v):
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Seq) and all(isinstance(s, Seg) and not s.binders and s.guard == TRUE for s in v.segs):
        return [s.payload for s in v.segs]
    raise Bad('items')


def cast(it, a, d, st):
    n = L_().dtype_name(it, d, st)
    if n in (None, 'complex', 'float', 'object', '?', 'double', 'cdouble', 'complex64', 'float32'):
        return a
    if n in ('int', 'int64', 'int32', 'intp', 'i', 'int_'):
        def f(x):
            if isinstance(x, Const) and isinstance(x.v, bool):
                return Const(int(x.v))
            c = nd.num(x)
            if c is None:
                return x if isinstance(x, Poly) and x.typ and x.typ <= {'int', 'bool'} else B.fn('trunc', [x], 's', ('real',), 'int')
            return Const(int(c.real + (1e-9 if c.real > 0 else -1e-9)) if abs(c.real - round(c.real)) < 1e-9 else int(c.real))
        return a.map(f)
    if n == 'bool':
        return a.map(truth)
    raise Bad('dtype')


# --- functions ---------------------------------------------------------------------------

FN = {}


def F(*names):
    def deco(f):
        for n in names:
            FN[n] = f
        return f
    return deco


NP = ('numpy.', 'scipy.', 'tinyarray.')


@F('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.copy', 'tinyarray.array', 'numpy.asfarray')
def f_array(it, a, kw, st):
    x = of(a[0])
    return cast(it, A(x.shape, x.data), arg(a, kw, 1, 'dtype'), st)


@F('numpy.zeros', 'numpy.ones', 'tinyarray.zeros', 'tinyarray.ones')
def f_zeros(it, a, kw, st):
    s = ints(arg(a, kw, 0, 'shape'))
    return A(s, [Const(0 if 'zeros' in it.cur else 1)] * nd.prod(s))


@F('numpy.empty')
def f_empty(it, a, kw, st):
    s = ints(arg(a, kw, 0, 'shape'))
    it.empties = getattr(it, 'empties', 0) + 1
    return nd.build(s, lambda ix: atom('garbage', (Const(it.empties),) + tuple(Const(i) for i in ix), 's', (), 'float'))


@F('numpy.full')
def f_full(it, a, kw, st):
    s = ints(arg(a, kw, 0, 'shape'))
    return nd.bto(of(arg(a, kw, 1, 'fill_value')), s)


@F('numpy.zeros_like', 'numpy.ones_like')
def f_zl(it, a, kw, st):
    x = of(a[0])
    return A(x.shape, [Const(0 if 'zeros' in it.cur else 1)] * len(x.data))


@F('numpy.full_like')
def f_fl(it, a, kw, st):
    return nd.bto(of(a[1]), of(a[0]).shape)


@F('numpy.eye', 'numpy.identity', 'tinyarray.identity', 'scipy.sparse.identity', 'scipy.sparse.eye')
def f_eye(it, a, kw, st):
    n = ival(arg(a, kw, 0, 'N') or kw.get('n'))
    m = arg(a, kw, 1, 'M') if it.cur.endswith('eye') else None
    k = arg(a, kw, 2, 'k') if it.cur.endswith('eye') else None
    m = n if m is None or m == NONE else ival(m)
    k = 0 if k is None else ival(k)
    return nd.build((n, m), lambda ix: Const(1 if ix[1] - ix[0] == k else 0))


@F('numpy.arange')
def f_arange(it, a, kw, st):
    n = [B.numconst(x) for x in a]
    if any(x is None or isinstance(x, complex) for x in n):
        raise Bad('arange')
    if all(isinstance(x, int) for x in n):
        r = list(range(*n))
    else:
        b, e, s = (0, n[0], 1) if len(n) == 1 else (n[0], n[1], n[2] if len(n) > 2 else 1)
        r, x, k = [], b, 0
        s = Fraction(s)
        x = Fraction(b)
        while (s > 0 and x < e) or (s < 0 and x > e):
            r.append(x)
            x += s
            if len(r) > 1000:
                raise Bad('arange')
        r = [int(y) if y.denominator == 1 else float(y) for y in r]
    if len(r) > 1000:
        raise Bad('arange')
    return A((len(r),), [Const(x) for x in r])


@F('numpy.linspace')
def f_linspace(it, a, kw, st):
    n = ival(arg(a, kw, 2, 'num'))
    x, y = a[0], a[1]
    return A((n,), [T.add(x, T.mul(T.sub(y, x), simplify(Poly({((), ()): (Fraction(i, n - 1), Fraction(0))}, 's')))) for i in range(n)])


@F('numpy.diag', 'numpy.diagonal')
def f_diag(it, a, kw, st):
    k = arg(a, kw, 1, 'k', kw.get('offset'))
    return nd.diag(of(a[0]), 0 if k is None else ival(k))


@F('numpy.trace')
def f_trace(it, a, kw, st):
    x = of(a[0])
    if x.ndim != 2 or len(a) > 1 or kw:
        raise Bad('trace')
    return add_all(nd.diag(x).data)


@F('numpy.kron', 'scipy.sparse.kron')
def f_kron(it, a, kw, st):
    return nd.kron(of(a[0]), of(a[1]))


@F('numpy.matmul')
def f_matmul(it, a, kw, st):
    return nd.matmul(of(a[0]), of(a[1]))


@F('numpy.dot')
def f_dot(it, a, kw, st):
    return dot(of(a[0]), of(a[1]))


def dot(x, y):
    if not x.shape or not y.shape:
        return nd.ew(T.mul, x, y)
    if y.ndim == 1 or x.ndim <= 2 and y.ndim <= 2:
        return nd.matmul(x, y) if x.ndim <= 2 else nd.tensordot(x, y, [-1], [0])
    return nd.tensordot(x, y, [-1], [-2])


@F('numpy.vdot')
def f_vdot(it, a, kw, st):
    x, y = of(a[0]), of(a[1])
    return nd.dot1([T.conj(v) for v in x.data], y.data)


@F('numpy.inner')
def f_inner(it, a, kw, st):
    return nd.tensordot(of(a[0]), of(a[1]), [-1], [-1])


@F('numpy.outer')
def f_outer(it, a, kw, st):
    x, y = of(a[0]), of(a[1])
    return A((len(x.data), len(y.data)), [T.mul(p, q) for p in x.data for q in y.data])


@F('numpy.cross')
def f_cross(it, a, kw, st):
    x, y = of(a[0]), of(a[1])
    if x.shape != (3,) or y.shape != (3,):
        raise Bad('cross')
    p, q = x.data, y.data
    return A((3,), [T.sub(T.mul(p[i], q[j]), T.mul(p[j], q[i])) for i, j in ((1, 2), (2, 0), (0, 1))])


@F('numpy.tensordot')
def f_tensordot(it, a, kw, st):
    x, y = of(a[0]), of(a[1])
    ax = arg(a, kw, 2, 'axes', Const(2))
    if isinstance(ax, Const):
        n = ival(ax)
        return nd.tensordot(x, y, list(range(x.ndim - n, x.ndim)), list(range(n)))
    p, q = items(ax) if not arr(ax) else [back(r) for r in of(ax).rows()]
    return nd.tensordot(x, y, ints(p), ints(q))


@F('numpy.einsum')
def f_einsum(it, a, kw, st):
    if not isinstance(a[0], Const) or not isinstance(a[0].v, str):
        raise Bad('einsum')
    return nd.einsum(a[0].v, *[of(x) for x in a[1:]])


@F('numpy.transpose')
def f_transpose(it, a, kw, st):
    ax = arg(a, kw, 1, 'axes')
    return nd.transpose(of(a[0]), None if ax is None or ax == NONE else ints(ax))


@F('numpy.swapaxes')
def f_swapaxes(it, a, kw, st):
    return swapaxes(of(a[0]), ival(a[1]), ival(a[2]))


def swapaxes(x, p, q):
    ax = list(range(x.ndim))
    ax[p], ax[q] = ax[q], ax[p]
    return nd.transpose(x, ax)


@F('numpy.moveaxis', 'numpy.rollaxis')
def f_moveaxis(it, a, kw, st):
    if 'roll' in it.cur:
        raise Bad('rollaxis')
    return nd.moveaxis(of(a[0]), ival(a[1]), ival(a[2]))


@F('numpy.reshape')
def f_reshape(it, a, kw, st):
    return nd.reshape(of(a[0]), ints(arg(a, kw, 1, 'shape', kw.get('newshape'))))


@F('numpy.ravel')
def f_ravel(it, a, kw, st):
    return nd.reshape(of(a[0]), [-1])


@F('numpy.resize')
def f_resize(it, a, kw, st):
    x, s = of(a[0]), ints(a[1])
    n = nd.prod(s)
    return A(s, [x.data[i % len(x.data)] for i in range(n)])


@F('numpy.repeat')
def f_repeat(it, a, kw, st):
    x, r, ax = of(a[0]), arg(a, kw, 1, 'repeats'), arg(a, kw, 2, 'axis')
    ax = axis_of(ax)
    if ax is None:
        x, ax = nd.reshape(x, [-1]), 0
    n = ints(r)
    m = x.shape[ax]
    n = n * m if len(n) == 1 else n
    ix = [i for i in range(m) for _ in range(n[i])]
    x = nd.moveaxis(x, ax, 0)
    x = nd.getitem(x, back(A((len(ix),), [Const(i) for i in ix])))
    return nd.moveaxis(x, 0, ax)


@F('numpy.tile')
def f_tile(it, a, kw, st):
    x, r = of(a[0]), ints(a[1])
    n = max(x.ndim, len(r))
    x = A((1,) * (n - x.ndim) + x.shape, x.data)
    r = [1] * (n - len(r)) + r
    return nd.build([s * k for s, k in zip(x.shape, r)], lambda ix: x.at([i % s for i, s in zip(ix, x.shape)]))


@F('numpy.concatenate', 'numpy.hstack', 'numpy.vstack', 'numpy.stack', 'numpy.column_stack', 'numpy.row_stack', 'numpy.dstack',
   'scipy.sparse.vstack', 'scipy.sparse.hstack')
def f_concat(it, a, kw, st):
    l = elems(a[0])
    n = it.cur.split('.')[-1]
    ax = arg(a, kw, 1, 'axis') if n in ('concatenate', 'stack') else None
    ax = 0 if ax is None else axis_of(ax)
    if n == 'stack':
        return nd.stack(l, ax)
    if n == 'concatenate':
        return nd.concat([nd.reshape(x, [-1]) for x in l] if ax is None else l, 0 if ax is None else ax)
    if n == 'hstack':
        l = [nd.reshape(x, [1]) if not x.shape else x for x in l]
        return nd.concat(l, 0 if l[0].ndim == 1 else 1)
    if n in ('vstack', 'row_stack'):
        l = [nd.reshape(x, [1, -1]) if x.ndim < 2 else x for x in l]
        return nd.concat(l, 0)
    if n == 'column_stack':
        l = [nd.reshape(x, [-1, 1]) if x.ndim < 2 else x for x in l]
        return nd.concat(l, 1)
    raise Bad(n)


@F('numpy.append')
def f_append(it, a, kw, st):
    ax = axis_of(arg(a, kw, 2, 'axis'))
    x, y = of(a[0]), of(a[1])
    if ax is None:
        x, y, ax = nd.reshape(x, [-1]), nd.reshape(y, [-1]), 0
    return nd.concat([x, y], ax)


@F('numpy.insert')
def f_insert(it, a, kw, st):
    x, y = of(a[0]), of(a[2])
    if len(a) > 3 or kw or x.ndim != 1:
        raise Bad('insert')
    i = ints(a[1])
    if len(i) != 1:
        raise Bad('insert')
    return A((len(x.data) + len(y.data),), x.data[:i[0]] + y.data + x.data[i[0]:])


@F('numpy.delete')
def f_delete(it, a, kw, st):
    x, ax = of(a[0]), axis_of(arg(a, kw, 2, 'axis'))
    if ax is None:
        x, ax = nd.reshape(x, [-1]), 0
    n = x.shape[ax]
    d = {i % n for i in ints(a[1])}
    keep = [i for i in range(n) if i not in d]
    x = nd.moveaxis(x, ax, 0)
    x = nd.getitem(x, back(A((len(keep),), [Const(i) for i in keep])))
    return nd.moveaxis(x, 0, ax)


def blockrow(v, depth):
    if isinstance(v, (Tup, Seq)):
        l = [blockrow(x, depth + 1) for x in items(v)]
        deep = max(d for d, _ in l)
        m = max(x.ndim for _, x in l)
        l = [A((1,) * (m - x.ndim) + x.shape, x.data) for _, x in l]
        ax = -(deep - depth)
        if m < deep - depth:
            l = [A((1,) * (deep - depth - m) + x.shape, x.data) for x in l]
        return deep, nd.concat(l, ax)
    return depth, (lambda x: x if x.shape else A((1,), x.data))(of(v))


@F('numpy.block')
def f_block(it, a, kw, st):
    d, x = blockrow(a[0], 0)
    return x if x.ndim >= d else A((1,) * (d - x.ndim) + x.shape, x.data)


@F('scipy.sparse.bmat', 'scipy.sparse.block_array')
def f_bmat(it, a, kw, st):
    rows = [items(r) for r in items(a[0])]
    h, w = [None] * len(rows), [None] * len(rows[0])
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            if x != NONE:
                y = of(x)
                h[i], w[j] = y.shape
    out = []
    for i, r in enumerate(rows):
        out.append(nd.concat([of(x) if x != NONE else A((h[i], w[j]), [Const(0)] * (h[i] * w[j])) for j, x in enumerate(r)], 1))
    return nd.concat(out, 0)


@F('scipy.linalg.block_diag', 'scipy.sparse.block_diag')
def f_blockdiag(it, a, kw, st):
    l = elems(a[0]) if 'sparse' in it.cur else [of(x) for x in a]
    l = [x if x.ndim == 2 else nd.reshape(x, [1, -1]) for x in l]
    n, m = sum(x.shape[0] for x in l), sum(x.shape[1] for x in l)
    data = [Const(0)] * (n * m)
    i = j = 0
    for x in l:
        for p in range(x.shape[0]):
            for q in range(x.shape[1]):
                data[(i + p) * m + j + q] = x.at((p, q))
        i += x.shape[0]
        j += x.shape[1]
    return A((n, m), data)


@F('numpy.triu', 'numpy.tril')
def f_tri(it, a, kw, st):
    x, k = of(a[0]), arg(a, kw, 1, 'k')
    k = 0 if k is None else ival(k)
    up = 'triu' in it.cur
    return nd.build(x.shape, lambda ix: x.at(ix) if (ix[-1] - ix[-2] >= k if up else ix[-1] - ix[-2] <= k) else Const(0))


@F('numpy.triu_indices', 'numpy.tril_indices')
def f_triind(it, a, kw, st):
    n, k = ival(a[0]), arg(a, kw, 1, 'k')
    k = 0 if k is None else ival(k)
    up = 'triu' in it.cur
    p = [(i, j) for i in range(n) for j in range(n) if (j - i >= k if up else j - i <= k)]
    return Tup([back(A((len(p),), [Const(x[c]) for x in p])) for c in (0, 1)])


@F('numpy.diag_indices')
def f_diagind(it, a, kw, st):
    n = ival(a[0])
    return Tup([back(A((n,), [Const(i) for i in range(n)])) for c in (0, 1)])


@F('numpy.indices')
def f_indices(it, a, kw, st):
    s = ints(a[0])
    return nd.stack([nd.build(s, lambda ix: Const(ix[k])) for k in range(len(s))])


@F('numpy.ix_')
def f_ix(it, a, kw, st):
    l = [of(x) for x in a]
    n = len(l)
    return Tup([back(nd.reshape(x, [1] * k + [-1] + [1] * (n - 1 - k))) for k, x in enumerate(l)])


@F('numpy.meshgrid')
def f_meshgrid(it, a, kw, st):
    l = [of(x) for x in a]
    ij = isinstance(kw.get('indexing'), Const) and kw['indexing'].v == 'ij'
    s = [len(x.data) for x in l]
    if not ij and len(l) > 1:
        s[0], s[1] = s[1], s[0]
    pos_ = lambda k: k if ij or k > 1 or len(l) < 2 else 1 - k
    return Tup([back(nd.build(s, lambda ix, k=k, x=x: x.data[ix[pos_(k)]])) for k, x in enumerate(l)])


@F('numpy.where')
def f_where(it, a, kw, st):
    c = of(a[0]).map(truth)
    if len(a) == 3:
        return nd.ew(lambda p, x, y: ite(p, x, y), c, of(a[1]), of(a[2]))
    return nonzero(c)


@F('numpy.nonzero')
def f_nonzero(it, a, kw, st):
    return nonzero(of(a[0]).map(truth))


@F('numpy.flatnonzero')
def f_flatnonzero(it, a, kw, st):
    return nonzero(nd.reshape(of(a[0]).map(truth), [-1])).items[0]


@F('numpy.argwhere')
def f_argwhere(it, a, kw, st):
    t = nonzero(of(a[0]).map(truth))
    return nd.transpose(nd.stack([of(x) for x in t.items]))


def nonzero(c):
    if not all(isinstance(x, Const) for x in c.data):
        raise Bad('undecided')
    p = [ix for ix in itertools.product(*[range(n) for n in c.shape]) if c.at(ix).v]
    return Tup([back(A((len(p),), [Const(x[k]) for x in p])) for k in range(c.ndim)])


@F('numpy.allclose')
def f_allclose(it, a, kw, st):
    x, y = of(a[0]), of(a[1])
    r = nd.ew(s_close, x, y)
    if any(isinstance(v, Const) and v.v is False for v in r.data):
        return FALSE
    if all(isinstance(v, Const) for v in r.data):
        return TRUE
    if x.shape != y.shape and y.shape:
        raise Bad('undecided')
    return band(*r.data)


@F('numpy.array_equal')
def f_aeq(it, a, kw, st):
    x, y = of(a[0]), of(a[1])
    if x.shape != y.shape:
        return FALSE
    return band(*nd.ew(s_cmp('Eq'), x, y).data)


@F('numpy.linalg.norm', 'scipy.linalg.norm')
def f_norm(it, a, kw, st):
    x = of(a[0])
    ax = axis_of(arg(a, kw, 2, 'axis'))
    if len(a) > 1 or 'ord' in kw:
        raise Bad('norm')
    return nd.reduce_axis(lambda l: s_sqrt(add_all([T.mul(v, T.conj(v)) for v in l])), x, ax)


@F('numpy.linalg.det', 'scipy.linalg.det')
def f_det(it, a, kw, st):
    x = of(a[0])
    if x.ndim != 2 or x.shape[0] != x.shape[1] or x.shape[0] > 4:
        raise Bad('det')

    def det(m):
        if not m:
            return Const(1)
        r = Const(0)
        for j, v in enumerate(m[0]):
            if not nd.zero(v):
                t = T.mul(v, det([row[:j] + row[j + 1:] for row in m[1:]]))
                r = T.add(r, t) if j % 2 == 0 else T.sub(r, t)
        return r
    return det([r.data for r in x.rows()])


@F('numpy.flip', 'numpy.fliplr', 'numpy.flipud')
def f_flip(it, a, kw, st):
    x = of(a[0])
    ax = axis_of(arg(a, kw, 1, 'axis')) if it.cur.endswith('flip') else 1 if it.cur.endswith('lr') else 0
    axs = range(x.ndim) if ax is None else [y % x.ndim for y in (ax if isinstance(ax, list) else [ax])]
    return nd.build(x.shape, lambda ix: x.at([x.shape[k] - 1 - i if k in axs else i for k, i in enumerate(ix)]))


@F('numpy.roll')
def f_roll(it, a, kw, st):
    x, s, ax = of(a[0]), ival(arg(a, kw, 1, 'shift')), axis_of(arg(a, kw, 2, 'axis'))
    if ax is None:
        n = len(x.data)
        return A(x.shape, [x.data[(i - s) % n] for i in range(n)])
    return nd.build(x.shape, lambda ix: x.at([(i - s) % x.shape[k] if k == ax % x.ndim else i for k, i in enumerate(ix)]))


@F('numpy.squeeze')
def f_squeeze(it, a, kw, st):
    x = of(a[0])
    return A([n for n in x.shape if n != 1], x.data)


@F('numpy.expand_dims')
def f_expand(it, a, kw, st):
    x, k = of(a[0]), ival(arg(a, kw, 1, 'axis'))
    s = list(x.shape)
    s.insert(k % (x.ndim + 1), 1)
    return A(s, x.data)


@F('numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.atleast_3d')
def f_atleast(it, a, kw, st):
    x = of(a[0])
    n = int(it.cur[-2])
    if n == 3:
        raise Bad('3d')
    return x if x.ndim >= n else A((1,) * (n - x.ndim) + x.shape, x.data)


@F('numpy.broadcast_to')
def f_bto(it, a, kw, st):
    return nd.bto(of(a[0]), ints(a[1]))


@F('numpy.argsort', 'numpy.sort')
def f_sort(it, a, kw, st):
    x = of(a[0])
    if x.ndim != 1 or kw:
        raise Bad('sort')
    o = sorted(range(len(x.data)), key=lambda i: nd.real_num(x.data[i]))
    return A(x.shape, [Const(i) if 'arg' in it.cur else x.data[i] for i in o])


@F('numpy.argmax', 'numpy.argmin')
def f_arg(it, a, kw, st):
    x = of(a[0])
    if len(a) > 1 or kw:
        raise Bad('axis')
    v = [nd.real_num(y) for y in x.data]
    return Const(v.index(max(v) if 'max' in it.cur else min(v)))


@F('numpy.cumsum', 'numpy.cumprod')
def f_cum(it, a, kw, st):
    x = of(a[0])
    ax = axis_of(arg(a, kw, 1, 'axis'))
    op = T.add if 'sum' in it.cur else T.mul
    if ax is None:
        x = nd.reshape(x, [-1])
    elif x.ndim != 1:
        raise Bad('axis')
    out = []
    for v in x.data:
        out.append(v if not out else op(out[-1], v))
    return A(x.shape, out)


@F('numpy.diff')
def f_diff(it, a, kw, st):
    x = of(a[0])
    if x.ndim != 1 or kw or len(a) > 1:
        raise Bad('diff')
    return A((len(x.data) - 1,), [T.sub(q, p) for p, q in zip(x.data, x.data[1:])])


@F('numpy.unique')
def f_unique(it, a, kw, st):
    x = of(a[0])
    if kw or len(a) > 1:
        raise Bad('unique')
    d = {}
    for v in x.data:
        d.setdefault(round(nd.real_num(v), 12), v)
    return A((len(d),), [d[k] for k in sorted(d)])


@F('numpy.size')
def f_size(it, a, kw, st):
    return Const(len(of(a[0]).data))


@F('numpy.shape')
def f_shape(it, a, kw, st):
    return Tup([Const(n) for n in of(a[0]).shape])


@F('numpy.ndim')
def f_ndim(it, a, kw, st):
    return Const(of(a[0]).ndim)


@F('numpy.isreal', 'numpy.iscomplex')
def f_isreal(it, a, kw, st):
    def f(x):
        if poly(x) == poly(T.conj(x)):
            return bool_(not it.cur.endswith('complex'))
        n = nd.num(x)
        if n is None:
            raise Bad('undecided')
        return bool_((abs(n.imag) < 1e-14) != it.cur.endswith('complex'))
    return of(a[0]).map(f)


@F('numpy.iscomplexobj', 'numpy.isrealobj')
def f_iscobj(it, a, kw, st):
    raise Bad('dtype')


SP = {'scipy.sparse.' + n for n in ('csr_matrix', 'coo_matrix', 'lil_matrix', 'csc_matrix', 'dok_matrix', 'bsr_matrix',
                                    'csr_array', 'coo_array', 'lil_array', 'csc_array', 'dok_array')}


@F(*SP)
def f_sparse(it, a, kw, st):
    v = a[0]
    if isinstance(v, Tup) and len(v.items) == 2:
        p, q = v.items
        if all(isinstance(x, Const) for x in (p, q)):
            s = ints(v)
            return A(s, [Const(0)] * nd.prod(s))
        if isinstance(q, Tup) and len(q.items) == 2:
            r, c = ints(q.items[0]), ints(q.items[1])
            s = arg(a, kw, 1, 'shape')
            if s is None:
                raise Bad('shape')
            s = ints(s)
            data = [Const(0)] * nd.prod(s)
            val = of(p).data
            val = val * len(r) if len(val) == 1 else val
            for i, j, x in zip(r, c, val):
                data[i * s[1] + j] = T.add(data[i * s[1] + j], x)
            return A(s, data)
    x = of(v)
    return x if x.ndim == 2 else nd.reshape(x, [1, -1])


@F('scipy.sparse.diags', 'scipy.sparse.diags_array')
def f_diags(it, a, kw, st):
    k = arg(a, kw, 1, 'offsets')
    if k is None or isinstance(k, Const):
        x = of(a[0])
        if x.ndim == 2:
            x = A(x.shape[1:], x.data) if x.shape[0] == 1 else x
        return nd.diag(x, 0 if k is None else ival(k))
    out = None
    for d, o in zip(elems(a[0]), ints(k)):
        m = nd.diag(d, o)
        out = m if out is None else nd.ew(T.add, out, m)
    return out


def call(it, name, args, kw, st, node):
    """Value of an external call, or None."""
    if name.startswith('numpy.random.'):
        r = rng_call(it, name.split('.')[-1], args, kw, st)
        if r is not None:
            return r
    h = FN.get(name)
    if h is None:
        short = name[6:] if name.startswith('numpy.') else None
        if short in UFUNC1 and not (short in ('round', 'around') and (len(args) > 1 or kw)):
            h = lambda it, a, kw, st: of(a[0]).map(UFUNC1[short])
        elif short in UFUNC2:
            h = lambda it, a, kw, st: nd.ew(UFUNC2[short], of(a[0]), of(a[1]))
        elif short in REDUCE:
            h = lambda it, a, kw, st: nd.reduce_axis(REDUCE[short], of(a[0]), axis_of(arg(a, kw, 1, 'axis')), flag(kw, 'keepdims'))
        elif name.startswith('numpy.') and short and short.endswith('.outer') and short[:-6] in UFUNC2:
            h = lambda it, a, kw, st: outer(UFUNC2[short[:-6]], of(a[0]), of(a[1]))
        elif name == 'builtins.abs':
            h = lambda it, a, kw, st: of(a[0]).map(s_abs) if arr(a[0]) else None
        elif name == 'builtins.len':
            h = lambda it, a, kw, st: Const(of(a[0]).shape[0]) if arr(a[0]) else None
        elif name in ('builtins.float', 'builtins.complex') and args:
            h = lambda it, a, kw, st: of(a[0]).data[0] if arr(a[0]) and len(of(a[0]).data) == 1 else None
        elif name in ('builtins.all', 'builtins.any', 'builtins.sum', 'builtins.max', 'builtins.min') and len(args) == 1:
            h = lambda it, a, kw, st: nd.reduce_axis(REDUCE[name[9:]], of(a[0]), 0) if arr(a[0]) else None
        elif name in ('builtins.list', 'builtins.tuple') and args and arr(args[0]):
            def h(it, a, kw, st):
                l = [back(x) for x in of(a[0]).rows()]
                return Tup(l) if name.endswith('tuple') else it.alloc(st, I_().HSeq('list', [Seg((), TRUE, x) for x in l]))
    if h is None:
        return None
    a = [it.snap(x, st) for x in args]
    k = {n: it.snap(x, st) for n, x in kw.items()}
    if any(isinstance(x, Ite) and not is_bool(x) for x in list(a) + list(k.values())):
        names = sorted(k)

        def leaf(*vs):
            r = one(it, h, list(vs[:len(a)]), dict(zip(names, vs[len(a):])), st, name)
            if r is None:
                raise Bad('leaf')
            return r
        try:
            return lift(leaf, *(a + [k[n] for n in names]))
        except Bad:
            return None
    return one(it, h, a, k, st, name)


def one(it, h, a, k, st, name):
    it.cur = name
    try:
        r = h(it, a, k, st)
    except (Bad, IndexError, ValueError, TypeError, AttributeError):
        return None
    typ = None
    if name in SP or name.startswith('scipy.sparse.'):
        typ = 'csr_matrix'
    elif name.startswith('tinyarray'):
        typ = 'ta.ndarray_float'
    else:
        t = typ_of(a)
        typ = t
    return back(r, typ)


def typ_of(vs):
    for v in vs:
        if arr(v) and v.typ and v.typ & SPARSE:
            return v.typ
    return None


def flag(kw, n):
    v = kw.get(n)
    return isinstance(v, Const) and bool(v.v)


def outer(f, x, y):
    return A(x.shape + y.shape, [f(p, q) for p in x.data for q in y.data])


# --- attributes, methods, operators ---------------------------------------------------------

def attr(it, o, name):
    """Attribute of an array, or None."""
    x = tryof(o)
    if x is None:
        return None
    try:
        if name in ('T', 'H'):
            r = nd.transpose(x)
            if name == 'H':
                return back(r.map(T.conj), o.typ)
            v = back(r, o.typ)
            view(it, v, o, nd.transpose(A(x.shape, range(len(x.data)))).data)
            return v
        if name == 'shape':
            return Tup([Const(n) for n in x.shape])
        if name == 'ndim':
            return Const(x.ndim)
        if name in ('size', 'nnz') and not (o.typ and o.typ & SPARSE):
            return Const(len(x.data))
        if name == 'real':
            return back(x.map(s_real), o.typ)
        if name == 'imag':
            return back(x.map(s_imag), o.typ)
        if name == 'flat':
            return back(nd.reshape(x, [-1]), o.typ)
    except Bad:
        return None
    return None


def view(it, v, base, flat):
    l = it.__dict__.setdefault('views', [])
    if len(l) > 400:
        del l[:200]
    l.append((v, base, list(flat)))


def gated(v):
    """Table of a gated value, entry by entry."""
    if isinstance(v, T.Ite):
        a, b = gated(v.hi), gated(v.lo)
        if a is None or b is None or a.shape != b.shape:
            return None
        return A(a.shape, [T.ite(T.pred(v.p), x, y) for x, y in zip(a.data, b.data)])
    return tryof(v)


def modified(it, old, new, st):
    """old was modified in place and now reads new: views and bases follow."""
    todo, done = [(old, new)], []
    while todo and len(done) < 50:
        o, n = todo.pop()
        if any(o is d for d in done):
            continue
        done.append(o)
        if o is not old:
            it.replace_alias(o, n, st)
        l = it.__dict__.get('views', [])
        for k, (v, b, flat) in enumerate(l):
            if b is o and not any(v is d for d in done):
                nb, vv = gated(n), tryof(v)
                if nb is None or vv is None:
                    it.taint = True
                    continue
                nv = back(A(vv.shape, [nb.data[f] for f in flat]), v.typ)
                l[k] = (nv, n, flat)
                todo.append((v, nv))
            elif v is o and not any(b is d for d in done):
                nvd, bb = gated(n), tryof(b)
                if nvd is None or bb is None or len(nvd.data) != len(flat):
                    it.taint = True
                    continue
                data = list(bb.data)
                for f, x in zip(flat, nvd.data):
                    data[f] = x
                nb = back(A(bb.shape, data), b.typ)
                l[k] = (n, nb, flat)
                todo.append((b, nb))
            elif v is o and any(b is d for d in done) or b is o:
                pass


def getitem(it, o, i):
    x = tryof(o)
    if x is None:
        return None
    try:
        sh, flat, adv = nd.index_map(x.shape, i)
        r = A(sh, [x.data[k] for k in flat])
    except (Bad, IndexError):
        return None
    v = back(r, o.typ)
    if not adv and r.shape and arr(v):
        view(it, v, o, flat)
    return v


def misfit(it, o, i, v):
    """The extents of the value assigned are known and do not fit those of the selection."""
    x, y = tryof(o), tryof(v)
    if x is None or y is None or not arr(v) or o.typ != {'np.ndarray'} or v.typ != {'np.ndarray'}:
        return False
    try:
        sh = nd.index_map(x.shape, i)[0]
    except (Bad, IndexError):
        return False
    ysh = y.shape
    while len(ysh) > len(sh) and ysh[0] == 1:
        ysh = ysh[1:]
    return len(ysh) > len(sh) or any(n != 1 and n != m for n, m in zip(ysh[::-1], sh[::-1]))


def store(it, o, i, v):
    x, y = tryof(o), tryof(v)
    if x is None or y is None:
        return None
    try:
        return back(nd.setitem(x, i, y), o.typ)
    except (Bad, IndexError):
        return None


def binop(it, op, a, b):
    if not (arr(a) or arr(b)):
        return None
    sp = [v.typ and v.typ & SPARSE for v in (a, b) if arr(v)]
    x, y = tryof(a), tryof(b)
    if x is None or y is None:
        return None
    try:
        if op == 'MatMult' or op == 'Mult' and any(sp) and len(sp) == 2:
            r = nd.matmul(x, y)
        elif op in BIN:
            r = nd.ew(UFUNC2[BIN[op]], x, y)
        else:
            return None
    except (Bad, IndexError, ValueError):
        return None
    t = None
    if sp and all(sp) or any(sp) and op in ('Mult', 'Div') and len(sp) == 1:
        t = 'csr_matrix'
    return back(r, t)


def compare(it, op, a, b):
    if not (arr(a) or arr(b)):
        x, y = nd.num(a) if isinstance(a, (Const, Poly)) else None, nd.num(b) if isinstance(b, (Const, Poly)) else None
        if x is None or y is None or op not in ('Lt', 'Gt', 'LtE', 'GtE'):
            return None
        try:
            return s_cmp(op)(a, b)
        except Bad:
            return None
    x, y = tryof(a), tryof(b)
    if x is None or y is None:
        return None
    try:
        r = nd.ew(s_cmp(op), x, y)
    except Bad:
        return None
    return back(r)


def neg(it, a):
    x = tryof(a)
    return None if x is None else back(x.map(T.neg), a.typ)


METHODS = {'conj', 'conjugate', 'dot', 'copy', 'transpose', 'reshape', 'ravel', 'flatten', 'sum', 'prod', 'max', 'min', 'all', 'any',
           'trace', 'diagonal', 'astype', 'repeat', 'swapaxes', 'tolist', 'squeeze', 'toarray', 'todense', 'tocsr', 'tocoo',
           'tolil', 'tocsc', 'todok', 'getH', 'item', 'nonzero', 'argsort', 'argmax', 'argmin', 'cumsum', 'mean', 'multiply', 'power',
           'adjoint', 'round', 'fill', 'setdiag', 'eliminate_zeros', 'resize', 'take', 'sort'}


def method(it, o, name, args, kw, st):
    if isinstance(o, Poly) and o.typ == frozenset(['RandomState']):
        r = rng_method(it, o, name, args, kw, st)
        return r
    if name not in METHODS or not arr(o):
        return None
    x = tryof(o)
    if x is None:
        return None
    a = [it.snap(v, st) for v in args]
    k = {n: it.snap(v, st) for n, v in kw.items()}
    if any(isinstance(v, Ite) and not is_bool(v) for v in list(a) + list(k.values())):
        return None
    try:
        return meth(it, o, x, name, a, k, st)
    except (Bad, IndexError, ValueError, TypeError, AttributeError):
        return None


def meth(it, o, x, name, a, k, st):
    sp = bool(o.typ and o.typ & SPARSE)
    if name in ('conj', 'conjugate'):
        return back(x.map(T.conj), o.typ)
    if name in ('adjoint', 'getH'):
        return back(nd.transpose(x).map(T.conj), o.typ)
    if name == 'dot':
        return back(dot(x, of(a[0])))
    if name == 'copy':
        return back(A(x.shape, x.data), o.typ)
    if name in ('transpose', 'reshape', 'ravel', 'squeeze', 'swapaxes', 'diagonal', 'flatten'):
        idx = A(x.shape, list(range(len(x.data))))

        def g(y):
            if name == 'transpose':
                ax = [v for v in (a if len(a) != 1 else items_or(a[0]))]
                return nd.transpose(y, [ival(v) for v in ax] if ax and ax != [NONE] else None)
            if name == 'reshape':
                return nd.reshape(y, ints(a[0]) if len(a) == 1 else [ival(v) for v in a])
            if name in ('ravel', 'flatten'):
                return nd.reshape(y, [-1])
            if name == 'squeeze':
                return A([n for n in y.shape if n != 1], y.data)
            if name == 'swapaxes':
                return swapaxes(y, ival(a[0]), ival(a[1]))
            return nd.diag(y, ival(a[0]) if a else 0) if y.ndim == 2 else None
        r = g(x)
        v = back(r, o.typ)
        if name != 'flatten' and not sp:
            view(it, v, o, g(idx).data)
        return v
    if name in REDUCE:
        return back(nd.reduce_axis(REDUCE[name], x, axis_of(arg(a, k, 0, 'axis')), flag(k, 'keepdims')))
    if name == 'trace':
        return add_all(nd.diag(x).data)
    if name == 'astype':
        return back(cast(it, A(x.shape, x.data), a[0], st), o.typ)
    if name == 'repeat':
        it.cur = 'numpy.repeat'
        return back(f_repeat(it, [o] + a, k, st))
    if name == 'tolist':
        def build_(y):
            if not isinstance(y, A):
                return y
            return it.alloc(st, I_().HSeq('list', [Seg((), TRUE, build_(r) if r.shape else r.data[0]) for r in y.rows()]))
        return build_(x)
    if name in ('toarray', 'todense'):
        return back(A(x.shape, x.data), 'np.ndarray')
    if name in ('tocsr', 'tocoo', 'tolil', 'tocsc', 'todok'):
        return back(A(x.shape, x.data), 'csr_matrix' if name == 'tocsr' else o.typ)
    if name == 'item':
        if a:
            raise Bad('item')
        return x.data[0] if len(x.data) == 1 else None
    if name == 'nonzero':
        return nonzero(x.map(truth))
    if name in ('argsort', 'argmax', 'argmin', 'cumsum'):
        it.cur = 'numpy.' + name
        return back(FN['numpy.' + name](it, [o] + a, k, st))
    if name == 'multiply':
        return back(nd.ew(T.mul, x, of(a[0])), o.typ)
    if name == 'power':
        return back(nd.ew(s_pow, x, of(a[0])), o.typ)
    if name == 'round' and not a:
        return back(x.map(s_round), o.typ)
    if name == 'take' and len(a) == 1 and x.ndim == 1:
        return back(nd.getitem(x, a[0]), o.typ)
    if name == 'eliminate_zeros':
        return NONE
    if name in ('fill', 'setdiag', 'sort', 'resize'):
        it.taint = True
        return None
    return None


def items_or(v):
    return items(v) if isinstance(v, (Tup, Seq)) else [v]


# --- random numbers -----------------------------------------------------------------------------

def rng(source):
    return atom('rng', (source,), 's', (), 'RandomState')


GLOBAL = rng(Const('numpy.random'))


def draw(it, r, shape, name='rnd'):
    n = it.__dict__.setdefault('draws', [0])
    n[0] += 1
    t = 'float' if name == 'rnd' else 'int'
    if shape is None:
        return atom(name, (r, Const(n[0])), 's', ('real',), t)
    return back(nd.build(shape, lambda ix: atom(name, (r, Const(n[0])) + tuple(Const(i) for i in ix), 's', ('real',), t)))


def sizes(v):
    return None if v is None or v == NONE else ints(v)


def rng_method(it, r, name, args, kw, st):
    a = [it.snap(v, st) for v in args]
    k = {n: it.snap(v, st) for n, v in kw.items()}
    try:
        if name in ('randn', 'rand'):
            return draw(it, r, [ival(x) for x in a] if a else None)
        if name in ('standard_normal', 'random_sample', 'random', 'ranf', 'sample'):
            return draw(it, r, sizes(arg(a, k, 0, 'size')))
        if name in ('normal', 'uniform'):
            return draw(it, r, sizes(arg(a, k, 2, 'size')))
        if name in ('randint', 'integers'):
            s = sizes(arg(a, k, 2, 'size'))
            lo, hi = arg(a, k, 0, 'low'), arg(a, k, 1, 'high')
            bit = lo == Const(2) and hi in (None, NONE) or lo == Const(0) and hi == Const(2)
            return draw(it, r, s, 'rndbit' if bit else 'rndint')
        if name == 'choice':
            x = tryof(a[0])
            v = sorted(nd.num(y).real for y in x.data) if x is not None and all(nd.num(y) is not None for y in x.data) else None
            if arg(a, k, 3, 'p') not in (None, NONE):
                v = None
            return draw(it, r, sizes(arg(a, k, 1, 'size')), 'rndbit' if v == [0, 1] else 'rndsign' if v == [-1, 1] else 'rndchoice')
    except Bad:
        return None
    return None


def rng_call(it, name, args, kw, st):
    if name in ('RandomState', 'default_rng', 'Generator', 'SeedSequence'):
        return rng(Tup([it.snap(a, st) for a in args]))
    if name == 'seed':
        it.note('global seed')
        it.globalseed = True
        return NONE
    return rng_method(it, GLOBAL, name, args, kw, st)
