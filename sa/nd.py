"""Constant-extent array domain: arrays whose extents are known are kept as tables
of scalar terms. Every operation is a total function on these tables or gives up
(None), in which case the ordinary vocabulary of lib.py applies."""
import itertools
from fractions import Fraction
from .terms import *
from . import terms as T
from . import build as B
from . import arrays as AR

LIMIT = 20000


class Bad(Exception):
    pass


class A:
    __slots__ = ('shape', 'data')

    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), list(data)
        n = 1
        for x in self.shape:
            n *= x
        if n != len(self.data) or n > LIMIT:
            raise Bad('extent')

    @property
    def ndim(self):
        return len(self.shape)

    def strides(self):
        s, r = 1, []
        for x in reversed(self.shape):
            r.append(s)
            s *= x
        return r[::-1]

    def at(self, ix):
        return self.data[sum(i * s for i, s in zip(ix, self.strides()))]

    def rows(self):
        """Sub-arrays along the first axis (terms when one-dimensional)."""
        if not self.shape:
            raise Bad('scalar')
        n = self.shape[0]
        k = len(self.data) // n if n else 0
        return [A(self.shape[1:], self.data[i * k:(i + 1) * k]) for i in range(n)]

    def map(self, f):
        return A(self.shape, [f(x) for x in self.data])


def build(shape, f):
    return A(shape, [f(ix) for ix in itertools.product(*[range(n) for n in shape])])


# --- conversion --------------------------------------------------------------------

def from_nested(t):
    if isinstance(t, Tup):
        sub = [from_nested(x) for x in t.items]
        if not sub:
            return A((0,), [])
        sh = sub[0].shape
        if any(s.shape != sh for s in sub):
            raise Bad('ragged')
        return A((len(sub),) + sh, [x for s in sub for x in s.data])
    return A((), [t])


def scalar(v):
    return isinstance(v, Const) or is_bool(v) or isinstance(v, Poly) and v.kind == 's' and not (v.typ and v.typ & {'coll', 'tuple', 'str', 'class', 'iter'})


def of_letter(l):
    a, c, t, i = l
    if i:
        raise Bad('inverse')
    if a.name == 'array':
        if len(a.args) == 2:
            x = A([int(B.numconst(n)) for n in a.args[1].items], [])
        else:
            x = from_nested(a.args[0])
    else:
        e = AR.letter_expl((a, False, False, False))
        if e is None:
            raise Bad('not explicit')
        x = A((len(e), len(e[0])), [y for r in e for y in r]) if AR.is2(e) else A((len(e),), e)
    if t:
        x = transpose(x)
    return x.map(T.conj) if c else x


_cache = {}


def of(v, lists=True):
    """Table of a term; Bad if it is not one with known extents."""
    if isinstance(v, A):
        return v
    if scalar(v):
        return A((), [v])
    if isinstance(v, Poly):
        if v.kind not in ('m', 'v'):
            raise Bad('kind')
        k = id(v)
        h = _cache.get(k)
        if h is not None and h[0] is v:
            return h[1]
        out = None
        for (s, w), c in v.terms.items():
            if not w:
                raise Bad('number among matrices')
            r = of_letter(w[0])
            for l in w[1:]:
                r = matmul(r, of_letter(l))
            if s or c != (1, 0):
                co = simplify(Poly({(s, ()): c}, 's'))
                r = r.map(lambda x: T.mul(co, x))
            out = r if out is None else ew(T.add, out, r)
        if out is None:
            raise Bad('zero of unknown extent')
        if len(_cache) > 4000:
            _cache.clear()
        _cache[k] = (v, out)
        return out
    if lists and isinstance(v, Tup):
        return stack([of(x) for x in v.items])
    if lists and isinstance(v, Seq) and all(isinstance(s, Seg) and not s.binders and s.guard == TRUE for s in v.segs):
        return stack([of(s.payload) for s in v.segs])
    raise Bad('unknown')


def stack(l, axis=0):
    if not l:
        return A((0,), [])
    sh = l[0].shape
    if any(x.shape != sh for x in l):
        raise Bad('ragged')
    r = A((len(l),) + sh, [y for x in l for y in x.data])
    return moveaxis(r, 0, axis % (len(sh) + 1)) if axis else r


def known(v):
    """Is this an array term with known extents (not a number)?"""
    if not isinstance(v, Poly) or v.kind not in ('m', 'v'):
        return False
    try:
        of(v)
        return True
    except Bad:
        return False


def nest(a):
    if not a.shape:
        return a.data[0]
    return Tup([nest(r) for r in a.rows()])


def back(a, typ=None):
    if not isinstance(a, A):
        return a
    if not a.shape:
        return a.data[0]
    kind = 'v' if a.ndim == 1 else 'm'
    if 0 in a.shape:
        return atom('array', (Tup([]), Tup([Const(n) for n in a.shape])), kind, (), typ or 'np.ndarray')
    return atom('array', (nest(a),), kind, ('stack',) if a.ndim > 2 else (), typ or 'np.ndarray')


def typ_of(*vs):
    for v in vs:
        if isinstance(v, Poly) and v.kind != 's' and v.typ:
            return v.typ
    return None


# --- shape manipulation ----------------------------------------------------------------

def transpose(a, axes=None):
    axes = list(range(a.ndim))[::-1] if axes is None else [x % a.ndim for x in axes]
    if sorted(axes) != list(range(a.ndim)):
        raise Bad('axes')
    sh = [a.shape[x] for x in axes]
    st = a.strides()
    st = [st[x] for x in axes]
    return A(sh, [a.data[sum(i * s for i, s in zip(ix, st))] for ix in itertools.product(*[range(n) for n in sh])])


def moveaxis(a, src, dst):
    src, dst = src % a.ndim, dst % a.ndim
    axes = [x for x in range(a.ndim) if x != src]
    axes.insert(dst, src)
    return transpose(a, axes)


def reshape(a, dims):
    d = list(dims)
    if d.count(-1) == 1:
        r = 1
        for x in d:
            r *= 1 if x == -1 else x
        if r == 0 or len(a.data) % r:
            raise Bad('reshape')
        d[d.index(-1)] = len(a.data) // r
    return A(d, a.data)


def broadcast(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        ds = {s[k - n + len(s)] for s in shapes if k - n + len(s) >= 0} - {1}
        if len(ds) > 1:
            raise Bad('broadcast')
        out.append(ds.pop() if ds else 1)
    return tuple(out)


def bto(a, shape):
    if a.shape == tuple(shape):
        return a
    k = len(shape) - a.ndim
    if broadcast([a.shape, tuple(shape)]) != tuple(shape):
        raise Bad('broadcast')
    st = a.strides()
    return A(shape, [a.data[sum((0 if a.shape[j] == 1 else ix[j + k]) * st[j] for j in range(a.ndim))]
                     for ix in itertools.product(*[range(n) for n in shape])])


def ew(f, *xs):
    sh = broadcast([x.shape for x in xs])
    xs = [bto(x, sh) for x in xs]
    return A(sh, [f(*t) for t in zip(*[x.data for x in xs])])


def dot1(x, y):
    """Inner product; zero factors are skipped."""
    r = Const(0)
    for p, q in zip(x, y):
        if zero(p) or zero(q):
            continue
        r = T.add(r, T.mul(p, q))
    return r


def zero(p):
    return isinstance(p, Const) and not isinstance(p.v, (str, bool)) and p.v == 0 and p.v is not None or isinstance(p, Poly) and not p.terms


def matmul(a, b):
    if not a.shape or not b.shape:
        raise Bad('matmul of numbers')
    if a.ndim > 2 or b.ndim > 2:
        if a.ndim == 1 or b.ndim == 1:
            if b.ndim == 1:
                return stack([matmul(r, b) for r in a.rows()])
            return stack([matmul(a, r) for r in b.rows()])
        lead = broadcast([a.shape[:-2], b.shape[:-2]])
        x, y = bto(a, lead + a.shape[-2:]), bto(b, lead + b.shape[-2:])
        return stack([matmul(p, q) for p, q in zip(x.rows(), y.rows())])
    if a.shape[-1] != b.shape[0]:
        raise Bad('matmul')
    n = a.shape[-1]
    ra = [a.data] if a.ndim == 1 else [r.data for r in a.rows()]
    cb = [b.data] if b.ndim == 1 else [r.data for r in transpose(b).rows()]
    out = [dot1(r, c) for r in ra for c in cb]
    return A(a.shape[:-1] + b.shape[1:], out)


def tensordot(a, b, ax, bx):
    ax, bx = [x % a.ndim for x in ax], [x % b.ndim for x in bx]
    fa, fb = [x for x in range(a.ndim) if x not in ax], [x for x in range(b.ndim) if x not in bx]
    p, q = transpose(a, fa + ax), transpose(b, bx + fb)
    sa, sb = [a.shape[x] for x in fa], [b.shape[x] for x in fb]
    k = 1
    for x, y in zip(ax, bx):
        if a.shape[x] != b.shape[y]:
            raise Bad('tensordot')
        k *= a.shape[x]
    m, n = prod(sa), prod(sb)
    r = matmul(reshape(p, [m, k]), reshape(q, [k, n])) if k else A((m, n), [Const(0)] * (m * n))
    return A(sa + sb, r.data)


def prod(l):
    r = 1
    for x in l:
        r *= x
    return r


def einsum(spec, *xs):
    spec = spec.replace(' ', '')
    if '.' in spec:
        raise Bad('einsum')
    ins, _, out = spec.partition('->')
    ins = ins.split(',')
    if '->' not in spec:
        every = ''.join(ins)
        out = ''.join(sorted(c for c in set(every) if every.count(c) == 1))
    if len(ins) != len(xs):
        raise Bad('einsum')
    size = {}
    for s, x in zip(ins, xs):
        if len(s) != x.ndim:
            raise Bad('einsum')
        for c, n in zip(s, x.shape):
            if size.setdefault(c, n) != n:
                raise Bad('einsum')
    inner = [c for c in size if c not in out]
    if prod(size.values()) > LIMIT:
        raise Bad('size')

    def el(ix):
        env = dict(zip(out, ix))
        r = Const(0)
        for jx in itertools.product(*[range(size[c]) for c in inner]):
            env.update(zip(inner, jx))
            t = None
            for s, x in zip(ins, xs):
                y = x.at([env[c] for c in s])
                if zero(y):
                    t = None
                    break
                t = y if t is None else T.mul(t, y)
            if t is not None:
                r = T.add(r, t)
        return r
    return build([size[c] for c in out], el)


def concat(l, axis=0):
    if not l:
        raise Bad('empty')
    nd = l[0].ndim
    if nd == 0 or any(x.ndim != nd for x in l):
        raise Bad('concatenate')
    axis %= nd
    if axis:
        return moveaxis(concat([moveaxis(x, axis, 0) for x in l], 0), 0, axis)
    if any(x.shape[1:] != l[0].shape[1:] for x in l):
        raise Bad('concatenate')
    return A((sum(x.shape[0] for x in l),) + l[0].shape[1:], [y for x in l for y in x.data])


def kron(a, b):
    n = max(a.ndim, b.ndim)
    a, b = A((1,) * (n - a.ndim) + a.shape, a.data), A((1,) * (n - b.ndim) + b.shape, b.data)
    sh = [x * y for x, y in zip(a.shape, b.shape)]
    return build(sh, lambda ix: T.mul(a.at([i // n for i, n in zip(ix, b.shape)]), b.at([i % n for i, n in zip(ix, b.shape)])))


def diag(a, k=0):
    if a.ndim == 1:
        n = a.shape[0] + abs(k)
        return build((n, n), lambda ix: a.data[min(ix)] if ix[1] - ix[0] == k else Const(0))
    if a.ndim == 2:
        out = [a.at((i, i + k)) for i in range(a.shape[0]) if 0 <= i + k < a.shape[1]]
        return A((len(out),), out)
    raise Bad('diag')


def reduce_axis(f, a, axis, keepdims=False, start=None):
    """f: function on a list of terms."""
    if axis is None:
        r = f(a.data)
        return A((1,) * a.ndim if keepdims else (), [r])
    axes = sorted({x % a.ndim for x in (axis if isinstance(axis, (list, tuple)) else [axis])})
    keep = [x for x in range(a.ndim) if x not in axes]
    t = transpose(a, keep + axes)
    m = prod(a.shape[x] for x in axes)
    n = prod(a.shape[x] for x in keep)
    out = [f(t.data[i * m:(i + 1) * m]) for i in range(n)]
    sh = [1 if x in axes else a.shape[x] for x in range(a.ndim)] if keepdims else [a.shape[x] for x in keep]
    return A(sh, out)


# --- indexing -------------------------------------------------------------------------

def toint(v):
    n = B.numconst(v)
    if n is None or isinstance(v, SConst) or isinstance(n, complex) or int(n) != n or isinstance(v, Const) and isinstance(v.v, bool):
        raise Bad('index')
    return int(n)


def index_map(shape, i):
    """Flat source positions of x[i] and the resulting shape."""
    ix = list(i.items) if isinstance(i, Tup) else [i]
    ell = [k for k, x in enumerate(ix) if isinstance(x, Const) and x.v is Ellipsis]
    used = 0
    conv = []
    for x in ix:
        if isinstance(x, Const) and x.v is Ellipsis:
            conv.append(('e', None))
        elif x == NONE:
            conv.append(('n', None))
        elif isinstance(x, Rec) and x.cls == 'slice':
            conv.append(('s', x))
            used += 1
        elif isinstance(x, Const) and isinstance(x.v, int) and not isinstance(x.v, bool) or B.numconst(x) is not None and not isinstance(x, Const):
            conv.append(('i', toint(x)))
            used += 1
        else:
            a = of(x)
            if a.data and all(isinstance(y, Const) and isinstance(y.v, bool) for y in a.data):
                pos_ = [t for t in itertools.product(*[range(n) for n in a.shape]) if a.at(t).v]
                for k in range(a.ndim):
                    conv.append(('a', A((len(pos_),), [Const(t[k]) for t in pos_])))
                used += a.ndim
            else:
                conv.append(('a', a))
                used += 1
    if used > len(shape) or len(ell) > 1:
        raise Bad('too many indices')
    if not ell:
        conv.append(('e', None))
    full = Rec('slice', [NONE, NONE, NONE])
    out = []
    for c in conv:
        if c[0] == 'e':
            out += [('s', full)] * (len(shape) - used)
        else:
            out.append(c)
    axis = 0
    pos_ = []            # per index: ('s', axis, list) | ('n',) | ('a', axis, A)
    for k, x in out:
        if k == 'n':
            pos_.append(('n',))
            continue
        n = shape[axis]
        if k == 's':
            b = [None if y == NONE else toint(y) for y in x.items]
            pos_.append(('s', axis, list(range(n))[slice(*b)]))
        elif k == 'i':
            if not -n <= x < n:
                raise Bad('out of range')
            pos_.append(('i', axis, x % n))
        else:
            v = [toint(y) for y in x.data]
            if any(not -n <= y < n for y in v):
                raise Bad('out of range')
            pos_.append(('a', axis, A(x.shape, [y % n for y in v])))
        axis += 1
    adv = [k for k, p in enumerate(pos_) if p[0] == 'a']
    advi = [k for k, p in enumerate(pos_) if p[0] in 'ai'] if adv else []
    dims, gens = [], []
    if adv:
        bsh = broadcast([pos_[k][2].shape for k in adv])
        contiguous = all(pos_[k][0] in 'ai' for k in range(advi[0], advi[-1] + 1))
        place = advi[0] if contiguous else -1
    # result dimensions in order: list of ('adv',) / ('s', axis, list) / ('n',)
    res = []
    if adv and place == -1:
        res.append(('adv',))
    for k, p in enumerate(pos_):
        if adv and k == place:
            res.append(('adv',))
        if p[0] == 's' or p[0] == 'n':
            res.append(p)
    shp = []
    for p in res:
        if p[0] == 'adv':
            shp += list(bsh)
        elif p[0] == 's':
            shp.append(len(p[2]))
        else:
            shp.append(1)
    st, s = [], 1
    for x in reversed(shape):
        st.append(s)
        s *= x
    st = st[::-1]
    base = sum(p[2] * st[p[1]] for p in pos_ if p[0] == 'i')
    flat = [base]
    for p in res:
        if p[0] == 's':
            flat = [f + y * st[p[1]] for f in flat for y in p[2]]
        elif p[0] == 'adv':
            offs = [0] * prod(bsh)
            for k in adv:
                q = bto(pos_[k][2].map(Const), bsh)
                offs = [o + y.v * st[pos_[k][1]] for o, y in zip(offs, q.data)]
            flat = [f + o for f in flat for o in offs]
    return tuple(shp), flat, bool(adv)


def getitem(a, i):
    sh, flat, _ = index_map(a.shape, i)
    return A(sh, [a.data[k] for k in flat])


def setitem(a, i, v):
    sh, flat, _ = index_map(a.shape, i)
    while v.ndim > len(sh) and v.shape[0] == 1:
        v = A(v.shape[1:], v.data)
    v = bto(v, sh)
    data = list(a.data)
    for k, x in zip(flat, v.data):
        data[k] = x
    return A(a.shape, data)


# --- numbers --------------------------------------------------------------------------------

def num(v):
    """Numerical value of a constant term (square roots, pi), or None."""
    if isinstance(v, Const):
        return complex(v.v) if isinstance(v.v, (int, float, complex)) and v.v is not None else None
    p = poly(v)
    if p is None or p.kind != 's':
        return None
    out = 0j
    for (s, w), c in p.terms.items():
        if w:
            return None
        x = complex(float(c[0]), float(c[1]))
        for f in s:
            try:
                l, e = f
            except Exception:
                return None
            b = num_atom(l[0])
            if b is None or not isinstance(e, (int, Fraction)):
                return None
            if l[1]:
                b = b.conjugate()
            try:
                x *= b ** (float(e) if isinstance(e, Fraction) else e)
            except ZeroDivisionError:
                return None
        out += x
    return out


def num_atom(a):
    import math
    import cmath
    if a.name == 'pi':
        return complex(math.pi)
    if a.name == 'num:e':
        return complex(math.e)
    if a.args:
        n = [num(x) if isinstance(x, (Const, Poly)) else None for x in a.args]
        if None in n:
            return None
        f = {'sqrt': cmath.sqrt, 'cos': cmath.cos, 'sin': cmath.sin, 'exp': cmath.exp, 'abs': lambda x: complex(abs(x)),
             'tan': cmath.tan, 'arccos': cmath.acos, 'arcsin': cmath.asin}.get(a.name)
        if f is not None and len(n) == 1:
            return f(n[0])
        if a.name == 'arctan2':
            return complex(math.atan2(n[0].real, n[1].real))
    return None


def real_num(v):
    n = num(v)
    if n is None or abs(n.imag) > 1e-12 * (1 + abs(n)):
        raise Bad('not a real constant')
    return n.real
