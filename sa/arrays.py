"""Explicit small arrays: 'array' atoms holding nested tuples of scalar terms."""
from fractions import Fraction
from .terms import *
from . import terms as T
from . import build as B

ONE = (Fraction(1), Fraction(0))


def nested(t):
    """Nested Tup -> nested list (depth 1 or 2) or None."""
    if not isinstance(t, Tup):
        return None
    if all(isinstance(x, Tup) for x in t.items) and t.items:
        rows = [list(x.items) for x in t.items]
        if len({len(r) for r in rows}) != 1 or any(isinstance(y, Tup) for r in rows for y in r):
            return None
        return rows
    if any(isinstance(x, Tup) for x in t.items):
        return None
    return list(t.items)


def is2(l):
    return bool(l) and isinstance(l[0], list)


def amap(f, l):
    return [[f(y) for y in r] for r in l] if is2(l) else [f(y) for y in l]


def letter_expl(l):
    a, c, t, i = l
    if i:
        return None
    if a.name == 'array':
        n = nested(a.args[0])
    elif a.name == 'eye' and B.numconst(a.args[0]) is not None:
        k = int(B.numconst(a.args[0]))
        n = [[Const(1 if x == y else 0) for y in range(k)] for x in range(k)]
    elif a.name == 'zeros' and a.args and isinstance(a.args[0], Tup) and all(B.numconst(x) is not None for x in a.args[0].items):
        d = [int(B.numconst(x)) for x in a.args[0].items]
        if len(d) == 1:
            n = [Const(0)] * d[0]
        elif len(d) == 2:
            n = [[Const(0)] * d[1] for _ in range(d[0])]
        else:
            return None
    elif a.name == 'zeros' and a.args and B.numconst(a.args[0]) is not None:
        n = [Const(0)] * int(B.numconst(a.args[0]))
    else:
        return None
    if n is None:
        return None
    if t and is2(n):
        n = [list(r) for r in zip(*n)]
    if c:
        n = amap(T.conj, n)
    return n


def dot(x, y):
    r = Const(0)
    for p, q in zip(x, y):
        r = T.add(r, T.mul(p, q))
    return r


def prod2(x, y):
    if is2(x) and is2(y):
        return [[dot(r, [z[k] for z in y]) for k in range(len(y[0]))] for r in x] if len(x[0]) == len(y) else None
    if is2(x):
        return [dot(r, y) for r in x] if len(x[0]) == len(y) else None
    if is2(y):
        return [dot(x, [z[k] for z in y]) for k in range(len(y[0]))] if len(x) == len(y) else None
    return None


def expl(v):
    p = poly(v)
    if p is None or p.kind not in ('m', 'v') or not p.terms:
        return None
    out = None
    for (s, w), c in p.terms.items():
        r = None
        for l in w:
            e = letter_expl(l)
            if e is None:
                return None
            r = e if r is None else prod2(r, e)
            if r is None:
                return None
        if r is None:
            return None
        co = simplify(Poly({(s, ()): c}, 's'))
        r = amap(lambda x: T.mul(co, x), r)
        if out is None:
            out = r
        else:
            if is2(out) != is2(r) or len(out) != len(r):
                return None
            out = [[T.add(x, y) for x, y in zip(a, b)] for a, b in zip(out, r)] if is2(out) else [T.add(x, y) for x, y in zip(out, r)]
    return out


def mk(l, typ=None):
    t = Tup([Tup(r) for r in l]) if is2(l) else Tup(l)
    return atom('array', (t,), 'm' if is2(l) else 'v', (), typ or 'np.ndarray')


def norm(v):
    """Explicit form when there is one."""
    def leaf(x):
        if not isinstance(x, Poly) or x.kind not in ('m', 'v'):
            return x
        a = B.single_atom(x)
        if a is not None and a.name == 'array':
            return x
        if not any(l[0].name in ('array',) for s, w in x.terms for l in w):
            return x
        e = expl(x)
        return x if e is None else mk(e, x.typ)
    return lift(leaf, v)


def emul(x, y):
    a, b = expl(x), expl(y)
    if a is None or b is None or is2(a) != is2(b) or len(a) != len(b):
        return None
    return mk([[T.mul(p, q) for p, q in zip(r, s)] for r, s in zip(a, b)] if is2(a) else [T.mul(p, q) for p, q in zip(a, b)])


def shape(v):
    e = expl(v)
    if e is None:
        return None
    return Tup([Const(len(e)), Const(len(e[0]))]) if is2(e) else Tup([Const(len(e))])


# --- explicit mode: arrays with known extents --------------------------------------

def full(e):
    return e if is2(e) else [e]


def bcast(f, x, y):
    """Elementwise function with numpy broadcasting; scalars are terms. None if the extents do not fit."""
    sx, sy = isinstance(x, list), isinstance(y, list)
    if not sx and not sy:
        return f(x, y)
    one = not (sx and is2(x) or sy and is2(y))
    a = full(x) if sx else [[x]]
    b = full(y) if sy else [[y]]
    n, m = max(len(a), len(b)), max(len(a[0]), len(b[0]))
    if len(a) not in (1, n) or len(b) not in (1, n) or len(a[0]) not in (1, m) or len(b[0]) not in (1, m):
        return None
    r = [[f(a[i % len(a)][j % len(a[0])], b[i % len(b)][j % len(b[0])]) for j in range(m)] for i in range(n)]
    return r[0] if one else r


def side(v):
    """Explicit list, scalar term, or None."""
    p = poly(v)
    if p is None:
        return None
    if p.kind == 's':
        return v
    return expl(v)


def elementwise(f, x, y):
    a, b = side(x), side(y)
    if a is None or b is None or not (isinstance(a, list) or isinstance(b, list)):
        return None
    r = bcast(f, a, b)
    if r is None:
        return None
    return mk(r, T.join_typ(poly(x), poly(y)) if poly(x).kind != 's' and poly(y).kind != 's' else
              (poly(x).typ if poly(x).kind != 's' else poly(y).typ))


def ints(v):
    """Explicit integer index list, or None."""
    if isinstance(v, T.Seq) and all(isinstance(s, T.Seg) and not s.binders and s.guard == TRUE for s in v.segs):
        v = Tup([s.payload for s in v.segs])
    e = list(v.items) if isinstance(v, Tup) else expl(v) if isinstance(v, Poly) else None
    if e is None or is2(e):
        return None
    out = []
    for x in e:
        n = B.numconst(x)
        if n is None or isinstance(n, float) and n != int(n):
            return None
        out.append(int(n))
    return out


def positions(k, n):
    """(list of positions, keeps axis) of one index on an axis of extent n."""
    if isinstance(k, Rec) and k.cls == 'slice':
        if not all(isinstance(x, Const) for x in k.items):
            return None
        return list(range(n))[slice(*[None if x.v is None else int(x.v) for x in k.items])], True
    c = B.numconst(k)
    if c is not None and not isinstance(k, SConst):
        return ([int(c)], False) if -n <= c < n else None
    l = ints(k)
    if l is not None and all(-n <= x < n for x in l):
        return l, True
    return None


def index(e, i):
    """e[i]: list, scalar term or None."""
    ix = list(i.items) if isinstance(i, Tup) else [i]
    if not is2(e):
        if len(ix) == 2 and T.NONE in ix:
            other = ix[1 - ix.index(T.NONE)]
            r = index(e, other)
            if not isinstance(r, list):
                return None
            return [r] if ix[0] == T.NONE else [[x] for x in r]
        if len(ix) != 1:
            return None
        p = positions(ix[0], len(e))
        if p is None:
            return None
        r = [e[x] for x in p[0]]
        return r if p[1] else r[0]
    if len(ix) > 2 or T.NONE in ix:
        return None
    p = positions(ix[0], len(e))
    q = positions(ix[1], len(e[0])) if len(ix) == 2 else (list(range(len(e[0]))), True)
    if p is None or q is None:
        return None
    if len(ix) == 2 and p[1] and q[1] and not isslice(ix[0]) and not isslice(ix[1]):
        if len(p[0]) != len(q[0]):
            return None
        return [e[a][b] for a, b in zip(p[0], q[0])]
    r = [[e[a][b] for b in q[0]] for a in p[0]]
    if not p[1] and not q[1]:
        return r[0][0]
    if not p[1]:
        return r[0]
    if not q[1]:
        return [x[0] for x in r]
    return r if r and r[0] else None


def isslice(k):
    return isinstance(k, Rec) and k.cls == 'slice'


def store(e, i, v):
    """Copy of e with e[i] = v, or None."""
    ix = list(i.items) if isinstance(i, Tup) else [i]
    w = side(v)
    if w is None:
        return None
    if not is2(e):
        if len(ix) != 1:
            return None
        p = positions(ix[0], len(e))
        if p is None:
            return None
        out = list(e)
        for n, a in enumerate(p[0]):
            if isinstance(w, list) and (is2(w) or len(w) not in (1, len(p[0]))):
                return None
            out[a] = w[n % len(w)] if isinstance(w, list) else w
        return out
    if len(ix) > 2:
        return None
    p = positions(ix[0], len(e))
    q = positions(ix[1], len(e[0])) if len(ix) == 2 else (list(range(len(e[0]))), True)
    if p is None or q is None:
        return None
    out = [list(r) for r in e]
    if len(ix) == 2 and p[1] and q[1] and not isslice(ix[0]) and not isslice(ix[1]):
        if len(p[0]) != len(q[0]) or isinstance(w, list) and (is2(w) or len(w) != len(p[0])):
            return None
        for n, (a, b) in enumerate(zip(p[0], q[0])):
            out[a][b] = w[n] if isinstance(w, list) else w
        return out
    val = w if not isinstance(w, list) else full(w)
    if isinstance(w, list) and not is2(w) and not q[1]:
        val = [[x] for x in w]
    for m, a in enumerate(p[0]):
        for n, b in enumerate(q[0]):
            if isinstance(val, list):
                if len(val) not in (1, len(p[0])) or len(val[0]) not in (1, len(q[0])):
                    return None
                out[a][b] = val[m % len(val)][n % len(val[0])]
            else:
                out[a][b] = val
    return out


def reshape(e, dims):
    flat = [x for r in e for x in r] if is2(e) else list(e)
    d = list(dims)
    if d.count(-1) == 1:
        rest = 1
        for x in d:
            rest *= x if x != -1 else 1
        if rest == 0 or len(flat) % rest:
            return None
        d[d.index(-1)] = len(flat) // rest
    if len(d) == 1:
        return flat if d[0] == len(flat) else None
    if len(d) == 2 and d[0] * d[1] == len(flat):
        return [flat[k * d[1]:(k + 1) * d[1]] for k in range(d[0])]
    return None


def kron(a, b):
    a, b = full(a), full(b)
    return [[T.mul(x, y) for x in r for y in s] for r in a for s in b]


def eye(n, k=0):
    return [[Const(1 if y - x == k else 0) for y in range(n)] for x in range(n)]
