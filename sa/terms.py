"""Abstract values of the term domain.

Values are immutable terms in normal form:

* ``Const``    Python constants
* ``Poly``     elements of the free *-algebra: sums of (Gaussian rational) x
               (commuting scalar letters) x (word of matrix letters).  Letters
               carry conjugation / transposition / inversion marks, which are
               pushed to the letters, so equal expressions get equal terms.
* ``Ite``      gated value (MTBDD node): a decision on one atomic predicate;
               booleans are gated values with leaves True / False
* ``Tup``      tuples; ``Rec`` immutable records
* ``Seq``      immutable sequence of segments (``One`` / ``Each``)
* ``Opq``      value outside the understood vocabulary (never decides anything)

All terms have a total order by their canonical string, which makes sums,
products of commuting letters and decision diagrams canonical.
"""
from fractions import Fraction


MAXKEY = 4000000       # a larger term is given up (undetermined)


class V:
    __slots__ = ('_k',)

    def key(self):
        k = getattr(self, '_k', None)
        if k is None:
            k = self._key()
            if len(k) > MAXKEY:
                raise MemoryError('term size')
            self._k = k
        return k

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and self.key() == o.key())

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return self.key()


class Const(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def _key(self):
        v = self.v
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return repr(v)
        if isinstance(v, (int, float, complex)):
            return num_key(gauss(v)) if gauss(v) is not None else repr(v)
        return '%s:%r' % (type(v).__name__, v)


class SConst(Const):
    """Number wrapped by the symbolic library (same value as the Const)."""
    __slots__ = ()


TRUE, FALSE, NONE = Const(True), Const(False), Const(None)


class Opq(V):
    """Unknown value."""
    __slots__ = ('tag', 'args')

    def __init__(self, tag, args=()):
        self.tag, self.args = tag, tuple(args)

    def _key(self):
        return '?%s(%s)' % (self.tag, ','.join(map(repr, self.args)))


class Undef(V):
    __slots__ = ()

    def _key(self):
        return '<undef>'


UNDEF = Undef()


class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def _key(self):
        return '(%s)' % ', '.join(map(repr, self.items))


class Rec(V):
    """Immutable record, e.g. a tuple subclass instance or slice."""
    __slots__ = ('cls', 'items')

    def __init__(self, cls, items):
        self.cls, self.items = cls, tuple(items)

    def _key(self):
        return '%s<%s>' % (self.cls, ', '.join(map(repr, self.items)))


class DictV(V):
    """Canonical snapshot of a mapping: tuple of Seg with payload Tup(key, val)."""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def _key(self):
        return '{%s}' % '; '.join(sorted(map(repr, self.segs)))


class SetV(V):
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def _key(self):
        return 'set{%s}' % '; '.join(sorted(set(map(repr, self.segs))))


# --- sequences -----------------------------------------------------------

class Binder(V):
    """A generic element position of a collection."""
    __slots__ = ('dom', 'name', 'n')
    counter = [0]

    def __init__(self, dom, name=None, n=None):
        self.dom = dom
        if name is None:
            Binder.counter[0] += 1
            name = '#%d' % Binder.counter[0]
        self.name = name
        self.n = n

    def _key(self):
        return '%s@%r' % (self.name, self.dom) if not self.name.startswith('~') else self.name


class Seg(V):
    """One segment of a sequence: for every value of the binders satisfying
    guard, one payload. No binders: a single element."""
    __slots__ = ('binders', 'guard', 'payload')

    def __init__(self, binders, guard, payload):
        self.binders, self.guard, self.payload = tuple(binders), guard, payload

    def _key(self):
        return canon_seg(self)


class Carry(V):
    """Marker: the previous contents of a container at loop entry."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def _key(self):
        return '<carry %s>' % self.name


class Seq(V):
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def _key(self):
        return '[%s]' % '; '.join(map(repr, self.segs))


def canon_seg(seg):
    if not seg.binders:
        return '%r if %r' % (seg.payload, seg.guard) if seg.guard != TRUE else repr(seg.payload)
    import itertools
    best = None
    n = len(seg.binders)
    perms = itertools.permutations(range(n)) if n <= 3 else [range(n)]
    depth = max([bound_depth(seg.payload), bound_depth(seg.guard)] +
                [bound_depth(b.dom) for b in seg.binders])
    for perm in perms:
        m = {}
        for pos, i in enumerate(perm):
            b = seg.binders[i]
            m[b] = Binder(Const(0), '~%d' % (depth + pos + 1))
        doms = [subst(seg.binders[i].dom, m) for i in perm]
        s = 'for %s: %r%s' % (', '.join('%r in %r' % (m[seg.binders[i]], d) for i, d in zip(perm, doms)),
                              subst(seg.payload, m),
                              ' if %r' % subst(seg.guard, m) if seg.guard != TRUE else '')
        if best is None or s < best:
            best = s
    return best


def bound_depth(v):
    import re
    return max([int(x) for x in re.findall(r'~(\d+)', v.key())] or [0])


# --- gated values ----------------------------------------------------------

class P(V):
    """Atomic predicate."""
    __slots__ = ('name', 'args')

    def __init__(self, name, *args):
        self.name, self.args = name, args

    def _key(self):
        return '%s(%s)' % (self.name, ', '.join(map(repr, self.args)))


class Ite(V):
    __slots__ = ('p', 'hi', 'lo')

    def __init__(self, p, hi, lo):
        self.p, self.hi, self.lo = p, hi, lo

    def _key(self):
        if self.hi == TRUE and self.lo == FALSE:
            return '[%r]' % self.p
        if self.hi == FALSE and self.lo == TRUE:
            return '[not %r]' % self.p
        return '[%r ? %r : %r]' % (self.p, self.hi, self.lo)


def mk(p, hi, lo):
    if hi is lo or hi == lo:
        return hi
    if p.name == 'close' and len(p.args) == 2:
        # closeness is interpreted as equality: choosing one of two equal
        # values depending on whether they are equal gives the other one
        a, b = p.args
        if (hi, lo) in ((a, b), (b, a)):
            return with_types(lo, hi)
    return Ite(p, hi, lo)


def with_types(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        t = None if a.typ is None or b.typ is None else a.typ | b.typ
        return Poly(a.terms, a.kind, t)
    return a


def pred(p):
    return Ite(p, TRUE, FALSE)


def cof(v, p, val):
    return (v.hi if val else v.lo) if isinstance(v, Ite) and v.p == p else v


def top_p(*vs):
    ps = [v.p for v in vs if isinstance(v, Ite)]
    return min(ps, key=lambda p: p.key()) if ps else None


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a is b or a == b:
        return a
    if not isinstance(c, Ite):
        c = truth(c)
        if not isinstance(c, Ite):
            return ite(c, a, b) if c in (TRUE, FALSE) else Opq('ite', (c, a, b))
    p = top_p(c, a, b)
    return mk(p, ite(cof(c, p, 1), cof(a, p, 1), cof(b, p, 1)),
              ite(cof(c, p, 0), cof(a, p, 0), cof(b, p, 0)))


def lift(f, *vs):
    """Apply f to the leaves of gated values."""
    p = top_p(*vs)
    if p is None:
        return f(*vs)
    return ite(pred(p), lift(f, *[cof(v, p, 1) for v in vs]), lift(f, *[cof(v, p, 0) for v in vs]))


def bnot(a):
    return ite(a, FALSE, TRUE)


def band(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def bor(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def bxor(a, b):
    return ite(a, bnot(b), b)


def is_bool(v):
    if isinstance(v, Ite):
        return is_bool(v.hi) and is_bool(v.lo)
    return v == TRUE and isinstance(v, Const) or v == FALSE and isinstance(v, Const)


# values assumed not to be empty (set by checks about generic models)
ASSUME_NONEMPTY = [lambda x: False]


def truth(v):
    """Truth value of v as a gated boolean."""
    def leaf(x):
        if isinstance(x, Const):
            return TRUE if x.v else FALSE
        if isinstance(x, Tup):
            return TRUE if x.items else FALSE
        if isinstance(x, Poly):
            c = x.const()
            if c is not None:
                return TRUE if c != (0, 0) else FALSE
            if ASSUME_NONEMPTY[0](x):
                return TRUE
        if isinstance(x, (Seq, SetV, DictV)):
            if not x.segs:
                return FALSE
            if any(isinstance(s, Seg) and not s.binders and s.guard == TRUE for s in x.segs):
                return TRUE
        return pred(P('truth', x))
    return lift(leaf, v)


def restrict(v, guard):
    """Simplify v assuming guard (only removes decisions fixed by guard)."""
    if not isinstance(v, Ite) or guard == TRUE:
        return v
    hi_g = band(guard, pred(v.p))
    if hi_g == FALSE:
        return restrict(v.lo, guard)
    lo_g = band(guard, bnot(pred(v.p)))
    if lo_g == FALSE:
        return restrict(v.hi, guard)
    return mk(v.p, restrict(v.hi, hi_g), restrict(v.lo, lo_g))


def leaves(v, cube=()):
    """All (cube, leaf) pairs; cube is a tuple of (predicate, bool)."""
    if isinstance(v, Ite):
        yield from leaves(v.hi, cube + ((v.p, True),))
        yield from leaves(v.lo, cube + ((v.p, False),))
    else:
        yield cube, v


# --- the *-algebra ---------------------------------------------------------

def frac(x):
    """Fraction next to a float (rounding noise counts as zero)."""
    if 1e-14 < abs(x) < 1e-4:
        return Fraction(repr(x))
    return Fraction(x).limit_denominator(10**9)


def gauss(v):
    if isinstance(v, bool):
        return (Fraction(int(v)), Fraction(0))
    if isinstance(v, (int, Fraction)):
        return (Fraction(v), Fraction(0))
    try:
        if isinstance(v, float):
            return (frac(v), Fraction(0))
        if isinstance(v, complex):
            return (frac(v.real), frac(v.imag))
    except (ValueError, OverflowError):
        return None
    return None


def num_key(g):
    re, im = g
    if im == 0:
        return str(re)
    if re == 0:
        return '%sj' % im
    return '(%s+%sj)' % (re, im)


def gmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def gadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


class Atom(V):
    """A letter. kind: 's' scalar, 'm' matrix, 'v' vector, 'x' value of a model
    (scalar or matrix). attrs: real, unitary, hermitian, symmetric."""
    __slots__ = ('name', 'args', 'kind', 'attrs', 'typ')

    def __init__(self, name, args=(), kind='s', attrs=(), typ=None):
        self.name, self.args, self.kind = name, tuple(args), kind
        self.attrs = frozenset(attrs)
        self.typ = typ if typ is None else frozenset([typ] if isinstance(typ, str) else typ)

    def _key(self):
        if self.args:
            return '%s(%s)' % (self.name, ', '.join(map(repr, self.args)))
        return self.name


# a scalar factor: (atom, conj) -> exponent ; a letter: (atom, conj, trans, inv)

def letter_key(l):
    a, c, t, i = l
    return a.key() + ("^" + ('*' if c else '') + ('T' if t else '') + ('-1' if i else '') if (c or t or i) else '')


class Poly(V):
    """terms: dict (scal, word) -> gaussian; scal: tuple of ((atom, conj), exp)."""
    __slots__ = ('terms', 'kind', 'typ')

    def __init__(self, terms, kind='s', typ=None):
        self.terms = {k: c for k, c in terms.items() if c != (0, 0)}
        self.kind, self.typ = kind, (typ if typ is None else frozenset([typ] if isinstance(typ, str) else typ))

    def _key(self):
        if not self.terms:
            return '0'
        out = []
        for (scal, word), c in self.terms.items():
            fs = []
            for (a, cj), ex in scal:
                fs.append(a.key() + ('^*' if cj else '') + ('**%s' % ex if ex != 1 else ''))
            ws = [letter_key(l) for l in word]
            body = '*'.join(fs) + ('|' if fs and ws else '') + '.'.join(ws)
            cs = num_key(c)
            if not body:
                out.append(cs)
            elif cs == '1':
                out.append(body)
            else:
                out.append(cs + '*' + body)
        out.sort()
        return ' + '.join(out) if len(out) == 1 else '(' + ' + '.join(out) + ')'

    def const(self):
        if not self.terms:
            return (Fraction(0), Fraction(0))
        if len(self.terms) == 1 and ((), ()) in self.terms and self.kind == 's':
            return self.terms[((), ())]
        return None

    def atoms(self):
        for (scal, word) in self.terms:
            for (a, _), _e in scal:
                yield a
            for l in word:
                yield l[0]


def scalar_const(v):
    return Poly({((), ()): gauss(v)}, 's', tname(v))


def tname(v):
    return {bool: 'bool', int: 'int', float: 'float', complex: 'complex'}.get(type(v))


def poly(v):
    """Coerce a leaf value to a Poly, or None."""
    if isinstance(v, Poly):
        return v
    if isinstance(v, Const) and isinstance(v.v, (int, float, complex)) and gauss(v.v) is not None:
        return scalar_const(v.v)
    if isinstance(v, Atom):
        return letter(v)
    return None


def letter(a):
    if a.kind == 's':
        return Poly({((((a, False), 1),), ()): (Fraction(1), Fraction(0))}, 's', a.typ)
    return Poly({((), ((a, False, False, False),)): (Fraction(1), Fraction(0))}, a.kind, a.typ)


def atom(name, args=(), kind='s', attrs=(), typ=None):
    return letter(Atom(name, args, kind, attrs, typ))


def simplify(p):
    """Constants as Const when possible (keeps ints exact)."""
    c = p.const()
    if c is None:
        return p
    re, im = c
    if p.kind != 's':
        return p
    if im == 0:
        if re.denominator == 1 and not (p.typ and p.typ <= {'float', 'complex'}):
            return Const(int(re))
        return Const(float(re))
    return Const(complex(float(re), float(im)))


def norm_letter(a, c, t, i):
    if 'real' in a.attrs:
        c = False
    if 'unitary' in a.attrs and i:
        i, c, t = False, not c, not t
        if 'real' in a.attrs:
            c = False
    if 'hermitian' in a.attrs and t:
        t, c = False, not c
    if 'symmetric' in a.attrs:
        t = False
    if a.name in ('eye', 'zeros'):
        c = t = i = False
    return (a, c, t, i)


def inv_letter(l):
    return norm_letter(l[0], l[1], l[2], not l[3])


def norm_word(word, kind):
    out = []
    eye = None
    for l in word:
        if l[0].name == 'eye':
            eye = l
            continue
        if out and l[0].name != 'zeros' and out[-1] == inv_letter(l):
            eye = (Atom('eye', (dim_of(l[0]),), 'm'), False, False, False)
            out.pop()
            continue
        out.append(l)
    if not out and eye is not None:
        out = [eye]
    return tuple(out)


def dim_of(a):
    return atom('dim', (letter(a),), 's', ('real',), 'int')


def norm_scal(pairs):
    d = {}
    ex = None
    for (a, c), e in pairs:
        if 'real' in a.attrs:
            c = False
        if a.name == 'epow':
            p = a.args[0]
            if c:
                p = conj(p)
            t = mul(p, Const(e)) if e != 1 else p
            ex = t if ex is None else add(ex, t)
            continue
        k = (a, c)
        d[k] = d.get(k, 0) + e
    if ex is not None:
        exp = poly(ex)
        if exp is None or exp.const() != (0, 0):
            k = (Atom('epow', (ex,), 's'), False)
            d[k] = d.get(k, 0) + 1
    return tuple(sorted(((k, e) for k, e in d.items() if e != 0), key=lambda x: (x[0][0].key(), x[0][1])))


def roots(scal):
    """sqrt(n)**e of integers n: reduced to the exponents 0 and 1."""
    f = Fraction(1)
    if not any(a.name == 'sqrt' and e != 1 for (a, _), e in scal):
        return scal, f
    out = []
    for (a, c), e in scal:
        if a.name == 'sqrt' and e != 1 and isinstance(e, int) and isinstance(a.args[0], Const) and isinstance(a.args[0].v, int):
            f *= Fraction(a.args[0].v) ** (e // 2)
            e = e % 2
            if not e:
                continue
        out.append(((a, c), e))
    return tuple(out), f


def padd(a, b, sign=1):
    t = dict(a.terms)
    for k, c in b.terms.items():
        if sign < 0:
            c = (-c[0], -c[1])
        t[k] = gadd(t.get(k, (Fraction(0), Fraction(0))), c)
    # zero arrays are neutral
    z = [k for k in t if any(l[0].name == 'zeros' for l in k[1])]
    if len(z) < len([k for k in t if t[k] != (0, 0)]):
        for k in z:
            del t[k]
    kind = a.kind if a.kind != 's' else b.kind
    return Poly(t, kind, join_typ(a, b))


def join_typ(a, b):
    if a.kind == 's' and b.kind != 's':
        return b.typ
    if b.kind == 's' and a.kind != 's':
        return a.typ
    if a.typ is None or b.typ is None:
        return None
    if 'coo_matrix' in a.typ | b.typ and a.kind == b.kind == 'm' and a.typ | b.typ <= {'coo_matrix', 'csr_matrix'}:
        # sums and products of this format change the format
        return frozenset(['csr_matrix'])
    num = {'bool', 'int', 'float', 'complex', 'Number'}
    if a.typ <= num and b.typ <= num:
        order = ['bool', 'int', 'float', 'complex', 'Number']
        return frozenset([max(a.typ | b.typ, key=order.index)])
    if a.typ <= num:
        return b.typ
    if b.typ <= num:
        return a.typ
    return a.typ if a.typ == b.typ else (a.typ | b.typ if a.kind != 's' else None)


SYMPY_M = frozenset(['sympy.ImmutableMatrix', 'sympy.Matrix'])


def pprod(a, b, word_kind=None):
    """Product in the algebra (scalars commute, words concatenate)."""
    t = {}
    for (s1, w1), c1 in a.terms.items():
        for (s2, w2), c2 in b.terms.items():
            w = norm_word(w1 + w2, word_kind)
            if any(l[0].name == 'zeros' for l in w):
                w = ((Atom('zeros', (), 'm'), False, False, False),)
                k = ((), w)
            else:
                sc, f = roots(norm_scal(s1 + s2))
                k = (sc, w)
                if f != 1:
                    c1_ = gmul(c1, (f, Fraction(0)))
                    t[k] = gadd(t.get(k, (Fraction(0), Fraction(0))), gmul(c1_, c2))
                    continue
            t[k] = gadd(t.get(k, (Fraction(0), Fraction(0))), gmul(c1, c2))
    kind = word_kind or (a.kind if a.kind != 's' else b.kind)
    return Poly(t, kind, join_typ(a, b))


def mul(a, b):
    """Python's * on leaves."""
    x, y = poly(a), poly(b)
    if x is None or y is None:
        return Opq('*', (a, b))
    if x.kind == 's' or y.kind == 's':
        r = pprod(x, y)
        return simplify(r)
    if x.typ and y.typ and (x.typ | y.typ) & SYMPY_M:
        return matmul(a, b)
    ks = sorted([x, y], key=lambda p: p.key())
    kind = 'm' if 'm' in (x.kind, y.kind) else x.kind
    return bilinear('emul', ks, kind, join_typ(x, y))


def bilinear(name, ps, kind, typ=None, attrs=()):
    """fn(p1, p2) expanded over sums and with scalar factors pulled out."""
    t = {}
    import itertools
    for combo in itertools.product(*[list(p.terms.items()) for p in ps]):
        c = (Fraction(1), Fraction(0))
        scal = ()
        args = []
        for (p, ((s, w), cc)) in zip(ps, combo):
            c = gmul(c, cc)
            scal += s
            args.append(Poly({((), w): (Fraction(1), Fraction(0))}, p.kind, p.typ))
        if name in COMMUTATIVE:
            args.sort(key=lambda p: p.key())
        a = Atom(name, args, kind, attrs, typ)
        if kind == 's':
            k = (norm_scal(scal + (((a, False), 1),)), ())
        else:
            k = (norm_scal(scal), ((a, False, False, False),))
        t[k] = gadd(t.get(k, (Fraction(0), Fraction(0))), c)
    return Poly(t, kind, typ)


COMMUTATIVE = {'emul', 'vdot'}


def matmul(a, b):
    x, y = poly(a), poly(b)
    if x is None or y is None:
        return Opq('@', (a, b))
    if x.kind == 's' or y.kind == 's':
        return simplify(pprod(x, y))
    if x.kind == 'v' and y.kind == 'v':
        return bilinear('vdot', [x, y], 's')
    if x.kind == 'v':
        return pprod(transpose(y), x, 'v')
    if y.kind == 'v':
        return pprod(x, y, 'v')
    kind = 'm' if 'm' in (x.kind, y.kind) and x.kind != 'x' and y.kind != 'x' else ('x' if 'x' in (x.kind, y.kind) else x.kind)
    r = pprod(x, y, kind)
    return r


def add(a, b, sign=1):
    x, y = poly(a), poly(b)
    if x is None or y is None:
        return Opq('+' if sign > 0 else '-', (a, b))
    if x.kind != y.kind and x.kind != 's' and y.kind != 's' and 'x' not in (x.kind, y.kind):
        return Opq('+', (a, b))
    # scalar + matrix broadcasts
    if x.kind != y.kind and 's' in (x.kind, y.kind):
        s, m = (x, y) if x.kind == 's' else (y, x)
        if s.const() == (0, 0):
            return m if s is y or sign > 0 else neg(m)
        if m.kind != 'x':
            return Opq('broadcast', (a, b, Const(sign)))
    return simplify(padd(x, y, sign))


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    x = poly(a)
    if x is None:
        return Opq('neg', (a,))
    return simplify(Poly({k: (-c[0], -c[1]) for k, c in x.terms.items()}, x.kind, x.typ))


def map_letters(p, fscal, fword, fcoef=lambda c: c):
    t = {}
    out = None
    for (s, w), c in p.terms.items():
        m = Poly({((), ()): fcoef(c)}, 's')
        for (a, cj), e in s:
            m = pprod(m, ppow(fscal(a, cj), e))
        wp = None
        for l in fword(w):
            wp = l if wp is None else pprod(wp, l, 'm')
        if wp is not None:
            m = pprod(m, wp)
        out = m if out is None else padd(out, m)
    if out is None:
        return Poly({}, p.kind, p.typ)
    return Poly(out.terms, p.kind, p.typ)


def ppow(p, e):
    if e == 1:
        return p
    if len(p.terms) == 1:
        (s, w), c = next(iter(p.terms.items()))
        if not w and (c == (1, 0) or isinstance(e, int)):
            cc = c
            if c != (1, 0):
                cc = (Fraction(1), Fraction(0))
                base = c
                if e < 0:
                    d = c[0] ** 2 + c[1] ** 2
                    base = (c[0] / d, -c[1] / d)
                for _ in range(abs(e)):
                    cc = gmul(cc, base)
            sc, f = roots(norm_scal(tuple((k, x * e) for k, x in s)))
            return Poly({(sc, ()): gmul(cc, (f, Fraction(0)))}, p.kind, p.typ)
    if isinstance(e, int) and 0 < e <= 4:
        r = p
        for _ in range(e - 1):
            r = pprod(r, p, p.kind)
        return r
    return letter(Atom('pow', (p, Const(e)), 's'))


STRUCT = {'block', 'block_diag', 'kron', 'emul', 'idx', 'expm', 'store', 'outer', 'vec', 'submat',
          'vdot', 'fdot', 'sum', 'trace', 'diag', 'hstack', 'vstack', 'mats', 'rot', 'trf', 'reshape'}


def mark_atom(a, op):
    """Push conj / transpose / inverse of an uninterpreted function into its
    arguments where that is an identity. Returns a Poly or None."""
    n = a.name
    if n == 'block_diag' or n == 'kron':
        return letter(Atom(n, [lift(MARK[op], x) for x in a.args], a.kind, a.attrs, a.typ))
    if n == 'expm':
        f = {'conj': conj, 'T': transpose, 'inv': neg}[op]
        return letter(Atom(n, [lift(f, x) for x in a.args], a.kind, a.attrs, a.typ))
    if n == 'block' and op in ('conj', 'T'):
        rows = [list(r.items) for r in a.args[0].items]
        rows = [[lift(MARK[op], x) for x in r] for r in rows]
        if op == 'T':
            rows = list(map(list, zip(*rows)))
        return letter(Atom(n, [Tup(Tup(r) for r in rows)], a.kind, a.attrs, a.typ))
    if op == 'conj':
        if n in ('emul', 'vdot', 'vec', 'idx', 'submat', 'trace', 'diag', 'outer', 'rot', 'reshape'):
            return fn_rebuild(a, [lift(conj, a.args[0])] + ([lift(conj, x) for x in a.args[1:]]
                              if n in ('emul', 'vdot', 'outer') else list(a.args[1:])))
        if n == 'sum':
            return fn_rebuild(a, [map_seg(a.args[0], conj)])
        if n == 'real':
            return letter(a)
    if op == 'T':
        if n == 'emul':
            return fn_rebuild(a, [lift(transpose, x) for x in a.args])
        if n == 'outer':
            return fn_rebuild(a, list(reversed(a.args)))
        if n == 'sum' and a.kind != 's':
            return fn_rebuild(a, [map_seg(a.args[0], transpose)])
        if n in ('rot',):
            return fn_rebuild(a, [lift(transpose, a.args[0])] + list(a.args[1:]))
    return None


def map_seg(seg, f):
    return Seg(seg.binders, seg.guard, lift(f, seg.payload))


def fn_rebuild(a, args):
    from . import build
    return build.rebuild(a, args)


def conj(v):
    x = poly(v)
    if x is None:
        return Opq('conj', (v,))

    def fs(a, c):
        if 'real' in a.attrs:
            return letter(a)
        if a.name == 'epow':
            return letter(Atom('epow', (lift(conj, a.args[0]),), 's'))
        m = mark_atom(a, 'conj') if not c else None
        if m is not None:
            return poly(m)
        return Poly({((((a, not c), 1),), ()): (Fraction(1), Fraction(0))}, 's')

    def fw(w):
        out = []
        for (a, c, t, i) in w:
            m = mark_atom(a, 'conj') if not (c or t or i) else None
            out.append(m if m is not None else
                       Poly({((), (norm_letter(a, not c, t, i),)): (Fraction(1), Fraction(0))}, a.kind))
        return out
    r = map_letters(x, fs, fw, lambda c: (c[0], -c[1]))
    return simplify(r)


def transpose(v):
    x = poly(v)
    if x is None:
        return Opq('T', (v,))
    if x.kind in ('s', 'v'):
        return v

    def fw(w):
        out = []
        for (a, c, t, i) in reversed(w):
            m = mark_atom(a, 'T') if not (c or t or i) else None
            out.append(m if m is not None else
                       Poly({((), (norm_letter(a, c, not t, i),)): (Fraction(1), Fraction(0))}, a.kind))
        return out
    return map_letters(x, lambda a, c: Poly({((((a, c), 1),), ()): (Fraction(1), Fraction(0))}, 's'), fw)


def inverse(v):
    x = poly(v)
    if x is None:
        return Opq('inv', (v,))
    if x.kind == 's':
        return simplify(ppow(x, -1))
    if len(x.terms) == 1:
        (s, w), c = next(iter(x.terms.items()))
        d = c[0] ** 2 + c[1] ** 2
        sc = Poly({(norm_scal(tuple((k, -e) for k, e in s)), ()): (c[0] / d, -c[1] / d)}, 's')
        r = sc
        for (a, cj, t, i) in reversed(w):
            m = mark_atom(a, 'inv') if not (cj or t or i) else None
            l = m if m is not None else Poly({((), (norm_letter(a, cj, t, not i),)): (Fraction(1), Fraction(0))}, a.kind)
            r = pprod(r, l, 'm')
        return Poly(r.terms, x.kind, x.typ)
    return letter(Atom('inverse', (x,), x.kind, (), x.typ))


MARK = {'conj': conj, 'T': transpose, 'inv': inverse}


# --- substitution ----------------------------------------------------------

def subst(v, m):
    """Replace sub-terms (dict V -> V), renormalising."""
    if not m:
        return v
    if v in m:
        return m[v]
    if not any(k.key() in v.key() or (isinstance(k, Binder) and k.name in v.key()) for k in m):
        return v
    return _subst(v, m)


def _sub_args(args, m):
    return [subst(a, m) if isinstance(a, V) else a for a in args]


def _subst(v, m):
    if isinstance(v, Ite):
        p = subst_pred(v.p, m)
        return ite(p, subst(v.hi, m), subst(v.lo, m))
    if isinstance(v, Tup):
        return Tup(_sub_args(v.items, m))
    if isinstance(v, Rec):
        return Rec(v.cls, _sub_args(v.items, m))
    if isinstance(v, Seg):
        return Seg([subst(b, m) for b in v.binders], subst(v.guard, m), subst(v.payload, m))
    if isinstance(v, Binder):
        d = subst(v.dom, m)
        return v if d == v.dom else Binder(d, v.name, v.n)
    if isinstance(v, Seq):
        return Seq(_sub_args(v.segs, m))
    if isinstance(v, DictV):
        return DictV(_sub_args(v.segs, m))
    if isinstance(v, SetV):
        return SetV(_sub_args(v.segs, m))
    if isinstance(v, Opq):
        return Opq(v.tag, _sub_args(v.args, m))
    if isinstance(v, Poly):
        def fs(a, c):
            r = sub_atom(a, m)
            return poly(conj(r)) if c else r

        def fw(w):
            out = []
            for (a, c, t, i) in w:
                r = sub_atom(a, m)
                if c:
                    r = poly(conj(r))
                if t:
                    r = poly(transpose(r))
                if i:
                    r = poly(inverse(r))
                out.append(r)
            return out
        r = map_letters(v, fs, fw)
        return simplify(r)
    if isinstance(v, P):
        raise TypeError('predicate')
    if hasattr(v, 'subst'):
        return v.subst(m)
    return v


def sub_atom(a, m):
    l = letter(a)
    if l in m:
        r = poly(m[l])
        return r if r is not None else letter(Atom('?', (m[l],), a.kind))
    if a in m:
        return poly(m[a])
    if not a.args:
        return l
    args = _sub_args(a.args, m)
    if all(x == y for x, y in zip(args, a.args)):
        return l
    r = fn_rebuild(a, args)
    p = poly(r)
    return p if p is not None else letter(Atom('?', (r,), a.kind))


def subst_pred(p, m):
    from . import build
    return build.mkpred(p.name, _sub_args(p.args, m))


def walk(v, seen=None):
    """All sub-values (including atoms and predicates)."""
    stack = [v]
    seen = set()
    while stack:
        x = stack.pop()
        if not isinstance(x, V) or id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        if isinstance(x, Ite):
            stack += [x.p, x.hi, x.lo]
        elif isinstance(x, (Tup, Rec)):
            stack += list(x.items)
        elif isinstance(x, Seg):
            stack += list(x.binders) + [x.guard, x.payload]
        elif isinstance(x, Binder):
            stack.append(x.dom)
        elif isinstance(x, (Seq, DictV, SetV)):
            stack += list(x.segs)
        elif isinstance(x, (Opq, P, Atom)):
            stack += [a for a in x.args if isinstance(a, V)]
        elif isinstance(x, Poly):
            stack += list(x.atoms())
        elif hasattr(x, 'children'):
            stack += list(x.children())
