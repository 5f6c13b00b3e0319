"""Abstract domain for the term mapping of a Model.

The (arbitrarily large) mapping {symbolic factor: matrix} of a Model is
abstracted by a finite partition of its keys (only here, shared with the other
operand, images that coincide, ...). Each class is summarised by one term: a
free symbol as key and a free matrix letter as value. Key equality is decided
by the normal form over free symbols. This module supplies the meaning of the
sympy expression methods on keys in that domain.
"""
from fractions import Fraction
from .terms import *
from . import terms as T
from . import build as B
from .build import *
from . import lib as L
from . import interp as I

ONE = (Fraction(1), Fraction(0))


def sym(name, real=False):
    return atom(name, (), 's', ('sym', 'real') if real else ('sym',), 'sympy.Symbol')


def num(name):
    """A free real number."""
    return atom(name, (), 's', ('sym', 'real', 'num'), 'float')


def array(rows, typ='np.ndarray'):
    from . import arrays as AR
    return AR.mk(rows, typ)


def symvec(name, typ='np.ndarray'):
    return atom(name, (), 'v', ('sym', 'real'), typ)


def val(name, r='n', c='n', typ='np.ndarray', attrs=()):
    if typ == 'np.complex128':
        return atom(name, (), 's', attrs, typ)
    d = lambda x: atom(x, (), 's', ('real',), 'int') if isinstance(x, str) else x
    return atom('V:' + name, (d(r), d(c)), 'm', attrs, typ)


def dims2(r='n', c='n'):
    return Tup([atom(x, (), 's', ('real',), 'int') for x in (r, c)])


def unsym(v):
    """Remove conjugation marks of symbols (i -> -i does not touch them)."""
    p = poly(v)
    if p is None:
        return v

    def f(a, c):
        if a.name == 'epow':
            return letter(Atom('epow', (lift(unsym, a.args[0]),), 's'))
        if 'sym' in a.attrs:
            c = False
        return Poly({((((a, c), 1),), ()): ONE}, 's', a.typ)
    return simplify(map_letters(p, f, lambda w: [Poly({((), (l,)): ONE}, l[0].kind) for l in w]))


def flip_i(v):
    return lift(lambda x: unsym(T.conj(x)), v)


def monomials(p):
    p = poly(p)
    out = [simplify(Poly({k: c}, p.kind, p.typ)) for k, c in sorted(p.terms.items(), key=lambda kv: Poly({kv[0]: ONE}, 's').key())]
    return out or [Const(0)]


def factors(p):
    p = poly(p)
    if len(p.terms) != 1:
        return [p]
    (s, w), c = next(iter(p.terms.items()))
    out = []
    if c != ONE:
        out.append(simplify(Poly({((), ()): c}, 's')))
    for k, e in s:
        out.append(simplify(Poly({(((k, e),), ()): ONE}, 's', k[0].typ)))
    if w:
        out.append(Poly({((), w): ONE}, p.kind, p.typ))
    return out or [Const(1)]


def is_number(v):
    p = poly(v)
    if p is None:
        return None
    for x in walk(p):
        if isinstance(x, Atom) and 'sym' in x.attrs and 'num' not in x.attrs:
            return False
        if isinstance(x, Opq):
            return None
    return True


def subs_seq(v, pairs, simultaneous):
    def one(x):
        if simultaneous:
            tmp = {}
            back = {}
            for n, (o, w) in enumerate(pairs):
                t = sym('tmp%d' % n)
                tmp[o] = t
                back[t] = w
            return replace(replace(x, tmp), back)
        for o, w in pairs:
            x = replace(x, {o: w})
        return x
    return one(v)


def replace(v, m):
    """Substitute symbols, renormalising (products of sums are expanded)."""
    m = {k.key() if isinstance(k, V) else k: w for k, w in m.items()}
    p = poly(v)
    if p is None:
        return v

    def f(a, c):
        l = letter(a)
        if l.key() in m:
            return poly(m[l.key()])
        if a.name == 'epow':
            return poly(B.epow(replace(a.args[0], m)))
        return Poly({((((a, c), 1),), ()): ONE}, 's', a.typ)
    return simplify(map_letters(p, f, lambda w: [Poly({((), (l,)): ONE}, l[0].kind) for l in w]))


def diff(v, x):
    """Derivative of a polynomial with exponentials by a symbol; None if not understood."""
    p, a = poly(v), B.single_atom(x)
    if p is None or a is None:
        return None
    out = Const(0)
    for (s, w), c in p.terms.items():
        if w:
            return None
        for i, ((l, cj), e) in enumerate(s):
            rest = simplify(Poly({(s[:i] + s[i + 1:], ()): c}, 's', p.typ))
            if l == a:
                out = T.add(out, T.mul(T.mul(rest, T.mul(Const(e), B.power(letter(l), Const(e - 1)) if e != 1 else Const(1))), Const(1)))
            elif l.name == 'epow':
                d = diff(l.args[0], x)
                if d is None or e != 1:
                    return None
                out = T.add(out, T.mul(rest, T.mul(letter(l), d)))
            elif any(y == a for z in l.args for y in walk(z)):
                return None
    return out


def f_diff(it, args, kw, st, node):
    if len(args) != 2 or kw:
        return NotImplemented
    r = diff(it.snap(args[0], st), it.snap(args[1], st))
    return r if r is not None else NotImplemented


def pairs_of(it, args, st):
    if len(args) == 2:
        return [(it.snap(args[0], st), it.snap(args[1], st))]
    if len(args) != 1:
        return None
    v = it.snap(args[0], st)
    if isinstance(v, DictV):
        segs = v.segs
    elif isinstance(v, (Seq,)):
        segs = v.segs
    elif isinstance(v, Tup):
        segs = [Seg((), TRUE, x) for x in v.items]
    else:
        return None
    out = []
    for s in segs:
        if not isinstance(s, Seg) or s.binders or s.guard != TRUE or not isinstance(s.payload, Tup) or len(s.payload.items) != 2:
            return None
        out.append(tuple(s.payload.items))
    return out


def expr_method(it, x, name, args, kw, st, node):
    r = expr_method_(it, x, name, args, kw, st, node)
    return lift(L.sconst, r) if isinstance(r, V) else r


def expr_method_(it, x, name, args, kw, st, node):
    p = poly(x)
    if p is None or p.kind != 's':
        return NotImplemented
    if name in ('subs', 'xreplace', 'replace'):
        pairs = pairs_of(it, args, st)
        if pairs is None or any(isinstance(u, Opq) or isinstance(w, Opq) for u, w in pairs):
            return NotImplemented
        if len(pairs) == 1 and pairs[0] == (Const(1j), Const(-1j)):
            return flip_i(x)
        if any(poly(u) is None or single_atom(poly(u)) is None or poly(w) is None for u, w in pairs):
            return NotImplemented
        return subs_seq(x, pairs, name == 'xreplace' or it.snap(kw.get('simultaneous', FALSE), st) == TRUE)
    if name in ('as_ordered_terms', 'as_terms') and not args:
        return it.alloc(st, I.HSeq('list', [Seg((), TRUE, m) for m in monomials(x)]))
    if name == 'as_ordered_factors' and not args:
        return it.alloc(st, I.HSeq('list', [Seg((), TRUE, m) for m in factors(x)]))
    if name == 'as_coeff_Mul' and not args:
        fs = factors(x)
        c = [f for f in fs if isinstance(f, Const)]
        r = Const(1)
        for f in fs:
            if not isinstance(f, Const):
                r = mul(r, f)
        return Tup([c[0] if c else Const(1), r])
    if name == 'atoms':
        only = L.cname(args[0].name) if len(args) == 1 and isinstance(args[0], I.Ext) else None
        if args and only != 'sympy.Symbol':
            return NotImplemented
        at = {}
        for y in walk(p):
            if isinstance(y, Atom) and 'sym' in y.attrs:
                if only is None or 'num' not in y.attrs:
                    at[y.key()] = letter(y)
            elif isinstance(y, Poly) and only is None:
                for c in y.terms.values():
                    if c[1]:
                        at['#i'] = Const(1j)
                    if c not in ((1, 0), (0, 1)):
                        at['#%s' % (c,)] = Const(float(c[0] or c[1]))
        return SetV([Seg((), TRUE, y) for _, y in sorted(at.items(), key=lambda kv: str(kv[0]))])
    if name == 'as_base_exp' and not args:
        a = B.single_atom(p)
        if a is not None and a.name == 'epow':
            return Tup([atom('sym:e', (), 's', ('real',), 'sympy.Symbol'), a.args[0]])
        if len(p.terms) == 1:
            (s, w), c = next(iter(p.terms.items()))
            if c == ONE and len(s) == 1:
                return Tup([Poly({(((s[0][0], 1),), ()): ONE}, 's', 'sympy.Symbol'), Const(s[0][1])])
        return Tup([x, Const(1)])
    if name == 'coeff' and len(args) == 1:
        m = poly(it.snap(args[0], st))
        k = B.single_atom(m) if m is not None else None
        if k is not None:
            # sum of the cofactors of the terms that contain the symbol to the first power
            r = Const(0)
            for (s, w), c in p.terms.items():
                f = dict(s)
                if f.get((k, False)) == 1:
                    del f[(k, False)]
                    r = add(r, simplify(Poly({(tuple(f.items()), w): c}, 's')))
            return r
    if name == 'has' and len(args) == 1:
        m = poly(it.snap(args[0], st))
        k = B.single_atom(m) if m is not None else None
        if k is not None:
            return TRUE if any(y == k for y in walk(p) if isinstance(y, Atom)) else FALSE
    if name in ('expand', 'powsimp', 'simplify', 'doit', 'evalf', 'factor', 'nsimplify'):
        return x
    return NotImplemented


def expr_attr(it, o, name, st, node):
    if isinstance(o, (Poly, Const)) and poly(o) is not None and poly(o).kind == 's':
        if name in ('is_number', 'is_Number', 'is_constant'):
            n = is_number(o)
            if n is not None:
                return TRUE if n else FALSE
        if name == 'is_Add':
            return TRUE if len(poly(o).terms) > 1 else FALSE
        if name == 'is_Mul':
            return TRUE if len(poly(o).terms) == 1 and len(factors(o)) > 1 else FALSE
        if name == 'free_symbols':
            return expr_method(it, o, 'atoms', [], {}, st, node)
        if name == 'args':
            if isinstance(o, Const):
                return Tup([])
            fs = monomials(o) if len(poly(o).terms) > 1 else factors(o)
            if len(fs) > 1:
                return Tup(fs)
    return None


def sym_typ(p):
    p = poly(p)
    if len(p.terms) > 1:
        return 'sympy.Add'
    return 'sympy.Expr'


def inst_method(it, slf, name, args, kw, st, node):
    r = it.get(st, slf)
    if not it.is_model(r.cls):
        return NotImplemented
    data = r.fields.get('data')
    if data is None:
        return NotImplemented
    if name in ('items', 'keys', 'values', '__len__'):
        return L.call_method(it, data, name, args, kw, st, node)
    if name == 'get':
        c = L.contains(it, args[0], data, st)
        d = args[1] if len(args) > 1 else NONE
        if c == FALSE:
            return d
        return it.getitem(slf, args[0], st, node)
    if name == 'update':
        for a in args:
            segs = it.segs(st, a) if isinstance(a, I.Ref) and isinstance(it.get(st, a), I.HSeq) else None
            if segs is None or any(not isinstance(s, Seg) or s.binders or s.guard != TRUE for s in segs):
                return NotImplemented
            for s in segs:
                it.call(r.cls.lookup('__setitem__'), [slf, s.payload.items[0], s.payload.items[1]], {}, st, node)
        return NONE
    if name == 'setdefault':
        c = L.contains(it, args[0], data, st)
        if c == FALSE:
            it.call(r.cls.lookup('__setitem__'), [slf] + list(args), {}, st, node)
        return it.getitem(slf, args[0], st, node)
    if name == 'pop' and len(args) in (1, 2):
        return L.call_method(it, data, 'pop', args, kw, st, node)
    if name == '__iter__':
        return L.call_method(it, data, 'keys', [], {}, st, node)
    if name == '__contains__':
        return L.contains(it, args[0], data, st)
    return NotImplemented


def generic_allclose(it, args, kw, st, node=None):
    """Different free letters are generically not close."""
    a, b = it.snap(args[0], st), it.snap(args[1], st)

    def leaf(x, y):
        if x == y:
            return TRUE
        p, q = poly(x), poly(y)
        if p is None or q is None:
            return pred(P('close', x, y))
        if B.is_zero(p) and B.is_zero(q):
            return TRUE
        if p.const() is not None and q.const() is not None:
            return TRUE if p.const() == q.const() else FALSE
        if B.is_zero(p) or B.is_zero(q):
            return FALSE
        return pred(P('close', *sorted([x, y], key=lambda t: t.key())))
    return lift(leaf, a, b)


def f_sparse(it, args, kw, st, node):
    a = it.snap(args[0], st)
    if isinstance(a, Tup) and len(a.items) == 2:
        return fn('zeros', [a], 'm', (), 'csr_matrix')
    return L.retyp(a, 'csr_matrix')


def f_coo(it, args, kw, st, node):
    return L.retyp(f_sparse(it, args, kw, st, node), 'coo_matrix')


def f_linop(it, args, kw, st, node):
    return L.retyp(it.snap(args[0], st), 'LinearOperator')


def f_symMul(it, args, kw, st, node):
    r = Const(1)
    for a in args:
        r = mul(r, it.snap(a, st))
    return L.sconst(r)


def f_symAdd(it, args, kw, st, node):
    r = Const(0)
    for a in args:
        r = add(r, it.snap(a, st))
    return L.sconst(r)


def f_symbols(it, args, kw, st, node):
    s = it.snap(args[0], st)
    if isinstance(s, Const) and isinstance(s.v, str):
        n = s.v.replace(',', ' ').split()
        return Tup([sym(x) for x in n]) if len(n) != 1 else sym(n[0])
    return NotImplemented


def to_sym(it, v, st):
    x = it.snap(v, st)
    if isinstance(x, Const) and isinstance(x.v, str):
        return sym(x.v)
    return L.sconst(x)


def install(it):
    it.explicit = True
    it.ext_over.update({
        'numpy.allclose': generic_allclose, 'scipy.sparse.csr_matrix': f_sparse, 'scipy.sparse.coo_matrix': f_coo,
        'scipy.sparse.linalg.aslinearoperator': f_linop, 'sympy.Mul': f_symMul, 'sympy.Add': f_symAdd,
        'sympy.symbols': f_symbols, 'sympy.Symbol': f_symbols,
        'sympy.sympify': lambda it, a, kw, st, n: to_sym(it, a[0], st),
        'sympy.simplify': lambda it, a, kw, st, n: L.sconst(it.snap(a[0], st)),
    })
    it.summaries.update({
        'linalg.allclose': lambda it, a, kw, st, n: generic_allclose(it, a, kw, st),
        'kwant_continuum.sympify': lambda it, a, kw, st, n: to_sym(it, a[0], st),
        'kwant_continuum.make_commutative': lambda it, a, kw, st, n: it.snap(a[0], st),
    })
    it.poly_method = expr_method
    it.attr_hook = expr_attr
    it.inst_method = inst_method
    return it


# -- building and reading abstract models

KX, KY, KZ = sym('k_x'), sym('k_y'), sym('k_z')
FORMATS = {'np.ndarray': 'numpy.ndarray', 'csr_matrix': 'scipy.sparse.csr_matrix', 'coo_matrix': 'scipy.sparse.coo_matrix',
           'LinearOperator': 'scipy.sparse.linalg.LinearOperator', 'np.complex128': 'numpy.complex128'}


def model(it, st, terms, momenta=(KX, KY), keep=(), shape=('n', 'n'), fmt='np.ndarray', cls='Model'):
    data = it.alloc(st, I.HSeq('dict', [Seg((), TRUE, Tup([k, v])) for k, v in terms]))
    kp = it.alloc(st, I.HSeq('set', [Seg((), TRUE, k) for k in keep]))
    sh = dims2(*shape) if shape and isinstance(shape[0], str) else Tup(list(shape))
    return it.alloc(st, I.HInst(it.func('model', cls), {
        'data': data, 'momenta': Tup(list(momenta)), 'keep': kp, 'shape': sh, 'format': I.Ext(FORMATS[fmt])}))


def bloch(hop, coeff):
    return Rec('model.BlochCoeff', [hop, coeff])


class Want:
    """Required contents of a model."""
    def __init__(self, terms, momenta=(KX, KY), keep=(), shape=('n', 'n'), fmt='np.ndarray', cls=None):
        self.terms, self.keep, self.fmt, self.cls = list(terms), list(keep), fmt, cls
        self.momenta = Tup(list(momenta)) if momenta is not None else None
        self.shape = None if shape is None else (dims2(*shape) if shape and isinstance(shape[0], str) else Tup(list(shape)))


def read(v):
    """Snapshot of a model -> fields dict or None."""
    if isinstance(v, Rec) and v.cls.startswith('model.') and v.cls.endswith('Model'):
        d = {}
        for t in v.items:
            d[t.items[0].v] = t.items[1]
        d['__class__'] = v.cls
        return d
    return None
