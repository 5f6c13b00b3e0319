"""Vocabulary: what the external functions and methods used by the package mean
in the abstract domains. Anything not listed is an unknown value."""
from . import terms as T
from .terms import *
from . import build as B
from .build import *
from fractions import Fraction
from . import arrays as AR
from . import ndlib as ND


def I_():
    from . import interp
    return interp


BUILTINS = {'len', 'range', 'abs', 'min', 'max', 'sum', 'all', 'any', 'zip', 'enumerate', 'reversed', 'sorted', 'list',
            'tuple', 'set', 'dict', 'frozenset', 'isinstance', 'issubclass', 'type', 'str', 'repr', 'int', 'float',
            'complex', 'bool', 'next', 'iter', 'map', 'filter', 'print', 'hash', 'round', 'id', 'callable', 'getattr',
            'hasattr', 'setattr', 'slice', 'object', 'ValueError', 'TypeError', 'NotImplementedError', 'Exception',
            'AttributeError', 'KeyError', 'IndexError', 'RuntimeError', 'AssertionError', 'DeprecationWarning',
            'NotImplemented', 'super', 'vars', 'divmod', 'pow', 'format', 'ord', 'chr', 'property', 'staticmethod',
            'ArithmeticError', 'ZeroDivisionError', 'StopIteration', 'UserWarning', 'Warning', '__name__', 'open'}

GLOBALS = {
    'kwant_continuum.e': atom('sym:e', (), 's', ('real',), 'sympy.Symbol'),
    'model.e': atom('sym:e', (), 's', ('real',), 'sympy.Symbol'),
    'model.I': Const(1j),
    'model._commutative_momenta': atom('commutative_momenta', (), 's', (), 'coll'),
}

PI = atom('pi', (), 's', ('real', 'positive'), 'float')


def ext_const(name):
    if name in ('numpy.pi', 'sympy.pi', 'math.pi'):
        return PI
    if name == 'sympy.I':
        return Const(1j)
    if name in ('numpy.e', 'math.e', 'sympy.E'):
        return atom('num:e', (), 's', ('real',), 'float')
    if name in ('numpy.newaxis',):
        return NONE
    if name in ('numpy.random', 'numpy.random.mtrand._rand'):
        return None if name == 'numpy.random' else ND.GLOBAL
    return None


# --- types ---------------------------------------------------------------------

NUM = {'bool', 'int', 'float', 'complex', 'np.complex128', 'Number'}
SPARSE = {'sparse', 'csr_matrix', 'coo_matrix'}
SYEXPR = {'sympy.Expr', 'sympy.Symbol', 'sympy.Add', 'sympy.Num', 'sympy.Pow', 'sympy.Mul'}
CLASSES = {
    'numpy.ndarray': {'np.ndarray'},
    'tinyarray.ndarray_int': {'ta.ndarray_int'},
    'tinyarray.ndarray_float': {'ta.ndarray_float'},
    'tinyarray.ndarray_complex': {'ta.ndarray_complex'},
    'sympy.ImmutableMatrix': {'sympy.ImmutableMatrix'},
    'sympy.ImmutableDenseMatrix': {'sympy.ImmutableMatrix'},
    'sympy.Matrix': {'sympy.Matrix'},
    'sympy.MatrixBase': {'sympy.Matrix', 'sympy.ImmutableMatrix'},
    'numbers.Integral': {'bool', 'int'}, 'numpy.random.RandomState': {'RandomState'}, 'numpy.random.mtrand.RandomState': {'RandomState'},
    'numbers.Number': NUM | {'sympy.Num'},
    'builtins.int': {'bool', 'int'}, 'builtins.float': {'float'}, 'builtins.bool': {'bool'},
    'builtins.complex': {'complex', 'np.complex128'}, 'builtins.str': {'str'},
    'builtins.list': {'list'}, 'builtins.tuple': {'tuple', 'BlochCoeff'}, 'builtins.dict': {'dict'},
    'builtins.set': {'set'}, 'builtins.frozenset': {'frozenset'}, 'builtins.slice': {'slice'},
    'numpy.complex128': {'np.complex128'},
    'sympy.Basic': SYEXPR | {'sympy.ImmutableMatrix'},
    'sympy.Expr': SYEXPR,
    'sympy.Symbol': {'sympy.Symbol'}, 'sympy.Add': {'sympy.Add'}, 'sympy.Pow': {'sympy.Pow'}, 'sympy.Mul': {'sympy.Mul'},
    'scipy.sparse.spmatrix': SPARSE, 'scipy.sparse.csr_matrix': {'csr_matrix'}, 'scipy.sparse.coo_matrix': {'coo_matrix'},
    'scipy.sparse.csc_matrix': {'sparse'},
    'scipy.sparse.linalg.LinearOperator': {'LinearOperator'},
    'collections.abc.Mapping': {'dict', 'Model', 'BlochModel'},
    'collections.UserDict': {'Model', 'BlochModel'},
    'Model': {'Model', 'BlochModel'}, 'BlochModel': {'BlochModel'}, 'BlochCoeff': {'BlochCoeff'},
    'PointGroupElement': {'PGE'}, 'ContinuousGroupGenerator': {'CGG'},
}
ALIAS = {'scipy.sparse.csr.csr_matrix': 'scipy.sparse.csr_matrix', 'sympy.core.basic.Basic': 'sympy.Basic',
         'sympy.matrices.matrices.MatrixBase': 'sympy.MatrixBase', 'sympy.matrices.MatrixBase': 'sympy.MatrixBase',
         'sympy.matrices.Matrix': 'sympy.Matrix', 'sympy.core.Basic': 'sympy.Basic',
         'sympy.core.expr.Expr': 'sympy.Expr', 'sympy.MutableDenseMatrix': 'sympy.Matrix',
         'sympy.core.symbol.Symbol': 'sympy.Symbol', 'numpy.cdouble': 'numpy.complex128', 'abc.Mapping': 'collections.abc.Mapping'}
TAG_CLASS = {'np.ndarray': 'numpy.ndarray', 'ta.ndarray_int': 'tinyarray.ndarray_int',
             'ta.ndarray_float': 'tinyarray.ndarray_float', 'ta.ndarray_complex': 'tinyarray.ndarray_complex',
             'sympy.ImmutableMatrix': 'sympy.ImmutableMatrix', 'sympy.Matrix': 'sympy.Matrix', 'int': 'builtins.int',
             'float': 'builtins.float', 'complex': 'builtins.complex', 'bool': 'builtins.bool', 'str': 'builtins.str',
             'np.complex128': 'numpy.complex128', 'csr_matrix': 'scipy.sparse.csr_matrix', 'coo_matrix': 'scipy.sparse.coo_matrix',
             'LinearOperator': 'scipy.sparse.linalg.LinearOperator'}
CLASS_TAG = {v: k for k, v in TAG_CLASS.items()}
MATRIXLIKE = {'np.ndarray', 'ta.ndarray_int', 'ta.ndarray_float', 'ta.ndarray_complex', 'sympy.ImmutableMatrix',
              'sympy.Matrix', 'sparse', 'csr_matrix', 'coo_matrix', 'LinearOperator'}


def cname(name):
    return ALIAS.get(name, name)


def tags_of(it, v, st):
    """Set of possible type tags of a leaf value, or None."""
    I = I_()
    if isinstance(v, SConst):
        return {'sympy.Num'}
    if isinstance(v, Const):
        if v.v is None:
            return {'NoneType'}
        if isinstance(v.v, bool):
            return {'bool'}
        t = type(v.v).__name__
        return {t}
    if isinstance(v, Tup):
        return {'tuple'}
    if isinstance(v, Seq):
        return {'list', 'generator'}
    if isinstance(v, (DictV,)):
        return {'dict'}
    if isinstance(v, SetV):
        return {'set'}
    if isinstance(v, Rec):
        return {v.cls.split('.')[-1]}
    if isinstance(v, I.Ref):
        r = it.get(st, v)
        if isinstance(r, I.HSeq):
            return {r.kind}
        if isinstance(r, I.HInst):
            n = r.cls.name
            return {{'PointGroupElement': 'PGE', 'ContinuousGroupGenerator': 'CGG'}.get(n, n)}
        return None
    if isinstance(v, Poly):
        if it.explicit and v.kind == 's' and (not v.typ or v.typ <= SYEXPR):
            t = expr_tag(v)
            if t is not None:
                return {t}
        return set(v.typ) if v.typ else None
    if isinstance(v, (I.Fun, I.Bound, I.Partial, I.Meth)):
        return {'function'}
    if is_bool(v):
        return {'bool'}
    return None


def expr_tag(p):
    """Class of a symbolic expression built from free symbols."""
    for (s, w) in p.terms:
        for (a, c), e in s:
            if 'sym' not in a.attrs and a.name != 'epow':
                return None
            if a.name != 'epow' and 'num' not in a.attrs and not (a.typ and any('sympy' in t for t in a.typ)):
                return None
    if not any('num' not in a.attrs for (s, w) in p.terms for (a, c), e in s):
        return None
    if len(p.terms) > 1:
        return 'sympy.Add'
    (s, w), c = next(iter(p.terms.items()))
    if c != (1, 0) or len(s) != 1:
        return 'sympy.Mul'
    (a, _), e = s[0]
    return 'sympy.Pow' if a.name == 'epow' or e != 1 else 'sympy.Symbol'


def expr_args(p, tag):
    """.args of an expanded expression over free symbols."""
    if tag == 'sympy.Symbol':
        return Tup([])
    if tag == 'sympy.Mul':
        (s, w), c = next(iter(p.terms.items()))
        if c != (1, 0) or sum(a.name == 'epow' for (a, _), e in s) > 1:
            return None
        one = (Fraction(1), Fraction(0))
        return Tup([Poly({((((a, cj), e),), ()): one}, 's', p.typ if e != 1 else 'sympy.Symbol') for (a, cj), e in s])
    return None


def f_prod(it, args, kw, st, node):
    l = it.iter(args[0], st) if it.explicit and len(args) == 1 and not kw else None
    if l is None or any(not isinstance(s, Seg) or s.binders or s.guard != TRUE for s in l):
        return fn('prod', [it.snap(args[0], st)])
    r = Const(1)
    for s in l:
        r = it.binop('Mult', r, s.payload, st, node)
    return r


def class_tags(it, c, st):
    """Tags covered by a class value, or None."""
    I = I_()
    if isinstance(c, Tup):
        out = set()
        for x in c.items:
            t = class_tags(it, x, st)
            if t is None:
                return None
            out |= t
        return out
    if isinstance(c, I.Ext):
        return CLASSES.get(cname(c.name))
    if isinstance(c, I.Cls):
        return CLASSES.get(c.name, {c.name})
    if c == NONE:
        return {'NoneType'}
    return None


def isinst(it, v, c, st):
    def leaf(x):
        ct = class_tags(it, c, st)
        xt = tags_of(it, x, st)
        if ct is not None and xt is not None:
            if xt <= ct:
                return TRUE
            if not (xt & ct):
                return FALSE
            names = sorted(xt)
            res, rest = FALSE, TRUE
            for i, n in enumerate(names):
                p = pred(P('isa', x, Const(n))) if i < len(names) - 1 else TRUE
                if n in ct:
                    res = bor(res, band(rest, p))
                rest = band(rest, bnot(p))
            return res
        if isinstance(x, Const) and isinstance(c, I_().Ext) and c.name.split('.')[0] == 'collections':
            return FALSE    # a number, text or None is no container
        return pred(P('isinst', it.snap(x, st), it.snap(c, st)))
    return lift(leaf, v)


def issub(it, c, d, st):
    I = I_()

    def leaf(x):
        if isinstance(x, (I.Ext, I.Cls)):
            if isinstance(x, I.Ext) and isinstance(d, I.Ext) and cname(x.name) == cname(d.name):
                return TRUE
            xt, dt = class_tags(it, x, st), class_tags(it, d, st)
            if xt is not None and dt is not None:
                if xt <= dt:
                    return TRUE
                if not (xt & dt):
                    return FALSE
        return pred(P('issub', it.snap(x, st), it.snap(d, st)))
    return lift(leaf, c)


def typeof(it, v, st):
    I = I_()

    def leaf(x):
        t = tags_of(it, x, st)
        if isinstance(x, I.Ref):
            r = it.get(st, x)
            if isinstance(r, I.HInst):
                return r.cls
            if isinstance(r, I.HSeq):
                return I.Ext('builtins.' + r.kind)
        if isinstance(x, Rec):
            c = it.rec_class(x)
            if c is not None:
                return c
        if it.explicit and isinstance(x, Poly) and x.kind == 's' and expr_tag(x) is not None and not (x.typ and 'complex' in x.typ):
            return I.Ext(expr_tag(x))
        if t is not None and len(t) == 1:
            n = TAG_CLASS.get(next(iter(t)))
            if n:
                return I.Ext(n)
            if next(iter(t)) in ('tuple', 'list', 'dict', 'set', 'NoneType'):
                return I.Ext('builtins.' + next(iter(t)))
            if next(iter(t)) in ('Model', 'BlochModel'):
                c = it.modval('model', next(iter(t)))
                if c is not None:
                    return c
        return fn('type', [it.snap(x, st)], 's', (), 'class')
    return lift(leaf, v)


# --- conversions ------------------------------------------------------------------

def retyp(v, typ):
    def leaf(x):
        p = poly(x)
        if p is None or isinstance(x, Const) and p.kind == 's':
            return x
        return Poly(p.terms, p.kind, typ)
    return lift(leaf, v)


def nested(it, v, st):
    """Nested sequence -> nested Tup of leaf values, or None."""
    I = I_()
    if isinstance(v, I.Ref):
        segs = it.segs(st, v)
        if segs is None or any(not isinstance(s, Seg) or s.binders or s.guard != TRUE for s in segs):
            return None
        r = [nested(it, s.payload, st) for s in segs]
        return None if any(x is None for x in r) else Tup(r)
    if isinstance(v, Seq):
        if any(s.binders or s.guard != TRUE for s in v.segs):
            return None
        r = [nested(it, s.payload, st) for s in v.segs]
        return None if any(x is None for x in r) else Tup(r)
    if isinstance(v, Tup):
        r = [nested(it, x, st) for x in v.items]
        return None if any(x is None for x in r) else Tup(r)
    return v


def depth_of(t):
    return 1 + max([depth_of(x) for x in t.items] or [0]) if isinstance(t, Tup) else 0


def dtype_name(it, d, st):
    I = I_()
    if d is None or d == NONE:
        return None
    if isinstance(d, I.Ext):
        return d.name.split('.')[-1].replace('complex128', 'complex').replace('float64', 'float')
    if isinstance(d, Const) and isinstance(d.v, str):
        return d.v
    return '?'


def as_array(it, v, st, typ, dtype=None):
    I = I_()

    def leaf(x):
        p = poly(x)
        if p is not None and (p.kind in ('m', 'v') or (p.kind == 'x' and not (p.typ and 'Model' in p.typ))):
            if dtype == 'int' and not intlike(p):
                return fn('trunc', [p], p.kind, (), typ)
            if dtype == 'int':
                a = single_atom(p)
                if a is not None and a.name == 'round' and len(a.args) == 1 and integral(a.args[0]):
                    p = a.args[0]
            return Poly(p.terms, p.kind, typ)
        if p is not None and p.kind == 's':
            a = single_atom(p)
            if a is not None and a.typ and ('coll' in a.typ or 'any' in a.typ):
                return fn('vec', [p], 'v', (), typ)
            return x if isinstance(x, Const) else Poly(p.terms, 's', p.typ)
        if isinstance(x, (I.Ref, Tup, Seq)):
            n = nested(it, x, st)
            if isinstance(n, Tup):
                d = depth_of(n)
                if n.items and all(poly(y) is not None and poly(y).kind in ('m', 'v') for y in n.items):
                    return fn('stack', [n], 'm', ('stack',), typ)
                return fn('array', [n], 'v' if d == 1 else 'm', ('stack',) if d > 2 else (), typ)
            s = it.snap(x, st)
            if isinstance(s, Seq):
                ks = [poly(g.payload) for g in s.segs if isinstance(g, Seg) and not isinstance(g.payload, Ite)]
                if ks and all(k is not None and k.kind in ('v', 'm') for k in ks) and len(ks) == len(s.segs):
                    return fn('stack', [s], 'm', ('stack',), typ)
                return fn('vec', [s], 'v', (), typ)
        return Opq('array', (it.snap(x, st),))
    return lift(leaf, v)


def integral(p):
    """Built from integer arrays (and their inverses: integer rotations are unimodular)."""
    return bool(p.terms) and all(not s_ and c[1] == 0 and c[0].denominator == 1 and w and
                                 all(l[0].typ and l[0].typ <= {'ta.ndarray_int'} or l[0].name == 'eye' for l in w)
                                 for (s_, w), c in p.terms.items())


def intlike(p):
    return bool(p.typ and p.typ <= {'ta.ndarray_int', 'int', 'bool'}) or all(
        l[0].name in ('eye', 'round', 'trunc', 'zeros') for (s, w) in p.terms for l in w)


# --- calls -------------------------------------------------------------------------

def unk(it, name, args, kw, st, node):
    it.note('unknown function ' + name, node)
    it.escape(args, kw, st)
    return Opq('f:' + name, [it.snap(a, st) for a in args] +
               [Tup([Const(k), it.snap(v, st)]) for k, v in sorted(kw.items())])


def call_ext(it, name, args, kw, st, node):
    if any(isinstance(a, Rec) and a.cls == 'star' for a in args) or '**' in kw:
        h = STAR.get(cname(name))
        if h is not None:
            return h(it, args, kw, st, node)
        return unk(it, name, args, kw, st, node)
    it.cur = cname(name)
    h = it.ext_over.get(cname(name))
    if h is not None:
        r = h(it, args, kw, st, node)
        if r is not NotImplemented:
            return r
    if it.nd:
        r = ND.call(it, cname(name), args, kw, st, node)
        if r is not None:
            return r
        it.cur = cname(name)
    h = EXT.get(cname(name))
    if h is None:
        h = it.ext_summaries.get(cname(name)) if hasattr(it, 'ext_summaries') else None
    if h is not None:
        r = h(it, args, kw, st, node)
        if r is not NotImplemented:
            return r
    return unk(it, cname(name), args, kw, st, node)


EXT = {}
STAR = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def pure1(f):
    return lambda it, args, kw, st, node: lift(f, args[0])


def simple(name, nargs=None, kind='s', attrs=(), typ=None):
    def g(it, args, kw, st, node):
        if kw and set(kw) - {'dtype'}:
            return NotImplemented
        return fn(name, [it.snap(a, st) for a in args], kind, attrs, typ)
    return g


def reg(names, f):
    for n in names.split():
        EXT[n] = f


reg('numpy.conj numpy.conjugate sympy.conjugate', pure1(T.conj))
reg('numpy.transpose', lambda it, a, kw, st, n: lift(transpose, a[0]) if len(a) == 1 else NotImplemented)
reg('numpy.dot tinyarray.dot numpy.matmul', lambda it, a, kw, st, n: it.binop('MatMult', a[0], a[1], st, n))
reg('numpy.multiply', lambda it, a, kw, st, n: it.binop('Mult', a[0], a[1], st, n))
reg('numpy.add operator.add', lambda it, a, kw, st, n: it.binop('Add', a[0], a[1], st, n))
reg('numpy.subtract', lambda it, a, kw, st, n: it.binop('Sub', a[0], a[1], st, n))
reg('operator.mul', lambda it, a, kw, st, n: it.binop('Mult', a[0], a[1], st, n))
reg('operator.matmul', lambda it, a, kw, st, n: it.binop('MatMult', a[0], a[1], st, n))
reg('operator.xor', lambda it, a, kw, st, n: it.binop('BitXor', a[0], a[1], st, n))
reg('numpy.logical_xor', lambda it, a, kw, st, n: it.binop('BitXor', a[0], a[1], st, n))
def npinv(x):
    r = T.inverse(x)
    return Poly(r.terms, r.kind, 'np.ndarray') if isinstance(r, Poly) else r


reg('numpy.linalg.inv scipy.linalg.inv', pure1(npinv))
reg('numpy.negative', pure1(T.neg))
reg('numpy.real', pure1(lambda x: real_(x)))
reg('numpy.imag', simple('imag', 1, 's', ('real',)))
reg('copy.copy copy.deepcopy', lambda it, a, kw, st, n: copy_value(it, a[0], st, n))
reg('operator.neg', lambda it, a, kw, st, n: it.call_neg(a[0], st, n))


@ext('numpy.eye', 'numpy.identity', 'tinyarray.identity', 'sympy.eye', 'scipy.sparse.identity', 'scipy.sparse.eye')
def f_eye(it, args, kw, st, node):
    if 'k' in kw or len(args) > 2:
        return NotImplemented
    n = args[0] if args else kw.get('n', kw.get('N'))
    if n is None:
        return NotImplemented
    if len(args) > 1 and it.cur in ('numpy.eye', 'scipy.sparse.eye') and args[1] != args[0]:
        return NotImplemented
    nm = it.cur
    typ = 'ta.ndarray_int' if nm.startswith('tinyarray') else 'sympy.Matrix' if nm.startswith('sympy.') else \
        'sparse' if nm.startswith('scipy.sparse') else 'np.ndarray'
    return fn('eye', [n], 'm', ('real', 'hermitian', 'unitary', 'symmetric'), typ)


def f_eye_star(it, args, kw, st, node):
    a = args[0]
    if isinstance(a, Rec) and a.cls == 'star':
        s = a.items[0]
        at = single_atom(s) if isinstance(s, Poly) else None
        if at is not None and at.name == 'shape':
            return fn('eye', [fn('dim', [at.args[0]], 's', ('real',), 'int')], 'm',
                      ('real', 'hermitian', 'unitary', 'symmetric'), 'np.ndarray')
    return Opq('eye*', [it.snap(x, st) for x in args])


STAR['numpy.eye'] = f_eye_star


@ext('numpy.zeros', 'numpy.empty', 'tinyarray.zeros', 'sympy.zeros')
def f_zeros(it, args, kw, st, node):
    s = it.snap(args[0] if args else kw.get('shape'), st)
    if isinstance(s, Tup) and len(s.items) == 1:
        s = s.items[0]
    kind = 'm'
    if not isinstance(s, Tup):
        a = single_atom(s) if isinstance(s, Poly) else None
        kind = 'v' if not (a is not None and a.name == 'shape') else 'm'
        if isinstance(s, Poly) and s.typ and 'tuple' in s.typ:
            kind = 'x'
    elif not s.items:
        return Const(0)
    if it.explicit and kind == 'v' and B.numconst(s) is not None:
        return AR.mk([Const(0)] * int(B.numconst(s)))
    return fn('zeros', [s], kind, (), 'np.ndarray')


@ext('numpy.zeros_like')
def f_zeros_like(it, args, kw, st, node):
    return lift(lambda x: fn('zeros', [shape_of(x)], poly(x).kind if poly(x) else 'm', (), 'np.ndarray'), args[0])


@ext('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray')
def f_array(it, args, kw, st, node):
    d = dtype_name(it, args[1] if len(args) > 1 else kw.get('dtype'), st)
    return as_array(it, args[0], st, 'np.ndarray', d)


@ext('tinyarray.array', 'tinyarray.matrix')
def f_taarray(it, args, kw, st, node):
    d = dtype_name(it, args[1] if len(args) > 1 else kw.get('dtype'), st)
    typ = {'int': 'ta.ndarray_int', 'float': 'ta.ndarray_float', 'complex': 'ta.ndarray_complex'}.get(d)
    if typ is None:
        def leaf(x):
            t = tags_of(it, x, st)
            if t is not None and all(y.startswith('ta.') for y in t):
                return frozenset(t)
            return frozenset(['ta.ndarray_int', 'ta.ndarray_float'])
        return lift(lambda x: as_array(it, x, st, leaf(x), d), args[0])
    return as_array(it, args[0], st, typ, d)


@ext('numpy.atleast_2d', 'numpy.atleast_1d')
def f_atleast(it, args, kw, st, node):
    return as_array(it, args[0], st, 'np.ndarray')


@ext('sympy.ImmutableMatrix', 'sympy.Matrix', 'sympy.ImmutableDenseMatrix')
def f_symatrix(it, args, kw, st, node):
    nm = it.cur
    typ = 'sympy.ImmutableMatrix' if 'Immutable' in nm else 'sympy.Matrix'
    if len(args) == 1:
        return as_array(it, args[0], st, typ)
    return fn('symatrix', [it.snap(a, st) for a in args], 'm', (), typ)


@ext('numpy.round', 'numpy.around', 'numpy.rint')
def f_round(it, args, kw, st, node):
    def leaf(x):
        p = poly(x)
        if p is None:
            return Opq('round', (x,))
        if p.const() is not None and len(args) == 1 and p.const()[1] == 0:
            return Const(float(round(p.const()[0])))
        if B.intvalued(p) and len(args) == 1:
            return x
        extra = [it.snap(a, st) for a in args[1:]] + [it.snap(v, st) for k, v in sorted(kw.items())]
        return fn('round', [x] + extra, p.kind, (), p.typ)
    return lift(leaf, args[0])


@ext('scipy.linalg.expm', 'scipy.sparse.linalg.expm')
def f_expm(it, args, kw, st, node):
    def leaf(x):
        if poly(x) is None:
            return Opq('expm', (x,))
        x = AR.norm(x)
        r = exp_rotation(x)
        return r if r is not None else fn('expm', [x], 'm', (), 'np.ndarray')
    return lift(leaf, args[0])


def exp_rotation(x):
    """Exponential of an explicit antisymmetric matrix: every plane rotation, and
    rotations in space by angles with known sine and cosine (Rodrigues)."""
    e = AR.expl(x)
    n = len(e) if e is not None and AR.is2(e) else 0
    if n not in (2, 3) or any(len(r) != n for r in e):
        return None
    z = lambda v: poly(v) is not None and B.is_zero(poly(v))
    if any(not z(add(e[i][j], e[j][i])) for i in range(n) for j in range(n)):
        return None
    if any(poly(v) is None or poly(conj(v)) != poly(v) for r in e for v in r):
        return None
    if n == 2:
        a = e[1][0]
        c, s = trig('cos')(None, [a], {}, None, None), trig('sin')(None, [a], {}, None, None)
        return AR.mk([[c, neg(s)], [s, c]])
    w = [e[2][1], e[0][2], e[1][0]]
    q = []
    for v in w:
        p = poly(v)
        if z(v):
            q.append(Const(0))
            continue
        t = {}
        for (sc, wd), c in p.terms.items():
            pi = [(k, ex) for k, ex in sc if k[0].name == 'pi']
            if wd or c[1] != 0 or len(pi) != 1 or pi[0][1] != 1:
                return None
            t[(tuple(kx for kx in sc if kx not in pi), ())] = c
        q.append(simplify(Poly(t, 's')))
    t2 = Const(0)
    for v in q:
        t2 = add(t2, mul(v, v))
    c2 = poly(t2).const()
    if c2 is None:
        return None
    c2 = (c2[0].limit_denominator(10 ** 4), c2[1])
    if c2[0] == 0:
        return fn('eye', [Const(3)], 'm', (), 'np.ndarray')
    th = poly(sqrt_(simplify(Poly({((), ()): c2}, 's')))).const()
    if th is None:
        return None
    cs, sn = cos_const(th[0] / 2), cos_const(th[0] / 2 - Fraction(1, 4))
    if cs is None or sn is None:
        return None
    inv = simplify(Poly({((), ()): (1 / th[0], Fraction(0))}, 's', 'float'))
    u = [mul(v, inv) for v in q]
    eps = [[Const(0), neg(u[2]), u[1]], [u[2], Const(0), neg(u[0])], [neg(u[1]), u[0], Const(0)]]
    r = [[add(mul(sub(Const(1), cs), mul(u[i], u[j])), mul(sn, eps[i][j])) for j in range(3)] for i in range(3)]
    return AR.mk([[add(r[i][j], cs) if i == j else r[i][j] for j in range(3)] for i in range(3)])


@ext('numpy.kron', 'scipy.sparse.kron')
def f_kron(it, args, kw, st, node):
    return kron(it.snap(args[0], st), it.snap(args[1], st))


@ext('numpy.outer')
def f_outer(it, args, kw, st, node):
    def leaf(x, y):
        a, b = AR.expl(x), AR.expl(y)
        if a is not None and b is not None and not AR.is2(a) and not AR.is2(b):
            return AR.mk([[mul(p, q) for q in b] for p in a])
        if poly(x) is not None and poly(y) is not None:
            return bilinear('outer', [poly(x), poly(y)], 'm', frozenset(['np.ndarray']))
        return Opq('outer', (x, y))
    return lift(leaf, as_array(it, args[0], st, 'np.ndarray'), as_array(it, args[1], st, 'np.ndarray'))


@ext('numpy.trace', 'sympy.trace')
def f_trace(it, args, kw, st, node):
    return trace(args[0])


def trace(v):
    def leaf(x):
        p = poly(x)
        if p is None:
            return Opq('trace', (x,))
        out = Poly({}, 's')
        for (s, w), c in p.terms.items():
            if not w:
                return Opq('trace', (x,))
            if len(w) > 1:      # cyclic: smallest rotation
                w = min((w[i:] + w[:i] for i in range(len(w))), key=lambda u: [T.letter_key(l) for l in u])
            l = w[0]
            if len(w) == 1 and l[2]:
                w = (T.norm_letter(l[0], l[1], False, l[3]),)
            base = Poly({((), w): (Fraction(1), Fraction(0))}, p.kind, p.typ)
            t = pprod(Poly({(s, ()): c}, 's'), letter(Atom('trace', (base,), 's')))
            out = padd(out, t)
        return simplify(out)
    return lift(leaf, v)


@ext('sympy.Rational', 'fractions.Fraction')
def f_rational(it, args, kw, st, node):
    def leaf(*a):
        n = [numconst(x) for x in a]
        if any(not isinstance(x, int) for x in n) or len(n) == 2 and n[1] == 0:
            return Opq('Rational', tuple(a))
        return simplify(Poly({((), ()): (Fraction(n[0], n[1] if len(n) == 2 else 1), Fraction(0))}, 's', 'sympy.Num'))
    return lift(leaf, *args)


@ext('numpy.sqrt', 'sympy.sqrt', 'math.sqrt')
def f_sqrt(it, args, kw, st, node):
    return lift(sqrt_, args[0])


def sqrt_(x):
    """Square root; of rationals: rational times square roots of primes."""
    p = poly(x)
    c = p.const() if p is not None else None
    if c is not None and c[1] == 0 and c[0] >= 0 and c[0].denominator < 10 ** 6 and c[0].numerator < 10 ** 9:
        q, n = Fraction(1, c[0].denominator), c[0].numerator * c[0].denominator
        r, d = Const(1), 2
        while d * d <= n:
            while n % (d * d) == 0:
                n //= d * d
                q *= d
            if n % d == 0:
                n //= d
                r = mul(r, fn('sqrt', [Const(d)], 's', ('real',), 'float'))
            d += 1
        if n > 1:
            r = mul(r, fn('sqrt', [Const(n)], 's', ('real',), 'float'))
        return Const(0) if n == 0 else mul(simplify(Poly({((), ()): (q, Fraction(0))}, 's', 'float' if q.denominator > 1 else 'int')), r)
    return fn('sqrt', [x], 's', ('real',), 'float')


def turns(p):
    """x / (2 pi) when x is a rational multiple of pi, else None."""
    if len(p.terms) == 1:
        (sc, w), c = next(iter(p.terms.items()))
        if not w and c[1] == 0 and len(sc) == 1 and sc[0][0][0].name == 'pi' and sc[0][1] == 1:
            return (c[0] / 2).limit_denominator(10 ** 6) if abs((c[0] / 2).limit_denominator(10 ** 6) - c[0] / 2) < Fraction(1, 10 ** 12) else c[0] / 2
    return None


def cos_const(t):
    """cos(2 pi t) for multiples of 1/24 with values in Q(sqrt2, sqrt3)."""
    t = t % 1
    if t > Fraction(1, 2):
        t = 1 - t
    half = Poly({((), ()): (Fraction(1, 2), Fraction(0))}, 's', 'float')
    tab = {Fraction(0): Const(1), Fraction(1, 8): mul(half, sqrt_(Const(2))), Fraction(1, 12): mul(half, sqrt_(Const(3))),
           Fraction(1, 6): simplify(half), Fraction(1, 4): Const(0)}
    if t in tab:
        return tab[t]
    if Fraction(1, 2) - t in tab:
        return neg(tab[Fraction(1, 2) - t])
    return None


def trig(name):
    def g(it, args, kw, st, node):
        def leaf(x):
            p = poly(x)
            if p is None:
                return Opq(name, (x,))
            if p.const() == (0, 0):
                return Const(1 if name == 'cos' else 0)
            t = turns(p)
            if t is not None and name in ('sin', 'cos'):
                r = cos_const(t if name == 'cos' else t - Fraction(1, 4))
                if r is not None:
                    return r
            # normalise sign
            items = sorted(p.terms.items(), key=lambda kv: Poly({kv[0]: (Fraction(1), Fraction(0))}, 's').key())
            neg_ = items[0][1][0] < 0 or (items[0][1][0] == 0 and items[0][1][1] < 0)
            a = neg(p) if neg_ else p
            r = fn(name, [a], 's', ('real',), 'float')
            return neg(r) if neg_ and name in ('sin', 'tan') else r
        return lift(leaf, args[0])
    return g


for _n in ('sin', 'cos', 'tan'):
    reg('numpy.%s sympy.%s' % (_n, _n), trig(_n))
for _n in ('arctan2', 'arccos', 'arcsin', 'exp', 'log', 'floor', 'ceil', 'abs', 'sign', 'angle', 'unique', 'cumsum', 'absolute'):
    reg('numpy.' + _n, simple({'absolute': 'abs'}.get(_n, _n), attrs=('real',) if _n not in ('exp', 'log') else ()))
EXT['sympy.nsimplify'] = lambda it, a, kw, st, n: a[0]
EXT['sympy.simplify'] = lambda it, a, kw, st, n: a[0]


@ext('builtins.abs')
def f_abs(it, args, kw, st, node):
    def leaf(x):
        n = numconst(x)
        if n is not None:
            return Const(abs(n))
        return fn('abs', [x], poly(x).kind if poly(x) is not None else 's', ('real',), 'int' if poly(x) is not None and poly(x).typ == frozenset(['int']) else 'float')
    return lift(leaf, args[0])


EXT['numpy.abs'] = EXT['numpy.absolute'] = f_abs


@ext('numpy.allclose', 'numpy.isclose')
def f_allclose(it, args, kw, st, node):
    if len(args) < 2:
        return NotImplemented
    return close(it.snap(args[0], st), it.snap(args[1], st))


@ext('numpy.array_equal')
def f_aeq(it, args, kw, st, node):
    return close(it.snap(args[0], st), it.snap(args[1], st))


@ext('numpy.linalg.norm', 'scipy.linalg.norm')
def f_norm(it, args, kw, st, node):
    if kw or len(args) != 1:
        return NotImplemented
    return lift(norm_, as_array(it, args[0], st, 'np.ndarray'))


def norm_(x):
    """Norm of a vector; of an explicit one with rational entries its value."""
    e = AR.expl(x)
    if e is not None and not AR.is2(e):
        r = Const(0)
        for y in e:
            r = add(r, mul(y, conj(y)))
        if poly(r) is not None and poly(r).const() is not None:
            return sqrt_(r)
    return fn('norm', [x], 's', ('real',), 'float')


@ext('numpy.linalg.det', 'scipy.linalg.det')
def f_det(it, args, kw, st, node):
    return fn('det', [it.snap(args[0], st)], 's', (), 'float')


@ext('scipy.linalg.block_diag')
def f_blockdiag(it, args, kw, st, node):
    return fn('block_diag', [it.snap(a, st) for a in args], 'm', (), 'np.ndarray')


@ext('numpy.block')
def f_block(it, args, kw, st, node):
    n = nested(it, args[0], st)
    if isinstance(n, Tup) and all(isinstance(r, Tup) for r in n.items):
        if len(n.items) == 2 and all(len(r.items) == 2 for r in n.items):
            (a, b), (c, d) = [r.items for r in n.items]
            if all(poly(x) is not None and B.is_zero(poly(x)) for x in (b, c)):
                return fn('block_diag', [a, d], 'm', (), 'np.ndarray')
        return fn('block', [n], 'm', (), 'np.ndarray')
    return Opq('block', (it.snap(args[0], st),))


def stackf(name):
    def g(it, args, kw, st, node):
        n = it.snap(args[0], st)
        extra = [Tup([Const(k), it.snap(v, st)]) for k, v in sorted(kw.items())] + [it.snap(a, st) for a in args[1:]]
        return fn(name, [n] + extra, 'm', ('stack',), 'np.ndarray')
    return g


for _n in ('hstack', 'vstack', 'concatenate', 'stack'):
    reg('numpy.%s scipy.sparse.%s' % (_n, _n), stackf(_n))


@ext('numpy.diag')
def f_diag(it, args, kw, st, node):
    a = [it.snap(x, st) for x in args]
    k = kw.get('k', a[1] if len(a) > 1 else Const(0))
    p = poly(a[0]) if not isinstance(a[0], Ite) else None
    return fn('diag', [a[0], it.snap(k, st)], 'v' if p is not None and p.kind == 'm' else 'm', (), 'np.ndarray')


@ext('numpy.append')
def f_append(it, args, kw, st, node):
    if kw or len(args) != 2:
        return NotImplemented
    x, y = it.snap(args[0], st), it.snap(args[1], st)
    e = AR.expl(x)
    if e is not None and not AR.is2(e) and poly(y) is not None and poly(y).kind == 's':
        return AR.mk(e + [y])
    e = AR.expl(y)
    if e is not None and not AR.is2(e) and poly(x) is not None and poly(x).kind == 's':
        return AR.mk([x] + e)
    return fn('append', [x, y], 'v', (), 'np.ndarray')


def layers(v):
    """Explicit list of the matrices of a stack, or None."""
    p = poly(v)
    if p is None or not p.terms:
        return None
    out = None
    for (s, w), c in p.terms.items():
        if len(w) != 1 or w[0][2] or w[0][3] or w[0][0].name not in ('stack', 'array'):
            return None
        a, cj = w[0][0], w[0][1]
        t = a.args[0]
        if not isinstance(t, Tup) or a.name == 'array' and depth_of(t) != 3:
            return None
        co = simplify(Poly({(s, ()): c}, 's'))
        ms = [m if poly(m) is not None else AR.mk([list(r.items) for r in m.items]) for m in t.items]
        ms = [mul(co, conj(m) if cj else m) for m in ms]
        if out is None:
            out = ms
        elif len(out) != len(ms):
            return None
        else:
            out = [add(x, y) for x, y in zip(out, ms)]
    return out


def depth1(v):
    e = AR.expl(v)
    return e is not None and not AR.is2(e)


def contract(v, ms):
    """sum_i v_i M_i of an explicit vector and an explicit stack of matrices."""
    e, l = AR.expl(v), layers(ms)
    if e is None or AR.is2(e) or l is None or len(e) != len(l):
        return None
    r = Const(0)
    for x, m in zip(e, l):
        r = add(r, mul(x, m)) if r != Const(0) else mul(x, m)
    return AR.norm(r)


@ext('numpy.tensordot')
def f_tensordot(it, args, kw, st, node):
    ax = kw.get('axes', args[2] if len(args) > 2 else None)
    if ax is not None and len(args) >= 2:
        ax = it.snap(ax, st)
        one = lambda v: v.items[0] if isinstance(v, Tup) and len(v.items) == 1 else v.segs[0].v if isinstance(v, Seq) and len(v.segs) == 1 and hasattr(v.segs[0], 'v') else v
        if isinstance(ax, Tup) and [one(v) for v in ax.items] == [Const(0), Const(0)] or ax == Const(1) and depth1(args[0]):
            r = contract(it.snap(args[0], st), it.snap(args[1], st))
            if r is not None:
                return r
    return fn('tensordot', [it.snap(a, st) for a in args] + [it.snap(v, st) for k, v in sorted(kw.items())], 'm', (), 'np.ndarray')


@ext('numpy.sum')
def f_npsum(it, args, kw, st, node):
    if kw or len(args) != 1:
        return NotImplemented
    a = single_atom(args[0]) if isinstance(args[0], Poly) else None
    if a is not None and a.name == 'diagonal':
        return trace(a.args[0])
    if isinstance(args[0], Poly):
        return fn('nsum', [args[0]], 's')
    return f_sum(it, args, kw, st, node)


reg('numpy.prod', f_prod)
for _n in ('numpy.max', 'numpy.min', 'sympy.Mul', 'numpy.mean'):
    reg(_n, simple({'numpy.max': 'amax', 'numpy.min': 'amin', 'numpy.prod': 'prod', 'sympy.Mul': 'Mul', 'numpy.mean': 'mean'}[_n]))


@ext('numpy.vdot')
def f_vdot(it, args, kw, st, node):
    return lift(lambda x, y: vdot(T.conj(x), y), args[0], args[1])


@ext('sympy.diff')
def f_diff(it, args, kw, st, node):
    if len(args) != 2:
        return NotImplemented
    return fn('diff', [it.snap(a, st) for a in args], 's', (), 'sympy.Expr')


@ext('sympy.sympify', 'sympy.expand_power_exp', 'sympy.expand', 'sympy.powsimp')
def f_sym_id(it, args, kw, st, node):
    v = it.snap(args[0], st)
    return sconst(v) if it.explicit else v


EXT['sympy.core.numbers.One'] = lambda it, args, kw, st, node: SConst(1)
EXT['sympy.core.numbers.Zero'] = lambda it, args, kw, st, node: SConst(0)


# -- builtins

@ext('builtins.len')
def f_len(it, args, kw, st, node):
    I = I_()

    def g(x, s):
        c = it.cls_of(x, s)
        if isinstance(x, I.Ref) and c is not None and not it.is_model(c):
            m = c.lookup('__len__')
            if m is not None:
                return it.call(m, [x], {}, s, node)
        if isinstance(x, I.Ref) and c is not None and it.is_model(c) and it.explicit:
            d = it.get(s, x).fields.get('data')
            segs = it.segs(s, d) if isinstance(d, I.Ref) and isinstance(it.get(s, d), I.HSeq) else None
            if segs is not None and all(isinstance(y, Seg) and not y.binders and y.guard == TRUE for y in segs):
                return Const(len(segs))
        return length(it.snap(x, s))
    return it.fork(args[0], st, g)


@ext('builtins.range')
def f_range(it, args, kw, st, node):
    args = [it.snap(a, st) for a in args]
    if all(isinstance(a, Const) and isinstance(a.v, int) for a in args):
        r = range(*[a.v for a in args])
        if len(r) <= 40:
            return Tup([Const(i) for i in r])
    if len(args) == 1:
        return fn('range', args, 's', (), 'coll')
    if len(args) == 2 and args[0] == Const(0):
        return fn('range', args[1:], 's', (), 'coll')
    return fn('range', args, 's', (), 'coll')


@ext('numpy.arange')
def f_arange(it, args, kw, st, node):
    return f_range(it, args, {}, st, node) if not kw else NotImplemented


@ext('builtins.isinstance')
def f_isinstance(it, args, kw, st, node):
    return isinst(it, args[0], args[1], st)


@ext('builtins.issubclass')
def f_issubclass(it, args, kw, st, node):
    return issub(it, args[0], args[1], st)


@ext('builtins.type')
def f_type(it, args, kw, st, node):
    return typeof(it, args[0], st)


@ext('builtins.bool')
def f_bool(it, args, kw, st, node):
    return truth(it.snap(args[0], st)) if args else FALSE


@ext('builtins.int')
def f_int(it, args, kw, st, node):
    def leaf(x):
        if isinstance(x, Const) and isinstance(x.v, (int, float)):
            return Const(int(x.v))
        if is_bool(x):
            return x
        p = poly(x)
        if p is not None and (B.intvalued(p) or (single_atom(p) is not None and single_atom(p).name in ('round', 'len'))):
            return Poly(p.terms, p.kind, 'int')
        return fn('int', [x], 's', ('real',), 'int')
    return lift(leaf, it.snap(args[0], st)) if args else Const(0)


@ext('builtins.float', 'builtins.complex')
def f_float(it, args, kw, st, node):
    if len(args) != 1:
        return NotImplemented
    return it.snap(args[0], st)


@ext('numpy.complex128')
def f_c128(it, args, kw, st, node):
    return retyp(args[0], 'np.complex128') if args else Const(0)


@ext('builtins.str', 'builtins.repr')
def f_str(it, args, kw, st, node):
    cur = it.cur

    def leaf(x):
        if isinstance(x, Const) and isinstance(x.v, (str, int)) and cur == 'builtins.str':
            return Const(str(x.v))
        a = single_atom(x) if isinstance(x, Poly) else None
        if a is not None and not a.args and 'sym' in a.attrs and 'num' not in a.attrs and a.typ == frozenset(['sympy.Symbol']) and cur == 'builtins.str':
            return Const(a.name[4:] if a.name.startswith('sym:') else a.name)
        return fn('str', [x], 's', (), 'str')
    return lift(leaf, it.snap(args[0], st)) if args else Const('')


@ext('builtins.hash')
def f_hash(it, args, kw, st, node):
    I = I_()

    def g(x, s):
        c = it.cls_of(x, s)
        if c is not None:
            m = c.lookup('__hash__')
            if m is not None:
                return it.call(m, [x], {}, s, node)
        return fn('hash', [it.snap(x, s)], 's', (), 'int')
    return it.fork(args[0], st, g)


@ext('builtins.list')
def f_list(it, args, kw, st, node):
    I = I_()
    if not args:
        return it.alloc(st, I.HSeq('list', []))
    segs = it.iter(args[0], st)
    if segs is None:
        a = it.snap(args[0], st)
        return fn('list', [a], 's', (), 'coll') if isinstance(a, Poly) else Opq('list', (a,))
    if isinstance(args[0], Poly) and len(segs) == 1 and segs[0].binders:
        return args[0]
    return it.alloc(st, I.HSeq('list', segs))


@ext('builtins.tuple')
def f_tuple(it, args, kw, st, node):
    if not args:
        return Tup([])
    if isinstance(args[0], (Tup,)):
        return args[0]
    if isinstance(args[0], Poly):
        return args[0]
    segs = it.iter(args[0], st)
    if segs is None:
        return Opq('tuple', (it.snap(args[0], st),))
    if all(not s.binders and s.guard == TRUE for s in segs):
        return Tup([s.payload for s in segs])
    return Seq(segs)


@ext('builtins.set.union', 'builtins.set.intersection', 'builtins.set.difference')
def f_setop(it, args, kw, st, node):
    if not args or kw:
        return NotImplemented
    return call_method(it, args[0], it.cur.rsplit('.', 1)[1], list(args[1:]), {}, st, node)


@ext('builtins.set', 'builtins.frozenset')
def f_set(it, args, kw, st, node):
    I = I_()
    if not args:
        return it.alloc(st, I.HSeq('set', []))
    segs = it.iter(args[0], st)
    if segs is None:
        return Opq('set', (it.snap(args[0], st),))
    if it.cur == "builtins.frozenset" and all(isinstance(s, Seg) and not s.binders and s.guard == TRUE and isinstance(s.payload, Const) for s in segs):
        return SetV(sorted(I.once(segs), key=lambda s: s.payload.key()))
    return it.alloc(st, I.HSeq('set', segs))


@ext('builtins.dict', 'collections.OrderedDict')
def f_dict(it, args, kw, st, node):
    I = I_()
    ref = it.alloc(st, I.HSeq('dict', []))
    if args:
        call_method(it, ref, 'update', [args[0]], {}, st, node)
    for k, v in kw.items():
        it.dict_store(ref, Const(k), v, st)
    return ref


@ext('collections.defaultdict')
def f_defaultdict(it, args, kw, st, node):
    I = I_()
    return it.alloc(st, I.HSeq('dict', [], args[0] if args else None))


@ext('builtins.zip')
def f_zip(it, args, kw, st, node):
    return zip_(it, args, st)


def zip_(it, args, st):
    lists = [it.iter(a, st) for a in args]
    if any(l is None for l in lists):
        return Opq('zip', [it.snap(a, st) for a in args])
    if all(all(not s.binders and s.guard == TRUE for s in l) for l in lists):
        return Seq([Seg((), TRUE, Tup([l[i].payload for l in lists])) for i in range(min([len(l) for l in lists] or [0]))])
    # one generic segment each: walk them with one common position
    if all(len(l) == 1 and len(l[0].binders) == 1 and l[0].guard == TRUE for l in lists):
        lists = [[it.fresh_seg(l[0])] for l in lists]
        b = lists[0][0].binders[0]
        vals = []
        for l in lists:
            s = l[0]
            b2 = s.binders[0]
            if b2 is b:
                vals.append(s.payload)
            elif b2.dom == b.dom:
                vals.append(subst(s.payload, {b2: b}))
            else:
                vals.append(at_pos(s, b2, b))
        return Seq([Seg([b], TRUE, Tup(vals))])
    # generic with literal: elements of the generic sequence by constant position
    n = [len(l) for l in lists if all(not s.binders and s.guard == TRUE for s in l)]
    if n:
        out = []
        for i in range(min(n)):
            vals = []
            for a, l in zip(args, lists):
                if all(not s.binders and s.guard == TRUE for s in l):
                    vals.append(l[i].payload)
                else:
                    vals.append(it.getitem(a, Const(i), st, None))
            out.append(Seg((), TRUE, Tup(vals)))
        return Seq(out)
    return Opq('zip', [it.snap(a, st) for a in args])


def at_pos(s, b2, b):
    """Payload of segment s (binder b2) at the position of binder b of another domain."""
    return subst(s.payload, {b2: Binder(b2.dom, name=b.name + '/' + str(abs(hash(b2.dom.key())) % 10**6), n=b)})


@ext('builtins.enumerate')
def f_enumerate(it, args, kw, st, node):
    segs = it.iter(args[0], st)
    start = args[1] if len(args) > 1 else kw.get('start', Const(0))
    if segs is None:
        return Opq('enumerate', (it.snap(args[0], st),))
    if all(not s.binders and s.guard == TRUE for s in segs):
        return Seq([Seg((), TRUE, Tup([lift(add, start, Const(i)), s.payload])) for i, s in enumerate(segs)])
    if len(segs) == 1 and len(segs[0].binders) == 1 and segs[0].guard == TRUE:
        s = it.fresh_seg(segs[0])
        b = s.binders[0]
        return Seq([Seg([b], TRUE, Tup([lift(add, start, idx_of(b)), s.payload]))])
    return Opq('enumerate', (it.snap(args[0], st),))


def idx_of(b):
    a = single_atom(b.dom) if isinstance(b.dom, Poly) else None
    if a is not None and a.name == 'range' and len(a.args) == 1:
        return letter(Atom('i', (b,), 's', ('real',), 'int'))
    return letter(Atom('pos', (b,), 's', ('real',), 'int'))


@ext('itertools.product')
def f_product(it, args, kw, st, node):
    rep = kw.get('repeat')
    if rep is not None:
        if not isinstance(rep, Const):
            return fn('product', [it.snap(a, st) for a in args] + [it.snap(rep, st)], 's', (), 'iter')
        args = list(args) * rep.v
    lists = [it.iter(a, st) for a in args]
    if any(l is None for l in lists):
        return Opq('product', [it.snap(a, st) for a in args])
    out = [Seg((), TRUE, Tup([]))]
    for l in lists:
        new = []
        for o in out:
            for s in l:
                if s.binders:
                    s = it.fresh_seg(s)
                new.append(Seg(o.binders + s.binders, band(o.guard, s.guard), Tup(o.payload.items + (s.payload,))))
        out = new
        if len(out) > max(200, getattr(it, "max_iter", 0)):
            return Opq('product', [it.snap(a, st) for a in args])
    return Seq(out)


@ext('itertools.combinations')
def f_combinations(it, args, kw, st, node):
    l = it.iter(args[0], st)
    k = numconst(args[1]) if len(args) > 1 else None
    if l is not None and k is not None and all(not s.binders and s.guard == TRUE for s in l):
        import itertools
        return Seq([Seg((), TRUE, Tup([s.payload for s in c])) for c in itertools.combinations(l, int(k))])
    if l is not None and k == 2 and len(l) == 1 and len(l[0].binders) == 1 and l[0].guard == TRUE:
        s, s2 = it.fresh_seg(l[0]), it.fresh_seg(l[0])
        i, j = idx_of(s.binders[0]), idx_of(s2.binders[0])
        return Seq([Seg([s.binders[0], s2.binders[0]], lt(i, j), Tup([s.payload, s2.payload]))])
    return fn('combinations', [it.snap(a, st) for a in args], 's', (), 'iter')


@ext('itertools.chain')
def f_chain(it, args, kw, st, node):
    out = []
    for a in args:
        l = it.iter(a, st)
        if l is None:
            return Opq('chain', [it.snap(x, st) for x in args])
        out += l
    return Seq(out)


@ext('itertools.chain.from_iterable')
def f_chainfi(it, args, kw, st, node):
    l = it.iter(args[0], st)
    if l is None:
        return Opq('chainfi', [it.snap(x, st) for x in args])
    out = []
    for s in l:
        s = it.fresh_seg(s) if s.binders else s
        inner = it.iter(s.payload, st)
        if inner is None:
            return Opq('chainfi', [it.snap(x, st) for x in args])
        for q in inner:
            q = it.fresh_seg(q) if q.binders else q
            out.append(Seg(s.binders + q.binders, band(s.guard, q.guard), q.payload))
    return Seq(out)


STAR['itertools.chain'] = lambda it, args, kw, st, node: (
    f_chainfi(it, [args[0].items[0]], kw, st, node) if len(args) == 1 else
    Opq('chain', [it.snap(a, st) for a in args]))


@ext('builtins.reversed')
def f_reversed(it, args, kw, st, node):
    l = it.iter(args[0], st)
    if l is not None and all(not s.binders and s.guard == TRUE for s in l):
        return Seq(l[::-1])
    return fn('reversed', [it.snap(args[0], st)], 's', (), 'coll')


def pyvalue(v):
    """Orderable Python value of a constant, else None."""
    if isinstance(v, Const) and isinstance(v.v, (int, float, str)):
        return v.v
    if isinstance(v, (Tup, Rec)) or isinstance(v, Seq) and all(isinstance(s, Seg) and not s.binders and s.guard == TRUE for s in v.segs):
        l = [pyvalue(x) for x in (v.items if not isinstance(v, Seq) else [s.payload for s in v.segs])]
        return None if any(x is None for x in l) else tuple(l) if not isinstance(v, Seq) else list(l)
    if isinstance(v, Poly):
        c = v.const()
        if c is not None and c[1] == 0:
            return c[0]
    return None


@ext('builtins.sorted')
def f_sorted(it, args, kw, st, node):
    I = I_()
    l = it.iter(args[0], st)
    if l is not None and not set(kw) - {'key', 'reverse'} and kw.get('reverse', FALSE) in (TRUE, FALSE) \
            and all(isinstance(s, Seg) and not s.binders and s.guard == TRUE for s in l):
        k = kw.get('key', NONE)
        keys = [pyvalue(it.snap(s.payload if k == NONE else it.call(k, [s.payload], {}, st, node), st)) for s in l]
        if all(x is not None for x in keys):
            try:
                ix = sorted(range(len(l)), key=lambda i: keys[i], reverse=kw.get('reverse') == TRUE)
                return it.alloc(st, I.HSeq('list', [Seg((), TRUE, l[i].payload) for i in ix]))
            except TypeError:
                pass
    extra = [Tup([Const(k), it.snap(v, st)]) for k, v in sorted(kw.items())]
    return fn('sorted', [Tup([it.snap(args[0], st)] + extra)], 's', (), 'coll')


@ext('builtins.iter')
def f_iter(it, args, kw, st, node):
    return args[0]


@ext('builtins.next')
def f_next(it, args, kw, st, node):
    l = it.iter(args[0], st)
    if l and not l[0].binders and l[0].guard == TRUE:
        return l[0].payload
    return fn('next', [it.snap(args[0], st)], 'x')


@ext('builtins.map')
def f_map(it, args, kw, st, node):
    if len(args) > 2:
        src = zip_(it, args[1:], st)
    else:
        src = args[1]
    l = it.iter(src, st)
    if l is None:
        return Opq('map', [it.snap(a, st) for a in args[1:]])
    out = []
    for s in l:
        s = it.fresh_seg(s) if s.binders else s
        n = len(it.binders)
        it.binders.extend(s.binders)
        a = list(s.payload.items) if len(args) > 2 else [s.payload]
        v = it.call(args[0], a, {}, st, node)
        del it.binders[n:]
        out.append(Seg(s.binders, s.guard, v))
    return Seq(out)


@ext('builtins.filter')
def f_filter(it, args, kw, st, node):
    l = it.iter(args[1], st)
    if l is None:
        return Opq('filter', [it.snap(a, st) for a in args[1:]])
    out = []
    for s in l:
        s = it.fresh_seg(s) if s.binders else s
        c = it.truthy(it.call(args[0], [s.payload], {}, st, node), st) if args[0] != NONE else it.truthy(s.payload, st)
        out.append(Seg(s.binders, band(s.guard, c), s.payload))
    return Seq(out)


@ext('numpy.vectorize')
def f_vectorize(it, args, kw, st, node):
    from . import arrays as AR
    f = args[0]
    if not it.explicit:
        return NotImplemented
    name = 'vectorized.%d' % len(it.ext_over)

    def g(it, a, k, s, n):
        x = it.snap(a[0], s)

        def leaf(v):
            e = AR.expl(v)
            if e is not None:
                return AR.mk(AR.amap(lambda y: it.snap(it.call(f, [y], {}, s, n), s), e))
            if cname(getattr(f, 'name', '')) == 'sympy.nsimplify':
                return v
            return Opq('vectorize', (v,))
        return lift(leaf, x)
    it.ext_over[name] = g
    return I_().Ext(name)


@ext('sympy.nsimplify')
def f_nsimplify(it, args, kw, st, node):
    # exact form of a number: the same value
    return sconst(it.snap(args[0], st)) if it.explicit else NotImplemented


@ext('functools.partial')
def f_partial(it, args, kw, st, node):
    return I_().Partial(args[0], args[1:], kw)


@ext('keyword.iskeyword')
def f_iskeyword(it, args, kw, st, node):
    import keyword
    if args and isinstance(args[0], Const):
        return TRUE if isinstance(args[0].v, str) and keyword.iskeyword(args[0].v) else FALSE
    return NotImplemented


@ext('functools.reduce')
def f_reduce(it, args, kw, st, node):
    l = it.iter(args[1], st)
    if l is None or any(s.binders or s.guard != TRUE for s in l):
        return NotImplemented
    vals = ([args[2]] if len(args) > 2 else []) + [s.payload for s in l]
    r = vals[0]
    for v in vals[1:]:
        r = it.call(args[0], [r, v], {}, st, node)
    return r


@ext('builtins.all', 'numpy.all', 'builtins.any', 'numpy.any')
def f_allany(it, args, kw, st, node):
    isall = it.cur.endswith('all')
    if isinstance(args[0], Ite) and is_bool(args[0]) or args[0] in (TRUE, FALSE):
        return args[0]
    l = it.iter(args[0], st)
    if l is None:
        return pred(P('all' if isall else 'any', it.snap(args[0], st)))
    r = FALSE
    for s in l:
        c = truth(s.payload)
        c = bnot(c) if isall else c
        r = bor(r, B.exists(s.binders, band(s.guard, it.snap(c, st))))
    return bnot(r) if isall else r


@ext('builtins.sum')
def f_sum(it, args, kw, st, node):
    start = args[1] if len(args) > 1 else kw.get('start', Const(0))
    l = it.iter(args[0], st)
    if l is None:
        if isinstance(args[0], Poly):
            return fn('nsum', [args[0]], 's')
        return Opq('sum', [it.snap(a, st) for a in args])
    r = start
    for s in l:
        if not s.binders:
            if s.guard == TRUE:
                r = it.binop('Add', r, s.payload, st, node)
            else:
                base, pay = r, s.payload
                out = {}
                r = it.fork(s.guard, st, lambda g, x: it.binop('Add', base, pay, x, node) if g == TRUE else base)
            continue
        m = sum_models(it, s, r, st, node)
        if m is not None:
            r = m
            continue
        t = B.fsum(s.binders, s.guard, it.snap(s.payload, st))
        r = it.binop('Add', r, t, st, node)
    return r


def sum_models(it, seg, start, st, node):
    h = getattr(it, 'model_sum', None)
    return h(it, seg, start, st, node) if h is not None else None


@ext('builtins.max', 'builtins.min')
def f_max(it, args, kw, st, node):
    nm = 'max' if it.cur.endswith('max') else 'min'
    vals = args
    if len(args) == 1 and not kw:
        l = it.iter(args[0], st)
        if l is not None and all(not s.binders and s.guard == TRUE for s in l):
            vals = [s.payload for s in l]
        else:
            return fn(nm, [it.snap(args[0], st)], 's', ('real',))
    if vals is not args and vals and not kw and all(it.cls_of(v, st) is not None for v in vals):
        # elements of a class with an order of its own
        best = vals[0]
        for v in vals[1:]:
            c = it.compare('Lt' if nm == 'min' else 'Gt', v, best, st, node)
            if c not in (TRUE, FALSE):
                break
            best = v if c == TRUE else best
        else:
            return best
    if kw:
        return fn(nm, [it.snap(a, st) for a in args] + [Tup([Const(k), it.snap(v, st)]) for k, v in sorted(kw.items())], 's')
    if all(isinstance(v, Const) for v in vals) and vals:
        f = max if nm == 'max' else min
        return Const(f(v.v for v in vals))
    vs = sorted([it.snap(v, st) for v in vals], key=lambda x: x.key())
    if any(isinstance(v, Ite) for v in vs):
        return lift(lambda *xs: fn(nm, [Tup(sorted(xs, key=lambda x: x.key()))], 's', ('real',)), *vs)
    return fn(nm, [Tup(vs)], 's', ('real',))


@ext('builtins.round')
def f_pyround(it, args, kw, st, node):
    return f_round(it, args, kw, st, node)


@ext('builtins.slice')
def f_slice(it, args, kw, st, node):
    a = [it.snap(x, st) for x in args]
    if len(a) == 1:
        a = [NONE] + a
    while len(a) < 3:
        a.append(NONE)
    return Rec('slice', a)


@ext('builtins.print', 'warnings.warn')
def f_none(it, args, kw, st, node):
    return NONE


@ext('builtins.callable')
def f_callable(it, args, kw, st, node):
    I = I_()
    return lift(lambda x: TRUE if isinstance(x, (I.Fun, I.Bound, I.Cls, I.Partial)) else
                FALSE if isinstance(x, Const) else pred(P('callable', it.snap(x, st))), args[0])


@ext('builtins.getattr')
def f_getattr(it, args, kw, st, node):
    if len(args) == 2 and isinstance(args[1], Const):
        return it.getattr(args[0], args[1].v, st, node)
    return NotImplemented


@ext('builtins.hasattr')
def f_hasattr(it, args, kw, st, node):
    if isinstance(args[0], Poly) and args[0].typ == frozenset(['RandomState']) and isinstance(args[1], Const):
        return TRUE if args[1].v in ('randn', 'rand', 'randint', 'random_sample', 'choice', 'normal', 'uniform', 'standard_normal', 'seed') else FALSE
    if isinstance(args[0], (Const, Tup)) and isinstance(args[1], Const) and isinstance(args[1].v, str):
        t = tuple if isinstance(args[0], Tup) else float if isinstance(args[0].v, Fraction) else type(args[0].v)
        return TRUE if hasattr(t, args[1].v) else FALSE
    return lift(lambda x: pred(P('hasattr', it.snap(x, st), args[1])), args[0])


for _n in ('ValueError', 'TypeError', 'NotImplementedError', 'Exception', 'AssertionError', 'RuntimeError', 'KeyError'):
    EXT['builtins.' + _n] = lambda it, args, kw, st, node: Opq('exc')


# --- methods -------------------------------------------------------------------------

def copy_value(it, v, st, node):
    I = I_()

    def g(x, s):
        if isinstance(x, I.Ref):
            r = it.get(s, x)
            if isinstance(r, I.HInst) and isinstance(r.cls, I.Cls):
                m = r.cls.lookup('__copy__')
                if m is not None:
                    return it.call(m, [x], {}, s, node)
                new = r.copy()
                new.fields = {k: it.view(x, f) for k, f in new.fields.items()}
                return it.alloc(s, new)
            if isinstance(r, I.HSeq):
                segs = it.segs(s, x)
                return it.alloc(s, I.HSeq(r.kind, segs, r.default))
            return Opq('copy')
        if isinstance(x, Poly):
            return Poly(x.terms, x.kind, x.typ)
        return x
    return it.fork(v, st, g)


def call_method(it, slf, name, args, kw, st, node):
    I = I_()
    slf = restrict(slf, st.guard)
    if isinstance(slf, Ite):
        return it.fork(slf, st, lambda x, s: call_method(it, x, name, args, kw, s, node))
    if isinstance(slf, I.Ref):
        r = it.get(st, slf)
        if isinstance(r, I.HSeq):
            h = globals().get('%s_%s' % (r.kind, name))
            if h is not None:
                v = h(it, slf, args, kw, st, node)
                if v is not NotImplemented:
                    return v
            st.heap[slf.oid] = I.HOpq('method ' + name)
            it.note('unknown %s method %s' % (r.kind, name), node)
            return Opq('m:' + name)
        if isinstance(r, I.HInst):
            h = getattr(it, 'inst_method', None)
            if h is not None:
                v = h(it, slf, name, args, kw, st, node)
                if v is not NotImplemented:
                    return v
            if it.is_model(r.cls):
                data = r.fields.get('data')
                if name in ('items', 'keys', 'values', '__len__') and data is not None:
                    return call_method(it, data, name, args, kw, st, node)
            if name == '__ne__':
                return bnot(truth(it.compare('Eq', slf, args[0], st, node)))
            it.note('unknown method %s of %r' % (name, r.cls), node)
            it.escape([slf] + list(args), kw, st)
            return Opq('m:' + name, [it.snap(a, st) for a in args])
        it.escape(args, kw, st)
        return Opq('m:' + name)
    if isinstance(slf, (Seq, SetV, DictV)):
        kind = {Seq: 'list', SetV: 'set', DictV: 'dict'}[type(slf)]
        if name in PURE_COLL:
            tmp = it.alloc(st, I.HSeq(kind, slf.segs))
            v = globals()['%s_%s' % (kind, name)](it, tmp, args, kw, st, node) if '%s_%s' % (kind, name) in globals() else NotImplemented
            return v if v is not NotImplemented else Opq('m:' + name)
    if isinstance(slf, Const) and isinstance(slf.v, str):
        h = it.method_over.get(name)
        if h is not None:
            v = h(it, slf, args, kw, st, node)
            if v is not NotImplemented:
                return v
        return str_method(it, slf, name, args, kw, st, node)
    if isinstance(slf, I.Super):
        if name == '__new__' and any(isinstance(b, I.Ext) and b.name == 'builtins.tuple' for b in slf.cls.bases):
            items = it.iter(args[1], st) if len(args) > 1 else []
            if items is not None and all(not s.binders for s in items):
                return Rec(slf.cls.qual, [s.payload for s in items])
        return Opq('super.' + name)
    h = it.method_over.get(name)
    if h is not None:
        v = h(it, slf, args, kw, st, node)
        if v is not NotImplemented:
            return v
    if isinstance(slf, Poly) and it.nd:
        v = ND.method(it, slf, name, args, kw, st)
        if v is not None:
            return v
    if isinstance(slf, (Poly, Const)):
        h = METH.get(name)
        if h is not None:
            v = h(it, slf, args, kw, st, node)
            if v is not NotImplemented:
                return v
        h = getattr(it, 'poly_method', None)
        if h is not None:
            v = h(it, slf, name, args, kw, st, node)
            if v is not NotImplemented:
                return v
    if isinstance(slf, Tup):
        if name == 'index' or name == 'count':
            return fn(name, [slf] + [it.snap(a, st) for a in args], 's', ('real',), 'int')
    it.note('unknown method .%s' % name, node)
    it.escape(args, kw, st)
    return Opq('m:' + name, [it.snap(slf, st)] + [it.snap(a, st) for a in args] +
               [Tup([Const(k), it.snap(v, st)]) for k, v in sorted(kw.items())])


PURE_COLL = {'items', 'keys', 'values', 'copy', 'get', '__len__', 'union', 'difference', 'intersection', 'index', 'count', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference'}


def str_method(it, slf, name, args, kw, st, node):
    a = [it.snap(x, st) for x in args]
    if all(isinstance(x, Const) for x in a) and not kw and name != 'format':
        try:
            r = getattr(slf.v, name)(*[x.v for x in a])
            if isinstance(r, (str, bool, int)):
                return Const(r)
        except Exception:
            pass
    if name == 'format' and all(isinstance(x, Const) and type(x.v) in (str, int) for x in a + list(kw.values())):
        try:
            return Const(slf.v.format(*[x.v for x in a], **{k: v.v for k, v in kw.items()}))
        except Exception:
            pass
    if name == 'format':
        return fn('fmt', [slf, Tup(a + [Tup([Const(k), it.snap(v, st)]) for k, v in sorted(kw.items())])], 's', (), 'str')
    return fn('str.' + name, [slf] + a, 's', (), 'str')


for _n in ('lower', 'upper', 'casefold', 'swapcase', 'title', 'capitalize', 'strip'):
    @ext('builtins.str.' + _n)
    def f_strm(it, args, kw, st, node, _n=_n):
        if len(args) == 1 and isinstance(args[0], Const) and isinstance(args[0].v, str):
            return str_method(it, args[0], _n, [], {}, st, node)
        return NotImplemented


# list / set / dict

def list_append(it, o, args, kw, st, node):
    I = I_()
    r = it.get(st, o)
    it.set_rec(st, o, I.HSeq(r.kind, list(r.segs) + [it.unview(o, Seg((), TRUE, args[0]))], r.default))
    return NONE


def list_extend(it, o, args, kw, st, node):
    I = I_()
    segs = it.iter(args[0], st)
    if segs is None:
        it.set_rec(st, o, I.HOpq('extend'))
        return NONE
    r = it.get(st, o)
    it.set_rec(st, o, I.HSeq(r.kind, list(r.segs) + [it.unview(o, s) for s in segs], r.default))
    return NONE


def list_copy(it, o, args, kw, st, node):
    return copy_value(it, o, st, node)


set_copy = dict_copy = list_copy


def list_pop(it, o, args, kw, st, node):
    I = I_()
    segs = it.segs(st, o)
    n = numconst(args[0]) if args else -1
    if n is not None and segs and all(isinstance(s, Seg) and not s.binders and s.guard == TRUE for s in segs) and -len(segs) <= n < len(segs):
        n = int(n) % len(segs)
        v = segs[n].payload
        it.set_rec(st, o, I.HSeq('list', [it.unview(o, s) for i, s in enumerate(segs) if i != n]))
        return v
    return NotImplemented


def list_insert(it, o, args, kw, st, node):
    I = I_()
    if args[0] != Const(0):
        return NotImplemented
    r = it.get(st, o)
    it.set_rec(st, o, I.HSeq('list', [it.unview(o, Seg((), TRUE, args[1]))] + list(r.segs)))
    return NONE


def list_index(it, o, args, kw, st, node):
    return fn('index', [it.snap(o, st), it.snap(args[0], st)], 's', ('real',), 'int')


def list_sort(it, o, args, kw, st, node):
    return NotImplemented


def set_add(it, o, args, kw, st, node):
    r = list_append(it, o, args, kw, st, node)
    set_once(it, o, st)
    return r


def set_once(it, o, st):
    I = I_()
    r = st.heap.get(o.oid) if isinstance(o, I.Ref) else None
    if isinstance(r, I.HSeq) and r.kind == 'set':
        l = I.once(r.segs)
        if len(l) < len(r.segs):
            st.heap[o.oid] = I.HSeq('set', l)


def set_update(it, o, args, kw, st, node):
    for a in args:
        list_extend(it, o, [a], kw, st, node)
    set_once(it, o, st)
    return NONE


def set_union(it, o, args, kw, st, node):
    n = copy_value(it, o, st, node)
    set_update(it, n, args, kw, st, node)
    return n


def setdiff(it, a, b, st, keep):
    """{x in a if (x in b) == keep}"""
    I = I_()
    sa, sb = it.snap(a, st), it.snap(b, st)
    segs = it.iter(a, st)
    if segs is None:
        return Opq('set-', (sa, sb))
    if isinstance(sb, DictV):
        sb = SetV([Seg(s.binders, s.guard, s.payload.items[0]) for s in sb.segs])
    out = []
    for s in segs:
        s = it.fresh_seg(s) if s.binders else s
        c = isin(it.snap(s.payload, st), sb)
        g = band(s.guard, c if keep else bnot(c))
        if g != FALSE:
            out.append(Seg(s.binders, g, s.payload))
    return it.alloc(st, I.HSeq('set', out))


def set_difference(it, o, args, kw, st, node):
    return setdiff(it, o, args[0], st, False)


def set_intersection(it, o, args, kw, st, node):
    return setdiff(it, o, args[0], st, True)


def set_difference_update(it, o, args, kw, st, node):
    r = setdiff(it, o, args[0], st, False)
    I = I_()
    if isinstance(r, I.Ref):
        it.set_rec(st, o, I.HSeq('set', [it.unview(o, s) for s in it.segs(st, r)]))
    else:
        it.set_rec(st, o, I.HOpq('set'))
    return NONE


def set_intersection_update(it, o, args, kw, st, node):
    r = setdiff(it, o, args[0], st, True)
    I = I_()
    if isinstance(r, I.Ref):
        it.set_rec(st, o, I.HSeq('set', [it.unview(o, s) for s in it.segs(st, r)]))
    else:
        it.set_rec(st, o, I.HOpq('set'))
    return NONE


def set_discard(it, o, args, kw, st, node):
    return set_difference_update(it, o, [Tup([it.snap(args[0], st)])], {}, st, node)


def set_remove(it, o, args, kw, st, node):
    if isin(it.snap(args[0], st), it.snap(o, st)) != TRUE:
        return NotImplemented
    return set_discard(it, o, args, kw, st, node)


def set_isdisjoint(it, o, args, kw, st, node):
    r = setdiff(it, o, args[0], st, True)
    segs = it.segs(st, r) if isinstance(r, I_().Ref) else None
    if segs is None or any(s.binders or s.guard != TRUE for s in segs):
        return NotImplemented
    return FALSE if segs else TRUE


def set_pop(it, o, args, kw, st, node):
    """First of the members; only for checks that compare several orders."""
    segs = it.segs(st, o)
    if not getattr(it, 'set_pops', False) or not segs or not all(isinstance(s, Seg) and not s.binders and s.guard == TRUE for s in segs):
        return NotImplemented
    it.set_rec(st, o, I_().HSeq('set', [it.unview(o, s) for s in segs[1:]]))
    return segs[0].payload


def set_issubset(it, o, args, kw, st, node):
    return subset(it, o, args[0], st)


def set_issuperset(it, o, args, kw, st, node):
    return subset(it, args[0], o, st)


def subset(it, a, b, st):
    segs = it.iter(a, st)
    if segs is None:
        return pred(P('subset', it.snap(a, st), it.snap(b, st)))
    sb = it.snap(b, st)
    r = TRUE
    for s in segs:
        r = band(r, bnot(B.exists(s.binders, band(s.guard, bnot(isin(it.snap(s.payload, st), sb))))))
    return r


def dict_items(it, o, args, kw, st, node):
    segs = it.segs(st, o)
    return Seq(segs) if all(isinstance(s, Seg) for s in segs) else Opq('items')


def dict_keys(it, o, args, kw, st, node):
    segs = it.segs(st, o)
    if not all(isinstance(s, Seg) for s in segs):
        return Opq('keys')
    return SetV([Seg(s.binders, s.guard, s.payload.items[0]) for s in segs])


def dict_values(it, o, args, kw, st, node):
    segs = it.segs(st, o)
    if not all(isinstance(s, Seg) for s in segs):
        return Opq('values')
    return Seq([Seg(s.binders, s.guard, s.payload.items[1]) for s in segs])


def dict_update(it, o, args, kw, st, node):
    I = I_()
    for a in args:
        a = restrict(a, st.guard)
        if isinstance(a, I.Ref) and isinstance(it.get(st, a), I.HSeq) and it.get(st, a).kind == 'dict':
            segs = it.segs(st, a)
        elif isinstance(a, DictV):
            segs = a.segs
        else:
            segs = it.iter(a, st)
        if segs is None or any(not isinstance(s, Seg) or not isinstance(s.payload, Tup) or len(s.payload.items) != 2 for s in segs):
            it.set_rec(st, o, I.HOpq('update'))
            return NONE
        for s in segs:
            if not s.binders and s.guard == TRUE:
                it.dict_store(o, s.payload.items[0], s.payload.items[1], st)
            else:
                r = it.get(st, o)
                it.set_rec(st, o, I.HSeq('dict', list(r.segs) + [it.unview(o, s)], r.default))
    for k, v in kw.items():
        it.dict_store(o, Const(k), v, st)
    return NONE


def dict_get(it, o, args, kw, st, node):
    v = dict_lookup(it, it.segs(st, o), it.snap(args[0], st), args[1] if len(args) > 1 else NONE)
    return v if v is not None else Opq('get', (it.snap(o, st), it.snap(args[0], st)))


def dict_setdefault(it, o, args, kw, st, node):
    if not args:
        return NotImplemented
    k = it.snap(args[0], st)
    v = dict_lookup(it, it.segs(st, o), k, UNDEF)
    if v is None:
        return NotImplemented
    r = lift(lambda x: (args[1] if len(args) > 1 else NONE) if isinstance(x, Undef) else x, v)
    if any(isinstance(x, Undef) for _, x in leaves(v)):
        it.dict_store(o, k, r, st)
    return r


def dict_delete(it, o, k, st):
    """Remove a key; the former value, or None when it cannot be decided."""
    I = I_()
    segs = it.segs(st, o)
    if segs is None or any(not isinstance(s, Seg) or s.binders for s in segs):
        return None
    v = dict_lookup(it, segs, k, UNDEF)
    r = it.get(st, o)
    out = [Seg((), band(s.guard, bnot(B.eq(k, s.payload.items[0]))), s.payload) for s in segs]
    it.set_rec(st, o, I.HSeq('dict', [it.unview(o, s) for s in out if s.guard != FALSE], r.default))
    return v


def dict_pop(it, o, args, kw, st, node):
    v = dict_delete(it, o, it.snap(args[0], st), st)
    if v is None:
        return NotImplemented
    if len(args) > 1:
        return lift(lambda x: args[1] if isinstance(x, Undef) else x, v)
    return v


def dict_lookup(it, segs, k, default):
    """Value under key k, or None when it cannot be decided."""
    res = default
    for s in segs:
        if not isinstance(s, Seg):
            return None
        key, val = s.payload.items
        if not s.binders:
            res = ite(band(s.guard, B.eq(k, key)), val, res)
        else:
            a, b = single_atom(k) if isinstance(k, Poly) else None, single_atom(key) if isinstance(key, Poly) else None
            if a is not None and b is not None and a.name == b.name and len(a.args) == 1 == len(b.args) and \
                    len(s.binders) == 1 and b.args[0] == s.binders[0] and isinstance(a.args[0], Binder) and \
                    a.args[0].dom == s.binders[0].dom:
                m = {s.binders[0]: a.args[0]}
                res = ite(subst(s.guard, m), subst(val, m), res)
            else:
                return None
    return res


# arrays, numbers, symbols

def m_conj(it, x, args, kw, st, node):
    return T.conj(x)


def m_transpose(it, x, args, kw, st, node):
    if args:
        return NotImplemented
    return transpose(x)


def m_dot(it, x, args, kw, st, node):
    return it.binop('MatMult', x, args[0], st, node)


def m_copy(it, x, args, kw, st, node):
    return Poly(x.terms, x.kind, x.typ) if isinstance(x, Poly) else x


def m_astype(it, x, args, kw, st, node):
    d = dtype_name(it, args[0], st)
    p = poly(x)
    if d in ('float', 'complex', 'complex128'):
        return Poly(p.terms, p.kind, 'np.ndarray' if p.kind != 's' else p.typ) if isinstance(x, Poly) else x
    if d == 'int' and intlike(p):
        return x
    return fn('trunc', [x], p.kind, (), p.typ)


def m_trace(it, x, args, kw, st, node):
    return trace(x)


def m_diagonal(it, x, args, kw, st, node):
    return fn('diagonal', [x], 'v', (), 'np.ndarray')


def m_same(it, x, args, kw, st, node):
    return x


def m_dense(it, x, args, kw, st, node):
    return retyp(x, 'np.ndarray') if isinstance(x, Poly) and spish(x) else x


def m_csr(it, x, args, kw, st, node):
    return retyp(x, 'csr_matrix') if isinstance(x, Poly) and spish(x) else x


def m_rotate(it, x, args, kw, st, node):
    return rot(x, it.snap(args[0], st))


def m_zeros_like(it, x, args, kw, st, node):
    return fn('zeros', [fn('shape', [x], 's', (), 'tuple')], 'x', (), x.typ)


def generic_key(x=None):
    """The symbolic factor of a generic term of a model."""
    return atom('key', (Const(0),), 's', (), 'sympy.Expr')


def trf_letter(x, body):
    """The model x with its symbolic factors transformed: key -> body."""
    return letter(Atom('trf', (x, body), 'x', (), 'Model'))


def m_trf(it, x, args, kw, st, node):
    k = generic_key(x)
    r = it.call(args[0], [k], {}, st, node)
    r = it.snap(r, st)
    if any(isinstance(l, Opq) for _, l in leaves(r)):
        return Opq('trf', (x, r))
    # linear in the model
    def leaf(body):
        out = None
        for (s, w), c in x.terms.items():
            base = Poly({((), w): (Fraction(1), Fraction(0))}, x.kind, x.typ)
            t = pprod(Poly({(s, ()): c}, 's'), letter(Atom('trf', (base, body), 'x', (), x.typ)))
            out = t if out is None else padd(out, t)
        return Poly(out.terms, 'x', x.typ) if out is not None else x
    return lift(leaf, r)


def m_reshape(it, x, args, kw, st, node):
    return fn('reshape', [x, Tup([it.snap(a, st) for a in args])], 'm' if x.kind != 'x' else 'x', (), x.typ)


def m_value_list(it, x, args, kw, st, node):
    l = it.iter(args[0], st)
    I = I_()
    if l is None:
        return fn('value_list', [x, it.snap(args[0], st)], 's', (), 'coll')
    out = []
    for s in l:
        s = it.fresh_seg(s) if s.binders else s
        out.append(Seg(s.binders, s.guard, coef(x, it.snap(s.payload, st))))
    return it.alloc(st, I.HSeq('list', out))


def coef(model, key):
    """model[key]; linear in the model, constant factors commute with it."""
    def leaf(x, k):
        p = poly(x)
        if p is None:
            return Opq('coef', (x, k))
        out = None
        for (s, w), c in p.terms.items():
            i = [n for n, l in enumerate(w) if l[0].typ and 'Model' in l[0].typ]
            if len(i) != 1:
                return letter(Atom('coef', (p, k), 'm', (), 'np.ndarray'))
            n = i[0]
            base = Poly({((), (w[n],)): (Fraction(1), Fraction(0))}, w[n][0].kind, w[n][0].typ)
            t = letter(Atom('coef', (base, k), 'm', ('rect',) if 'rect' in w[n][0].attrs else (), 'np.ndarray'))
            for pre, post in ((w[:n], w[n + 1:]),):
                if pre:
                    t = pprod(Poly({((), pre): (Fraction(1), Fraction(0))}, 'm'), t, 'm')
                if post:
                    t = pprod(t, Poly({((), post): (Fraction(1), Fraction(0))}, 'm'), 'm')
            t = pprod(Poly({(s, ()): c}, 's'), t)
            out = t if out is None else padd(out, t)
        if out is None:
            return Const(0)
        return Poly(out.terms, 'm', 'np.ndarray')
    return lift(leaf, model, key)


METH = {'conj': m_conj, 'conjugate': m_conj, 'transpose': m_transpose, 'dot': m_dot, 'copy': m_copy, 'astype': m_astype,
        'trace': m_trace, 'diagonal': m_diagonal, '__copy__': m_copy, 'reshape': m_reshape,
        'rotate_momenta': m_rotate, 'zeros_like': m_zeros_like, 'transform_symbolic': m_trf,
        'value_list': m_value_list, 'around': lambda it, x, a, kw, st, n: fn('round', [x] + [it.snap(y, st) for y in a] + [it.snap(v, st) for _, v in sorted(kw.items())], x.kind, (), x.typ),
        'toarray': m_dense, 'tocsr': m_csr, 'todense': m_dense, 'tocoo': m_same, 'tolil': m_same,
        'ravel': lambda it, x, a, kw, st, n: fn('reshape', [x, Tup([Const(-1)])], 'v', (), x.typ),
        'flatten': lambda it, x, a, kw, st, n: fn('reshape', [x, Tup([Const(-1)])], 'v', (), x.typ),
        'getH': lambda it, x, a, kw, st, n: transpose(T.conj(x)),
        'adjoint': lambda it, x, a, kw, st, n: transpose(T.conj(x)),
        'inv': lambda it, x, a, kw, st, n: T.inverse(x) if isinstance(x, Poly) and not (x.typ and 'PGE' in x.typ) else NotImplemented,
        'sum': lambda it, x, a, kw, st, n: fn('nsum', [x], 's') if not a and not kw else NotImplemented,
        'tolist': m_same, 'item': m_same,
        'is_integer': lambda it, x, a, kw, st, n: pred(P('is_integer', x)),
        'expand': m_same, 'evalf': m_same, 'doit': m_same, 'powsimp': m_same, 'simplify': m_same,
        'T': lambda it, x, a, kw, st, n: transpose(x),
        }


def get_attr(it, o, name, st, node):
    I = I_()
    if isinstance(o, I.Meth):
        return Opq('attr', (o, Const(name)))
    h = getattr(it, 'attr_hook', None)
    if h is not None:
        r = h(it, o, name, st, node)
        if r is not None:
            return r
    if it.nd and ND.arr(o):
        r = ND.attr(it, o, name)
        if r is not None:
            return r
    if isinstance(o, (Poly, Const)):
        p = poly(o)
        if p is not None:
            typ = p.typ or frozenset()
            if name == 'name' and 'sympy.Symbol' in typ:
                a = single_atom(p)
                if a is not None and a.name.startswith('sym:'):
                    return Const(a.name[4:])
            model = 'Model' in typ or 'BlochModel' in typ
            if name == 'T':
                if model and not typ & MATRIXLIKE:
                    return I.Meth(o, 'T')
                return transpose(o)
            if name == 'H':
                return transpose(T.conj(o))
            if name == 'shape':
                return shape_of(o)
            if name == 'ndim':
                return Const({'s': 0, 'v': 1}.get(p.kind, 2))
            if name == 'real' and p.kind != 'x':
                return real_(o)
            if name == 'imag' and p.kind != 'x':
                return fn('imag', [o], p.kind, ('real',), p.typ)
            if it.explicit and p.kind == 's' and name in ('args', 'is_Pow', 'is_Add', 'is_Mul', 'is_Symbol'):
                tag = expr_tag(p)
                if tag is not None:
                    if name != 'args':
                        return TRUE if tag == 'sympy.' + name[3:] else FALSE
                    r = expr_args(p, tag)
                    if r is not None:
                        return r
            if name == 'size':
                return fn('size', [o], 's', ('real',), 'int')
            if name == 'dtype':
                return Opq('dtype', (o,))
            if model and name in ('momenta', 'keep'):
                base = meta_base(p)
                return fn(name, [base], 's', ('elems_s',), 'coll')
            if model and name in ('format', 'shape'):
                return fn(name, [meta_base(p)], 's', (), 'class')
            if typ and 'PGE' in typ or 'CGG' in typ:
                if name in ('R', 'U'):
                    return fn('attr:' + name, [o], 'm', ('opt',) if name == 'U' or 'CGG' in typ else (), 'np.ndarray')
                if name in ('conjugate', 'antisymmetry', '_strict_eq'):
                    return pred(P('attr:' + name, o))
    if isinstance(o, Const) and o.v is None:
        it.raises.append((st.guard, 'AttributeError', node, it.ctx[-1].fun.qual))
        return Opq('attr of None')
    return I.Meth(o, name)


def meta_base(p):
    """Momenta of U @ rot(H) @ V are those of H."""
    for (s, w), c in p.terms.items():
        for l in w:
            if l[0].typ and 'Model' in l[0].typ:
                a = l[0]
                while a.name in ('rot', 'trf') and single_atom(a.args[0]) is not None:
                    a = single_atom(a.args[0])
                return letter(a)
    return p


# --- operators ---------------------------------------------------------------------

def coerce(it, v, st):
    """Sequences in arithmetic with arrays become arrays."""
    return v


def binop(it, op, a, b, st, node=None):
    v = _binop(it, op, a, b, st, node)
    if it.explicit:
        if isinstance(v, Const) and (isinstance(a, SConst) or isinstance(b, SConst) or symexpr(a) or symexpr(b)):
            return sconst(v)
        return AR.norm(v)
    return v


def symexpr(v):
    return isinstance(v, Poly) and v.kind == 's' and expr_tag(v) is not None


def sconst(v):
    """The symbolic library's version of a number."""
    if isinstance(v, Const) and isinstance(v.v, (int, float, complex)) and not isinstance(v.v, bool):
        return SConst(v.v)
    return v


def _binop(it, op, a, b, st, node):
    I = I_()
    a_, b_ = a, b
    if it.nd:
        if ND.arr(a) or ND.arr(b):
            r = ND.binop(it, op, it.snap(a, st), it.snap(b, st))
            if r is not None:
                return r
        if op == 'Mult' and isinstance(b, I.Ref) and not isinstance(a, I.Ref):
            a, b, a_, b_ = b, a, b, a
    if isinstance(a, I.Ref) or isinstance(b, I.Ref):
        ra = it.get(st, a) if isinstance(a, I.Ref) else None
        rb = it.get(st, b) if isinstance(b, I.Ref) else None
        if isinstance(ra, I.HSeq) and ra.kind == 'list' and op == 'Add':
            l = it.iter(b, st)
            if l is not None and not isinstance(b, Poly):
                return it.alloc(st, I.HSeq('list', it.segs(st, a) + list(l)))
        if isinstance(ra, I.HSeq) and ra.kind == 'list' and op == 'Mult':
            n = numconst(b)
            segs = it.segs(st, a)
            if n is not None and n <= 20:
                return it.alloc(st, I.HSeq('list', segs * int(n)))
            if len(segs) == 1 and not segs[0].binders:
                bb = Binder(fn('range', [it.snap(b, st)], 's', (), 'coll'))
                return it.alloc(st, I.HSeq('list', [Seg([bb], segs[0].guard, segs[0].payload)]))
        if isinstance(ra, I.HSeq) and ra.kind == 'set' or isinstance(a, SetV):
            if op == 'Sub':
                return setdiff(it, a, b, st, False)
            if op == 'BitAnd':
                return setdiff(it, a, b, st, True)
            if op == 'BitXor' and it.iter(b, st) is not None:
                l, r = setdiff(it, a, b, st, False), setdiff(it, b, a, st, False)
                if isinstance(l, I.Ref) and isinstance(r, I.Ref):
                    return it.alloc(st, I.HSeq('set', list(it.iter(l, st)) + list(it.iter(r, st))))
            if op == 'BitOr':
                l1, l2 = it.iter(a, st), it.iter(b, st)
                if l1 is not None and l2 is not None:
                    return it.alloc(st, I.HSeq('set', I.once(list(l1) + list(l2))))
        if isinstance(a, I.Ref) and isinstance(ra, I.HSeq) and ra.kind == 'list' and isinstance(b, Poly) and b.kind in ('m', 'v'):
            a_ = as_array(it, a, st, 'np.ndarray')
        if isinstance(b, I.Ref) and isinstance(rb, I.HSeq) and rb.kind == 'list' and isinstance(a, Poly) and a.kind in ('m', 'v'):
            b_ = as_array(it, b, st, 'np.ndarray')
    if isinstance(a, SetV) or isinstance(b, SetV):
        if op == 'Sub':
            return setdiff(it, a, b, st, False)
        if op == 'BitAnd':
            return setdiff(it, a, b, st, True)
        if op == 'BitXor' and it.iter(a, st) is not None and it.iter(b, st) is not None:
            l, r = setdiff(it, a, b, st, False), setdiff(it, b, a, st, False)
            if isinstance(l, I.Ref) and isinstance(r, I.Ref):
                return it.alloc(st, I.HSeq('set', list(it.iter(l, st)) + list(it.iter(r, st))))
        if op == 'BitOr':
            l1, l2 = it.iter(a, st), it.iter(b, st)
            if l1 is not None and l2 is not None:
                return it.alloc(st, I.HSeq('set', I.once(list(l1) + list(l2))))
    if isinstance(a, Tup) and isinstance(b, Tup) and op == 'Add':
        return Tup(a.items + b.items)
    if isinstance(a, Seq) and op == 'Add':
        l = it.iter(b, st)
        if l is not None:
            return Seq(list(a.segs) + list(l))
    if isinstance(a, Tup) and op == 'Mult' and isinstance(b, Const) and isinstance(b.v, int):
        return Tup(a.items * b.v)
    if isinstance(a, Const) and isinstance(b, Const):
        if isinstance(a.v, str) and op == 'Add' and isinstance(b.v, str):
            return Const(a.v + b.v)
        if isinstance(a.v, str) and op == 'Mod':
            if type(b.v) is int and a.v.count('%') == 1:
                try:
                    return Const(a.v % b.v)
                except (TypeError, ValueError):
                    pass
            return fn('fmt', [a, Tup([b])], 's', (), 'str')
        try:
            v = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y,
                 'FloorDiv': lambda x, y: x // y, 'Mod': lambda x, y: x % y,
                 'BitXor': lambda x, y: x ^ y, 'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y}[op](a.v, b.v)
            if isinstance(v, (int, float, complex, str, bool)) and not isinstance(a.v, str):
                return Const(v)
        except Exception:
            pass
    if op == 'Add' and isinstance(a, Const) and isinstance(b, Const) and type(a.v) is type(b.v) is str:
        return Const(a.v + b.v)
    if op == 'Mod' and isinstance(a, Const) and type(a.v) is str:
        l = b.items if isinstance(b, Tup) else [b]
        if all(isinstance(x, Const) and type(x.v) in (str, int) for x in l):
            try:
                return Const(a.v % tuple(x.v for x in l))
            except Exception:
                pass
        return fn('fmt%', [a, it.snap(b, st)], 's', (), 'str')
    if op in ('Add', 'Sub') and (strish(a) or strish(b)):
        return fn('concat', [it.snap(a, st), it.snap(b, st)], 's', (), 'str')
    x, y = it.snap(a_, st) if isinstance(a_, I.Ref) else a_, it.snap(b_, st) if isinstance(b_, I.Ref) else b_
    if op == 'Add':
        return add(x, y)
    if op == 'Sub':
        return T.sub(x, y)
    if op == 'Mult':
        # `*` of sparse matrices and linear operators is the matrix product
        if isinstance(x, Poly) and isinstance(y, Poly) and x.kind == y.kind == 'm' and (spish(x) or spish(y)):
            return zero_mm(x, y)
        if it.explicit and isinstance(x, Poly) and isinstance(y, Poly):
            e = AR.emul(x, y)
            if e is not None:
                return e
        return mul(x, y)
    if op == 'MatMult':
        return zero_mm(x, y)
    if op == 'Div':
        q = poly(y)
        if q is not None and q.kind == 's':
            if q.const() == (0, 0):
                return Opq('/0')
            return mul(x, T.inverse(q))
        return Opq('/', (x, y))
    if op == 'Pow':
        return B.power(x, y)
    if op in ('FloorDiv', 'Mod'):
        if poly(x) is not None and poly(y) is not None:
            return fn(op.lower(), [x, y], 's', ('real',), 'int')
    if op == 'BitXor' and poly(x) is not None and poly(y) is not None:
        return bxor(truth(x), truth(y))
    return Opq(op, (x, y))


def strish(v):
    return isinstance(v, Const) and isinstance(v.v, str) or isinstance(v, Poly) and v.typ and 'str' in v.typ


def eq_values(it, a, b, st):
    I = I_()
    x, y = it.snap(a, st), it.snap(b, st)
    if it.nd and (ND.arr(x) or ND.arr(y)):
        r = ND.compare(it, 'Eq', x, y)
        if r is not None:
            return r
    if isinstance(x, (I.Ext, I.Cls)) and isinstance(y, (I.Ext, I.Cls)):
        kx = cname(x.name) if isinstance(x, I.Ext) else x.qual
        ky = cname(y.name) if isinstance(y, I.Ext) else y.qual
        return TRUE if kx == ky else FALSE
    if isinstance(x, Rec) and isinstance(y, Rec) and x.cls == y.cls == 'slice':
        return band(*[B.eq(i, j) for i, j in zip(x.items, y.items)])

    def leaf(u, v):
        pu, pv = poly(u), poly(v)
        if pu is not None and pv is not None and 'm' in (pu.kind, pv.kind):
            # exact equality of matrices
            if u == v:
                return TRUE
            p, q = sorted([pu, pv], key=lambda t: t.key())
            return pred(P('eq', p, q))
        return B.eq(u, v)
    return lift(leaf, x, y)


def is_values(it, a, b, st):
    I = I_()

    def leaf(x, y):
        if is_none(y) or is_none(x):
            z = x if is_none(y) else y
            if is_none(z):
                return TRUE
            if isinstance(z, Poly):
                s = single_atom(z)
                if s is not None and 'opt' in s.attrs:
                    return pred(P('isnone', z))
                return FALSE
            if isinstance(z, Opq):
                return pred(P('isnone', z))
            return FALSE
        for u, v in ((x, y), (y, x)):
            if isinstance(v, Const) and isinstance(v.v, bool):
                if is_bool(u) or isinstance(u, Const) and isinstance(u.v, bool):
                    return u if v.v else bnot(u)
                if isinstance(u, Poly) and u.typ == frozenset(['bool']):
                    return truth(u) if v.v else bnot(truth(u))
        if isinstance(x, (I.Ext, I.Cls)) and isinstance(y, (I.Ext, I.Cls)):
            return eq_values(it, x, y, st)
        if isinstance(x, I.Ref) and isinstance(y, I.Ref):
            return TRUE if x == y else (FALSE if not x.sub and not y.sub else pred(P('is', x, y)))
        if isinstance(x, Const) and isinstance(y, Const):
            return TRUE if x == y else FALSE
        u, v = sorted([it.snap(x, st), it.snap(y, st)], key=lambda t: t.key())
        return pred(P('is', u, v))
    if is_bool(a) and b in (TRUE, FALSE):
        return a if b == TRUE else bnot(a)
    return lift(leaf, a, b)


def spish(p):
    return bool(p.typ and p.typ & {'csr_matrix', 'coo_matrix', 'LinearOperator', 'spmatrix'})


def zero_mm(x, y):
    def leaf(u, v):
        r = matmul(u, v)
        if isinstance(r, Poly) and isinstance(u, Poly) and isinstance(v, Poly) and spish(u) != spish(v) and u.kind == v.kind == 'm' and u.typ and v.typ:
            r = retyp(r, 'np.ndarray')
        if isinstance(r, Poly) and r.kind == 'm' and B.is_zero(r):
            p, q = shape_of(u), shape_of(v)
            if isinstance(p, Tup) and isinstance(q, Tup) and len(p.items) == len(q.items) == 2:
                return retyp(fn('zeros', [Tup([p.items[0], q.items[1]])], 'm'), r.typ)
        return r
    return lift(leaf, x, y)


def contains(it, a, b, st):
    I = I_()
    r = it.get(st, b) if isinstance(b, I.Ref) else None
    if isinstance(r, I.HInst) and it.is_model(r.cls):
        b = r.fields.get('data', b)
    x = it.snap(a, st)
    c = it.snap(b, st)
    h = getattr(it, 'contains_hook', None)
    if h is not None:
        v = h(it, x, c, st)
        if v is not None:
            return v
    return isin(x, c)


def order(it, op, a, b, st, node):
    I = I_()
    def isset(v):
        return isinstance(v, SetV) or isinstance(v, I.Ref) and isinstance(it.get(st, v), I.HSeq) and it.get(st, v).kind == 'set'
    if isset(a) or isset(b):
        if op == 'LtE':
            return subset(it, a, b, st)
        if op == 'GtE':
            return subset(it, b, a, st)
        return pred(P(op, it.snap(a, st), it.snap(b, st)))
    x, y = it.snap(a, st), it.snap(b, st)
    if it.nd:
        r = ND.compare(it, op, x, y)
        if r is not None:
            return r
    if op == 'Lt':
        return lt(x, y)
    if op == 'Gt':
        return lt(y, x)
    if op == 'LtE':
        return bnot(lt(y, x))
    return bnot(lt(x, y))


def getitem(it, o, i, st, node):
    I = I_()
    if isinstance(o, Rec) and o.cls != 'slice':
        o = Tup(o.items)
    if isinstance(o, Tup):
        if isinstance(i, Const) and isinstance(i.v, int) and not isinstance(i.v, bool):
            if -len(o.items) <= i.v < len(o.items):
                return o.items[i.v]
            it.raises.append((st.guard, 'IndexError', node, ''))
            return Opq('index')
        if isinstance(i, Rec) and i.cls == 'slice' and all(isinstance(x, Const) for x in i.items):
            return Tup(o.items[slice(*[x.v for x in i.items])])
        return Opq('getitem', (it.snap(o, st), it.snap(i, st)))
    if isinstance(o, I.Ref):
        r = it.get(st, o)
        if isinstance(r, I.HSeq):
            segs = it.segs(st, o)
            if r.kind == 'dict':
                k = it.snap(i, st)
                v = dict_lookup(it, segs, k, None if r.default is None else default_of(it, r.default, st, node))
                if v is not None and not (isinstance(v, Ite) and any(l is None for _, l in leaves(v))):
                    return v
                v = dict_only(segs, k)
                if v is not None:
                    return v
                return lookup_term(it.snap(o, st), k)
            if isinstance(i, Rec) and i.cls == 'slice':
                if all(isinstance(x, Const) for x in i.items) and all(isinstance(s, Seg) and not s.binders and s.guard == TRUE for s in segs):
                    return it.alloc(st, I.HSeq('list', segs[slice(*[x.v for x in i.items])]))
                return fn('submat', [it.snap(o, st), it.snap(i, st)], 's', (), 'coll')
            n = numconst(i)
            if n is not None and all(isinstance(s, Seg) for s in segs):
                n = int(n)
                lst = segs if n >= 0 else segs[::-1]
                k = n if n >= 0 else -n - 1
                if k < len(lst) and all(not s.binders and s.guard == TRUE for s in lst[:k + 1]):
                    return lst[k].payload
            b = B.pos_binder(i)
            if b is not None and len(segs) == 1 and isinstance(segs[0], Seg) and len(segs[0].binders) == 1 and segs[0].guard == TRUE:
                s = segs[0]
                if s.binders[0].dom == b.dom or b.dom == it.snap(o, st):
                    return subst(s.payload, {s.binders[0]: b})
            return lookup_term(it.snap(o, st), it.snap(i, st))
        return Opq('getitem', (it.snap(o, st), it.snap(i, st)))
    if isinstance(o, DictV):
        v = dict_lookup(it, o.segs, it.snap(i, st), None)
        if v is None:
            v = dict_only(o.segs, it.snap(i, st))
        return v if v is not None else lookup_term(o, it.snap(i, st))
    if isinstance(o, Seq):
        e = B.elem(o, i)
        return e if e is not None else lookup_term(o, it.snap(i, st))
    if isinstance(o, Const) and isinstance(o.v, str) and isinstance(i, Const):
        return Const(o.v[i.v])
    if isinstance(o, Poly):
        if it.nd and ND.arr(o):
            r = ND.getitem(it, o, it.snap(i, st))
            if r is not None:
                return r
        if it.explicit:
            o = AR.norm(o)
        typ = o.typ or frozenset()
        i = it.snap(i, st)
        if 'Model' in typ:
            return coef(o, i)
        a = single_atom(o)
        if a is not None and a.name == 'array':
            e = array_index(a, i, o)
            if e is not None:
                return e
        e = B.elem(o, i)
        if e is not None:
            return e
        if a is not None and a.kind == 's' and a.typ and ('coll' in a.typ or 'tuple' in a.typ):
            if a.name == 'shape' and isinstance(i, Const):
                s = shape_of(a.args[0])
                if isinstance(s, Tup) and -len(s.items) <= i.v < len(s.items):
                    return s.items[i.v]
                p = poly(a.args[0])
                if i.v in (0,):
                    return fn('rows', [p], 's', ('real',), 'int')
                if i.v in (1, -1):
                    return fn('cols', [p], 's', ('real',), 'int')
            return lookup_term(o, i)
        return idx(o, i)
    return Opq('getitem', (it.snap(o, st), it.snap(i, st)))


def lookup_term(o, i):
    if isinstance(o, Opq) or isinstance(i, Opq):
        return Opq('getitem', (o, i))
    return lift(lambda x, j: fn('item', [x, j], 'x' if isinstance(x, (Seq, DictV)) else 's', ('real',) if isinstance(x, Poly) and 'elems_s' in (single_atom(x).attrs if single_atom(x) else ()) else ()), o, i)


def dict_only(segs, k):
    return None


def default_of(it, d, st, node):
    v = it.call(d, [], {}, st, node)
    return it.snap(v, st)


def array_index(a, i, whole):
    t = a.args[0]
    ix = i.items if isinstance(i, Tup) else (i,)
    for k in ix:
        n = numconst(k)
        if n is None or not isinstance(t, Tup) or not -len(t.items) <= n < len(t.items):
            return None
        t = t.items[int(n)]
    if isinstance(t, Tup):
        d = depth_of(t)
        return fn('array', [t], 'v' if d == 1 else 'm', ('stack',) if d > 2 else (), 'np.ndarray')
    return t


def may_raise(it, try_node, handler, before):
    """Can the body of a try statement raise implicitly? Not if it only applies
    understood external functions to definite arrays and numbers."""
    import ast as A
    I = I_()
    fid = it.ctx[-1].fid
    stored = set()
    for s in try_node.body:
        for n in A.walk(s):
            if isinstance(n, (A.Raise, A.Subscript, A.Div, A.Yield, A.YieldFrom, A.For, A.While)):
                return True
            if isinstance(n, A.Name) and isinstance(n.ctx, A.Load) and n.id not in stored:
                v = it.lookup(n.id, before)
                if isinstance(v, (I.Ext, Const)) or is_bool(v):
                    continue
                for _, x in leaves(restrict(v, before.guard)):
                    if isinstance(x, Const) and not isinstance(x.v, str):
                        continue
                    if isinstance(x, Poly) and x.typ and x.typ <= (MATRIXLIKE | NUM):
                        continue
                    return True
            if isinstance(n, A.Name) and isinstance(n.ctx, A.Store):
                stored.add(n.id)
    return False


def model_snapshot(it, ref, r, st):
    h = getattr(it, 'model_snap', None)
    if h is not None:
        return h(it, ref, r, st)
    I = I_()
    items = [Tup([Const(k), it.snap(it.view(ref, x), st)]) for k, x in sorted(r.fields.items())]
    return Rec(r.cls.qual, items)


def model_setitem(it, o, i, v, st):
    h = getattr(it, 'model_set', None)
    if h is not None:
        return h(it, o, i, v, st)
    it.taint = True


def model_getitem(it, o, i, st):
    h = getattr(it, 'model_get', None)
    if h is not None:
        return h(it, o, i, st)
    return Opq('model[]')


def summarise_rebound(it, pv, nr, seg, eg, st, x):
    """A name bound to list/set object pv is rebound per iteration to a new object
    holding pv's contents plus something: accumulate."""
    I = I_()
    a, b = st.heap.get(pv.oid), x.heap.get(nr.oid)
    if isinstance(a, I.HSeq) and isinstance(b, I.HSeq) and a.kind == b.kind and not pv.sub and not nr.sub:
        n = len(a.segs)
        if list(b.segs[:n]) == list(a.segs):
            added = [Seg(tuple(seg.binders) + tuple(s.binders), band(eg, s.guard), s.payload) for s in b.segs[n:]]
            return it.alloc(st, I.HSeq(a.kind, list(a.segs) + added, a.default))
    return None
