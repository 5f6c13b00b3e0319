"""Smart constructors: functions and predicates in normal form."""
from fractions import Fraction
from .terms import *
from .terms import _sub_args  # noqa
from . import terms as T


def depends(v, binders):
    ks = [b.name for b in binders]
    s = v.key()
    return any(k + '@' in s for k in ks)


# --- predicates ---------------------------------------------------------------

def nonempty(x):
    if isinstance(x, Poly) and ASSUME_NONEMPTY[0](x):
        return TRUE
    if isinstance(x, (Seq,)):
        segs = x.segs
    elif isinstance(x, (SetV, DictV)):
        segs = x.segs
    elif isinstance(x, Tup):
        return TRUE if x.items else FALSE
    elif isinstance(x, Const):
        return TRUE if x.v else FALSE
    else:
        return pred(P('nonempty', x))
    r = FALSE
    for s in segs:
        if not isinstance(s, Seg):
            return pred(P('nonempty', x))
        r = bor(r, exists(s.binders, s.guard))
    return r


def exists(binders, g):
    """Is there an assignment of the binders satisfying the guard g?"""
    if not binders:
        return g
    if g == FALSE:
        return FALSE
    b = binders[-1]
    if not depends(g, [b]) and not any(depends(x.dom, [b]) for x in binders[:-1]):
        return exists(binders[:-1], band(dom_nonempty(b), g))
    # pull out decisions that do not depend on the binders
    if isinstance(g, Ite):
        spine, todo = [], [g]
        while todo:
            x = todo.pop(0)
            if isinstance(x, Ite):
                spine.append(x)
                todo += [x.hi, x.lo]
        for x in spine:
            if not depends(x.p, binders):
                p = x.p
                return ite(pred(p), exists(binders, setp(g, p, 1)), exists(binders, setp(g, p, 0)))
    return pred(P('exists', Seg(binders, g, TRUE)))


def setp(v, p, val):
    if isinstance(v, Ite):
        if v.p == p:
            return setp(v.hi if val else v.lo, p, val)
        return mk(v.p, setp(v.hi, p, val), setp(v.lo, p, val))
    return v


def dom_nonempty(b):
    d = b.dom
    p = poly(d) if not isinstance(d, Poly) else d
    if isinstance(d, Poly):
        a = single_atom(d)
        if a is not None and a.name == 'range':
            return lt(Const(0), a.args[0])
        if a is not None and a.name == 'Keys':
            return TRUE
    return nonempty(d)


def single_atom(p):
    if isinstance(p, Atom):
        return p
    if isinstance(p, Poly) and len(p.terms) == 1:
        (s, w), c = next(iter(p.terms.items()))
        if c == (1, 0):
            if len(s) == 1 and not w and s[0][1] == 1 and not s[0][0][1]:
                return s[0][0][0]
            if not s and len(w) == 1 and not any(w[0][1:]):
                return w[0][0]
    return None


def numconst(v):
    if isinstance(v, Const) and isinstance(v.v, (int, float)):
        return v.v
    return None


def symbol(v):
    a = single_atom(v)
    return a is not None and a.name.startswith('sym:') and not a.args


def eq(a, b):
    def leaf(x, y):
        if x == y:
            return TRUE
        if isinstance(x, Const) and isinstance(y, Const):
            return TRUE if x.v == y.v else FALSE
        if isinstance(x, Tup) and isinstance(y, Tup):
            if len(x.items) != len(y.items):
                return FALSE
            return band(*[eq(i, j) for i, j in zip(x.items, y.items)])
        if is_none(x) and not maybe_none(y) or is_none(y) and not maybe_none(x):
            return FALSE
        if isinstance(x, Rec) and isinstance(y, Rec) and x.cls == y.cls and len(x.items) == len(y.items):
            return band(*[eq(i, j) for i, j in zip(x.items, y.items)])
        if isinstance(x, Poly) and isinstance(y, Poly) and x.kind == y.kind == 'v' and free(x) and free(y):
            return FALSE
        for u, v in ((x, y), (y, x)):
            # a text is no symbolic expression
            if isinstance(u, Const) and isinstance(u.v, str) and isinstance(v, Poly) and v.kind == 's' and not (v.typ and any('str' in t for t in v.typ)) and v.terms and (free(v) or symbol(v)):
                return FALSE
        if isinstance(x, Rec) and '.' in x.cls and isinstance(y, (Poly, Const)) or \
           isinstance(y, Rec) and '.' in y.cls and isinstance(x, (Poly, Const)):
            return FALSE
        if isinstance(x, (Poly, Const)) and isinstance(y, (Poly, Const)):
            px, py = poly(x), poly(y)
            if px is not None and py is not None and px.kind == 's' and py.kind == 's':
                d = poly(add(px, py, -1))
                if d is not None:
                    c = d.const()
                    if c is not None:
                        return TRUE if c == (0, 0) else FALSE
                    if free(d):
                        return FALSE
                    # symbols with different names
                    au, av = single_atom(px), single_atom(py)
                    if au is not None and av is not None and au.name[:4] == av.name[:4] == 'sym:' and au.name != av.name and not au.args and not av.args:
                        return FALSE
                    # emptiness tests
                    for u, v in ((px, py), (py, px)):
                        a_ = single_atom(u)
                        if a_ is not None and a_.name == 'len' and v.const() == (0, 0):
                            return bnot(nonempty(a_.args[0]))
        for u, v in ((x, y), (y, x)):
            if isinstance(v, (DictV, SetV, Seq)) and not v.segs:
                return bnot(nonempty(u))
        if isinstance(x, SetV) and isinstance(y, SetV):
            u, v = listed(x), listed(y)
            if u is not None and v is not None:
                return TRUE if u == v else FALSE
        if isinstance(x, (Seq, SetV, DictV)) and isinstance(y, Const) or \
           isinstance(y, (Seq, SetV, DictV)) and isinstance(x, Const):
            return FALSE
        u, v = sorted([x, y], key=lambda t: t.key())
        return pred(P('eq', u, v))
    return lift(leaf, a, b)


def listed(x):
    """The elements of a set written out as constants."""
    if all(not s.binders and s.guard == TRUE and isinstance(s.payload, Const) for s in x.segs):
        return {(type(s.payload.v) if isinstance(s.payload.v, str) else 'n', s.payload.v) for s in x.segs}
    return None


def free(p):
    """Built from free symbols only: two different normal forms are different."""
    for (s, w) in p.terms:
        for (a, c), e in s:
            if 'sym' in a.attrs:
                continue
            q = poly(a.args[0]) if a.name == 'epow' else None
            if q is None or not free(q):
                return False
        for l in w:
            if 'sym' not in l[0].attrs and l[0].name != 'zeros' and not free_array(l[0]):
                return False
    return True


def free_array(a):
    """Explicit array whose entries are free numbers and symbols."""
    if a.name != 'array':
        return False
    def ok(x):
        if isinstance(x, Tup):
            return all(ok(y) for y in x.items)
        if isinstance(x, Const):
            return True
        return isinstance(x, Poly) and x.kind == 's' and free(x)
    return ok(a.args[0])


def is_none(x):
    return isinstance(x, Const) and x.v is None


def maybe_none(x):
    if isinstance(x, Opq):
        return True
    if isinstance(x, Poly):
        a = single_atom(x)
        return a is not None and 'opt' in a.attrs
    return False


def lt(a, b):
    def leaf(x, y):
        if x == y:
            return FALSE
        if isinstance(x, Const) and isinstance(y, Const):
            try:
                return TRUE if x.v < y.v else FALSE
            except TypeError:
                return pred(P('lt', x, y))
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
            r = FALSE
            for i, j in reversed(list(zip(x.items, y.items))):
                r = ite(lt(i, j), TRUE, ite(eq(i, j), r, FALSE))
            return r
        if is_bool(x) and is_bool(y):
            return band(bnot(truth(x)), truth(y))
        ay, ax = single_atom(poly(y)) if poly(y) is not None else None, single_atom(poly(x)) if poly(x) is not None else None
        if numconst(x) == 0 and ay is not None and ay.name == 'len':
            return nonempty(ay.args[0])
        if numconst(y) == 1 and ax is not None and ax.name == 'len':
            return bnot(nonempty(ax.args[0]))
        px, py = poly(x), poly(y)
        if px is not None and py is not None and px.kind == 's' and py.kind == 's':
            d = poly(add(px, py, -1))
            if d is not None:
                c = d.const()
                if c is not None and c[1] == 0:
                    return TRUE if c[0] < 0 else FALSE
                # move terms: compare difference with zero, canonical sign is kept
                if isint(px) and isint(py):
                    # x < y  over the integers: y - x >= 1 ; canonical: not (y < x + 1)
                    pass
                k = (Fraction(0), Fraction(0))
                t = dict(d.terms)
                k = t.pop(((), ()), k)
                lhs = Poly(t, 's', d.typ)
                rhs = simplify(Poly({((), ()): (-k[0], -k[1])}, 's', 'int'))
                # canonical orientation by the sign of the smallest term
                first = min(lhs.terms.items(), key=lambda kv: Poly({kv[0]: (1, 0)}, 's').key())
                if first[1][0] < 0:
                    return pred(P('lt', neg(rhs), neg(lhs)))
                return pred(P('lt', lhs, rhs))
        return pred(P('lt', x, y))
    # booleans may themselves be gated values
    if is_bool(a) and is_bool(b):
        return band(bnot(a), b)
    return lift(leaf, a, b)


def isint(p):
    return p.typ is not None and p.typ <= {'int', 'bool'}


def intvalued(p):
    """A polynomial with whole coefficients in scalar integer letters."""
    return isint(p) or bool(p.terms) and p.kind == 's' and all(
        not w and c[1] == 0 and c[0].denominator == 1 and all(
            l[0].typ and l[0].typ <= {'int', 'bool'} and isinstance(e, int) and e > 0 for l, e in s)
        for (s, w), c in p.terms.items())



def close(a, b):
    def leaf(x, y):
        if x == y:
            return TRUE
        px, py = poly(x), poly(y)
        if px is not None and py is not None:
            zx, zy = is_zero(px), is_zero(py)
            if zx and zy:
                return TRUE
            if px.const() is not None and py.const() is not None:
                return TRUE if px.const() == py.const() else FALSE
            # closeness to zero does not care about scalar prefactors
            if zy or zx:
                q = px if zy else py
                q = primitive(q)
                return pred(P('close', q, Const(0)))
        u, v = sorted([x, y], key=lambda t: t.key())
        return pred(P('close', u, v))
    return lift(leaf, a, b)


def is_zero(p):
    return not p.terms or all(any(l[0].name == 'zeros' for l in w) for (s, w) in p.terms)


def primitive(p):
    if len(p.terms) == 1:
        (s, w), c = next(iter(p.terms.items()))
        if w or s:
            return Poly({(s, w): (Fraction(1), Fraction(0))}, p.kind, p.typ)
    return p


def isin(x, coll):
    def leaf(y, c):
        if isinstance(c, Tup):
            return bor(*[eq(y, i) for i in c.items])
        if isinstance(c, (Seq, SetV, DictV)):
            r = FALSE
            for s in c.segs:
                if not isinstance(s, Seg):
                    return pred(P('in', y, c))
                pay = s.payload
                if isinstance(c, DictV):
                    pay = pay.items[0]
                if not s.binders:
                    r = bor(r, band(s.guard, eq(y, pay)))
                    continue
                # key of a model: membership is decided by the binder's guard
                a = single_atom(y) if isinstance(y, Poly) else None
                pa = single_atom(pay) if isinstance(pay, Poly) else None
                if a is not None and pa is not None and a.name == 'key' == pa.name and len(s.binders) == 1:
                    r = bor(r, subst(s.guard, {s.binders[0]: a.args[0]}))
                    continue
                return pred(P('in', y, c))
            return r
        if isinstance(c, Const) and isinstance(c.v, (str, tuple, list, frozenset)) and isinstance(y, Const):
            return TRUE if y.v in c.v else FALSE
        ca = single_atom(c) if isinstance(c, Poly) else None
        if ca is not None and ca.name == 'commutative_momenta':
            if isinstance(y, Const):
                return FALSE
            ya = single_atom(y) if isinstance(y, Poly) else None
            if ya is not None and 'sym' in ya.attrs:
                return TRUE if ya.name in ('k_x', 'k_y', 'k_z') else FALSE
        return pred(P('in', y, c))
    return lift(leaf, x, coll)


def mkpred(name, args):
    f = {'eq': eq, 'lt': lt, 'close': close, 'in': isin}.get(name)
    if f is not None:
        return f(*args)
    if name == 'nonempty':
        return lift(nonempty, *args)
    if name == 'truth':
        return truth(args[0])
    if name == 'exists':
        s = args[0]
        return exists(s.binders, s.guard)
    return lift(lambda *xs: pred(P(name, *xs)), *args)


# --- functions ------------------------------------------------------------------

def rebuild(a, args):
    f = BUILDERS.get(a.name)
    if f is not None:
        return f(*args)
    return lift(lambda *xs: letter(Atom(a.name, xs, a.kind, a.attrs, a.typ)), *args)


def fn(name, args, kind='s', attrs=(), typ=None):
    if name in BUILDERS:
        return BUILDERS[name](*args)
    return lift(lambda *xs: letter(Atom(name, xs, kind, attrs, typ)), *args)


def shape_of(v):
    def leaf(x):
        p = poly(x)
        if p is None:
            return Opq('shape', (x,))
        if p.kind == 's':
            return Tup([])
        for (s, w) in sorted(p.terms, key=repr):
            if not w:
                break
            r, c = dims(w[0])[0], dims(w[-1])[1]
            if p.kind == 'v':
                return Tup([r]) if r is not None else Opq('shape', (x,))
            if p.kind == 'x':
                return letter(Atom('shape', (p,), 's', (), 'tuple'))
            if r is None or c is None:
                return letter(Atom('shape', (p,), 's', (), 'tuple'))
            return Tup([r, c])
        return letter(Atom('shape', (p,), 's', (), 'tuple'))
    return lift(leaf, v)


def dims(l):
    a, c, t, i = l
    if a.name == 'eye':
        return a.args[0], a.args[0]
    if a.name == 'zeros' and a.args and isinstance(a.args[0], Tup) and len(a.args[0].items) == 2:
        r, c_ = a.args[0].items
    elif a.name.startswith('V:') and len(a.args) == 2:
        r, c_ = a.args
    elif a.name in ('emul', 'round', 'real', 'imag', 'conjv') and a.args and isinstance(a.args[0], Poly):
        s = shape_of(a.args[0])
        if not (isinstance(s, Tup) and len(s.items) == 2):
            return None, None
        r, c_ = s.items
    elif a.name == 'array' and isinstance(a.args[0], Tup) and a.args[0].items:
        x = a.args[0].items[0]
        r, c_ = Const(len(a.args[0].items)), Const(len(x.items)) if isinstance(x, Tup) else None
        if a.kind == 'v':
            return r, r
    elif a.name in ('idx', 'submat', 'block', 'hstack', 'vstack', 'reshape', 'rot', 'Model', 'array'):
        return None, None
    elif a.name == 'store' and isinstance(a.args[0], Poly):
        s = shape_of(a.args[0])
        if not (isinstance(s, Tup) and len(s.items) == 2):
            return None, None
        r, c_ = s.items
    elif 'rect' in a.attrs:
        r = letter(Atom('rows', (letter(a),), 's', ('real',), 'int'))
        c_ = letter(Atom('cols', (letter(a),), 's', ('real',), 'int'))
    elif 'stack' in a.attrs:
        return None, None
    else:
        d = dim_of(a)
        return d, d
    return (c_, r) if t != i else (r, c_)


def idx(x, i):
    """x[i] with i a Tup of indices or a single index."""
    def leaf(p, ix):
        q = poly(p)
        if q is None:
            return Opq('idx', (p, ix))
        if q.kind == 's':
            return letter(Atom('idx', (q, ix), 's'))
        full = isinstance(ix, Tup) and len(ix.items) == 2
        simple = full and not any(isinstance(k, Rec) for k in ix.items)
        if q.kind == 'v' and not isinstance(ix, (Tup, Rec)) or q.kind == 'm' and simple:
            # linear: expand sums
            res = None
            for (s, w), c in q.terms.items():
                base = Poly({((), w): (Fraction(1), Fraction(0))}, q.kind, q.typ)
                t = _idx1(base, w, ix)
                t = pprod(Poly({(s, ()): c}, 's'), poly(t))
                res = t if res is None else padd(res, t)
            return simplify(res) if res is not None else Const(0)
        kind = 'm'
        if q.kind == 'v' or (q.kind == 'm' and not isinstance(ix, Tup) and not isinstance(ix, Rec)):
            kind = 'v' if q.kind == 'm' else 's'
        if full and sum(isinstance(k, Rec) for k in ix.items) == 1:
            kind = 'v'
        return letter(Atom('submat', (q, ix), kind, (), q.typ))
    return lift(leaf, x, i)


def _idx1(base, w, ix):
    if len(w) == 1:
        a, c, t, inv = w[0]
        if a.name == 'eye' and isinstance(ix, Tup):
            e = eq(*ix.items)
            if e in (TRUE, FALSE):
                return Const(int(e == TRUE))
        if a.name == 'zeros':
            return Const(0)
        if a.name == 'vec' and not isinstance(ix, Tup):
            e = elem(a.args[0], ix)
            if e is not None:
                return conj(e) if c else e
        if isinstance(ix, Tup) and t and not inv:
            i, j = ix.items
            return _idx1(poly(transpose(base)), ((a, c, False, inv),), Tup([j, i]))
        if c and not inv:
            l = Poly({((), ((a, False, t, inv),)): (Fraction(1), Fraction(0))}, base.kind, base.typ)
            at = Atom('idx', (l, ix), 's')
            return Poly({((((at, True), 1),), ()): (Fraction(1), Fraction(0))}, 's')
        return letter(Atom('idx', (base, ix), 's', a.attrs & {'real'}))
    return letter(Atom('idx', (base, ix), 's'))


def pos_binder(i):
    """The binder of which index value i is the position, or None."""
    a = single_atom(i) if isinstance(i, Poly) else None
    if a is not None and a.name == 'pos':
        return a.args[0]
    return None


def elem(coll, i):
    """coll[i] for a collection value, or None if unknown."""
    b = pos_binder(i)
    if isinstance(coll, Tup):
        n = numconst(i)
        if n is not None and -len(coll.items) <= n < len(coll.items):
            return coll.items[int(n)]
        return None
    if isinstance(coll, Seq):
        n = numconst(i)
        if n is not None and all(isinstance(s, Seg) for s in coll.segs):
            n = int(n)
            lst = coll.segs if n >= 0 else coll.segs[::-1]
            n = n if n >= 0 else -n - 1
            if n < len(lst) and all(not s.binders and s.guard == TRUE for s in lst[:n + 1]):
                return lst[n].payload
        if b is not None and len(coll.segs) == 1 and isinstance(coll.segs[0], Seg):
            s = coll.segs[0]
            if len(s.binders) == 1 and s.guard == TRUE and (s.binders[0].dom == b.dom or b.dom == coll):
                return subst(s.payload, {s.binders[0]: b})
        return None
    if isinstance(coll, Poly):
        if b is not None and b.dom == coll:
            return letter(Atom('el', (b,), 's' if 'elems_s' in (single_atom(coll).attrs if single_atom(coll) else ()) else 'x'))
    return None


def length(v):
    def leaf(x):
        if isinstance(x, Tup):
            return Const(len(x.items))
        if isinstance(x, Const) and isinstance(x.v, str):
            return Const(len(x.v))
        if isinstance(x, (Seq, DictV, SetV)):
            if all(isinstance(s, Seg) and not s.binders and s.guard == TRUE for s in x.segs) and isinstance(x, Seq):
                return Const(len(x.segs))
            if isinstance(x, (DictV, SetV)) and not x.segs:
                return Const(0)
            if isinstance(x, SetV) and all(isinstance(s, Seg) and not s.binders and s.guard == TRUE and isinstance(s.payload, Const) and isinstance(s.payload.v, str) for s in x.segs):
                return Const(len({s.payload.v for s in x.segs}))
            if isinstance(x, Seq) and len(x.segs) == 1 and isinstance(x.segs[0], Seg):
                s = x.segs[0]
                if s.guard == TRUE and len(s.binders) == 1:
                    return length_dom(s.binders[0].dom)
        if isinstance(x, Poly) and x.kind == 'v':
            s = shape_of(x)
            if isinstance(s, Tup) and s.items:
                return s.items[0]
        if isinstance(x, Poly) and x.kind == 'm':
            s = shape_of(x)
            if isinstance(s, Tup) and s.items:
                return s.items[0]
        return letter(Atom('len', (x,), 's', ('real',), 'int'))
    return lift(leaf, v)


def length_dom(d):
    a = single_atom(d) if isinstance(d, Poly) else None
    if a is not None and a.name == 'range':
        return a.args[0]
    return length(d)


def fsum(binders, guard, payload):
    """Sum of payload over the binders."""
    if not binders:
        return ite(guard, payload, Const(0))
    if guard == FALSE:
        return Const(0)
    # inner binders may not be used at all by an outer decision
    if isinstance(payload, Ite):
        p = payload.p
        if not depends(p, binders):
            return ite(pred(p), fsum(binders, guard, payload.hi), fsum(binders, guard, payload.lo))
        return lift(add, fsum(binders, band(guard, pred(p)), payload.hi),
                    fsum(binders, band(guard, bnot(pred(p))), payload.lo))
    if isinstance(guard, Ite):
        for x in walk(guard):
            if isinstance(x, Ite) and not depends(x.p, binders):
                p = x.p
                return ite(pred(p), fsum(binders, setp(guard, p, 1), payload),
                           fsum(binders, setp(guard, p, 0), payload))
    q = poly(payload)
    if q is None:
        return Opq('sum', (Seg(binders, guard, payload),))
    total = None
    for (s, w), c in q.terms.items():
        flat = flatten(binders, guard, s, w, c, q)
        if flat is not None:
            total = flat if total is None else padd(total, flat)
            continue
        parts = split_sum(binders, guard, s, w)
        if parts is not None:
            t = Poly({((), ()): c}, 's')
            for bs, fs in parts:
                t = pprod(t, poly(fsum(bs, TRUE, Poly({(fs, ()): (Fraction(1), Fraction(0))}, 's', q.typ))))
            total = t if total is None else padd(total, t)
            continue
        out_s = tuple(f for f in s if not depends(f[0][0], binders))
        in_s = tuple(f for f in s if depends(f[0][0], binders))
        lo = 0
        while lo < len(w) and not depends(w[lo][0], binders):
            lo += 1
        hi = len(w)
        while hi > lo and not depends(w[hi - 1][0], binders):
            hi -= 1
        if lo == len(w) and not in_s:
            # the payload does not depend on the binders
            cnt = count(binders, guard)
            t = pprod(Poly({(out_s, w): c}, q.kind, q.typ), poly(cnt))
        else:
            if lo == len(w):
                mid, left, right = (), w, ()
            else:
                left, mid, right = w[:lo], w[lo:hi], w[hi:]
            inner = Poly({(in_s, mid): (Fraction(1), Fraction(0))}, q.kind if mid else 's', q.typ)
            used = [b for b in binders]
            at = Atom('sum', (Seg(used, guard, inner),), q.kind if mid else 's',
                      ('stack',) if mid and q.kind != 'm' else ())
            t = pprod(Poly({(out_s, left): c}, q.kind if left else 's', q.typ), letter(at))
            t = pprod(t, Poly({((), right): (Fraction(1), Fraction(0))}, q.kind, q.typ)) if right else t
            t = Poly(t.terms, q.kind, q.typ)
        total = t if total is None else padd(total, t)
    if total is None:
        return Const(0)
    return simplify(total)


def flatten(binders, guard, s, w, c, q):
    """A sum whose term contains an inner sum depending on the outer binders:
    one sum over both."""
    for n, ((a, cj), e) in enumerate(s):
        if a.name == 'sum' and e == 1 and not cj and depends(a, binders):
            m = {b: Binder(b.dom, n=b.n) for b in a.args[0].binders}
            g2, p2 = subst(a.args[0].guard, m), poly(subst(a.args[0].payload, m))
            if p2 is None:
                return None
            rest = Poly({(s[:n] + s[n + 1:], w): c}, q.kind, q.typ)
            r = fsum(list(binders) + [Binder(subst(b.dom, m), m[b].name, b.n) for b in a.args[0].binders],
                     band(guard, g2), simplify(pprod(p2, rest)))
            return poly(r)
    for n, (a, cj, t, i) in enumerate(w):
        if a.name == 'sum' and not (cj or t or i) and depends(a, binders):
            m = {b: Binder(b.dom, n=b.n) for b in a.args[0].binders}
            g2, p2 = subst(a.args[0].guard, m), poly(subst(a.args[0].payload, m))
            if p2 is None:
                return None
            one = (Fraction(1), Fraction(0))
            body = Poly({(s, w[:n]): c}, q.kind if n else 's', q.typ)
            body = pprod(body, p2, q.kind)
            if w[n + 1:]:
                body = pprod(body, Poly({((), w[n + 1:]): one}, q.kind, q.typ), q.kind)
            return poly(fsum(list(binders) + [Binder(subst(b.dom, m), m[b].name, b.n) for b in a.args[0].binders],
                             band(guard, g2), Poly(body.terms, q.kind, q.typ)))
    return None


def split_sum(binders, guard, s, w):
    """Independent scalar sums: product of sums."""
    if guard != TRUE or w or len(binders) < 2 or any(depends(b.dom, binders) for b in binders):
        return None
    comps = [[b] for b in binders]
    for (a, cj), e in s:
        used = [b for b in binders if depends(a, [b])]
        hit = [k for k in comps if any(b in k for b in used)]
        if len(hit) > 1:
            comps = [k for k in comps if k not in hit] + [sum(hit, [])]
    if len(comps) < 2:
        return None
    out = []
    rest = list(s)
    for k in comps:
        fs = tuple(x for x in rest if depends(x[0][0], k))
        rest = [x for x in rest if x not in fs]
        out.append((k, fs))
    if rest:
        out[0] = (out[0][0], out[0][1] + tuple(rest))
    return out


def count(binders, guard):
    if guard == TRUE and len(binders) == 1:
        return length_dom(binders[0].dom)
    return letter(Atom('count', (Seg(binders, guard, TRUE),), 's', ('real',), 'int'))


def sum_rebuild(seg):
    return fsum(seg.binders, seg.guard, seg.payload)


def epow(p):
    if poly(p) is not None and poly(p).const() == (0, 0):
        return Const(1)
    return letter(Atom('epow', (p,), 's'))


def power(a, b):
    """a ** b on leaves."""
    x = poly(a)
    n = numconst(b)
    if x is None:
        return Opq('**', (a, b))
    at = single_atom(x)
    if at is not None and at.name == 'sym:e':
        return epow(b)
    c = x.const()
    if c is not None and n is not None and isinstance(a, Const):
        try:
            return Const(a.v ** b.v)
        except Exception:
            return Opq('**', (a, b))
    if n is not None and x.kind == 's':
        if float(n).is_integer():
            return simplify(ppow(x, int(n)))
        return letter(Atom('pow', (x, b), 's'))
    if n == -1 and x.kind == 'm' and x.typ and x.typ <= SYMPY_M:
        return inverse(x)
    if x.kind == 's':
        return letter(Atom('pow', (x, b), 's'))
    if x.typ and x.typ <= SYMPY_M:
        return letter(Atom('matpow', (x, b), 'm'))
    return letter(Atom('epowr', (x, b), x.kind))


def rot(m, r):
    """model.rotate_momenta(R); linear in the model, commutes with constants."""
    def leaf(x, rr):
        q = poly(x)
        if q is None:
            return Opq('rot', (x, rr))
        out = None
        for (s, w), c in q.terms.items():
            ws = None
            for l in w:
                a = l[0]
                if a.typ and 'Model' in a.typ:
                    base = Poly({((), (l,)): (Fraction(1), Fraction(0))}, a.kind, a.typ)
                    if a.name == 'rot' and False:
                        pass
                    e = letter(Atom('rot', (base, rr), a.kind, (), a.typ))
                else:
                    e = Poly({((), (l,)): (Fraction(1), Fraction(0))}, a.kind)
                ws = e if ws is None else pprod(ws, e, 'x')
            t = Poly({(s, ()): c}, 's')
            t = pprod(t, ws) if ws is not None else t
            out = t if out is None else padd(out, t)
        if out is None:
            return x
        return Poly(out.terms, q.kind, q.typ)
    return lift(leaf, m, r)


def vec(x):
    """Array / matrix made from a collection."""
    return lift(lambda c: letter(Atom('vec', (c,), 'v')), x)


def kron(a, b):
    def leaf(x, y):
        p, q = poly(x), poly(y)
        if p is None or q is None:
            return Opq('kron', (x, y))
        return bilinear('kron', [p, q], 'm')
    return lift(leaf, a, b)


def vdot(a, b):
    return lift(lambda x, y: bilinear('vdot', [poly(x), poly(y)], 's')
                if poly(x) is not None and poly(y) is not None else Opq('vdot', (x, y)), a, b)


def emul(a, b):
    return lift(mul, a, b)


def real_letters(s, w, c):
    """Real by construction: real coefficient times real letters (exp(i X) of imaginary X)."""
    if c[1] != 0 or any('real' not in a.attrs for (a, _), e in s):
        return False
    for a, cj, t, i in w:
        if 'real' in a.attrs:
            continue
        if a.name == 'expm' and real_expl(a.args[0]):
            continue
        if a.name == 'expm' and all(imag_term(s2, w2, c2) for (s2, w2), c2 in poly(a.args[0]).terms.items()):
            continue
        return False
    return True


def real_expl(x):
    from . import arrays as A
    e = A.expl(x)
    if e is None:
        return False
    l = [v for r in e for v in r] if A.is2(e) else e
    return all(poly(v) is not None and poly(conj(v)) == poly(v) for v in l)


def imag_term(s, w, c):
    """i x real: the product has real entries."""
    k = sum('imag' in a.attrs for a, *_ in w)
    if any('real' not in a.attrs for (a, _), e in s) or any('imag' not in a.attrs and 'real' not in a.attrs for a, *_ in w):
        return False
    return c[1] == 0 if k % 2 == 0 else c[0] == 0


def real_(x):
    def leaf(v):
        p = poly(v)
        if p is not None:
            if p == poly(conj(v)):
                return v
            if p.kind == 's' and p.const() is not None:
                return Const(float(p.const()[0]))
            from . import arrays as A
            e = A.expl(v) if p.kind in ('m', 'v') else None
            if e is not None:
                r = A.amap(real_, e)
                return A.mk(r, p.typ)
            if p.kind in ('m', 'v') and all(real_letters(s, w, c) for (s, w), c in p.terms.items()):
                return v
            return letter(Atom('real', (v,), p.kind, ('real',), p.typ))
        return letter(Atom('real', (v,), p.kind if p is not None else 's', ('real',)))
    return lift(leaf, x)


BUILDERS = {'idx': lambda x, i: idx(x, i), 'sum': sum_rebuild, 'epow': lambda p: lift(epow, p),
            'rot': rot, 'kron': kron, 'vdot': vdot, 'emul': emul, 'len': length, 'real': real_,
            'count': lambda s: count(s.binders, s.guard)}
