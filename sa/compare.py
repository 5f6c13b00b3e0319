"""Comparison of an analysed value with the value of its reference definition.

Verdicts: 'eq' (same normal form), 'ne' (definitely different: both sides lie
in the understood vocabulary and the deciding predicates are independent),
'unk' (anything else)."""
from .terms import *
from . import build as B
from .interp import Exc, Ref

# letters with a fixed meaning: two different normal forms built from them (and
# from letters of the reference) are different functions
HARD = {'eye', 'zeros', 'block_diag', 'kron', 'rot', 'dim', 'rows', 'cols', 'len', 'pi', 'range', 'expm',
        'outer', 'i', 'pos', 'item', 'block', 'store', 'attr:R', 'attr:U', 'coef', 'sum', 'idx', 'emul', 'inverse',
        'momenta', 'keep', 'shape', 'format', 'trf', 'key', 'el', 'trace', 'vdot', 'submat', 'sqrt', 'sin', 'cos',
        'append', 'array', 'real', 'imag', 'trunc', 'diff', 'abs', 'stack', 'vec', 'sym:e', 'fmt', 'concat', 'transposed'}
FREE = {'truth', 'isnone', 'isa', 'lt', 'nonempty', 'exists', 'in', 'eq', 'close'}


class Verdict:
    def __init__(self, kind, why='', cube=(), code=None, spec=None):
        self.kind, self.why, self.cube, self.code, self.spec = kind, why, cube, code, spec

    def __repr__(self):
        return '%s %s [%s] code=%s spec=%s' % (self.kind, self.why, show_cube(self.cube), self.code, self.spec)


def show_cube(cube):
    return ', '.join(('' if b else 'not ') + repr(p) for p, b in cube) or 'always'


def is_unknown(v):
    for x in walk(v):
        if isinstance(x, (Opq, Undef, Carry)) or isinstance(x, Atom) and (x.name.startswith('?') or x.name.startswith('carry:') or x.name.startswith('global:')):
            return x
        if isinstance(x, Ref):
            return x
    return None


def atom_names(v):
    return {x.name for x in walk(v) if isinstance(x, Atom)}


def dom_heads(v):
    """Kinds of the iterated domains: different iteration schemes (positions,
    elements, ranges) are not compared."""
    out = set()
    for x in walk(v):
        if isinstance(x, Binder):
            a = B.single_atom(x.dom) if isinstance(x.dom, (Poly, Atom)) else None
            out.add(a.name if a is not None else type(x.dom).__name__)
        elif isinstance(x, Seg):
            for b in x.binders:
                a = B.single_atom(b.dom) if isinstance(b.dom, (Poly, Atom)) else None
                out.add(a.name if a is not None else type(b.dom).__name__)
    return out


def compare_any(code, specs, vocab=frozenset(), exc='skip'):
    """Several equivalent reference forms: equal to any, or different from all."""
    rs = [compare(code, s, vocab, exc) for s in specs]
    for r in rs:
        if r.kind == 'eq':
            return r
    for r in rs:
        if r.kind == 'unk':
            return r
    return rs[0]


def leaf_cmp(x, y, vocab):
    if x == y:
        return 'eq', ''
    if isinstance(x, Exc) or isinstance(y, Exc):
        if isinstance(x, Exc) and isinstance(y, Exc):
            return 'eq', ''
        return 'exc', 'raises' if isinstance(x, Exc) else 'does not raise'
    if isinstance(x, Ite) or isinstance(y, Ite):
        r = compare(x, y, vocab)
        return r.kind, r.why
    for cls in (Tup, Rec):
        if isinstance(x, cls) and isinstance(y, cls):
            if len(x.items) != len(y.items) or (cls is Rec and x.cls != y.cls):
                return ('ne', 'different shape') if not is_unknown(x) else ('unk', '')
            kinds = [leaf_cmp(a, b, vocab) for a, b in zip(x.items, y.items)]
            for i, k in enumerate(kinds):
                if k[0] == 'ne':
                    nm = ''
                    if isinstance(y.items[i], Tup) and y.items[i].items and isinstance(y.items[i].items[0], Const):
                        nm = ''
                    return 'ne', 'component %d: %s' % (i, k[1] or '%r instead of %r' % (x.items[i], y.items[i]))
            for k in kinds:
                if k[0] != 'eq':
                    return k
            return 'eq', ''
    if poly(x) is not None and poly(y) is not None and B.is_zero(poly(x)) and B.is_zero(poly(y)):
        return 'eq', ''
    u = is_unknown(x) or is_unknown(y)
    if u is not None:
        return 'unk', 'unknown %r' % (u,)
    new = atom_names(x) - atom_names(y) - vocab - HARD
    if new:
        return 'unk', 'new vocabulary %s' % sorted(new)
    if dom_heads(x) - dom_heads(y):
        return 'unk', 'different iteration scheme'
    px, py = poly(x), poly(y)
    if px is not None and py is not None:
        if B.is_zero(px) and B.is_zero(py):
            return 'eq', ''
        return 'ne', ''
    if isinstance(x, Const) and isinstance(y, Const):
        return 'ne', ''
    if (isinstance(x, Const) and x.v is None) != (isinstance(y, Const) and y.v is None):
        z = y if isinstance(x, Const) and x.v is None else x
        a = B.single_atom(z) if isinstance(z, Poly) else None
        if a is not None and 'opt' in a.attrs:
            return 'unk', 'possibly None'
        return 'ne', ''
    if type(x) is type(y):
        return 'ne', ''
    if isinstance(x, (Const, Tup, Poly, Rec, Seq, DictV, SetV)) and isinstance(y, (Const, Tup, Poly, Rec, Seq, DictV, SetV)):
        return 'ne', 'different kinds'
    return 'unk', 'incomparable'


def feasible(cube):
    """False when the decisions obviously contradict each other."""
    empty = {p.args[0].key() for p, b in cube if p.name == 'nonempty' and not b}
    for p, b in cube:
        if b and p.name == 'in' and p.args[1].key() in empty:
            return False
        if b and p.name == 'exists':
            for bd in p.args[0].binders:
                if bd.dom.key() in empty:
                    return False
    return True


def compare(code, spec, vocab=frozenset(), exc='skip'):
    """Compare two gated values."""
    vocab = set(vocab) | atom_names(spec)
    unk = None
    stack = [((), code, spec)]
    n = 0
    while stack:
        cube, a, b = stack.pop()
        n += 1
        if n > 5000:
            return Verdict('unk', 'too many cases')
        p = top_p(a, b)
        if p is not None:
            stack.append((cube + ((p, False),), cof(a, p, 0), cof(b, p, 0)))
            stack.append((cube + ((p, True),), cof(a, p, 1), cof(b, p, 1)))
            continue
        if a == b:
            continue
        if not feasible(cube):
            continue
        k, why = leaf_cmp(a, b, vocab)
        if k == 'eq':
            continue
        if k == 'exc':
            if exc == 'skip':
                continue
            k = 'ne' if exc == 'strict' else 'unk'
        if k == 'ne':
            # equalities assumed by the cube
            m = {}
            bad = None
            for p, val in cube:
                base = p.name if not p.name.startswith('attr:') and not p.name.startswith('flag') else 'truth'
                if base not in FREE:
                    bad = p
                elif is_unknown(Tup(p.args)) is not None:
                    bad = p
                elif val and base in ('eq', 'close'):
                    u, v = p.args
                    for s, t in ((u, v), (v, u)):
                        at = B.single_atom(s) if isinstance(s, Poly) else None
                        if at is not None and s not in m and not any(x == s for x in walk(t)):
                            m[s] = t
                            break
                    else:
                        if base in ('eq',):
                            bad = p
                        elif base == 'close':
                            bad = p
            if m:
                a2, b2 = subst(a, m), subst(b, m)
                if a2 == b2:
                    continue
                k2, _ = (leaf_cmp(a2, b2, vocab) if not isinstance(a2, Ite) and not isinstance(b2, Ite)
                         else (compare(a2, b2, vocab).kind, ''))
                if k2 == 'eq':
                    continue
                if k2 != 'ne':
                    unk = unk or Verdict('unk', 'under equalities', cube, a, b)
                    continue
            if bad is not None:
                unk = unk or Verdict('unk', 'undecided condition %r' % (bad,), cube, a, b)
                continue
            return Verdict('ne', why, cube, a, b)
        unk = unk or Verdict('unk', why, cube, a, b)
    return unk or Verdict('eq')
