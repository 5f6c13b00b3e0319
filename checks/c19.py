"""C19: constant representation tables."""
import itertools

from .ndcommon import *

R3 = 3 ** .5


def lp(k):
    """(L_k)_ij = -i eps_kij"""
    def f(ix):
        i, j = ix
        return {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (0, 2, 1): -1, (2, 1, 0): -1, (1, 0, 2): -1}.get((k, i, j), 0) * -1j
    return [[f((i, j)) for j in range(3)] for i in range(3)]


def mul(a, b):
    return [[sum(x * b[k][j] for k, x in enumerate(r)) for j in range(len(b[0]))] for r in a]


def ld(k):
    """Action of the same rotation on d orbitals, each a quadratic form."""
    h = 1 / 2 ** .5
    q = [[[h, 0, 0], [0, -h, 0], [0, 0, 0]], [[-h / R3, 0, 0], [0, -h / R3, 0], [0, 0, 2 * h / R3]],
         [[0, h, 0], [h, 0, 0], [0, 0, 0]], [[0, 0, 0], [0, 0, h], [0, h, 0]], [[0, 0, h], [0, 0, 0], [h, 0, 0]]]
    l = lp(k)
    out = []
    for a in range(5):
        row = []
        for b in range(5):
            m = [[x - y for x, y in zip(r, s)] for r, s in zip(mul(l, q[b]), mul(q[b], l))]
            row.append(sum(q[a][i][j] * m[i][j] for i in range(3) for j in range(3)))
        out.append(row)
    return out


def spin_ref(s2):
    d = s2 + 1
    s = s2 / 2
    m = [s - i for i in range(d)]
    up = [[(s * (s + 1) - m[j] * (m[j] + 1)) ** .5 if i == j - 1 else 0 for j in range(d)] for i in range(d)]
    dn = [[up[j][i] for j in range(d)] for i in range(d)]
    return ([[(x + y) / 2 for x, y in zip(r, q)] for r, q in zip(up, dn)],
            [[(x - y) / 2j for x, y in zip(r, q)] for r, q in zip(up, dn)],
            [[m[i] if i == j else 0 for j in range(d)] for i in range(d)])


def near(t, rows, what):
    """Constant table against numbers."""
    if not isinstance(t, A):
        return Verdict('unk', 'no table: ' + what)
    if t.shape != (len(rows), len(rows[0])):
        return Verdict('ne', '%s: extents %s' % (what, t.shape))
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            y = nd.num(t.at((i, j)))
            if y is None:
                return Verdict('unk', '%s: entry %d,%d is not constant: %s' % (what, i, j, str(t.at((i, j)))[:120]))
            if abs(x - y) > 1e-11:
                return Verdict('ne', '%s: entry %d,%d is %s instead of %s' % (what, i, j, show(y), show(x)))
    return Verdict('eq')


def show(z):
    z = complex(z)
    return '%g' % z.real if not z.imag else '%gi' % z.imag if not z.real else '%g%+gi' % (z.real, z.imag)


def array(ck, name, args, kw, n):
    it = mkn(ck)
    v, st = absrun(it, it.func('groups', name), args, state(), kw)
    v = it.snap(v, st)
    bad = [x for _, x in leaves(v) if isinstance(x, Exc)]
    if bad:
        return Verdict('ne', '%s raises %s' % (name, bad[0].name))
    t = table(v)
    if t is None:
        return Verdict('unk', 'no table: %s' % str(v)[:200])
    if t.ndim != 3 or t.shape[0] != n:
        return Verdict('ne', '%s has extents %s' % (name, t.shape))
    return list(t.rows())


def vector(ck, label, name, args, kw, refs, signs=False):
    def ob():
        l = array(ck, name, args, kw, len(refs))
        if isinstance(l, Verdict):
            return l
        best = None
        # the documented basis functions are fixed up to their signs
        for sg in itertools.product((1, -1), repeat=len(refs[0]) - 1 if signs else 0):
            sg = (1,) + (sg or (1,) * (len(refs[0]) - 1))
            v = worst([near(m, [[sg[i] * sg[j] * x for j, x in enumerate(q)] for i, q in enumerate(r)],
                            '%s, matrix %d' % (label, k)) for k, (m, r) in enumerate(zip(l, refs))])
            if v.kind == 'eq':
                return v
            best = best or v
        return best
    return ob


def symbols(it, args, kw, st, node):
    if not args or not isinstance(args[0], Const) or not isinstance(args[0].v, str):
        return NotImplemented
    attrs = []
    for k, v in kw.items():
        if k == 'commutative' and v in (TRUE, FALSE):
            attrs += [] if v == TRUE else ['noncomm']
        elif v == TRUE:
            attrs.append(k)
        else:
            return NotImplemented
    l = [atom('sym:' + n, (), 's', tuple(attrs), 'sympy.Symbol') for n in args[0].v.replace(',', ' ').split()]
    return l[0] if len(l) == 1 and ',' not in args[0].v else Tup(l)


def msigma(it, args, kw, st, node):
    if len(args) == 1 and isinstance(args[0], Const) and args[0].v in (1, 2, 3):
        return ND.back(PAULI[args[0].v - 1], 'sympy.Matrix')
    return NotImplemented


# names the symbolic library reserves when parsing
CLASH = ('C', 'O', 'S', 'I', 'N', 'E', 'Q', 'beta', 'zeta', 'gamma', 'pi')


def clash(it, st):
    return it.alloc(st, HSeq('dict', [Seg((), TRUE, Tup([Const(k), Const('')])) for k in CLASH]))


def run(ck):
    ck.rule('tables of constants and the matrices computed for constant spins are folded to exact numbers and compared '
            'entry by entry with the angular-momentum algebra in the documented basis')
    it = mkn(ck)
    w = where(ck, it, 'groups', 'L_matrices')
    two, three, five = [[[0, -1j], [1j, 0]]], [lp(k) for k in range(3)], [ld(k) for k in range(3)]
    for args, kw, refs, label in (
            ([], {}, three, 'default'), ([], {'d': 3}, three, 'd=3'), ([], {'d': 3, 'l': 1}, three, 'd=3, l=1'),
            ([Const(3), Const(1)], {}, three, '3, 1'), ([], {'d': 2}, two, 'd=2'), ([Const(2)], {'l': 1}, two, '2, l=1'),
            ([], {'d': 3, 'l': 2}, five, 'd=3, l=2'), ([], {'l': 2}, five, 'l=2'), ([Const(3), Const(2)], {}, five, '3, 2')):
        ck.ob('L_matrices(%s)' % label, w, vector(ck, 'L_matrices(%s)' % label, 'L_matrices', args, {k: Const(v) for k, v in kw.items()}, refs,
              refs is five))

    w = where(ck, it, 'groups', 'spin_matrices')
    for s2 in range(1, 10):
        one = [[int(i == j) for j in range(s2 + 1)] for i in range(s2 + 1)]
        xyz = list(spin_ref(s2))
        vals = [(rat(s2, 2) if s2 % 2 else rat(s2 // 2), 'float')]
        if s2 % 2 == 0:
            vals.append((Const(s2 // 2), 'int'))
        for v, t in vals:
            n = '%s%s' % ('%d/2' % s2 if s2 % 2 else s2 // 2, '' if t == 'int' or s2 % 2 else '.0')
            ck.ob('spin_matrices(%s)' % n, w, vector(ck, 'spin ' + n, 'spin_matrices', [v], {}, xyz))
            ck.ob('spin_matrices(%s, include_0=True)' % n, w,
                  vector(ck, 'spin ' + n, 'spin_matrices', [v], {'include_0': TRUE}, [one] + xyz))
            ck.ob('spin_matrices(%s, False)' % n, w, vector(ck, 'spin ' + n, 'spin_matrices', [v, FALSE], {}, xyz))

    names(ck)
    classes(ck)


def names(ck):
    """Names predefined for parsing."""
    path = ck.pkg.modules['kwant_continuum'].path if 'kwant_continuum' in ck.pkg.modules else None
    if path is None or 'extra_ns' not in ck.pkg.modules['kwant_continuum'].defs:
        return
    it = mkn(ck)
    st = State({0: {}})
    it.ext_over.update({'sympy.symbols': symbols, 'sympy.Symbol': symbols, 'sympy.physics.matrices.msigma': msigma})
    it.ext_values = {'sympy.abc._clash': clash(it, st)}
    env = it.module_names('kwant_continuum', st)
    w = '%s kwant_continuum.extra_ns' % path
    ns = env.get('extra_ns')

    def entry(key):
        if not isinstance(ns, Ref):
            return None
        segs = it.segs(st, ns)
        if segs is None:
            return None
        out = []
        for s in segs:
            if not isinstance(s, Seg) or s.binders or s.guard != TRUE or not isinstance(s.payload, Tup) \
                    or not isinstance(s.payload.items[0], Const):
                return None
            if s.payload.items[0].v == key:
                out.append(s.payload.items[1])
        return out

    for k, (name, ref) in enumerate(zip('0xyz', ([[1, 0], [0, 1]], [[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]))):
        def sig(name=name, ref=ref):
            l = entry('sigma_' + name)
            if l is None:
                return Verdict('unk', 'namespace not determined')
            if not l:
                return Verdict('ne', 'sigma_%s is not defined' % name)
            return near(table(it.snap(l[-1], st)), ref, 'sigma_' + name)
        ck.ob('sigma_%s' % name, w, sig)

        def pau(k=k, name=name, ref=ref):
            v = env.get('pauli')
            t = table(it.snap(v, st)) if v is not None else None
            if t is None:
                return Verdict('unk', 'no table')
            return near(list(t.rows())[k], ref, 'pauli[%d]' % k) if t.shape == (4, 2, 2) else Verdict('ne', 'extents %s' % (t.shape,))
        if 'pauli' in ck.pkg.modules['kwant_continuum'].defs:
            ck.ob('pauli[%d]' % k, w, pau)
    for key, exts in (('kron', ('sympy.physics.quantum.TensorProduct', 'sympy.physics.quantum.tensorproduct.TensorProduct')),
                      ('eye', ('sympy.eye',)), ('identity', ('sympy.eye',))):
        def obj(key=key, exts=exts):
            l = entry(key)
            if l is None:
                return Verdict('unk', 'namespace not determined')
            if not l:
                return Verdict('ne', '%s is not defined' % key)
            v = l[-1]
            if not isinstance(v, Ext):
                return Verdict('unk', 'not an external name: %s' % str(v)[:100])
            if v.name in exts:
                return Verdict('eq')
            return Verdict('ne' if v.name.startswith(('sympy.', 'numpy.')) else 'unk', '%s is %s' % (key, v.name))
        ck.ob('%s' % key, w, obj)
    for key in ('k_x', 'k_y', 'k_z', 'x', 'y', 'z'):
        def sym(key=key):
            l = entry(key)
            if l is None:
                return Verdict('unk', 'namespace not determined')
            if not l:
                return Verdict('ne', '%s is not defined' % key)
            v = it.snap(l[-1], st)
            u = letter_of(v)
            if u is None or not u.name.startswith('sym:'):
                return Verdict('unk', 'not a symbol: %s' % str(v)[:100])
            if u.name == 'sym:' + key and 'noncomm' in u.attrs:
                return Verdict('eq')
            return Verdict('ne', '%s is the %s symbol %s' % (key, 'non-commuting' if 'noncomm' in u.attrs else 'commuting', u.name[4:]))
        ck.ob('symbol %s' % key, w, sym)
    for key in ('I', 'pi'):
        def absent(key=key):
            l = entry(key)
            if l is None:
                return Verdict('unk', 'namespace not determined')
            return Verdict('ne', '%s is shadowed by %s' % (key, str(l[-1])[:80])) if l else Verdict('eq')
        ck.ob('%s keeps its mathematical meaning' % key, w, absent)


def letter_of(v):
    if isinstance(v, Atom):
        return v
    if isinstance(v, Poly) and len(v.terms) == 1:
        (s, wd), c = next(iter(v.terms.items()))
        if c == (1, 0) and not wd and len(s) == 1 and s[0][1] == 1:
            return s[0][0][0]
        if c == (1, 0) and not s and len(wd) == 1:
            return wd[0][0] if isinstance(wd[0], tuple) else wd[0]
    return None


TT = {'A': 0, 'AI': 1, 'AII': -1, 'AIII': 0, 'BDI': 1, 'CII': -1, 'D': 0, 'DIII': -1, 'C': 0, 'CI': 1}
PP = {'A': 0, 'AI': 0, 'AII': 0, 'AIII': 0, 'BDI': 1, 'CII': -1, 'D': 1, 'DIII': 1, 'C': -1, 'CI': -1}


def classes(ck):
    """Altland-Zirnbauer tables."""
    m = ck.pkg.modules.get('kwant_rmt')
    if m is None:
        return
    for fn, ref in (('t', TT), ('p', PP), ('c', {s: int(bool(TT[s]) == bool(PP[s]) and (TT[s] != 0 or s == 'AIII')) for s in TT})):
        if not hasattr(m.defs.get(fn), 'body'):
            continue
        for s in sorted(TT):
            def ob(fn=fn, s=s, ref=ref):
                it = mkn(ck)
                v, st = absrun(it, it.func('kwant_rmt', fn), [Const(s)], state())
                if isinstance(v, Exc):
                    return Verdict('ne', '%s(%r) raises %s' % (fn, s, v.name))
                n = nd.num(v) if not isinstance(v, Const) else v.v
                if n is None:
                    return Verdict('unk', 'not constant: %s' % str(v)[:100])
                return Verdict('eq') if n == ref[s] else Verdict('ne', '%s(%r) is %s instead of %s' % (fn, s, v, ref[s]))
            ck.ob('%s(%s)' % (fn, s), '%s:%d kwant_rmt.%s' % (m.path, m.defs[fn].lineno, fn), ob)
    for name, ref, what in (('h_t_matrix', TT, 'time-reversal'), ('h_p_matrix', PP, 'particle-hole')):
        if name not in m.defs:
            continue
        for s in sorted(TT):
            def ob(name=name, s=s, ref=ref, what=what):
                it = mkn(ck)
                st = State({0: {}})
                env = it.module_names('kwant_rmt', st)
                v = env.get(name)
                segs = it.segs(st, v) if isinstance(v, Ref) else None
                if segs is None or any(x.binders or x.guard != TRUE for x in segs):
                    return Verdict('unk', 'no table')
                l = [x.payload.items[1] for x in segs if x.payload.items[0] == Const(s)]
                if not l:
                    return Verdict('eq' if not ref[s] else 'ne', 'no entry for class ' + s)
                if not ref[s]:
                    return Verdict('ne', 'class %s has no %s symmetry' % (s, what))
                t = table(it.snap(l[-1], st))
                if t is None or t.ndim != 2 or t.shape[0] != t.shape[1]:
                    return Verdict('unk', 'no square table')
                e = [[int(i == j) for j in range(t.shape[0])] for i in range(t.shape[0])]
                return worst([near(mm(t, dag(t)), e, 'T T^dagger of class ' + s),
                              near(scale(Const(ref[s]), mm(t, t.map(T.conj))), e, 'square of the %s operator of class %s' % (what, s))])
            ck.ob('%s[%s]' % (name, s), '%s kwant_rmt.%s' % (m.path, name), ob)
