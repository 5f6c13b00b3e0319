"""C02: inverse, identity, integer powers."""
from .common import *
from .c01 import matmul_v


def dimof(p):
    return B.shape_of(p).items[0]


def eye_of(p):
    return letter(Atom('eye', (dimof(p),), 'm'))


def prod(f1, f2):
    """Reference composition law on field dicts."""
    return {'R': matmul_v(f1['R'], f2['R']),
            'conjugate': bxor(f1['conjugate'], f2['conjugate']),
            'antisymmetry': bxor(f1['antisymmetry'], f2['antisymmetry']),
            'U': lift(lambda u, v: NONE if u == NONE or v == NONE else matmul(u, v),
                      f1['U'], ite(f1['conjugate'], lift(lambda x: x if x == NONE else conj(x), f2['U']), f2['U']))}


def run(ck):
    ck.rule('abstract value of inv() composed with the element by the reference composition law reduces to the unit '
            'words (using only U U^dagger = 1 and R R^-1 = 1); identity() equals the unit element; g**n unrolled for '
            'n=-6..6 and selected larger n equals the word g^n')
    P = 'PointGroupElement'
    it = make(ck)
    w = where(ck, it, 'groups', P, 'inv')
    for k in ('int', 'float', 'exact'):
        for u in (True, False):
            def go(k=k, u=u):
                it = make(ck)
                st = state()
                g = pge(it, st, '1', u, k)
                f = it.get(st, g).fields
                v, s = absrun(it, it.method('groups', P, 'inv'), [g], st)
                r = cmp_fields(v, {'conjugate': f['conjugate'], 'antisymmetry': f['antisymmetry'], '_strict_eq': f['_strict_eq']})
                if r.kind != 'eq':
                    return r
                h = fields(v)
                worst = Verdict('eq')
                for name, (x, y) in (('g*g.inv()', (f, h)), ('g.inv()*g', (h, f))):
                    p = prod(x, y)
                    for fld, want in (('R', eye_of(f['R'])), ('U', eye_of(f['U']) if u else NONE)):
                        r = compare(p[fld], want, {'R1', 'U1'}, 'strict')
                        if r.kind == 'ne':
                            r.why = '%s of %s: %s' % (fld, name, r.why)
                            return r
                        if r.kind == 'unk':
                            worst = r
                return worst
            ck.ob('inverse, R %s, U %s' % (k, 'given' if u else 'None'), w, go)
    w = where(ck, it, 'groups', P, 'identity')
    for k in ('int', 'float', 'exact'):
        for u in (True, False):
            def go(k=k, u=u):
                it = make(ck)
                st = state()
                g = pge(it, st, '1', u, k)
                f = it.get(st, g).fields
                v, s = absrun(it, it.method('groups', P, 'identity'), [g], st)
                return cmp_fields(v, {'R': eye_of(f['R']), 'conjugate': FALSE, 'antisymmetry': FALSE,
                                      'U': eye_of(f['U']) if u else NONE})
            ck.ob('g.identity(), R %s, U %s' % (k, 'given' if u else 'None'), w, go)
    w = where(ck, it, 'groups', 'identity')
    for sh in (True, False):
        def go(sh=sh):
            it = make(ck)
            st = state()
            d, n = atom('d', (), 's', ('real',), 'int'), atom('n', (), 's', ('real',), 'int')
            v, s = absrun(it, it.func('groups', 'identity'), [d] + ([n] if sh else []), st)
            return cmp_fields(v, {'R': letter(Atom('eye', (d,), 'm')), 'conjugate': FALSE, 'antisymmetry': FALSE,
                                  'U': letter(Atom('eye', (n,), 'm')) if sh else NONE}, 'strict', {'eye'})
        ck.ob('identity(dim%s)' % (', shape' if sh else ''), w, go)
    w = where(ck, it, 'groups', P, '__pow__')
    for n in list(range(-6, 7)) + [8, 12, 13, -13, 24, 25, -25, 33]:
        for u in (True, False):
            def go(n=n, u=u):
                it = make(ck)
                st = state()
                g = pge(it, st, '1', u)
                f = it.get(st, g).fields
                v, s = absrun(it, it.method('groups', P, '__pow__'), [g, Const(n)], st)
                c, U, R = f['conjugate'], f['U'], f['R']
                ident = {'R': eye_of(R), 'conjugate': FALSE, 'antisymmetry': FALSE, 'U': eye_of(U) if u else NONE}
                base = f if n >= 0 else {'R': inverse(R), 'conjugate': c, 'antisymmetry': f['antisymmetry'],
                                         'U': ite(c, transpose(U), inverse(U)) if u else NONE}
                want = ident
                for _ in range(abs(n)):
                    want = prod(want, base)
                return cmp_fields(v, {x: want[x] for x in ('R', 'conjugate', 'antisymmetry', 'U')}, 'strict', {'R1', 'U1', 'c1', 'a1', 'eye', 'dim'})
            ck.ob('g**%d, U %s' % (n, 'given' if u else 'None'), w, go)
