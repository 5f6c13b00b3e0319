"""C21: the displayed names say what the object does."""
import re
import itertools
import string
import math
from .ndcommon import *
from fractions import Fraction

VOC = {'R', 'len', 'tot', 'evec', 'etot', 'U', 'L', 'pi', 'sqrt', 'axis', 'round', 'sign'}
PI = atom('pi', (), 's', ('real',), 'float')
DET = real('det')


def num_c(x):
    x = Fraction(x)
    return rat(x.numerator, x.denominator) if x.denominator != 1 else Const(int(x))


def quat(a, b, c, d):
    """Rational rotation matrix."""
    n = a * a + b * b + c * c + d * d
    R = [[a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
         [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
         [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]]
    return [[Fraction(x, n) for x in r] for r in R]


class Disp:
    """Analyses the printing of one object with a symbolic rotation part."""

    def __init__(self, ck, dim, R=None, turn=None):
        self.ck, self.dim = ck, dim
        self.it = it = mkn(ck)
        self.st = state()
        self.R = R if R is not None else nd.build((dim, dim), lambda ix: real('R', *ix))
        self.turn_ = turn
        self.angs, self.fracs = {}, {}
        it.ext_over['numpy.linalg.det'] = it.ext_over['scipy.linalg.det'] = self.det
        for n in ('numpy.linalg.norm', 'scipy.linalg.norm'):
            it.ext_over[n] = self.norm
        for n in ('numpy.linalg.eigh', 'scipy.linalg.eigh'):
            it.ext_over[n] = self.eigh
        it.ext_over['numpy.sum'] = self.total
        for n in ('numpy.arctan2', 'math.atan2'):
            it.ext_over[n] = self.arctan
        it.ext_over['fractions.Fraction'] = self.fraction
        it.method_over['limit_denominator'] = lambda it, o, a, k, st, node: o if self.isfrac(it.snap(o, st)) else NotImplemented
        it.method_over['as_integer_ratio'] = lambda it, o, a, k, st, node: Tup([self.part(it.snap(o, st), x) for x in ('numerator', 'denominator')]) if self.isfrac(it.snap(o, st)) else NotImplemented
        it.attr_hook = self.attr
        it.summaries['groups._round_axis'] = self.axis
        it.summaries['groups._array_to_latex'] = lambda it, a, k, st, node: fn('matlatex', [it.snap(a[0], st)], 's', (), 'str')
        it.ext_over['numpy.round'] = it.ext_over['numpy.around'] = self.round

    # values of the library calls
    def same(self, x, f=lambda r: r):
        t = table(x)
        return t is not None and t.shape == (self.dim,) * 2 and all(sub(a, f(b)) == Const(0) or iszero(sub(a, f(b))) for a, b in zip(t.data, self.R.data))

    def which(self, x):
        """1 for R, -1 for -R."""
        return 1 if self.same(x) else -1 if self.same(x, neg) else 0

    def turn(self):
        """2 sin(angle) * axis"""
        if self.turn_ is not None:
            return self.turn_
        r = lambda i, j: self.R.data[3 * i + j]
        return [sub(r(2, 1), r(1, 2)), sub(r(0, 2), r(2, 0)), sub(r(1, 0), r(0, 1))]

    def vec(self, x):
        """Multiple of turn()."""
        t = table(x)
        if self.dim != 3 or t is None or t.shape != (3,):
            return 0
        v = self.turn()
        for s in (1, -1, 2, -2):
            if all(iszero(sub(a, mul(Const(s), b))) for a, b in zip(t.data, v)):
                return s
        return 0

    def det(self, it, a, k, st, node):
        w = self.which(it.snap(a[0], st))
        return NotImplemented if not w else DET if w > 0 or self.dim == 2 else neg(DET)

    def norm(self, it, a, k, st, node):
        if len(a) > 1 or k:
            return NotImplemented
        x = it.snap(a[0], st)
        if not isinstance(x, Ite) and self.vec(x):
            return mul(Const(abs(self.vec(x))), real('len'))
        return NotImplemented

    def total(self, it, a, k, st, node):
        x = it.snap(a[0], st)
        if len(a) > 1 or k or isinstance(x, Ite):
            return NotImplemented
        s = self.vec(x)
        if s:
            return mul(Const(s), real('tot'))
        e = self.evec(x)
        if e is not None:
            return mul(Const(e[0]), real('etot'))
        return NotImplemented

    def evec(self, x):
        """(sign, matrix, column) of an eigenvector."""
        t = table(x)
        if t is None or len(t.shape) != 1 or t.shape[0] != self.dim:
            return None
        for s in (1, -1):
            for w in (1, -1):
                for c in range(self.dim):
                    if all(iszero(sub(y, mul(Const(s), real('evec', w, i, c)))) for i, y in enumerate(t.data)):
                        return s, w, c
        return None

    def eigh(self, it, a, k, st, node):
        w = self.which(it.snap(a[0], st))
        if not w:
            return NotImplemented
        d = self.dim
        vals = [Const(-1), Const(1)] if d == 2 else [real('lam', 0), real('lam', 1), Const(1)]
        return Tup([nd.back(nd.A((d,), vals), 'np.ndarray'), nd.back(nd.build((d, d), lambda ix: real('evec', w, *ix)), 'np.ndarray')])

    def arctan(self, it, a, k, st, node):
        def g(y, x):
            t = atom('ang', (y, x), 's', ('real',), 'float')
            self.angs[t.key()] = (t, y, x)
            return t
        return lift(g, it.snap(a[0], st), it.snap(a[1], st))

    def fraction(self, it, a, k, st, node):
        if len(a) != 1:
            return NotImplemented
        return lift(lambda x: atom('frac', (x,), 's', ('real',), 'fraction'), it.snap(a[0], st))

    def isfrac(self, o):
        return all(self.frac_of(x) is not None for _, x in leaves(o))

    @staticmethod
    def frac_of(x):
        l = [y for y in walk(x) if isinstance(y, Atom)]
        return x.key() and l and l[0].name == 'frac' and isinstance(x, Poly) and len(x.terms) == 1 and l[0].args[0] or None

    def part(self, o, name):
        def g(x):
            t = atom('num' if name == 'numerator' else 'den', (self.frac_of(x),), 's', ('real',), 'int')
            self.fracs[t.key()] = (t, self.frac_of(x))
            return t
        return lift(g, o)

    def attr(self, it, o, name, st, node):
        if name in ('numerator', 'denominator') and isinstance(o, V):
            s = it.snap(o, st)
            if self.isfrac(s):
                return self.part(s, name)
        return None

    def axis(self, it, a, k, st, node):
        def g(x):
            t = table(x)
            if t is None:
                return fn('axis', [x], 's', (), 'str')
            return atom('axis', tuple(t.data), 's', (), 'str')
        return lift(g, it.snap(a[0], st))

    def round(self, it, a, k, st, node):
        return lift(lambda x: fn('round', [x], 's', (), 'str'), it.snap(a[0], st))

    # results
    def call(self, name, obj, kw):
        v, s = absrun(self.it, self.it.func('groups', name), [obj], self.st, kw)
        return self.it.snap(v, s)

    def new(self, cls, fl):
        return self.it.alloc(self.st, HInst(self.it.func('groups', cls), fl))


class Unknown(Exception):
    pass


class Cell:
    """One region of the inputs, given by a point in it."""

    def __init__(self, d, letters, angle=None, frac=None):
        self.d, self.m, self.angle, self.frac = d, letters, angle, frac

    def num(self, x):
        if isinstance(x, Ite):
            x = self.resolve(x)
        for t, f in self.d.fracs.values():
            if t.key() in x.key():
                a = self.share(f)
                x = subst(x, {t: Const(a[0] if single(t).name == 'num' else a[1])})
        for t, y, c in self.d.angs.values():
            if t.key() in x.key():
                x = subst(x, {t: num_c(Fraction(math.atan2(self.num(y), self.num(c))).limit_denominator(10 ** 12))})
        x = subst(x, self.m)
        x = subst(x, {PI: num_c(Fraction(math.pi).limit_denominator(10 ** 12))})
        for at in list(walk(x)):
            if isinstance(at, Atom) and at.name in ('abs', 'sign') and len(at.args) == 1 and nd.num(at.args[0]) is not None:
                y = complex(nd.num(at.args[0])).real
                y = abs(y) if at.name == 'abs' else (y > 0) - (y < 0)
                x = subst(x, {letter(at): num_c(Fraction(y).limit_denominator(10 ** 12))})
        n = nd.num(x)
        if n is None:
            raise Unknown(str(x)[:200])
        n = complex(n)
        if abs(n.imag) > 1e-9:
            raise Unknown(str(x)[:200])
        return n.real

    def share(self, f):
        """Numerator and denominator standing for the ratio f of an angle and pi."""
        r = self.num(f) * math.pi
        if self.frac is None or self.angle is None:
            raise Unknown('angle')
        for s in (1, -1):
            if abs(r - s * self.angle) < 1e-6:
                return s * self.frac[0], self.frac[1]
        return 7, 9

    def decide(self, p):
        if p.name in ('close', 'eq', 'lt', 'le') and len(p.args) == 2:
            if p.name == 'eq' and any(isinstance(x, Const) and isinstance(x.v, str) for x in p.args):
                (x, i), (y, j) = [self.text(x) for x in p.args]
                if i or j:
                    x, y = (x, y) if i else (y, x)
                    h = x[:x.index('\x01')]
                    if i and j or y.startswith(h):
                        raise Unknown(str(p)[:200])
                    return False
                return x == y
            t = [table(x) if isinstance(x, Poly) and x.kind != 's' else None for x in p.args]
            if any(x is not None for x in t) and p.name in ('close', 'eq'):
                n = next(len(x.data) for x in t if x is not None)
                l, r = [[y] * n if x is None else x.data for x, y in zip(t, p.args)]
                return all(abs(self.num(a) - self.num(b)) < 1e-6 for a, b in zip(l, r))
            a, b = [self.num(x) for x in p.args]
            return {'close': abs(a - b) < 1e-6, 'eq': abs(a - b) < 1e-9, 'lt': a < b - 1e-9, 'le': a < b + 1e-9}[p.name]
        if p.name in self.m:
            return self.m[p.name]
        raise Unknown(str(p)[:200])

    def resolve(self, v):
        while isinstance(v, Ite):
            v = v.hi if self.decide(v.p) else v.lo
        return v

    def text(self, v):
        out, ins = '', []
        for p in self.parts(v):
            if isinstance(p, str):
                out += p
            else:
                out += '\x01%d\x02' % len(ins)
                ins.append(p)
        return out, ins

    def parts(self, v):
        """Constant pieces and inserted values of a text."""
        v = self.resolve(v)
        if isinstance(v, Const):
            return [str(v.v)]
        a = single(v)
        if isinstance(v, Opq) and v.tag in ('m:replace', 'm:strip', 'm:rstrip') and v.args:
            return self.parts(v.args[0])
        if isinstance(v, Exc) or isinstance(v, Opq):
            return [v]
        if a is not None:
            if a.name == 'fmt':
                tm = self.resolve(a.args[0])
                pos = a.args[1].items if isinstance(a.args[1], Tup) else None
                if not isinstance(tm, Const) or pos is None:
                    return [v]
                out, auto = [], 0
                try:
                    for lit, field, spec, conv in string.Formatter().parse(tm.v):
                        if lit:
                            out.append(lit)
                        if field is not None:
                            i = auto if field == '' else int(field)
                            auto += 1
                            out += self.parts(pos[i])
                except (ValueError, IndexError):
                    return [v]
                return out
            if a.name == 'fstr':
                return [y for x in a.args[0].items for y in self.parts(x)]
            if a.name in ('concat', 'str', 'cat'):
                return [y for x in a.args for y in self.parts(x)]
            if a.name in ('num', 'den', 'abs'):
                return [str(int(self.num(v)))]
        elif isinstance(v, Poly) and v.kind == 's' and nd.num(v) is not None:
            return [str(int(complex(nd.num(v)).real))]
        return [v]


def single(v):
    if isinstance(v, Poly) and len(v.terms) == 1:
        for x in walk(v):
            if isinstance(x, Atom):
                return x if letter(x) == v or simplify(letter(x)) == simplify(v) else None
    return None


def names_in(v):
    return {x.name for x in walk(v) if isinstance(x, Atom)}


NE = lambda why: Verdict('ne', why)
UNK = lambda why: Verdict('unk', why)


def clean(t):
    for x in ('$', '\\left', '\\right', '\\\\', '\\,', '\\ ', ' ', '\n', '\t'):
        t = t.replace(x, '')
    return t


def angle(t):
    """(p, q) of a printed multiple of pi."""
    neg_ = t.startswith('-')
    if 'π' not in t and 'pi' not in t or t.count('-') > neg_:
        return None
    t = t.lstrip('-').replace('\\pi', 'π').replace('\\frac', '')
    m = re.fullmatch(r'\{?(\d*)(?:π|\}?)\}?[/{]?(\d*)\}?(?:π?)', t)
    if m is None:
        return None
    return (-1 if neg_ else 1) * int(m.group(1) or 1), int(m.group(2) or 1)


def judge(cell, v, spec):
    """spec: conj, anti, full, latex, U (letter name or None), rot(name text, inserted values) -> Verdict"""
    try:
        v = cell.resolve(v)
        if isinstance(v, Exc):
            return NE('raises %s' % v.name)
        t, ins = cell.text(v)
    except Unknown as e:
        return UNK('undetermined: %s' % e)
    for x in ins:
        if isinstance(x, Exc):
            return NE('raises %s' % x.name)
        if isinstance(x, Opq) and x.tag == 'taint' or isinstance(x, Undef):
            return UNK('inserted %s' % str(x)[:100])
    t = clean(t)
    return spec(t, ins)


def pge_spec(conj, anti, full, latex, U, rot):
    want = {(False, False): '', (True, False): 'T', (True, True): 'P', (False, True): 'C'}[(conj, anti)]

    def f(t, ins):
        if not full:
            m = re.fullmatch(r'(.*?)(?:\\mathcal\{([A-Z])\})?' if latex else r'(.*?)([TPC]?)', t)
            lab = (m.group(2) or '') if m else None
            if m is None or lab != want:
                return NE('label %r instead of %r in %r' % (lab, want, t[:200]))
            if m.group(1) == '' and lab:
                return rot('1', ins)
            return rot(m.group(1), ins)
        m = re.fullmatch(r'(?P<l>[^=]*)=(?P<r>[^=]*)R=(?P<rot>.*?)(?:U=(?P<u>.*))?', t)
        if m is None:
            return UNK('text %r' % t[:200])
        l, r = m.group('l'), m.group('r')
        if ('*' in l) != conj:
            return NE("'*' in %r" % t[:200])
        if r.startswith('-') != anti:
            return NE('sign of %r' % t[:200])
        if ('(-R' in r) != conj:
            return NE('sign of R in %r' % t[:200])
        if (m.group('u') is not None) != (U is not None):
            return NE('unitary part in %r' % t[:200])
        if U is not None:
            k = re.fullmatch('\x01(\\d+)\x02', m.group('u'))
            if k is None:
                return UNK('unitary part %r' % t[:200])
            x = ins[int(k.group(1))]
            if U not in names_in(x):
                return NE('unitary part printed as %s' % str(x)[:100])
        return rot(m.group('rot'), ins)
    return f


def const_rot(name):
    return lambda t, ins: Verdict('eq') if t == name else NE('rotation named %r instead of %r' % (t[:100], name))


def settled_in(x):
    return all(isinstance(y, Atom) and y.name in VOC for y in walk(x) if isinstance(y, (Atom, Opq, Undef)))


def named(cell, kind, frac, axes):
    """axes: list of (sign of the angle or 0, components)"""
    def f(t, ins):
        m = re.fullmatch(r'([RSM])\((.*)\)', t)
        if m is None or m.group(1) != kind:
            return NE('rotation named %r, expected %s(...)' % (t[:100], kind))
        a = m.group(2).split(',') if ',' in m.group(2) else [m.group(2)]
        if len(a) != (kind != 'M') + (axes is not None):
            return NE('rotation named %r' % t[:100])
        sg = 0
        if kind != 'M':
            p = angle(a[0])
            if p is None:
                return NE('angle %r' % a[0]) if a[0].count('-') > 1 and '\x01' not in a[0] else UNK('angle %r' % a[0][:60])
            if abs(p[0]) != frac[0] or p[1] != frac[1]:
                return NE('angle %r instead of +-%d/%d pi' % (a[0], *frac))
            sg = 1 if p[0] > 0 else -1
            if axes is None:
                return Verdict('eq') if sg == frac[2] else NE('angle %r has the wrong sign' % a[0])
        k = re.fullmatch('\x01(\\d+)\x02', a[-1])
        x = single(ins[int(k.group(1))]) if k else None
        if x is None or x.name != 'axis':
            return UNK('axis %r' % (str(ins[int(k.group(1))])[:100] if k else a[-1][:60]))
        try:
            comp = [cell.resolve(y) for y in x.args]
        except Unknown as e:
            return UNK('axis: %s' % e)
        for s, want in axes:
            if len(want) == len(comp) and all(iszero(sub(p, q)) for p, q in zip(comp, want)):
                return Verdict('eq') if s == 0 or s == sg or frac == (1, 1) else NE('axis and angle have opposite orientation: %r, axis %s' % (t[:60], comp))
        if any('?' in str(y) for y in comp):
            return UNK('axis %s' % str(comp)[:150])
        if all(settled_in(y) for y in comp):
            return NE('axis %s, expected %s' % (str(comp)[:200], str([list(map(str, w)) for _, w in axes])[:200]))
        return UNK('axis %s' % str(comp)[:150])
    return f


FLAGS = [(c, a) for c in (False, True) for a in (False, True)]
MODES = [(f, l) for f in (False, True) for l in (False, True)]
PTS3 = [((1, 0, 0, 0), (0,), ()), ((0, 1, 2, 2), (1,), ()), ((0, 1, -1, 0), (0,), ()), ((0, -1, 0, 0), (-1,), ()),
        ((1, 1, 1, 1), (0,), ()), ((1, -1, -1, -1), (0,), ()), ((1, 1, -1, 0), (0,), ()), ((2, 0, 0, -1), (0,), ()), ((2, -1, 2, -1), (0,), ()),
        ((1, 2, 0, -1), (0,), ())]


def mode(f, l):
    return '%s, %s' % ('full' if f else 'short', 'LaTeX' if l else 'plain')


def run(ck):
    ck.rule('the text produced for an object with symbolic rotation part is determined in every cell of flags, determinant, angle and '
            'sign pattern: label, signs, angle, axis, matrices')
    it = mkn(ck)
    wp, wc = where(ck, it, 'groups', 'pretty_print_pge'), where(ck, it, 'groups', 'pretty_print_cgg')
    tb = lambda b: TRUE if b else FALSE
    texts = {}

    def pge(dim, conj, anti, full, latex, U, R=None):
        d = Disp(ck, dim, R)
        g = d.new('PointGroupElement', {'R': nd.back(d.R, 'np.ndarray'), 'conjugate': tb(conj), 'antisymmetry': tb(anti),
                                        'U': mat('U') if U else NONE, '_strict_eq': FALSE})
        return d, d.call('pretty_print_pge', g, {'full': tb(full), 'latex': tb(latex)})

    # labels and signs
    for r, name in ((1, '1'), (-1, 'I')):
        for c, a in FLAGS:
            for f, l in MODES:
                for U in (False, True):
                    def go():
                        d, v = pge(1, c, a, f, l, U, const([[r]]))
                        return judge(Cell(d, {}), v, pge_spec(c, a, f, l, 'U' if U else None, const_rot(name)))
                    ck.ob('one dimension, R = %d, conjugate %s, antisymmetry %s, %s, %s U' % (r, c, a, mode(f, l), 'with' if U else 'without'), wp, go)
    # two dimensions
    F = Fraction
    P2 = [('rotation by 0', [[1, 0], [0, 1]], 0, None), ('rotation', [[F(3, 5), F(-4, 5)], [F(4, 5), F(3, 5)]], 1, None),
          ('negative rotation', [[F(-3, 5), F(4, 5)], [F(-4, 5), F(-3, 5)]], -1, None), ('half turn', [[-1, 0], [0, -1]], 2, None),
          ('mirror', [[F(3, 5), F(4, 5)], [F(4, 5), F(-3, 5)]], 0, 1), ('mirror of an axis', [[-1, 0], [0, 1]], 0, 1), ('other mirror', [[0, 1], [1, 0]], 0, 1)]
    for label, R, kind, mir in P2:
        for frac in ((1, 1),) if kind == 2 else ((2, 3), (1, 2), (5, 6)) if kind else ((2, 3),):
            for c, a in ((False, False), (True, True)):
                for f, l in MODES:
                    def go():
                        key = (2, c, a, f, l)
                        if key not in texts:
                            texts[key] = pge(2, c, a, f, l, False)
                        d, v = texts[key]
                        m = {real('R', i, j): num_c(R[i][j]) for i in range(2) for j in range(2)}
                        m[DET] = Const(-1 if mir else 1)
                        th = math.atan2(R[1][0], R[0][0])
                        cell = Cell(d, m, abs(th), frac)
                        if mir:
                            e = [real('evec', 1, i, 0) for i in range(2)]
                            rot = named(cell, 'M', None, [(0, e), (0, [neg(x) for x in e])])
                        elif not kind:
                            rot = const_rot('1')
                        else:
                            rot = named(cell, 'R', frac + (1 if th > 0 else -1,), None)
                        return judge(cell, v, pge_spec(c, a, f, l, None, rot))
                    ck.ob('plane, %s (%s pi), conjugate %s, antisymmetry %s, %s' % (label, '%d/%d' % frac, c, a, mode(f, l)), wp, go)
    # three dimensions
    for q, tots, _ in PTS3:
        for det in (1, -1):
            for f, l in MODES:
                for frac in ((2, 3), (1, 2)) if q[0] and q[1:] != (0, 0, 0) else ((1, 1),):
                    def go():
                        c = a = f
                        key = (3, c, a, f, l)
                        if key not in texts:
                            texts[key] = pge(3, c, a, f, l, False)
                        d, v = texts[key]
                        S = quat(*q)
                        n = math.sqrt(sum(x * x for x in q[1:]))
                        th = 2 * math.atan2(n, q[0])
                        m = {real('R', i, j): num_c(det * S[i][j]) for i in range(3) for j in range(3)}
                        m[DET] = Const(det)
                        ln = 2 * math.sin(th) if q[0] else 0
                        m[real('len')] = num_c(Fraction(ln).limit_denominator(10 ** 12))
                        tot = sum(q[1:])
                        # turn() of R itself is det times that of the proper part
                        m[real('tot')] = num_c(Fraction(det * tot * (1 if q[0] else 0)))
                        m[real('etot')] = Const(tot)
                        cell = Cell(d, m, th, frac)
                        if q[1:] == (0, 0, 0):
                            rot = const_rot('1' if det > 0 else 'I')
                        else:
                            if q[0]:
                                w = [mul(mul(Const(det), x), B.power(real('len'), Const(-1))) for x in d.turn()]
                                axes = [(1, w), (-1, [neg(x) for x in w])]
                            else:
                                w = [real('evec', det, i, 2) for i in range(3)]
                                axes = [(0, w), (0, [neg(x) for x in w])]
                                # the largest eigenvalue of -S is the negative of the smallest of S
                                w = [real('evec', -det, i, 0) for i in range(3)]
                                axes += [(0, w), (0, [neg(x) for x in w])]
                            rot = named(cell, 'R' if det > 0 else 'S' if q[0] else 'M', frac, axes)
                        return judge(cell, v, pge_spec(c, a, f, l, None, rot))
                    ck.ob('space, %s rotation %s (%s pi), %s' % ('proper' if det > 0 else 'improper', q, '%d/%d' % frac, mode(f, l)), wp, go)
    # through the methods
    for c, a in FLAGS:
        for meth in ('__str__', '_repr_latex_'):
            def go():
                d = Disp(ck, 1, const([[1]]))
                g = d.new('PointGroupElement', {'R': nd.back(d.R, 'np.ndarray'), 'conjugate': tb(c), 'antisymmetry': tb(a), 'U': NONE, '_strict_eq': FALSE})
                m = d.it.method('groups', 'PointGroupElement', meth)
                v, s = absrun(d.it, m, [g], d.st, {})
                v = d.it.snap(v, s)
                r = [judge(Cell(d, {}), v, pge_spec(c, a, f, l, None, const_rot('1'))) for f, l in MODES if l == (meth == '_repr_latex_')]
                return next((x for x in r if x.kind == 'eq'), r[0])
            ck.ob('%s, conjugate %s, antisymmetry %s' % (meth, c, a), wp, go)
    generators(ck, wc)
    rounding(ck)


def again(ck):
    """Rounding an already rounded axis: [1, 1, 0] has to stay what it is."""
    it = mkn(ck)
    try:
        f = it.func('groups', '_round_axis')
    except AnchorMissing:
        return UNK('rounded twice')
    for a in ((1, 1, 0), (1, -1, 1)):
        v, s = absrun(it, f, [nd.back(const(list(a)), 'np.ndarray')], state(), {})
        t = table(it.snap(v, s)) if not isinstance(v, Ite) else None
        if t is None:
            return UNK('rounded twice')
        if [nd.num(x) for x in t.data] != list(a):
            return NE('the rounded axis %s is rounded again and becomes %s' % (list(a), [str(x) for x in t.data]))
    return Verdict('eq')


def cgg_spec(ck, dim, R, L, latex, axis):
    def f(t, ins):
        e = 'e^{' if latex else 'exp('
        hasR = 'R_' in t
        if hasR != R:
            return NE('%s rotation displayed in %r' % ('no' if R else 'a', t[:200]))
        m = re.search('(?<![A-Za-z,\\\\])L=(.*)$', t)
        if (m is not None) != L:
            return NE('%s conserved quantity displayed in %r' % ('no' if L else 'a', t[:200]))
        if L:
            k = re.match('\x01(\\d+)\x02', m.group(1))
            if k is None:
                return UNK('conserved quantity %r' % t[:200])
            x = ins[int(k.group(1))]
            if 'L' not in names_in(x):
                return NE('conserved quantity printed as %s' % str(x)[:100])
        if R:
            if (t.count(e) > 0) != L:
                return NE('exponentials in %r' % t[:200])
            h = t.index('H(') if 'H(' in t else -1
            if h < 0:
                return UNK('text %r' % t[:100])
            if L and (t[:h].count(e + '-i') != 1 or t[h:].count(e + 'i') != 1 or t[h:].count(e + '-i')):
                return NE('signs of the exponentials in %r' % t[:200])
            k = re.search(r'R_(?:ϕ|\{*\\phi\}*)=R\((.*?)\)', t)
            if k is None:
                return UNK('rotation in %r' % t[:200])
            a = k.group(1).split(',')
            if len(a) != (2 if dim == 3 else 1):
                return NE('rotation printed as %r' % k.group(0))
            if dim == 3:
                j = re.fullmatch('\x01(\\d+)\x02', a[1])
                x = ins[int(j.group(1))] if j else None
                y = single(x) if x is not None else None
                if y is None or y.name != 'axis':
                    return UNK('axis %s' % str(x)[:150])
                n = 0
                while y is not None and y.name == 'axis':
                    n, last = n + 1, y
                    y = single(y.args[0]) if len(y.args) == 1 else None
                ok = len(last.args) == 3 and all(iszero(sub(p, q)) for p, q in zip(last.args, axis))
                if n > 1:
                    return again(ck) if ok else UNK('axis %s' % str(x)[:150])
                if not ok:
                    return NE('axis %s' % str(x)[:200]) if all(settled_in(z) and '?' not in str(z) for z in last.args) else UNK('axis %s' % str(x)[:150])
        return Verdict('eq')
    return f


def generators(ck, wc):
    tables = {}
    n = [real('R', i) for i in range(3)]
    eps = lambda i, j, k: (i - j) * (j - k) * (k - i) // 2
    R3 = nd.build((3, 3), lambda ix: add(Const(0), dot(n, [Const(-1j * eps(k, *ix)) for k in range(3)])))
    R2 = nd.build((2, 2), lambda ix: mul(Const(-1j * (ix[1] - ix[0])), n[2]))
    for dim, R in ((1, None), (2, R2), (3, R3)):
        for rk in ('none', 'zero', 'general') if dim > 1 else ('none', 'one'):
            for lk in ('none', 'zero', 'general'):
                for latex in (False, True):
                    def go():
                        key = (dim, rk == 'none', lk == 'none', latex)
                        if key not in tables or rk == 'one':
                            d = Disp(ck, dim, R if R is not None else const([[0]]), n)
                            Lm = nd.build((2, 2), lambda ix: real('L', *ix))
                            g = d.new('ContinuousGroupGenerator', {'R': nd.back(d.R, 'np.ndarray') if rk != 'none' else NONE,
                                                                  'U': nd.back(Lm, 'np.ndarray') if lk != 'none' else NONE})
                            tables[key] = d, d.call('pretty_print_cgg', g, {'latex': TRUE if latex else FALSE})
                        d, v = tables[key]
                        m = {x: Const(y if rk == 'general' else 0) for x, y in zip(n, (1, 1, -3))}
                        for i in range(2):
                            for j in range(2):
                                m[real('L', i, j)] = Const((2 if i == j else 1) if lk == 'general' else 0)
                        m[real('len')] = num_c(Fraction(math.sqrt(11) if rk == 'general' else 0).limit_denominator(10 ** 12))
                        m[real('tot')] = Const(-1 if rk == 'general' else 0)
                        ax = [mul(x, B.power(real('len'), Const(-1))) for x in n]
                        return judge(Cell(d, m), v, cgg_spec(ck, dim, rk == 'general', lk == 'general', latex, ax))
                    ck.ob('generator, %d dimensions, rotation %s, conserved quantity %s, %s' % (dim, rk, lk, 'LaTeX' if latex else 'plain'), wc, go)


def dot(a, b):
    r = Const(0)
    for x, y in zip(a, b):
        r = add(r, mul(x, y))
    return r


def rounding(ck):
    """Special axes are recognised, other axes are rounded only."""
    it = mkn(ck)
    try:
        f = it.func('groups', '_round_axis')
    except AnchorMissing:
        return
    w = where(ck, it, 'groups', '_round_axis')
    for dim in (2, 3):
        for a in itertools.product((-1, 0, 1), repeat=dim):
            if not any(a):
                continue

            def go():
                it = mkn(ck)
                r = L.sqrt_(Const(sum(x * x for x in a)))
                n = nd.A((dim,), [mul(Const(x), B.power(r, Const(-1))) for x in a])
                v, s = absrun(it, f, [nd.back(n, 'np.ndarray')], state(), {})
                t = table(it.snap(v, s)) if not isinstance(v, Ite) else None
                if t is None or any(nd.num(x) is None for x in t.data):
                    return UNK('axis %s' % str(v)[:150])
                got = [complex(nd.num(x)).real for x in t.data]
                # any positive multiple of the axis is a name of it
                q = sum(x * y for x, y in zip(got, a))
                return Verdict('eq') if q > 0 and all(abs(q * y - sum(z * z for z in a) * x) < 1e-6 for x, y in zip(got, a)) else NE('axis %s displayed as %s' % (a, got))
            ck.ob('axis along %s' % (a,), w, go)
    for a in ((1, 2, 3), (0, 1, 2), (-2, 1, 0), (3, 4, 0)):
        def go():
            it = mkn(ck)
            r = L.sqrt_(Const(sum(x * x for x in a)))
            n = nd.A((3,), [mul(Const(x), B.power(r, Const(-1))) for x in a])
            v, s = absrun(it, f, [nd.back(n, 'np.ndarray')], state(), {})
            v = it.snap(v, s)
            x = next((x for x in walk(v) if isinstance(x, Atom)), None)
            if x is not None and x.name == 'round' and letter(x) == v:
                if len(x.args) < 2 or not isinstance(x.args[1], Const) or x.args[1].v < 2:
                    return NE('axis %s rounded too coarsely: %s' % (a, str(v)[:100]))
                v = x.args[0]
            t = table(v) if not isinstance(v, Ite) else None
            if t is None or any(nd.num(x) is None for x in t.data):
                return UNK('axis %s' % str(v)[:150])
            got = [complex(nd.num(x)).real for x in t.data]
            n2 = math.sqrt(sum(x * x for x in a))
            g2 = math.sqrt(sum(x * x for x in got))
            return Verdict('eq') if g2 and all(abs(x / g2 - y / n2) < 0.02 for x, y in zip(got, a)) else NE('axis %s displayed as %s' % (a, got))
        ck.ob('general axis along %s' % (a,), w, go)
