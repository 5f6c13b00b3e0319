"""C30: names and order in parsing and compiling expressions."""
from .modelval import *
from . import c19, mcommon, mscen
from .c14 import lst, strip, worst
from .c19 import symbols, letter_of

KC = 'kwant_continuum'
TEXT = Const('text of the Hamiltonian')


def sym(n, *attrs):
    return atom('sym:' + n, (), 's', tuple(attrs), 'sympy.Symbol')


class Parse:
    """Engine with the library's own table of names and the external parser as recorded letters."""
    def __init__(self, ck):
        self.it = it = mkn(ck)
        self.st = st = State({0: {}})
        it.ext_over.update({'sympy.symbols': symbols, 'sympy.Symbol': symbols, 'sympy.physics.matrices.msigma': c19.msigma})
        it.ext_values = {'sympy.abc._clash': c19.clash(it, st)}
        env = it.module_names(KC, st)
        self.ns = env.get('extra_ns')
        if isinstance(self.ns, Ref):
            it.globals_over[KC + '.extra_ns'] = self.ns
        self.predefined = self.entries(self.ns)
        self.parsed, self.subs, self.warned, self.again = [], [], [], []
        it.ext_over['sympy.sympify'] = self.sympify
        it.ext_over['sympy.Matrix'] = lambda it, a, k, st, n: atom('Matrix', (it.snap(a[0], st),), 's', ('sym',), 'sympy.Matrix') if len(a) == 1 else NotImplemented
        it.ext_over['warnings.warn'] = lambda it, a, k, st, n: (self.warned.append(1), NONE)[1]
        it.method_over['subs'] = self.replace
        it.method_over['xreplace'] = self.replace
        it.method_over['atoms'] = self.atoms
        self.found = []

    def entries(self, ns, st=None):
        """name -> value of a determined table."""
        if isinstance(ns, Ref):
            segs = self.it.segs(st or self.st, ns)
        elif isinstance(ns, DictV):
            segs = ns.segs
        else:
            return None
        if segs is None:
            return None
        out = {}
        for s in segs:
            if not isinstance(s, Seg) or s.binders or s.guard != TRUE or not isinstance(s.payload, Tup) or not isinstance(s.payload.items[0], Const):
                return None
            out[s.payload.items[0].v] = self.it.snap(s.payload.items[1], st or self.st)
        return out

    def sympify(self, it, a, kw, st, n):
        x = it.snap(a[0], st)
        loc = a[1] if len(a) > 1 else kw.get('locals')
        if isinstance(x, Poly):
            if loc is not None and loc != NONE:
                self.again.append(x)
            return x
        if not isinstance(x, (Const, Seq, Tup)):
            return NotImplemented
        self.parsed.append((x, None if loc is None or loc == NONE else self.entries(it.snap(loc, st) if not isinstance(loc, Ref) else loc, st), loc))
        return atom('parsed', (x,), 's', ('sym',), 'sympy.Basic')

    def replace(self, it, o, a, kw, st, n):
        if not isinstance(o, Poly):
            return NotImplemented
        if len(a) == 2:
            pairs = [(it.snap(a[0], st), it.snap(a[1], st))]
        elif len(a) == 1:
            l = it.snap(a[0], st)
            if not isinstance(l, (DictV, Seq, Tup)):
                return NotImplemented
            segs = l.items if isinstance(l, Tup) else l.segs
            pairs = []
            for s in segs:
                s = s.payload if isinstance(s, Seg) and not s.binders and s.guard == TRUE else s
                if not isinstance(s, Tup) or len(s.items) != 2:
                    return NotImplemented
                pairs.append(tuple(s.items))
        else:
            return NotImplemented
        self.subs.append((o, pairs))
        return o

    def atoms(self, it, o, a, kw, st, n):
        if not isinstance(o, Poly):
            return NotImplemented
        names = {x.name.split('.')[-1] for x in a if isinstance(x, Ext)}
        if len(names) != len(a):
            return NotImplemented
        l = [x for x, t in self.found if t & names]
        return it.alloc(st, HSeq('set', [Seg((), TRUE, x) for x in l]))

    def function(self, name):
        f = atom('function', (Const(name),), 's', ('sym',), 'sympy.Function')
        self.found.append((f, {'AppliedUndef', 'Function'}))
        return f

    def symbol(self, name, *attrs):
        s = sym(name, *attrs)
        self.found.append((s, {'Symbol'}))
        return s


def same(a, b):
    """Compare two values of names."""
    if a == b:
        return Verdict('eq')
    if any(isinstance(z, (Opq, Undef)) for z in list(walk(a)) + list(walk(b))):
        return Verdict('unk', 'value of a name', (), a, b)
    u, v = letter_of(a), letter_of(b)
    if u is not None and v is not None and (u.name, u.args) == (v.name, v.args):
        # the same symbol, maybe with other assumptions
        if 'noncomm' in set(u.attrs) ^ set(v.attrs):
            return Verdict('ne', 'commutativity', (), a, b)
        return Verdict('eq')
    if hard(a) and hard(b):
        return Verdict('ne', 'another value', (), a, b)
    return Verdict('unk', 'value of a name', (), a, b)


def hard(x):
    """A value that is one of the known names or letters."""
    u = letter_of(x) if isinstance(x, Poly) else None
    return isinstance(x, (Ext, Const)) or table(x) is not None or u is not None and (u.name.startswith('sym:') or u.name in ('parsed', 'Matrix', 'eye') or 'V:' in u.name or ND.arr(x))


def users(z):
    """(name, value given, value under which it must be known)"""
    t = lambda s: (Const(s), atom('parsed', (Const(s),), 's', ('sym',), 'sympy.Basic'))
    arr = mat('M', 'np.ndarray')
    return {'k_x': t('k_y + q'), 'x': t('u'), 'sigma_x': (arr, atom('Matrix', (arr,), 's', ('sym',), 'sympy.Matrix')), 'kron': t('kron2'), 'V': t('a + b'),
            'w': (sym('w0'),) * 2, 'y': (sym('y0', 'noncomm'),) * 2, 'identity': t('1 + x'), 'C': t('5'), 'k_z': (sym('k_z'),) * 2, 'E': (sym('E', 'noncomm'),) * 2}


def namespace(ck, given):
    def go():
        z = Parse(ck)
        if z.predefined is None:
            return Verdict('unk', 'predefined names not determined')
        u = users(z)
        loc = NONE if given is None else z.it.alloc(z.st, HSeq('dict', [Seg((), TRUE, Tup([Const(k), u[k][0]])) for k in given]))
        v, s = absrun(z.it, z.it.func(KC, 'sympify'), [TEXT], z.st, {'locals': loc})
        outer = [p for p in z.parsed if p[0] == TEXT]
        if len(outer) != 1:
            return Verdict('unk', 'the text is parsed %d times' % len(outer))
        tab = outer[0][1]
        if tab is None:
            return Verdict('unk', 'names used for parsing', (), outer[0][2])
        want = dict(z.predefined)
        want.update({k: u[k][1] for k in given or ()})
        out = []
        for k, w in want.items():
            if k not in tab:
                out.append(Verdict('ne', 'the name %s is not known when parsing' % k))
            else:
                r = same(tab[k], w)
                if r.kind != 'eq':
                    r.why = '%s%s: %s' % (k, ' given by the caller' if k in (given or ()) else '', r.why)
                out.append(r)
        for k in tab:
            if k not in want:
                out.append(Verdict('ne', 'additional name %s' % k))
        if isinstance(loc, Ref):
            after = z.entries(loc, s)
            if after is not None and set(after) != set(given):
                out.append(Verdict('ne', "the caller's table gets the names %s" % sorted(set(after) ^ set(given))))
        # names inside a value of the table are read with the predefined meaning
        for x, t, raw in z.parsed:
            if x != TEXT and isinstance(x, Const) and isinstance(x.v, str) and given and any(u[k][0] == x for k in given):
                if t is None:
                    out.append(Verdict('unk', 'names for %s' % x))
                    continue
                for k, w in z.predefined.items():
                    out.append(same(t[k], w) if k in t else Verdict('ne', 'the name %s is not known when parsing the value %s' % (k, x)))
        # the result is the parsed text with the common symbol of Euler's number
        for cube, r in leaves(strip(v)):
            if isinstance(r, Exc):
                out.append(Verdict('ne' if not z.it.taint else 'unk', 'raises %s' % r.name))
            elif r != atom('parsed', (TEXT,), 's', ('sym',), 'sympy.Basic'):
                out.append(Verdict('unk', 'result', cube, r))
        return worst(out)
    return go


def euler(ck):
    z = Parse(ck)
    absrun(z.it, z.it.func(KC, 'sympify'), [TEXT], z.st, {})
    e = z.it.modval('model', 'e') if 'model' in z.it.pkg.modules else None
    pairs = [p for o, l in z.subs for p in l if o == atom('parsed', (TEXT,), 's', ('sym',), 'sympy.Basic')]
    for old, new in pairs:
        u, v = letter_of(old), letter_of(new)
        if v is not None and v.name == 'sym:e':
            return Verdict('eq')
    return Verdict('unk', 'symbol of the exponential function')


def symbolic(ck, given, funs):
    def go():
        z = Parse(ck)
        expr = atom('given', (), 's', ('sym',), 'sympy.Symbol')
        f = [z.function(n) for n in funs]
        loc = NONE if given is None else z.it.alloc(z.st, HSeq('dict', [Seg((), TRUE, Tup([Const(k), users(z)[k][0]])) for k in given]))
        v, s = absrun(z.it, z.it.func(KC, 'sympify'), [expr, loc], z.st, {})
        out = [Verdict('eq')]
        if expr in z.again:
            out.append(Verdict('ne', 'names given by the caller or predefined are used for symbolic input'))
        for cube, r in leaves(strip(v)):
            if r != expr:
                out.append(Verdict('ne' if isinstance(r, Const) or isinstance(r, Exc) and not z.it.taint else 'unk', 'symbolic input is not returned', cube, r, expr))
        for x in f:
            if not any(o == expr and old == x for o, l in z.subs for old, new in l):
                out.append(Verdict('ne' if not z.it.taint else 'unk', 'a known function in symbolic input is not left to the caller (undefined function of the same name)'))
        if given and not z.warned:
            out.append(Verdict('ne' if not z.it.taint else 'unk', 'names given together with symbolic input are not used, without a warning'))
        if not given and z.warned:
            out.append(Verdict('ne' if not z.it.taint else 'unk', 'a warning without names'))
        return worst(out)
    return go


ORDERS = (('b', 'a'), ('a', 'b', 'c'), ('k_y', 'k_x', 'A', 'V_2', 'V_10'), ('t', 'Z', 'z', 'T', 'site'), ('q',), ('site2', 'B', 'site1', 'x'))


def arguments(seen, want, taint):
    out = []
    for a, k in seen:
        l = a[0] if a else k.get('args')
        l = l.items if isinstance(l, Tup) else [g.payload for g in l.segs] if isinstance(l, Seq) and all(isinstance(g, Seg) and not g.binders and g.guard == TRUE for g in l.segs) else None
        if l is None:
            out.append(Verdict('unk', 'parameters'))
            continue
        names = []
        for x in l:
            u = letter_of(x)
            names.append(x.v if isinstance(x, Const) and isinstance(x.v, str) else u.name[4:] if u is not None and u.name.startswith('sym:') else None)
        if None in names:
            out.append(Verdict('unk', 'a parameter', (), l[names.index(None)]))
        else:
            out.append(Verdict('eq') if names == want else Verdict('ne', 'parameters %s instead of %s' % (', '.join(names), ', '.join(want))))
    return worst(out) if out else Verdict('unk', 'no function is compiled')


def compiled(ck, syms, funs):
    def go():
        z = Parse(ck)
        it = z.it
        seen = []
        for n in syms:
            z.symbol(n, *(['noncomm'] if n.startswith('k_') else []))
        for n in funs:
            z.function(n)
        it.attr_hook = lambda it, o, name, st, node: func_attr(o, name)
        it.ext_over['builtins.str'] = lambda it, a, k, st, n: a[0].args[1] if len(a) == 1 and isinstance(a[0], Opq) and a[0].tag == 'func' else NotImplemented
        it.ext_over['sympy.lambdify'] = lambda it, a, k, st, n: (seen.append(([it.snap(x, st) for x in a], {x: it.snap(y, st) for x, y in k.items()})), atom('compiled', (), 'x'))[1]
        absrun(it, it.func(KC, 'lambdify'), [TEXT], z.st, {})
        r = [arguments(seen, sorted(list(syms) + list(funs)), it.taint)]
        for a, k in seen:
            x = a[1] if len(a) > 1 else k.get('expr')
            r.append(Verdict('eq') if x == atom('parsed', (TEXT,), 's', ('sym',), 'sympy.Basic') else Verdict('unk', 'compiled expression', (), x))
        return worst(r)
    return go


def func_attr(o, name):
    a = letter_of(o) if isinstance(o, Poly) else None
    if a is None:
        return None
    if a.name.startswith('sym:') and name == 'name':
        return Const(a.name[4:])
    if a.name == 'function':
        if name == 'func':
            return Opq('func', (o, a.args[0]))
        if name in ('name',):
            return a.args[0]
    return None


def model_compiled(ck, syms, kw, cls='Model'):
    def go():
        s = mcommon.Sc(ck, cls)
        it = s.it
        z = Parse.__new__(Parse)
        z.it, z.st, z.found, z.subs = it, s.st, [], []
        for n in syms:
            z.symbol(n)
        expr = atom('expr', (), 's', ('sym',), 'sympy.Matrix')
        for c in ('Model', 'BlochModel'):
            if it.func('model', c).methods.get('tosympy') is not None:
                it.summaries['model.%s.tosympy' % c] = lambda it, a, k, st, n: expr
        seen = []
        it.method_over['subs'] = it.method_over['xreplace'] = z.replace
        it.method_over['atoms'] = z.atoms
        it.method_over['reshape'] = lambda it, o, a, k, st, n: o if o == expr else NotImplemented
        it.ext_over['sympy.Matrix'] = lambda it, a, k, st, n: a[0] if len(a) == 1 and a[0] == expr else NotImplemented
        it.attr_hook = lambda it, o, name, st, node: func_attr(o, name)
        it.ext_over['sympy.lambdify'] = lambda it, a, k, st, n: (seen.append(([it.snap(x, st) for x in a], {x: it.snap(y, st) for x, y in k.items()})), atom('compiled', (), 'x'))[1]
        F = mscen.Fmt('np.ndarray')
        m = F.m(s, [(mscen.a, F.v('A1'))]) if cls == 'Model' else F.m(s, [(mscen.bl(mscen.v2('p'), mscen.a), F.v('A1'))])
        s.call(m, 'lambdify', **{k: TRUE for k in kw})
        first = ['site'] if 'onsite' in kw else ['site1', 'site2'] if 'hopping' in kw else []
        r = [arguments(seen, first + sorted(syms), it.taint)]
        euler = [(o, n) for x, l in z.subs for o, n in l if x == expr]
        for o, n in euler:
            u = letter_of(o)
            if u is not None and u.name == 'sym:e':
                c = B.numconst(n) if isinstance(n, (Const, Poly)) else None
                if c is not None and abs(c - 2.718281828459045) > 1e-9:
                    r.append(Verdict('ne', "Euler's number is %s" % n))
                break
        return worst(r)
    return go


def commuting(ck, args):
    def go():
        z = Parse(ck)
        it = z.it
        expr = atom('given', (), 's', ('sym',), 'sympy.Symbol')
        it.attr_hook = lambda it, o, name, st, node: func_attr(o, name)
        z.found = [(x, {'Symbol'}) for x in args]
        v, s = absrun(it, it.func(KC, 'make_commutative'), [expr] + list(args), z.st, {})
        want = {letter_of(x).name for x in args}
        got = {}
        if any(o != expr for o, l in z.subs):
            return Verdict('unk', 'another expression')
        for o, l in z.subs:
            for old, new in l:
                u, w = letter_of(old), letter_of(new)
                if u is None or w is None or not u.name.startswith('sym:') or not w.name.startswith('sym:'):
                    return Verdict('unk', 'replacement', (), old, new)
                if 'noncomm' in u.attrs:
                    got[u.name] = w
                elif u.name != w.name or 'noncomm' in w.attrs:
                    return Verdict('ne', 'the commuting symbol %s is replaced by %s' % (u.name[4:], w.name[4:]))
        if it.taint:
            return Verdict('unk', 'not determined')
        for n in sorted(want):
            if n not in got:
                return Verdict('ne', 'the noncommuting symbol %s is not replaced' % n[4:])
            if got[n].name != n or 'noncomm' in got[n].attrs:
                return Verdict('ne', 'the noncommuting symbol %s is replaced by %s%s' % (n[4:], 'the noncommuting ' if 'noncomm' in got[n].attrs else '', got[n].name[4:]))
        for n in got:
            if n not in want and ('noncomm' not in got[n].attrs or got[n].name != n):
                return Verdict('ne', 'the symbol %s was not requested' % n[4:])
        r = [x for c, x in leaves(strip(v)) if x != expr]
        return Verdict('unk', 'result', (), r[0]) if r else Verdict('eq')
    return go


def text_model(ck, cls, momenta):
    """Momenta and parameters commute in the terms of a model given as text."""
    def go():
        F = mscen.Fmt('np.ndarray')
        s = mscen.parsed(mcommon.Sc(ck, cls), [(mscen.a, F.v('A1'))])
        got = []
        def rec(it, a, k, st, n):
            got.append([it.snap(x, st) for x in a])
            return a[0]
        s.it.summaries[KC + '.make_commutative'] = rec
        v = s.new(cls, Const('text'), momenta=Tup(list(momenta)))
        if not got:
            return Verdict('unk', 'no symbols are made commuting')
        if not any(l[0] == atom('parsed', (), 's', ('sym',), 'sympy.Matrix') for l in got):
            return Verdict('unk', 'the Hamiltonian is not found')
        want = {letter_of(x).name for x in momenta} | {letter_of(x).name for x in (mscen.a, mscen.b)}
        H = atom('parsed', (), 's', ('sym',), 'sympy.Matrix')
        names = set()
        for l in got:
            if l[0] != H:
                continue
            for x in l[1:]:
                u = letter_of(x)
                if u is None:
                    return Verdict('unk', 'symbols', (), x)
                names.add(u.name)
        miss = sorted(n[4:] if n.startswith('sym:') else n for n in want - names)
        return Verdict('ne', 'the symbols %s of the Hamiltonian are not made commuting' % ', '.join(miss)) if miss and not s.it.taint else Verdict('unk', 'symbols') if miss else Verdict('eq')
    return go


def run(ck):
    ck.rule('the table of names handed to the external parser is, name by name, the value given by the caller if there is one, else the predefined one; '
            'parameters of compiled functions and replaced symbols are the documented ones, in order')
    it = mkn(ck)
    w = where(ck, it, KC, 'sympify')
    for g in (None, (), ('V',), ('k_x',), ('x', 'V'), ('sigma_x', 'w'), ('kron', 'identity'), ('y', 'k_z', 'E'), ('C', 'k_x', 'x', 'sigma_x', 'kron', 'V', 'w', 'y', 'identity', 'k_z', 'E')):
        ck.ob('sympify: names %s' % ('not given' if g is None else ' '.join(g) or 'empty'), w, namespace(ck, g))
    ck.ob('sympify: exponential function', w, lambda: euler(ck))
    for g in (None, (), ('V',), ('k_x', 'V')):
        for f in ((), ('sin',), ('V', 'cos')):
            ck.ob('sympify: symbolic input%s%s' % (', functions ' + ' '.join(f) if f else '', ', names' if g else ', no names' if g is None else ''), w, symbolic(ck, g, f))
    w = where(ck, it, KC, 'lambdify')
    for o in ORDERS:
        ck.ob('lambdify: parameters %s' % ' '.join(o), w, compiled(ck, o, ()))
        ck.ob('lambdify: parameters %s and functions' % ' '.join(o), w, compiled(ck, o, ('f', 'A_0')))
    ck.ob('lambdify: functions only', w, compiled(ck, (), ('g', 'f')))
    ck.ob('lambdify: no parameters', w, compiled(ck, (), ()))
    for cls in ('Model', 'BlochModel'):
        w = where(ck, it, 'model', cls)
        for o in ORDERS + ((),):
            for kw in ((), ('onsite',), ('hopping',)):
                if kw and set(o) & {'site', 'site1', 'site2'}:
                    continue
                ck.ob('%s.lambdify%s: parameters %s' % (cls, ', ' + kw[0] if kw else '', ' '.join(o)), w, model_compiled(ck, o, kw, cls))
        for m in (('x0', 'x1'), ('k_x', 'k_y', 'k_z'), ('q',)):
            ck.ob('%s from text: momenta %s' % (cls, ' '.join(m)), w, text_model(ck, cls, [sym(n) for n in m]))
    w = where(ck, it, KC, 'make_commutative')
    for args in ((sym('x'),), (sym('x', 'noncomm'),), (sym('k_x', 'noncomm'), sym('y')), (sym('k_x', 'noncomm'), sym('k_y', 'noncomm'), sym('a'), sym('b')), (sym('x'), sym('x', 'noncomm')), ()):
        ck.ob('make_commutative: %s' % (' '.join(letter_of(x).name[4:] + ('*' if 'noncomm' in letter_of(x).attrs else '') for x in args) or 'no symbols'), w, commuting(ck, args))
