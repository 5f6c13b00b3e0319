"""Parameter types of the public functions, for the alias and effect analysis."""
import ast, multiprocessing, os, sys, time
from sa.alias import Engine, Package, Loc

SYM, NUM, ARR = 'sym', 'num', 'ndarray'


def model(cls='Model', val=ARR):
    return (cls, {'data': [('dict', {'[]': [val], '{}': [SYM] if cls == 'Model' else [BC]})], 'keep': [('set', {'[]': [SYM]})],
                  'momenta': [('tuple', {'[]': [SYM]})], 'shape': [NUM], 'format': ['type']})


BC = ('BlochCoeff', {'[0]': [ARR], '[1]': [SYM]})
PGE = ('PointGroupElement', {'R': ['ta'], 'U': [ARR], 'conjugate': ['bool'], 'antisymmetry': ['bool'], '_strict_eq': ['bool']})
CGG = ('ContinuousGroupGenerator', {'R': [ARR], 'U': [ARR]})
STR = 'str'


def seq(t, kind='list'):
    return (kind, {'[]': t if isinstance(t, list) else [t]})


def dct(v, k=SYM):
    return ('dict', {'[]': v if isinstance(v, list) else [v], '{}': [k]})


M = model()
# by parameter name; None: left open
TYPES = {
    'model': M, 'H': M, 'monomial': M, 'family': seq(M), 'family1': seq(M), 'family2': seq(M),
    'symmetries': seq([PGE, CGG]), 'candidates': seq(PGE), 'gens': seq(PGE), 'group': seq(PGE, 'set'), 'G': seq(PGE, 'set'),
    'generators': 'bool', 'g': PGE, 'g1': PGE, 'g2': PGE, 'Ps': seq(ARR, 'list'), 'periods': ARR, 'basis': ARR, 'vec': ARR,
    'axis': ARR, 'R': ARR, 'U': ARR, 'n': ARR, 's': seq(ARR), 'spin': seq(ARR), 'perm': dct(NUM), 'norbs': seq(seq(NUM, 'tuple')),
    'onsite_action': dct(ARR), 'antiunitary': 'bool', 'antisymmetry': 'bool', 'locals': dct(STR, STR), 'momenta': seq(SYM),
    'all_powers': seq(seq(SYM)), 'coeffs': seq(SYM), 'hopping_vectors': seq(('tuple', {'[0]': [SYM], '[1]': [SYM], '[2]': [ARR]})),
    'hopping_vector': ARR, 'mats': seq(ARR), 'mat': ARR, 'vecs': ARR, 'HL': seq(ARR), 'HR': seq(ARR), 'A': ARR, 'B': ARR, 'm': ARR, 'bas': ARR,
    'vals': ARR, 'vectors': ARR, 'neighbors': ARR, 'other_vectors': ARR, 'sets_eq': seq(seq(NUM)), 'expr': SYM, 'symbols': seq(SYM),
    'gens_expr': seq(SYM), 'all_keys': seq(SYM), 'a': ARR, 'b': ARR, 'HLs': seq(ARR), 'HRs': seq(ARR), 'projectors': seq(ARR),
    'block_dsymm': ARR, 'hamiltonian': dct(ARR), 'keep': seq(SYM, 'set'), 'func': 'func', 'rng': 'rng', 'subs': dct(NUM),
    'key_list': seq(SYM), 'key': SYM, 'other': M, 'hop': ARR, 'coeff': SYM, 'c': NUM, 'args': None, 'ordering': seq(SYM),
    'tol': NUM, 'rtol': NUM, 'atol': NUM, 'k_max': NUM, 'dim': NUM, 'd': NUM, 'l': NUM, 'shape': NUM, 'angle': NUM,
    'num_digits': NUM, 'precision': NUM, 'decimals': NUM, 'v': NUM, 'charge': NUM, 'realspace_dim': NUM, 'total_power': NUM,
}
# overrides per function
OVER = {
    ('symmetry_finder', 'struct_const', 'gens'): seq(ARR), ('symmetry_finder', 'killing', 'gens'): seq(ARR), ('symmetry_finder', 'casimir', 'gens'): seq(ARR),
    ('symmetry_finder', 'separate_lie_algebra', 'gens'): seq(ARR), ('symmetry_finder', 'symmetry_adapted_sun', 'gens'): seq(ARR),
    ('symmetry_finder', 'check_bravais_symmetry', 'group'): seq(PGE, 'set'),
    ('symmetry_finder', '_reduce_hamiltonian', 'H'): M,
    ('groups', 'pretty_print_cgg', 'g'): CGG, ('groups', 'set_multiply', 'H'): seq(PGE, 'set'), ('groups', 'generate_group', 'gens'): seq(PGE, 'set'),
    ('kwant_continuum', 'monomials', 'gens'): seq(SYM), ('kwant_continuum', '_expression_monomials', 'gens'): seq(SYM),
    ('kwant_rmt', 'gaussian', 'n'): NUM, ('kwant_rmt', 'circular', 'n'): NUM, ('symmetry_finder', 'pick_perp', 'n'): ARR, ('kwant_linalg_lll', 'cvp', 'n'): NUM,
    ('symmetry_finder', 'discrete_symmetries', 'Ps'): seq(seq(ARR), 'list'), ('symmetry_finder', 'conserved_quantities', 'Ps'): seq(seq(ARR), 'list'),
    ('symmetry_finder', 'continuous_symmetries', 'Ps'): seq(seq(ARR), 'list'),
    ('groups', 'L_matrices', 'd'): NUM, ('groups', 'spin_matrices', 's'): NUM, ('kwant_linalg_lll', 'gs_coefficient', 'a'): ARR,
    ('symmetry_finder', 'pick_perp', 'vectors'): ARR, ('hamiltonian_generator', 'symmetrize_monomial', 'symmetries'): seq(PGE),
    ('kwant_continuum', 'gcd', 'args'): NUM, ('groups', '_array_to_latex', 'a'): ARR, ('linalg', 'mtm', 'c'): NUM,
}
ALT = {   # further scenarios of a parameter
    'all_powers': [seq(NUM), seq([NUM, seq(NUM)])], 'momenta': [seq(NUM), seq(STR)], 'perm': [dct(STR, STR)], 'hopping_vectors': [seq(('list', {'[0]': [STR], '[1]': [STR], '[2]': [seq(NUM)]}))],
    'subs': [dct(ARR, STR)], 'keep': [seq(SYM), seq(STR)], 'gens': [seq(PGE)] , 'group': [seq(PGE)], 'key_list': [seq(STR)], 'axis': [seq(NUM)], 'periods': [seq(seq(NUM))], 'ordering': [seq(STR)],
    'spin': [NUM], 'A': ['sparse'], 'm': [], 'norbs': [dct(NUM, STR)], 'coeffs': [], 'mats': [seq('sparse')], 'HL': [seq('sparse')], 'a': ['sparse'], 'bas': ['sparse'],
    'model': [model('Model', 'sparse'), model('BlochModel')], 'family': [seq(model('BlochModel'))], 'H': [model('Model', 'sparse')],
    'HLs': [seq('sparse')], 'monomial': [model('BlochModel')], 'Ps': [], 'locals': [dct(ARR, STR)], 'expr': [STR, seq(STR), NUM], 'hamiltonian': [M, dct('sparse')],
    'onsite_action': [ARR], 'g': [CGG], 's': [NUM], 'symmetries': [seq(PGE, 'set')], 'candidates': [seq(PGE, 'set')],
}
WITH = {'model', 'Model', 'BlochModel'}


def ptype(mod, name, arg):
    return OVER.get((mod, name, arg), TYPES.get(arg))


def signature(fn):
    a = fn.args
    return [p.arg for p in a.posonlyargs + a.args], [p.arg for p in a.kwonlyargs]


def public(pkg):
    """(module, class or None, function)"""
    for mod, m in sorted(pkg.mods.items()):
        for n, fn in m['funcs'].items():
            if not n.startswith('_'):
                yield mod, None, n, fn
        for c, d in m['classes'].items():
            for n, fn in d['methods'].items():
                yield mod, c, n, fn


def scenarios(pkg, mod, cls, name, fn):
    """Parameter type assignments to analyse: the default one, and variants one parameter at a time."""
    pos, kwo = signature(fn)
    static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list)
    clsm = name == '__new__' or any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in fn.decorator_list)
    base = {}
    for p in pos + kwo:
        base[p] = ptype(mod, name, p)
    selfs = [None]
    if cls and not static:
        s = pos[0]
        selfs = {'Model': [M, model('Model', 'sparse'), model('Model', NUM)], 'BlochModel': [model('BlochModel'), model('BlochModel', 'sparse')],
                 'BlochCoeff': [BC], 'PointGroupElement': [PGE], 'ContinuousGroupGenerator': [CGG]}.get(cls, [None])
        if clsm:
            selfs = ['class']
        for x in selfs:
            b = dict(base)
            b[s] = x
            if 'other' in b:
                o = x if cls != 'BlochCoeff' else BC
                for alt in [o] + ([ARR, NUM, SYM] if cls in ('Model', 'BlochModel') else []):
                    c = dict(b)
                    c['other'] = alt
                    yield c
            elif 'g2' in b:
                yield b
            else:
                yield b
                for p in pos[1:] + kwo:
                    for alt in ALT.get(p, ()) if (mod, name, p) not in OVER else ():
                        c = dict(b)
                        c[p] = alt
                        yield c
        return
    yield base
    for p in pos + kwo:
        for alt in ALT.get(p, ()) if (mod, name, p) not in OVER else ():
            c = dict(base)
            c[p] = alt
            yield c
    if fn.args.defaults or fn.args.kw_defaults:
        # options left at their defaults
        c = dict(base)
        k = len(pos) - len(fn.args.defaults)
        for p in pos[k:] + kwo:
            c.pop(p, None)
        yield c


def run(pkg, mod, cls, name, fn, types, trace=False, ext=None, seconds=60):
    e = Engine(None, pkg, exc=trace)
    e.deadline = time.time() + seconds
    if ext:
        e.externals = ext(e)
    pos, kwo = signature(fn)
    args, kw, locs = [], {}, {}
    for p in pos + kwo:
        if p not in types:
            break_ = True
            continue
        t = types[p]
        l = e.clsv(cls) if t == 'class' else frozenset([e.param(p, t)])
        locs[p] = l
        if p in pos and len(args) == pos.index(p):
            args.append(l)
        else:
            kw[p] = l
    v = e.entry(mod, name, args, cls=cls, kw=kw)
    return e, v, locs


def label(types):
    def one(t):
        return t if isinstance(t, str) else '?' if t is None else t[0] + ('[%s]' % ','.join(sorted({one(x) for x in t[1].get('[]', [])})) if t[0] in ('list', 'tuple', 'set', 'dict') else '')
    return ', '.join('%s: %s' % (k, one(v)) for k, v in types.items())


MUTABLE = {'ndarray', 'sparse', 'list', 'dict', 'set', 'Model', 'BlochModel', 'PointGroupElement', 'ContinuousGroupGenerator'}


def escapes(e, v):
    """Changeable results of memoised functions handed out to the caller (the value itself or its elements)."""
    out, seen, work = set(), set(), [(l, 0) for l in v]
    while work:
        l, d = work.pop()
        if l in seen:
            continue
        seen.add(l)
        if l.kind == 'elt':
            l = l.parent
        if l.kind == 'cached' and l.typ and l.typ & MUTABLE:
            out.add((l.path, '|'.join(sorted(l.typ))))
        elif l.kind == 'cached' and not l.typ and '[' in l.path:
            pass
        if d < 2 and l.typ and l.typ & {'list', 'tuple', 'set', 'dict'}:
            work += [(x, d + 1) for x in e.fieldall(l, '[]')]
    return sorted(out)


_PKG = []


def _job(key):
    pkg = _PKG[0]
    mod, cls, name = key
    fn = (pkg.mods[mod]['classes'][cls]['methods'] if cls else pkg.mods[mod]['funcs'])[name]
    out = []
    sys.setrecursionlimit(20000)
    for sc in scenarios(pkg, mod, cls, name, fn):
        r = {'scenario': label(sc), 'mut': [], 'glob': [], 'seen': [], 'why': ''}
        try:
            e, v, _ = run(pkg, mod, cls, name, fn, sc)
            if v is None:
                r['why'] = 'budget'
            r['mut'] = [(l.kind, l.path, site, what, ' > '.join(ch)) for (l, site, what), ch in e.mut.items() if l.kind != 'alloc']
            r['glob'] = [(what, site, ' > '.join(ch)) for (what, site), ch in e.globcalls.items()]
            r['seen'] = sorted(e.funcs_seen)
            r['cached'] = {f: {t: ' > '.join(c) for t, c in ts.items()} for f, ts in e.cachedcalls.items()}
            r['escape'] = escapes(e, v) if v else []
        except Exception as ex:
            r['why'] = 'analysis: %s: %s' % (type(ex).__name__, ex)
        out.append(r)
    path = pkg.mods[mod]['path']
    return key, '%s:%d %s' % (path, fn.lineno, (cls + '.' if cls else '') + name), out


def sweep(ck, entries=None):
    """All public functions and methods in all their parameter scenarios."""
    pkg = Package(ck.root)
    keys = [(m, c, n) for m, c, n, f in public(pkg)] if entries is None else entries(pkg)
    _PKG[:] = [pkg]
    order = sorted(keys, key=lambda k: k[2] not in ('bloch_family', 'symmetries', 'continuum_hamiltonian', 'hamiltonian_from_family'))
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        res = {k: (w, o) for k, w, o in p.imap_unordered(_job, order)}
    for k in keys:
        ck.functions.update(x for r in res[k][1] for x in r['seen'])
    return pkg, [(k,) + res[k] for k in keys]


def overs(ck, what, where, runs, bad):
    """One obligation per scenario of a function; bad(r) -> list of offences."""
    for r in runs:
        b = bad(r)
        ck.sites += 1
        ck.fact('%s (%s)' % (what, r['scenario']), where if not b else b[0][1] + ' ' + where, (False if b else None if r['why'] else True),
                '; '.join(x[0] for x in b[:3]) or r['why'])
