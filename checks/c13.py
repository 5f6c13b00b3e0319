"""C13: memoisation is invisible."""
import ast
from .effcommon import *
from .effcommon import run as analyse, label

CONVERT = {'sympify', 'expand', 'simplify', 'nsimplify', 'powsimp', 'expand_power_exp', 'factor', 'together', 'Integer', 'Rational', 'S'}
IDENTITY = {'PointGroupElement': 'its equality leaves out the unitary part', 'ContinuousGroupGenerator': 'it can be changed',
            'Model': 'it can be changed', 'BlochModel': 'it can be changed'}


def cachedec(d):
    t = ast.unparse(d)
    n = t.split('(')[0].split('.')[-1]
    return n in ('lru_cache', 'cache', 'memoize', 'cached')


def typed(fn):
    for d in fn.decorator_list:
        if isinstance(d, ast.Call) and cachedec(d):
            for k in d.keywords:
                if k.arg == 'typed' and isinstance(k.value, ast.Constant) and k.value.value is True:
                    return True
            if len(d.args) > 1 and isinstance(d.args[1], ast.Constant) and d.args[1].value is True:
                return True
    return False


def cached(pkg):
    for mod, m in sorted(pkg.mods.items()):
        for n, fn in m['funcs'].items():
            if any(cachedec(d) for d in fn.decorator_list):
                yield mod, None, n, fn
        for c, d in m['classes'].items():
            for n, fn in d['methods'].items():
                if any(cachedec(x) for x in fn.decorator_list):
                    yield mod, c, n, fn


def flows(pkg, mod, fn, par, seen=()):
    """Site where the parameter itself is converted to a symbolic object; None if none is seen."""
    key = (mod, fn.name, par)
    if key in seen:
        return None
    names = {par}
    for n in ast.walk(fn):          # plain copies of the parameter
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
            names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    m = pkg.mods[mod]
    for n in ast.walk(fn):
        if not isinstance(n, ast.Call):
            continue
        name = ast.unparse(n.func).split('.')[-1]
        hit = [i for i, a in enumerate(n.args) if isinstance(a, ast.Name) and a.id in names]
        if not hit:
            continue
        tgt = None
        if isinstance(n.func, ast.Name):
            if n.func.id in m['funcs']:
                tgt = (mod, m['funcs'][n.func.id])
            elif m['imports'].get(n.func.id, ('',))[0] == 'repo':
                i = m['imports'][n.func.id]
                t = pkg.mods.get(i[1], {}).get('funcs', {}).get(i[2])
                tgt = (i[1], t) if t is not None else None
        elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and m['imports'].get(n.func.value.id, ('',))[0] in ('mod', 'repo'):
            i = m['imports'][n.func.value.id]
            mm = i[-1]
            t = pkg.mods.get(mm, {}).get('funcs', {}).get(n.func.attr)
            tgt = (mm, t) if t is not None else None
        if tgt is not None:
            pos = [p.arg for p in tgt[1].args.posonlyargs + tgt[1].args.args]
            for i in hit:
                if i < len(pos):
                    r = flows(pkg, tgt[0], tgt[1], pos[i], seen + (key,))
                    if r:
                        return r
        elif name in CONVERT and 0 in hit:
            return '%s:%d %s' % (m['path'], n.lineno, ast.unparse(n)[:80])
    return None


def run(ck):
    ck.rule('modification analysis of every memoised function (functools caches): it changes neither its arguments nor anything global, and no public operation '
            'changes an object that a memoised function returned, or hands such an object out if it can be changed')
    ck.rule('a memoised function whose parameter itself is converted to a symbolic object distinguishes argument types (1, 1.0 and True are the same key otherwise)')
    ck.rule('no symmetry element, generator or Model is a key of a cache: their equality does not determine their state')
    pkg, res = sweep(ck)
    seen, nonesc = {}, 0
    for (mod, cls, name), where, runs in res:
        def bad(r):
            out = [('%s of %s (%s)' % (what, path, chain), site) for kind, path, site, what, chain in r['mut'] if kind == 'cached']
            out += [('hands out %s (%s), which stays in the cache' % (path, t), where.split(' ')[0]) for path, t in r.get('escape', [])]
            return out
        overs(ck, '%s%s leaves results of memoised functions alone' % (cls + '.' if cls else '', name), where, runs, bad)
        for r in runs:
            for f, ts in r.get('cached', {}).items():
                for t, c in ts.items():
                    seen.setdefault(f, {}).setdefault(t, c)
    for mod, cls, name, fn in cached(pkg):
        path = pkg.mods[mod]['path']
        where = '%s:%d %s' % (path, fn.lineno, name)
        q = '%s.%s%s' % (mod, cls + '.' if cls else '', name)
        pos, kwo = signature(fn)
        for t, c in sorted(seen.get(q, {}).items()):
            if t in REPO_KEYS:
                ck.fact('key of the cache of %s: %s' % (name, t), where, t not in IDENTITY, 'a %s is a key of the cache of %s (%s): %s' % (t, name, c, IDENTITY.get(t, '')))
        if cls and not any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list):
            ck.fact('key of the cache of %s.%s' % (cls, name), where, cls not in IDENTITY, 'a %s is a key of the cache: %s' % (cls, IDENTITY.get(cls, '')))
        for p in pos + kwo:
            ck.sites += 1
            r = None if typed(fn) else flows(pkg, mod, fn, p)
            ck.fact('cache of %s distinguishes the types of %s where they matter' % (name, p), where, not r,
                    'parameter %s is converted at %s, arguments equal to each other but of different types share an entry of the cache' % (p, r) if r else '')
        for sc in scenarios(pkg, mod, cls, name, fn):
            try:
                e, v, _ = analyse(pkg, mod, cls, name, fn, sc)
            except Exception as ex:
                ck.fact('%s has no effects' % name, where, None, 'analysis: %s: %s' % (type(ex).__name__, ex))
                continue
            b = ['%s of %s at %s' % (what, l.path, site) for (l, site, what), ch in e.mut.items() if l.kind != 'alloc']
            b += ['%s at %s' % k for k in e.globcalls]
            ck.fact('%s has no effects (%s)' % (name, label(sc)), where, False if b else None if v is None else True, '; '.join(b[:3]))


REPO_KEYS = {'PointGroupElement', 'ContinuousGroupGenerator', 'Model', 'BlochModel', 'BlochCoeff'}
