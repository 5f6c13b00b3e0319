"""C12: process-wide state is left as it was found."""
from .effcommon import *
from .effcommon import run as analyse
from sa.alias import Store

CONV = 'sympy.core.sympify.converter'


def permitted(mod, what):
    # the functions of random matrices fall back to the generator of numpy.random
    return mod == 'kwant_rmt' and what.startswith('numpy.random.mtrand._rand.')


def conv_states(pkg, mod, name, fn, present, sc, all_=False):
    """States of converter[list] at the normal and exceptional exits."""
    box = {}

    def ext(e):
        l = Loc('extv', 'dict', CONV)
        orig = e.special(('orig',), 'func')
        e.S.set((l, 'k:list'), orig if present else e.special(('absent',), 'absent'))
        box['l'], box['want'] = l, e.S.get((l, 'k:list'))
        return {CONV: frozenset([l])}
    e, v, _ = analyse(pkg, mod, None, name, fn, sc, trace=True, ext=ext, seconds=90)
    l, want = box['l'], box['want']
    if v is None:
        return None, []
    bad = []
    if not e.S.dead:
        got = e.look(e.S, (l, 'k:list'))
        if got and got != want:
            bad.append('normal return')
    base, exc = e.excs[0]
    for d in exc:
        got = d.get((l, 'k:list'))
        if got and got != want:
            bad.append('an exception')
            break
    touched = len(exc)
    return bad, touched


def run_conv(ck, pkg):
    m = pkg.mods['kwant_continuum']
    for name in ('sympify',):
        if name not in m['funcs']:
            from sa.interp import AnchorMissing
            raise AnchorMissing('kwant_continuum.%s' % name)
    for name, fn in sorted(m['funcs'].items()):
        if name.startswith('_'):
            continue
        where = '%s:%d %s' % (m['path'], fn.lineno, name)
        for sc in scenarios(pkg, 'kwant_continuum', None, name, fn):
            for present in (True, False):
                what = 'list conversion of sympy restored by %s, %s before the call (%s)' % (name, 'defined' if present else 'undefined', label(sc))
                try:
                    bad, n = conv_states(pkg, 'kwant_continuum', name, fn, present, sc)
                except Exception as ex:
                    ck.fact(what, where, None, 'analysis: %s: %s' % (type(ex).__name__, ex))
                    continue
                ck.sites += 1 if bad is None else n
                ck.fact(what, where, None if bad is None else not bad,
                        'budget' if bad is None else 'on %s the entry of list in %s differs from the one before the call' % (' and '.join(bad), CONV) if bad else '')


def run(ck):
    ck.rule('may-alias and modification analysis from every public entry point: no store reaches a module-level object, a default argument, '
            'a module or class attribute or a global generator or setting of a library (kwant_rmt without a generator excepted)')
    ck.rule('typestate of sympy\'s converter[list] over all normal and exceptional exits of every function of kwant_continuum, any call may raise')
    pkg, res = sweep(ck)
    for (mod, cls, name), where, runs in res:
        def bad(r):
            out = [('%s of %s object %s (%s)' % (what, {'default': 'the default', 'extv': 'the library', 'global': 'the module-level'}.get(kind, kind), path, chain), site)
                   for kind, path, site, what, chain in r['mut'] if kind in ('global', 'default', 'ext')]
            out += [('%s (%s)' % (what, chain), site) for what, site, chain in r['glob'] if not permitted(mod, what)]
            return out
        overs(ck, '%s%s leaves global state as it was' % (cls + '.' if cls else '', name), where, runs, bad)
    run_conv(ck, pkg)

