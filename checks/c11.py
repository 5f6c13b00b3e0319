"""C11: models returned by operations own their coefficient storage and kept symbols."""
from .effcommon import *
from .effcommon import run as analyse, label

# operations whose results own their coefficient matrices, and the types of the other parameter
OWN = {'copy': (), '__copy__': (), '__add__': ('self', ARR, NUM), '__radd__': (NUM, ARR), '__sub__': ('self', ARR), 'rotate_momenta': (), 'eliminate_zeros': (),
       '__mul__': (SYM,), '__rmul__': (SYM,), 'transform_symbolic': (), 'tomodel': ()}


def find(pkg, cls, name):
    d = pkg.mods['model']['classes'].get(cls)
    while d is not None:
        if name in d['methods']:
            return d['node'].name, d['methods'][name]
        b = [x for x in d['bases'] if x in pkg.mods['model']['classes']]
        d = pkg.mods['model']['classes'][b[0]] if b else None
    return None, None


def shared(e, v, locs):
    """(parameter paths of arrays, of kept sets) the result still refers to."""
    arrs, keeps = set(), set()
    res = [x for x in v if x.typ and x.typ & {'Model', 'BlochModel'}]
    for x in e.reach(res):
        if x.kind == 'elt':
            x = x.parent
        if x.kind == 'param' and not x.imm() and (x.typ and x.typ & {'ndarray', 'sparse', 'linop'} or not x.typ and 'data' in x.path) and not x.path.endswith('{}'):
            if '{}' not in x.path:
                arrs.add(x.path)
    for r in res:
        if r.kind == 'param':
            arrs.add(r.path)
        for x in e.look(e.S, (r, 'keep')):
            if x.kind == 'param' and not x.imm():
                keeps.add(x.path)
    return arrs, keeps, bool(res)


def run(ck):
    ck.rule('may-alias analysis of the result of every listed operation: no coefficient matrix reachable from the result is (or is a view of) one reachable from an operand')
    ck.rule('may-alias analysis of all methods and constructors: the set of kept symbols of the result is not the set of an operand or argument')
    pkg = Package(ck.root)
    path = pkg.mods['model']['path']
    from sa.interp import AnchorMissing
    for need in ('copy', '__add__', 'rotate_momenta', 'eliminate_zeros', '__mul__', 'transform_symbolic'):
        if find(pkg, 'Model', need)[1] is None:
            raise AnchorMissing('Model.%s' % need)
    for cls in ('Model', 'BlochModel'):
        for name, others in OWN.items():
            dcls, fn = find(pkg, cls, name)
            if fn is None:
                continue
            where = '%s:%d %s.%s' % (path, fn.lineno, dcls, name)
            for val in (ARR, 'sparse'):
                M_ = model(cls, val)
                for o in others or (None,):
                    pos, kwo = signature(fn)
                    sc = {p: ptype('model', name, p) for p in pos + kwo}
                    sc[pos[0]] = M_
                    if o is not None and len(pos) > 1:
                        sc[pos[1]] = M_ if o == 'self' else 'sparse' if o == ARR and val == 'sparse' else o
                    what = '%s.%s owns its coefficients (%s)' % (cls, name, label({k: v for k, v in sc.items()}) + ', values ' + val)
                    judge(ck, pkg, dcls, name, fn, sc, where, what, True)
    for mod, cls, name, fn in public(pkg):
        if mod != 'model' or cls not in ('Model', 'BlochModel') or name in OWN:
            continue
        where = '%s:%d %s.%s' % (path, fn.lineno, cls, name)
        for sc in scenarios(pkg, mod, cls, name, fn):
            judge(ck, pkg, cls, name, fn, sc, where, 'kept symbols of the result of %s.%s are its own (%s)' % (cls, name, label(sc)), False)


def judge(ck, pkg, cls, name, fn, sc, where, what, arrays):
    try:
        e, v, locs = analyse(pkg, 'model', cls, name, fn, sc)
    except Exception as ex:
        ck.fact(what, where, None, 'analysis: %s: %s' % (type(ex).__name__, ex))
        return
    ck.functions.update(e.funcs_seen)
    ck.sites += 1
    if v is None:
        ck.fact(what, where, None, 'budget')
        return
    if e.S.dead or not v:
        if arrays:
            ck.fact(what, where, None, 'no result')
        return
    a, k, any_ = shared(e, v, locs)
    if not any_:
        if arrays:
            ck.fact(what, where, None, 'result not recognised as a Model')
        return
    bad = (['coefficient matrices %s' % ', '.join(sorted(a))] if arrays and a else []) + (['set of kept symbols %s' % ', '.join(sorted(k))] if k else [])
    ck.fact(what, where, not bad, 'the result may share %s' % ' and '.join(bad) if bad else '')
