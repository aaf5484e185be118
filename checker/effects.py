"""Ownership of objects that are mutated: which objects can a term denote?"""
from .terms import Term, mk, const, NONE, TRUE, FALSE, UNDEF, show

DEEP = {'copy.deepcopy'}
SHALLOW_EXT = {'copy.copy', 'list', 'dict', 'set', 'sorted', 'tuple', 'reversed', 'collections.OrderedDict'}
FRESH_EXT = {'numpy.array', 'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full', 'numpy.append', 'numpy.concatenate', 'numpy.dot',
             'numpy.linalg.inv', 'numpy.fromstring', 'numpy.copy', 'numpy.cross', 'numpy.eye', 'io.StringIO', 'numpy.zeros_like',
             'numpy.ones_like', 'numpy.vstack', 'numpy.hstack', 'numpy.stack', 'numpy.genfromtxt', 'numpy.loadtxt', 'range', 'zip', 'enumerate'}
ALIAS_EXT = {'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray', 'numpy.squeeze', 'numpy.swapaxes', 'numpy.transpose',
             'numpy.reshape', 'numpy.ravel', 'numpy.moveaxis', 'numpy.split', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.flip', 'iter', 'next'}
ALIAS_METHOD = {'reshape', 'view', 'transpose', 'swapaxes', 'squeeze', 'ravel', 'get', 'setdefault', 'pop', 'items', 'values', 'keys'}
PATH = ('attr', 'item', 'elem', 'get', 'items', 'values', 'keys', 'enumerate', 'zip', 'slice', 'after', 'start', 'popped', 'sliced')


def origins(t, start, depth=0, nested=False, seen=None):
    """set of (kind, term): kind in fresh, static, param, unknown, value"""
    seen = seen if seen is not None else set()
    if (t, nested) in seen:
        return set()
    seen.add((t, nested))
    o = t.op
    if o == 'ref':
        return {('fresh' if t.args[0] > start else 'static', t)}
    if o == 'param':
        return {('param', t)}
    if o in ('class', 'func', 'module', 'ext', 'prop'):
        return {('static', t)}
    if o == 'ite':
        return origins(t.args[1], start, depth, nested, seen) | origins(t.args[2], start, depth, nested, seen)
    if o == 'phi':
        r = set()
        for x in t.args:
            r |= origins(x, start, depth, nested, seen)
        return r
    if o == 'attr' and t.args[0].op in ('param', 'attr'):
        return origins(t.args[0], start, depth + 1, True, seen)
    if o in PATH and t.args:
        r = set()
        if o == 'elem':
            return origins(t.args[0], start, depth + 1, True, seen)
        if o == 'slice':
            return {('unknown', t)}
        return origins(t.args[0], start, depth + 1, True, seen)
    if o == 'call':
        fn = t.args[0]
        if fn.op == 'ext':
            n = fn.args[0]
            if n in DEEP or n in FRESH_EXT:
                return {('fresh', t)}
            if n in SHALLOW_EXT:
                if not nested:
                    return {('fresh', t)}
                return origins(t.args[1], start, depth, nested, seen) if len(t.args) > 1 else {('fresh', t)}
            if n in ALIAS_EXT and len(t.args) > 1:
                return origins(t.args[1], start, depth, nested, seen)
            return {('external', t)}
        if fn.op == 'method':
            n = fn.args[0]
            if n == 'copy' and len(t.args) > 1:
                return {('fresh', t)} if not nested else origins(t.args[1], start, depth, nested, seen)
            if n in ALIAS_METHOD and len(t.args) > 1:
                return origins(t.args[1], start, depth, nested, seen)
        return {('unknown', t)}
    if o == 'lv' and len(t.args) > 2 and isinstance(t.args[2], Term):
        return origins(t.args[2], start, depth, nested, seen)
    if o == 'lout' and len(t.args) > 3 and isinstance(t.args[2], Term) and isinstance(t.args[3], Term):
        return origins(t.args[2], start, depth, nested, seen) | origins(t.args[3], start, depth, nested, seen)
    if o in ('const', 'concat', 'fmt', 'join', 'lin', 'eq', 'lt', 'not', 'and', 'or'):
        return {('value', t)}
    if o in ('list', 'dict', 'setv', 'arr'):
        return {('fresh', t)}
    return {('unknown', t)}


MUTATORS = ('mut', 'setattr', 'setitem', 'delitem', 'augmut')


def describe(e):
    d = e.data
    if e.kind == 'setattr':
        return f'{show(d[0])[:60]}.{d[1]} is assigned'
    if e.kind == 'setitem':
        return f'{show(d[0])[:60]}[{show(d[1])[:30]}] is assigned'
    if e.kind == 'delitem':
        return f'{show(d[0])[:60]}[{show(d[1])[:30]}] is deleted'
    if e.kind == 'mut':
        return f'{show(d[0])[:60]}.{d[1]}() is called'
    return f'{show(d[0])[:60]} is modified in place'
