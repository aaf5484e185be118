"""Hash-consed provenance terms: the value domain of the abstract interpreter.

A term records where a value comes from (which argument, attribute, item, literal,
operator or external call), never a concrete runtime value of an input.
"""


class Term:
    __slots__ = ('op', 'args', '_s', '_h', 'n')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    # identity equality (hash-consed)


_POOL = {}


def mk(op, *args):
    key = (op, tuple((type(a).__name__, a) if not isinstance(a, (Term, str)) else a for a in args))
    t = _POOL.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t._s = None
        t._h = hash(key)
        t.n = len(_POOL)
        _POOL[key] = t
    return t


def const(v):
    return mk('const', type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk('undef')


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[1]


def lit(t, *vals):
    """t is a constant equal (type-exact) to one of vals"""
    return t.op == 'const' and any(type(t.args[1]) is type(v) and t.args[1] == v for v in vals)


def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x) for x in t) + ')'
        return str(t)
    if t._s is not None:
        return t._s
    o, a = t.op, t.args
    if o == 'const':
        s = repr(a[1])
    elif o == 'param':
        s = '$' + str(a[0])
    elif o == 'attr':
        s = f'{show(a[0])}.{a[1]}'
    elif o == 'item':
        s = f'{show(a[0])}[{show(a[1])}]'
    elif o == 'lin':
        s = '(' + '+'.join(([repr(a[0])] if a[0] else []) + [(f'{c}*' if c != 1 else '') + show(x) for c, x in a[1]]) + ')'
    elif o == 'call':
        s = f'{show(a[0])}(' + ', '.join(show(x) for x in a[1:]) + ')'
    elif o == 'slice':
        s = ':'.join('' if x is NONE else show(x) for x in a)
    elif o == 'ext':
        s = a[0]
    elif o == 'ite':
        s = f'ite({show(a[0])} ? {show(a[1])} : {show(a[2])})'
    else:
        s = o + '(' + ', '.join(show(x) for x in a) + ')'
    if len(s) > 600:
        s = s[:590] + '..#%d' % t.n
    t._s = s
    return s


def subterms(t, seen=None):
    """all distinct subterms, including those nested in tuples"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.args)


def contains(t, pred):
    for x in subterms(t):
        if pred(x):
            return True
    return False


def strings_in(t):
    return {x.args[1] for x in subterms(t) if x.op == 'const' and isinstance(x.args[1], str)}


def subst(t, mapping, memo=None):
    """replace subterms according to mapping (dict Term->Term or callable)"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in memo:
            return memo[x]
        r = mapping(x) if callable(mapping) else mapping.get(x)
        if r is None:
            na = tuple(go(y) for y in x.args)
            if all(p is q for p, q in zip(na, x.args)):
                r = x
            else:
                r = rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def rebuild(op, args):
    from . import ops
    if op == 'ite':
        return ops.ite(*args)
    if op == 'not':
        return ops.neg(args[0])
    if op in ('and', 'or'):
        return ops.conj(args) if op == 'and' else ops.disj(args)
    if op == 'lin':
        r = const(args[0])
        for c, x in args[1]:
            r = ops.add(r, ops.scale(x, c))
        return r
    if op == 'eq':
        return ops.eq(*args)
    if op == 'lt':
        return ops.lt(*args)
    if op == 'isnone':
        return ops.isnone(args[0])
    if op == 'mul':
        r = args[0]
        for x in args[1:]:
            r = ops.mul(r, x)
        return r
    if op == 'concat':
        return ops.concat(*args)
    return mk(op, *args)
