"""Deciding that two value terms differ (or agree) for some content, beyond syntactic identity.

Two arguments, both over the terms only:
- identity testing: rational expressions of labelled fields are evaluated exactly at generic points; one point where they
  differ shows that they are different functions of the content, agreement at three points is taken as algebraic identity;
- dependence: a value that is built by pure operations and in which a field the required value depends on does not occur
  cannot be the required value for every content."""
from fractions import Fraction
import math
import zlib

from . import docs
from .terms import *

PURE = {'const', 'tok', 'list', 'tuple', 'dict', 'kv', 'concat', 'val', 'nd', 'dot', 'inv', 'mul', 'div', 'lin', 'item', 'ite', 'eq', 'lt', 'not', 'and', 'or', 'isnone', 'fmt',
        'slice', 'ext', 'method', 'call', 'kw', 'index', 'struct', 'inst', 'class', 'isinstance', 'len', 'in', 'pow', 'mod', 'floordiv', 'neg', 'abs', 'contains'}
PUREX = ('numpy.', 'math.')
PUREB = {'int', 'float', 'str', 'bool', 'abs', 'len', 'round', 'sum', 'min', 'max', 'list', 'tuple', 'sorted', 'pow', 'divmod', 'repr', 'complex'}


class NoValue(Exception):
    pass


MEMO = {}


def sources(t):
    """(labelled fields in t, whether t is built by pure visible operations only)"""
    r = MEMO.get(t)
    if r is None:
        if t.op in ('tok', 'val'):
            r = (frozenset([t]), True)
        else:
            s, pure = frozenset(), t.op in PURE
            if t.op == 'call':
                f = t.args[0]
                n = f.args[0] if f.op == 'ext' else ''
                pure = f.op == 'method' or f.op == 'ext' and (n in PUREB or n.startswith('builtins.') and n[9:] in PUREB
                                                              or n.startswith(PUREX) and 'random' not in n and 'empty' not in n and 'load' not in n and 'fromfile' not in n)
            for a in t.args:
                for x in flatargs(a):
                    s1, p1 = sources(x)
                    s, pure = s | s1, pure and p1
            r = (s, pure)
        MEMO[t] = r
    return r


def flatargs(a):
    if isinstance(a, Term):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from flatargs(x)


def depends(expected):
    """fields the expected value certainly depends on"""
    r = set()

    def go(t):
        if t.op in ('tok', 'val'):
            r.add(t)
        elif t.op in ('list', 'tuple', 'nd', 'dict', 'kv', 'concat', 'dot', 'inv', 'fmt', 'struct', 'inst') or t.op == 'item' and t.args[0].op in ('dot', 'nd', 'list'):
            for a in t.args:
                for x in flatargs(a):
                    go(x)
        elif t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('int', 'float'):
            for x in t.args[1:]:
                go(x)
        elif t.op in ('mul', 'div', 'lin'):
            for a in t.args:
                for x in flatargs(a):
                    go(x)
    go(expected)
    return r


def generic(t, salt):
    """a value of the kind of field t"""
    kind, name = t.args[0], t.args[1]
    h = zlib.crc32(repr((kind, name, t.args[2:], salt)).encode())
    integer = kind in docs.INTK or t.op == 'val' and kind == 'int'
    x = Fraction(h % 89 + 2) if integer else Fraction(h % 100003 + 1000, 7919)
    if t.op == 'tok' and not (kind in docs.INTK or kind in docs.FLTK):
        raise NoValue
    if t.op == 'val' and kind not in ('int', 'float'):
        raise NoValue
    lo, hi = docs.RANGE.get(kind, (None, None)) if t.op == 'tok' else (None, None)
    if lo is not None and x < lo:
        x += lo
    if hi is not None and x > hi:
        x = hi - x if hi - x >= (lo if lo is not None else hi - x) else None
        if x is None:
            raise NoValue
    return x


def solve(m):
    """inverse of a square matrix"""
    n = len(m)
    if any(len(r) != n for r in m):
        raise NoValue
    a = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
    for i in range(n):
        p = next((k for k in range(i, n) if a[k][i]), None)
        if p is None:
            raise NoValue
        a[i], a[p] = a[p], a[i]
        a[i] = [x / a[i][i] for x in a[i]]
        for k in range(n):
            if k != i:
                a[k] = [x - a[k][i] * y for x, y in zip(a[k], a[i])]
    return [r[n:] for r in a]


def product(a, b):
    if not isinstance(a, list) and not isinstance(b, list):
        return a * b
    if not isinstance(a, list) or not isinstance(b, list):
        x, v = (a, b) if isinstance(b, list) else (b, a)
        return broadcast(lambda p, q: p * q, x, v)
    if not isinstance(b[0], list):
        if isinstance(a[0], list):
            return [product(r, b) for r in a]
        if len(a) != len(b):
            raise NoValue
        return sum(p * q for p, q in zip(a, b))
    if isinstance(a[0], list):
        return [product(r, b) for r in a]
    if len(a) != len(b):
        raise NoValue
    return [sum(p * r[j] for p, r in zip(a, b)) for j in range(len(b[0]))]


def broadcast(f, a, b):
    if isinstance(a, list) and isinstance(b, list):
        da, db = depth(a), depth(b)
        if da > db:
            return [broadcast(f, x, b) for x in a]
        if db > da:
            return [broadcast(f, a, y) for y in b]
        if len(a) != len(b):
            raise NoValue
        return [broadcast(f, x, y) for x, y in zip(a, b)]
    if isinstance(a, list):
        return [broadcast(f, x, b) for x in a]
    if isinstance(b, list):
        return [broadcast(f, a, y) for y in b]
    return f(a, b)


def depth(a):
    return 1 + depth(a[0]) if isinstance(a, list) and a else 1 if isinstance(a, list) else 0


def number(t, salt, memo):
    if t in memo:
        return memo[t]
    r = _number(t, salt, memo)
    memo[t] = r
    return r


def _number(t, salt, memo):
    N = lambda x: number(x, salt, memo)   # noqa
    op = t.op
    if op == 'const':
        v = t.args[1]
        if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v or v in (float('inf'), float('-inf')):
            raise NoValue
        return Fraction(str(v)) if isinstance(v, float) else Fraction(v)
    if op == 'ext' and t.args[0] in ('math.pi', 'numpy.pi', 'math.tau'):
        return Fraction(str(math.pi)) * (2 if t.args[0] == 'math.tau' else 1)
    if op in ('tok', 'val'):
        return generic(t, salt)
    if op == 'call' and t.args[0].op == 'ext' and len(t.args) == 2 and isinstance(t.args[1], Term):
        n, x = t.args[0].args[0], t.args[1]
        if n in ('int', 'float') and (x.op == 'tok' or x.op == 'val'):
            v = N(x)
            if n == 'int' and v.denominator != 1:
                raise NoValue
            return v
        if n == 'float':
            v = N(x)
            if isinstance(v, list):
                raise NoValue
            return v
        if n == 'numpy.linalg.inv':
            return solve(N(x))
        if n == 'numpy.transpose':
            return [list(r) for r in zip(*N(x))]
        if n in ('numpy.array', 'numpy.asarray', 'list', 'tuple'):
            return N(x)
    if op in ('list', 'tuple', 'nd'):
        if any(x.op in ('each', 'opt', 'splice', 'del') for x in t.args):
            raise NoValue
        return [N(x) for x in t.args]
    if op == 'item' and t.args[1].op == 'const' and isinstance(t.args[1].args[1], int):
        v = N(t.args[0])
        try:
            return v[t.args[1].args[1]]
        except (IndexError, TypeError):
            raise NoValue
    if op == 'dot' or op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.dot', 'numpy.matmul') and len(t.args) == 3:
        a, b = t.args[-2:]
        return product(N(a), N(b))
    if op == 'attr' and t.args[-1] in ('T', const('T')):
        return [list(r) for r in zip(*N(t.args[0]))]
    if op == 'inv':
        return solve(N(t.args[0]))
    if op in ('mul', 'div', 'lin') and any(x.op in ('list', 'tuple') for a in t.args for x in flatargs(a)):
        raise NoValue
    if op == 'mul':
        r = N(t.args[0])
        for x in t.args[1:]:
            r = broadcast(lambda p, q: p * q, r, N(x))
        return r
    if op == 'div':
        def d(p, q):
            if not q:
                raise NoValue
            return p / q
        return broadcast(d, N(t.args[0]), N(t.args[1]))
    if op == 'lin':
        r = Fraction(str(t.args[0])) if isinstance(t.args[0], float) else Fraction(t.args[0])
        for k, x in t.args[1]:
            k = Fraction(str(k)) if isinstance(k, float) else Fraction(k)
            r = broadcast(lambda p, q: p + q, r, broadcast(lambda p, q: p * q, k, N(x)))
        return r
    raise NoValue


def compare(actual, expected):
    """True (algebraically equal), False (different for some content) or None"""
    res = []
    try:
        for salt in range(3):
            a, b = number(actual, salt, {}), number(expected, salt, {})
            if a != b:
                return False
            res.append(True)
        return True
    except (NoValue, ZeroDivisionError, TypeError, ValueError, IndexError, OverflowError):
        pass
    s, pure = sources(actual)
    if pure and depends(expected) - s:
        return False
    return None
