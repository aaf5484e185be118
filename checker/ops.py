"""Normalising constructors for operator terms."""
from .terms import Term, mk, const, NONE, TRUE, FALSE, UNDEF, is_const, cval, show, lit

def _n(t):
    return t.n


BOOLOPS = {'not', 'and', 'or', 'eq', 'lt', 'isnone', 'in', 'isinstance', 'haskey', 'raises', 'nonempty', 'anyiter', 'is', 'hasattr', 'done'}


_BI = {}


def boolish(t):
    if t.op == 'ite':
        r = _BI.get(t)
        if r is None:
            r = _BI[t] = _boolish(t)
        return r
    return _boolish(t)


def _boolish(t):
    if t.op in BOOLOPS or (t.op == 'const' and isinstance(t.args[1], bool)):
        return True
    if t.op == 'ite':
        return boolish(t.args[1]) and boolish(t.args[2])
    return False


NONNULL = {'list', 'tuple', 'dict', 'concat', 'fmt', 'lin', 'mul', 'div', 'ref', 'func', 'bound', 'class', 'eq', 'lt', 'not',
           'and', 'or', 'in', 'len', 'module', 'each', 'setv', 'arr', 'join', 'range', 'isinstance', 'idx', 'tok', 'val'}


def nonnull(t):
    return t.op in NONNULL or (t.op == 'const' and t.args[1] is not None)


STRM = {'readline', 'read', 'strip', 'lower', 'upper', 'capitalize', 'rstrip', 'lstrip', 'replace', 'join', 'format', 'title'}
NUMC = {'int', 'float', 'len', 'abs', 'round'}


_TY = {}


def typ(t):
    """coarse type of a term: 'str','num','list','dict','bool', or None"""
    o = t.op
    if o == 'const':
        v = t.args[1]
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, str):
            return 'str'
        if isinstance(v, (int, float)):
            return 'num'
        return None
    if o in ('concat', 'fmt', 'join', 'tok'):
        return 'str'
    if o in ('lin', 'mul', 'div', 'len', 'idx', 'pow', 'mod', 'floordiv'):
        return 'num'
    if o == 'list':
        return 'list'
    if o == 'tuple':
        return 'tuple'
    if o == 'dict':
        return 'dict'
    if boolish(t):
        return 'bool'
    if o == 'ite':
        r = _TY.get(t, 0)
        if r == 0:
            a = typ(t.args[1])
            r = None
            if a is not None:
                b = typ(t.args[2])
                r = a if a == b else None
            _TY[t] = r
        return r
    if o in ('item', 'elem') and t.args[0].op == 'call' and t.args[0].args[0].op == 'method' and \
            t.args[0].args[0].args[0] in ('split', 'readlines', 'splitlines', 'rsplit'):
        return 'list' if t.args[1].op == 'slice' else 'str'
    if o == 'lv':
        return typ(t.args[2]) if isinstance(t.args[2], Term) else None
    if o == 'lout':
        return typ(t.args[2]) if isinstance(t.args[2], Term) else None
    if o == 'call':
        f = t.args[0]
        if f.op == 'method' and f.args[0] in STRM:
            return 'str'
        if f.op == 'method' and f.args[0] in ('split', 'readlines', 'splitlines', 'rsplit'):
            return 'list'
        if f.op == 'ext' and f.args[0] in NUMC:
            return 'num'
    return None


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE and boolish(c):
        return c
    if a is FALSE and b is TRUE and boolish(c):
        return neg(c)
    if a.op == 'ite' and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c:
        return ite(c, a, b.args[2])
    if boolish(c) and boolish(a) and boolish(b):
        if a is TRUE:
            return disj((c, b))
        if b is FALSE:
            return conj((c, a))
        if a is FALSE:
            return conj((neg(c), b))
        if b is TRUE:
            return disj((neg(c), a))
    # s[0] of a string of one character is the string
    if c.op == 'eq' and a.op == 'item' and a.args[0] is b and b.op == 'tok' and c.args[0].op == 'len' and c.args[0].args[0] is b and c.args[1] is const(1) and a.args[1] is const(0):
        return b
    # same leaf nested: ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
    if b.op == 'ite' and boolish(c) and boolish(b.args[0]):
        if b.args[1] is a:
            return ite(disj((c, b.args[0])), a, b.args[2])
        if b.args[2] is a:
            return ite(conj((neg(c), b.args[0])), b.args[1], a)
    return mk('ite', c, a, b)


_NEG = {}


def neg(c):
    r = _NEG.get(c)
    if r is None:
        r = _NEG[c] = _neg(c)
        if boolish(c):
            _NEG.setdefault(r, c)
    return r


def _neg(c):
    if c.op == 'const':
        return const(not c.args[1])
    if c.op == 'not':
        return c.args[0] if boolish(c.args[0]) else mk('not', c)
    if c.op == 'and':
        return disj(tuple(neg(x) for x in c.args))
    if c.op == 'or':
        return conj(tuple(neg(x) for x in c.args))
    if c.op == 'ite' and boolish(c):
        return ite(c.args[0], neg(c.args[1]), neg(c.args[2]))
    return mk('not', c)


def conj(xs):
    out = []
    for x in xs:
        if x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    s, seen = [], set()
    for x in out:
        if x is FALSE:
            return FALSE
        if x.op == 'const':
            if not x.args[1]:
                return FALSE
            continue
        if x not in seen:
            seen.add(x)
            s.append(x)
    for x in s:
        if neg(x) in seen:
            return FALSE
    # absorb
    s = [x for x in s if not (x.op == 'or' and any(y in seen for y in x.args))]
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk('and', *sorted(s, key=_n))


def disj(xs):
    out = []
    for x in xs:
        if x.op == 'or':
            out.extend(x.args)
        else:
            out.append(x)
    s, seen = [], set()
    for x in out:
        if x.op == 'const':
            if x.args[1]:
                return TRUE
            continue
        if x not in seen:
            seen.add(x)
            s.append(x)
    for x in s:
        if neg(x) in seen:
            return TRUE
    s = [x for x in s if not (x.op == 'and' and any(y in seen for y in x.args))]
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk('or', *sorted(s, key=_n))


def isnone(t):
    if t is NONE:
        return TRUE
    if nonnull(t) or t.op == 'nd':
        return FALSE
    if t.op == 'ite':
        return ite(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    return mk('isnone', t)


_CL = {}


def constleaves(t):
    """a choice among constants only"""
    if t.op == 'const':
        return True
    if t.op != 'ite':
        return False
    r = _CL.get(t)
    if r is None:
        r = _CL[t] = constleaves(t.args[1]) and constleaves(t.args[2])
    return r


def eq(a, b):
    if a is b and a.op not in ('unknown',):
        return TRUE
    if is_const(a) and is_const(b):
        try:
            return const(bool(cval(a) == cval(b)))
        except Exception:
            pass
    if a.op in ('tok', 'concat') or b.op in ('tok', 'concat'):
        from . import docs
        r = docs.eq(a, b)
        if r is not None:
            return const(r)
    if is_const(a):
        a, b = b, a
    if is_const(b):
        if b is NONE:
            return isnone(a)
        if a.op == 'ite' and (is_const(a.args[1]) or is_const(a.args[2]) or constleaves(a)):
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if b is TRUE and boolish(a):
            return a
        if b is FALSE and boolish(a):
            return neg(a)
        if isinstance(cval(b), str) and typ(a) in ('num', 'list', 'dict'):
            return FALSE
        if a.op in ('func', 'class', 'ref', 'list', 'dict', 'tuple'):
            if a.op in ('func', 'class'):
                return FALSE
            if a.op in ('list', 'tuple', 'dict'):
                return FALSE
    elif boolish(a) and boolish(b) and a.op != 'ite' and b.op != 'ite':
        return disj((conj((a, b)), conj((neg(a), neg(b)))))
    else:
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.args) != len(b.args):
                return FALSE
            return conj(tuple(eq(x, y) for x, y in zip(a.args, b.args)))
        if b.n < a.n:
            a, b = b, a
    if a.op == 'lin' and is_const(b) and type(cval(b)) is int and all(c > 0 and x.op == 'len' and x.args[0].op == 'tok' for c, x in a.args[1]) \
            and a.args[0] + sum(c for c, _ in a.args[1]) > cval(b):
        return FALSE      # fields are never empty
    # len(x)-1 == c  -> len(x) == c+1
    if a.op == 'lin' and is_const(b) and isinstance(cval(b), int) and len(a.args[1]) == 1 and a.args[1][0][0] == 1 and a.args[0]:
        return eq(a.args[1][0][1], const(cval(b) - a.args[0]))
    if a.op == 'len' and a.args[0].op in ('concat', 'tok') and is_const(b) and isinstance(cval(b), int):
        # fields are never empty
        x = a.args[0]
        low = 1 if x.op == 'tok' else sum(len(str(cval(p))) if is_const(p) else int(p.op == 'tok') for p in x.args)
        if low > cval(b):
            return FALSE
    return mk('eq', a, b)


def lt(a, b):
    if is_const(a) and is_const(b):
        try:
            return const(bool(cval(a) < cval(b)))
        except Exception:
            return mk('lt', a, b)
    if a is b:
        return FALSE
    if a.op == 'ite' and is_const(b) and constleaves(a):
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == 'ite' and is_const(a) and constleaves(b):
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    # move constants: normalise to lin difference  a-b < 0 when numeric ints
    ca, ta = lin_parts(a)
    cb, tb = lin_parts(b)
    if isinstance(ca, int) and isinstance(cb, int) and (a.op == 'lin' or b.op == 'lin'):
        d = dict((t, c) for c, t in ta)
        for c, t in tb:
            d[t] = d.get(t, 0) - c
        d = {t: c for t, c in d.items() if c}
        k = cb - ca
        if not d:
            return const(0 < k)
        # sum d < k ; keep positive terms left, negative right
        left = mklin(0, [(c, t) for t, c in d.items() if c > 0])
        right = mklin(k, [(-c, t) for t, c in d.items() if c < 0])
        if is_const(left):
            pass
        return _ltmk(left, right)
    return _ltmk(a, b)


def _ltmk(a, b):
    """integers: x < k and k < x kept; lt(k, x) with x count-like -> not lt(x, k+1)"""
    if is_const(a) and is_const(b):
        return const(cval(a) < cval(b))
    if is_const(a) and type(cval(a)) is int and intlike(b):
        return neg(mk('lt', b, const(cval(a) + 1)))
    if b.op == 'lin' and isinstance(b.args[0], int) and b.args[0] > 0 and intlike(a) and all(intlike(t) for _, t in b.args[1]):
        # a < b + k  (k>=1)  ->  not (b + k-1 < a)
        return neg(mk('lt', mklin(b.args[0] - 1, list(b.args[1])), a))
    return mk('lt', a, b)


def intlike(t):
    if t.op in ('len', 'idx'):
        return True
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('int', 'len'):
        return True
    if t.op == 'lin':
        return isinstance(t.args[0], int) and all(isinstance(c, int) and intlike(x) for c, x in t.args[1])
    return False


def lin_parts(t):
    if t.op == 'const' and isinstance(t.args[1], (int, float)) and not isinstance(t.args[1], bool):
        return t.args[1], ()
    if t.op == 'lin':
        return t.args[0], t.args[1]
    return 0, ((1, t),)


def mklin(c, parts):
    d = {}
    for k, t in parts:
        d[t] = d.get(t, 0) + k
    parts = tuple(sorted(((k, t) for t, k in d.items() if k), key=lambda p: p[1].n))
    if not parts:
        return const(c)
    if c == 0 and len(parts) == 1 and parts[0][0] == 1:
        return parts[0][1]
    return mk('lin', c, parts)


def add(a, b):
    if is_const(a) and is_const(b):
        try:
            return const(cval(a) + cval(b))
        except Exception:
            return mk('lin', 0, ((1, a), (1, b)))
    ta, tb = typ(a), typ(b)
    if 'str' in (ta, tb):
        return concat(a, b)
    if ta == 'list' or tb == 'list':
        return mk('list', *(a.args if a.op == 'list' else (mk('splice', a),)), *(b.args if b.op == 'list' else (mk('splice', b),)))
    if ta == 'tuple' and tb == 'tuple':
        return mk('tuple', *a.args, *b.args)
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    return mklin(ca + cb, list(pa) + list(pb))


def scale(a, k):
    ca, pa = lin_parts(a)
    return mklin(ca * k, [(c * k, t) for c, t in pa])


def sub(a, b):
    if is_const(a) and is_const(b):
        try:
            return const(cval(a) - cval(b))
        except Exception:
            pass
    return add(a, scale(b, -1))


def mul(a, b):
    if is_const(a) and is_const(b):
        try:
            return const(cval(a) * cval(b))
        except Exception:
            pass
    for x, y in ((a, b), (b, a)):
        if is_const(x) and isinstance(cval(x), int) and not isinstance(cval(x), bool) and typ(y) not in ('str', 'list', 'tuple'):
            if cval(x) == 1:
                return y
            return scale(y, cval(x))
        if lit(x, 1.0):
            return y
    fs = []
    for x in (a, b):
        fs.extend(x.args if x.op == 'mul' else (x,))
    return mk('mul', *sorted(fs, key=_n))


def div(a, b):
    if is_const(a) and is_const(b):
        try:
            return const(cval(a) / cval(b))
        except Exception:
            pass
    return mk('div', a, b)


def concat(*parts):
    out = []
    for p in parts:
        for q in (p.args if p.op == 'concat' else (p,)):
            if q.op == 'const' and q.args[1] == '':
                continue
            if out and out[-1].op == 'const' and q.op == 'const' and isinstance(q.args[1], str) and isinstance(out[-1].args[1], str):
                out[-1] = const(out[-1].args[1] + q.args[1])
            else:
                out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and typ(out[0]) == 'str':
        return out[0]
    return mk('concat', *out)


def fmt(v, spec=None, conv=None):
    spec = spec if spec is not None else const('')
    if v.op == 'const' and spec.op == 'const':
        x = v.args[1]
        try:
            if conv == 'r':
                x = repr(x)
            elif conv == 's':
                x = str(x)
            return const(format(x, spec.args[1]))
        except Exception:
            pass
    if lit(spec, '') and conv in (None, 's') and typ(v) == 'str':
        return v
    return mk('fmt', v, spec, conv or '')
