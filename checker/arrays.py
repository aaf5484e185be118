"""Normal form of numpy array values whose shape is known: nested `nd` terms over scalar terms.

norm(t) maps an array-valued term (constructor calls, element and slice stores, views, arithmetic, dot/inv) to
nd(...nd(scalar...)...); terms it does not understand are returned as they are.
"""
from .terms import Term, mk, const, NONE, is_const, cval, lit
from . import ops, docs

MK = {'numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.copy'}
FILL = {'numpy.zeros': 0.0, 'numpy.ones': 1.0, 'numpy.empty': None}
MEMO = {}


def nd(*xs):
    return mk('nd', *xs)


def ND(x):
    """expected value: nested python lists of terms / numbers -> nd"""
    if isinstance(x, (list, tuple)):
        return nd(*(ND(y) for y in x))
    return x if isinstance(x, Term) else const(x)


def isnd(t):
    return t.op == 'nd'


def shape(t):
    """shape tuple of a normal form, None when irregular / unknown"""
    if t.op != 'nd':
        return ()
    if not t.args:
        return (0,)
    s = shape(t.args[0])
    for x in t.args[1:]:
        if shape(x) != s:
            return None
    return (len(t.args),) + s


def struct_fields(d):
    """[(name, subarray shape)] of a structured dtype"""
    if d is None or d.op != 'call' or d.args[0].op != 'ext' or d.args[0].args[0] != 'numpy.dtype' or len(d.args) < 2:
        return fields_list(d)
    return fields_list(d.args[1])


def fields_list(l):
    if l is None or l.op not in ('list', 'tuple') or not l.args:
        return None
    out = []
    for x in l.args:
        if x.op not in ('tuple', 'list') or len(x.args) not in (2, 3) or not (is_const(x.args[0]) and isinstance(cval(x.args[0]), str)):
            return None
        sub = () if len(x.args) == 2 else ints(x.args[2])
        if sub is None:
            return None
        out.append((cval(x.args[0]), sub))
    return out


def struct(d, **fields):
    return mk('struct', d, *(mk('kv', const(k), v) for k, v in fields.items()))


def struct_get(t, name):
    for x in t.args[1:]:
        if lit(x.args[0], name):
            return x.args[1]
    return None


def struct_shape(t):
    f = struct_fields(t.args[0])
    sh = shape(t.args[1].args[1])
    if not f or sh is None:
        return None
    return sh[:len(sh) - len(f[0][1])]


def ints(t):
    if is_const(t) and type(cval(t)) is int:
        return (cval(t),)
    if t.op in ('tuple', 'list', 'nd') and all(is_const(x) and type(cval(x)) is int for x in t.args):
        return tuple(cval(x) for x in t.args)
    return None


def full(sh, v):
    if not sh:
        return v
    return nd(*([full(sh[1:], v)] * sh[0]))


def flatten(t):
    if t.op != 'nd':
        return [t]
    out = []
    for x in t.args:
        out.extend(flatten(x))
    return out


def build(flat, sh):
    if not sh:
        return flat[0]
    n = 1
    for x in sh[1:]:
        n *= x
    return nd(*(build(flat[i * n:(i + 1) * n], sh[1:]) for i in range(sh[0])))


def reshape(t, sh):
    f = flatten(t)
    n = 1
    for x in sh:
        n *= x if x != -1 else 1
    if -1 in sh:
        if n == 0 or len(f) % n:
            return None
        sh = tuple(len(f) // n if x == -1 else x for x in sh)
    elif n != len(f):
        return None
    return build(f, sh)


def elementwise(fn, *xs):
    """fn over scalars with broadcasting of scalars and equal shapes (plus leading-axis broadcasting)"""
    shs = [shape(x) for x in xs]
    if any(s is None for s in shs):
        return None
    depth = max(len(s) for s in shs)
    if depth == 0:
        return fn(*xs)
    n = {s[0] for s, x in zip(shs, xs) if len(s) == depth}
    if len(n) != 1:
        if len(n) == 2 and 1 in n:
            k = max(n)
            xs = [nd(*(x.args * k)) if len(s) == depth and s[0] == 1 else x for s, x in zip(shs, xs)]
            n = {k}
        else:
            return None
    k = n.pop()
    out = []
    for i in range(k):
        r = elementwise(fn, *(x.args[i] if len(s) == depth else x for s, x in zip(shs, xs)))
        if r is None:
            return None
        out.append(r)
    return nd(*out)


def transpose(t, perm=None):
    sh = shape(t)
    if sh is None:
        return None
    f = flatten(t)
    perm = perm or tuple(reversed(range(len(sh))))
    if len(perm) != len(sh):
        return None
    nsh = tuple(sh[p] for p in perm)
    st = [1] * len(sh)
    for i in range(len(sh) - 2, -1, -1):
        st[i] = st[i + 1] * sh[i + 1]
    out = []

    def go(i, off):
        if i == len(nsh):
            out.append(f[off])
            return
        for j in range(nsh[i]):
            go(i + 1, off + j * st[perm[i]])
    go(0, 0)
    return build(out, nsh)


def namekey(k):
    """(field name, rest of the key) of a key with a field name in it"""
    ks = list(k.args) if k.op == 'tuple' else [k]
    for i, x in enumerate(ks):
        if is_const(x) and isinstance(cval(x), str):
            rest = ks[:i] + ks[i + 1:]
            return cval(x), mk('tuple', *rest) if rest else None
    return None


def index(t, k):
    """t[k] or None"""
    if t.op == 'struct':
        nk = namekey(k)
        if nk is not None:
            v = struct_get(t, nk[0])
            return v if nk[1] is None or v is None else index(v, nk[1])
        vs = [(x.args[0], index(x.args[1], k)) for x in t.args[1:]]
        return None if any(v is None for _, v in vs) else mk('struct', t.args[0], *(mk('kv', n, v) for n, v in vs))
    if t.op != 'nd':
        return None
    ks = list(k.args) if k.op == 'tuple' else [k]
    nax = sum(1 for x in ks if x is not NONE and not (lit(x, Ellipsis) or x.op == 'ellipsis'))
    sh = shape(t)
    if sh is None:
        if len(ks) != 1:
            return None
    elif nax > len(sh):
        return None
    out = []
    for x in ks:
        if (x.op == 'ellipsis' or is_const(x) and cval(x) is Ellipsis):
            out.extend([mk('slice', NONE, NONE, NONE)] * (len(sh) - nax))
        else:
            out.append(x)

    def go(t, ks):
        if not ks:
            return t
        x = ks[0]
        if x is NONE:
            r = go(t, ks[1:])
            return None if r is None else nd(r)
        if is_const(x) and type(cval(x)) is int:
            if not -len(t.args) <= cval(x) < len(t.args):
                return None
            return go(t.args[cval(x)], ks[1:])
        if x.op == 'slice' and all(is_const(y) for y in x.args):
            rs = [go(y, ks[1:]) for y in t.args[slice(*(cval(y) for y in x.args))]]
            return None if any(r is None for r in rs) else nd(*rs)
        if x.op in ('list', 'nd') and ints(x) is not None:
            rs = [go(t.args[i], ks[1:]) for i in ints(x)]
            return None if any(r is None for r in rs) else nd(*rs)
        return None
    return go(t, out)


def store(t, k, v):
    """t with t[k] = v (v broadcast)"""
    ks = list(k.args) if k.op == 'tuple' else [k]

    def put(t, ks, v):
        if not ks:
            if t.op == 'nd':
                if v.op != 'nd':
                    return full(shape(t), v) if shape(t) is not None else None
                r = elementwise(lambda a, b: b, t, v)
                return r if r is not None and shape(r) == shape(t) else None
            return v if v.op != 'nd' else v.args[0] if len(v.args) == 1 and v.args[0].op != 'nd' else None
        if t.op != 'nd':
            return None
        x = ks[0]
        if (x.op == 'ellipsis' or is_const(x) and cval(x) is Ellipsis) and len(ks) == 1:
            return put(t, [], v)
        a = list(t.args)
        if is_const(x) and type(cval(x)) is int:
            if not -len(a) <= cval(x) < len(a):
                return None
            r = put(a[cval(x)], ks[1:], v)
            if r is None:
                return None
            a[cval(x)] = r
            return nd(*a)
        if x.op == 'slice' and all(is_const(y) for y in x.args):
            ix = list(range(len(a)))[slice(*(cval(y) for y in x.args))]
            # which axis of v runs along this slice
            rest = sum(1 for y in ks[1:] if y.op == 'slice')
            sub = shape(a[0])
            if sub is None:
                return None
            left = len(sub) - (len(ks) - 1) + rest   # axes of v below this one
            vs = shape(v)
            if vs is None:
                return None
            for j, i in enumerate(ix):
                if len(vs) == left + 1:
                    if vs[0] not in (1, len(ix)):
                        return None
                    w = v.args[j if vs[0] > 1 or len(ix) == 1 else 0]
                else:
                    w = v
                r = put(a[i], ks[1:], w)
                if r is None:
                    return None
                a[i] = r
            return nd(*a)
        return None
    return put(t, ks, v)


def seq(t):
    """array from a (nested) python sequence"""
    if t.op in ('list', 'tuple', 'nd'):
        if any(x.op in ('each', 'opt', 'splice', 'del') for x in t.args):
            return None
        rs = [seq(x) if x.op in ('list', 'tuple') else norm(x) for x in t.args]
        return None if any(r is None for r in rs) else nd(*rs)
    return norm(t)


def scalar_conv(ty, t):
    """array element conversion: numbers keep their value, texts become numbers"""
    if t.op == 'tok':
        return mk('call', mk('ext', ty), t)
    if ty == 'float' and is_const(t):
        try:
            return const(float(cval(t)))
        except (ValueError, TypeError):
            return t
    return t


def astype(t, ty):
    if ty not in ('float', 'int'):
        return t
    if t.op == 'nd':
        return nd(*(astype(x, ty) for x in t.args))
    return scalar_conv(ty, t)


def dtype_of(c):
    for x in c.args[2:]:
        d = x.args[1] if x.op == 'kw' and x.args[0] == 'dtype' else x if x.op == 'ext' else None
        if d is not None:
            if d.op == 'ext':
                return {'float': 'float', 'int': 'int', 'numpy.float64': 'float', 'numpy.int64': 'int', 'bool': 'bool', 'numpy.bool_': 'bool', 'numpy.double': 'float',
                        'numpy.int32': 'int', 'numpy.int_': 'int', 'numpy.intc': 'int'}.get(d.args[0], '?')
            if is_const(d) and isinstance(cval(d), str):
                return {'float': 'float', 'f8': 'float', 'd': 'float', 'int': 'int', 'float64': 'float', 'double': 'float', 'intc': 'int', 'int32': 'int', 'int64': 'int', 'i': 'int'}.get(cval(d), '?')
            return '?'
    return None


def kwarg(c, name, pos=None):
    for x in c.args[1:]:
        if x.op == 'kw' and x.args[0] == name:
            return x.args[1]
    pos_args = [x for x in c.args[1:] if x.op != 'kw']
    return pos_args[pos] if pos is not None and pos < len(pos_args) else None


def dot(a, b):
    sa = shape(a)
    if isnd(a) and sa is not None and all(lit(x, 0.0) or lit(x, 1.0) for x in flatten(a)) and False:
        return None
    # conversion and its inverse cancel
    d = a.args[0].args[0] if isnd(a) and a.args and all(x.op == 'item' and x.args[0].op == 'dot' and lit(x.args[1], i) and x.args[0] is a.args[0].args[0]
                                                       for i, x in enumerate(a.args)) else a if a.op == 'dot' else None
    if d is not None and (inv(d.args[1]) is b or (b.op != 'inv' and d.args[1].op == 'inv' and d.args[1].args[0] is b)):
        return d.args[0]
    t = mk('dot', a, b)
    if len(sa or ()) == 1:
        n = None
        m = b.args[0] if b.op == 'inv' else b
        sm = shape(m) if isnd(m) else None
        if sm is not None and len(sm) == 2:
            n = sm[1]
        if sm is not None and len(sm) == 1:
            return t
        if n is not None:
            return nd(*(mk('item', t, const(i)) for i in range(n)))
    return t


def inv(a):
    return mk('inv', a)


def norm(t):
    if not isinstance(t, Term):
        return t
    r = MEMO.get(t)
    if r is None:
        r = _norm(t)
        r = t if r is None else r
        MEMO[t] = r
        MEMO.setdefault(r, r)
    return r


def _norm(t):
    o = t.op
    if o == 'nd':
        return nd(*(norm(x) for x in t.args))
    if o == 'arr':
        b = norm(t.args[0])
        for e in t.args[1:]:
            if e.op != 'st' or b is None:
                return None
            v = e.args[1]
            v = seq(v) if v.op in ('list', 'tuple') else norm(v)
            if v is None or b.op not in ('nd', 'struct'):
                return None
            if b.op == 'struct':
                nk = namekey(e.args[0])
                f = struct_get(b, nk[0]) if nk is not None else None
                if f is None:
                    return None
                v = store(f, nk[1] if nk[1] is not None else const(Ellipsis), astype(v, 'float'))
                if v is None:
                    return None
                b = mk('struct', b.args[0], *(mk('kv', x.args[0], v if lit(x.args[0], nk[0]) else x.args[1]) for x in b.args[1:]))
                continue
            dt = dtype_of(t.args[0]) if t.args[0].op == 'call' else None
            if t.args[0].op == 'call' and t.args[0].args[0].op == 'ext' and t.args[0].args[0].args[0] == 'numpy.full':
                v0 = kwarg(t.args[0], 'fill_value', 1)
                dt = dt or ('int' if v0 is not None and is_const(v0) and type(cval(v0)) is int else 'float')
                if dt not in ('float', 'int'):
                    return None
                v = astype(v, dt)
            if t.args[0].op == 'call' and t.args[0].args[0].op == 'ext' and t.args[0].args[0].args[0] in ('numpy.zeros', 'numpy.ones', 'numpy.empty') and dt in (None, 'float', 'int'):
                v = astype(v, dt or 'float')
            b = store(b, e.args[0], v)
        return b
    if o in ('mul', 'lin', 'div', 'floordiv', 'pow', 'mod'):
        if o == 'lin':
            xs = [norm(x) for _, x in t.args[1]]
            if not any(isnd(x) for x in xs) and all(x is y for x, (_, y) in zip(xs, t.args[1])):
                return None
            cs = [c for c, _ in t.args[1]]
            return elementwise(lambda *v: ops.mklin(t.args[0], list(zip(cs, v))), *xs)
        xs = [norm(x) for x in t.args]
        if not any(isnd(x) for x in xs) and all(x is y for x, y in zip(xs, t.args)):
            return None
        if o == 'mul':
            def f(*v):
                r = v[0]
                for y in v[1:]:
                    r = ops.mul(r, y)
                return r
            return elementwise(f, *xs)
        return elementwise((lambda a, b: ops.div(a, b)) if o == 'div' else (lambda a, b: mk(o, a, b)), *xs)
    if o == 'binop' or o == 'matmul':
        return None
    if o == 'item':
        b = norm(t.args[0])
        if isnd(b):
            k = t.args[1]
            return index(b, k)
        return None
    if o == 'attr':
        if t.args[1] == 'T':
            b = norm(t.args[0])
            if isnd(b):
                return transpose(b)
            if b.op == 'inv':
                m = transpose(b.args[0]) if isnd(b.args[0]) else None
                return inv(m) if m is not None else None
        return None
    if o == 'ite':
        a, b = norm(t.args[1]), norm(t.args[2])
        if (a, b) != (t.args[1], t.args[2]):
            return ops.ite(t.args[0], a, b)
        return None
    if o in ('list', 'tuple'):
        if any(x.op in ('each', 'opt', 'splice', 'del') for x in t.args):
            return None
        return mk(o, *(norm(x) for x in t.args))
    if o == 'dict':
        return mk('dict', *(mk('kv', x.args[0], norm(x.args[1])) if x.op == 'kv' else x for x in t.args))
    if o == 'inst':
        return mk('inst', t.args[0], *(mk('kv', x.args[0], norm(x.args[1])) if x.op == 'kv' else x for x in t.args[1:]))
    if o != 'call':
        return None
    f = t.args[0]
    if f.op == 'method' and len(t.args) > 1:
        b = norm(t.args[1])
        m = f.args[0]
        a = t.args[2:]
        if m in ('reshape',) and isnd(b):
            sh = ints(a[0]) if len(a) == 1 else ints(mk('tuple', *(x for x in a if x.op != 'kw')))
            return reshape(b, sh) if sh is not None else None
        if m in ('flatten', 'ravel') and isnd(b) and not a:
            return nd(*flatten(b))
        if m in ('copy', 'squeeze') and isnd(b) and m == 'copy':
            return b
        if m == 'tolist' and isnd(b):
            def tl(x):
                return mk('list', *(tl(y) for y in x.args)) if isnd(x) else x
            return tl(b)
        if m == 'transpose' and isnd(b):
            return transpose(b, ints(mk('tuple', *a)) if len(a) > 1 else ints(a[0]) if a else None)
        if m == 'swapaxes' and isnd(b):
            return swap(b, a)
        if m in ('sum', 'prod', 'diagonal', 'trace') and isnd(b):
            return reduced(m, b, t, [x for x in t.args[1:] if x.op != 'kw'])
        if m == 'astype' and isnd(b) and a and a[0].op == 'ext' and a[0].args[0] in ('float', 'int'):
            return astype(b, a[0].args[0])
        if m == 'dot' and a:
            return dot(b, norm(a[0]))
        return None
    if f.op != 'ext':
        return None
    n = f.args[0]
    a = [x for x in t.args[1:] if x.op != 'kw']
    if n in MK and a:
        r = seq(a[0]) if a[0].op in ('list', 'tuple') else norm(a[0])
        dt = dtype_of(t)
        if dt == '?' or r is None:
            return None
        if isnd(r) or r.op in ('dot', 'inv'):
            return astype(r, dt) if dt else r
        if a[0] is not r:
            return r
        return None
    if n in FILL and a:
        sh = ints(a[0])
        dt = dtype_of(t)
        sf = struct_fields(kwarg(t, 'dtype', 1)) if kwarg(t, 'dtype', 1) is not None else None
        if sf and sh is not None and sh and 0 not in sh:
            return mk('struct', kwarg(t, 'dtype', 1), *(mk('kv', const(k), full(sh + sub, mk('unknown', 'empty array') if FILL[n] is None else const(FILL[n]))) for k, sub in sf))
        if sh is None or dt == '?' or (len(a) > 1 and a[1].op != 'ext') or 0 in sh[1:] or len(sh) > 1 and not sh[0]:
            return None
        v = FILL[n]
        if v is None:
            return full(sh, mk('unknown', 'empty array'))
        return full(sh, const(int(v) if dt == 'int' else bool(v) if dt == 'bool' else v))
    if n == 'numpy.full' and a:
        sh = ints(a[0])
        v = kwarg(t, 'fill_value', 1)
        return full(sh, v) if sh is not None and v is not None else None
    if n in ('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like') and a:
        b = norm(a[0])
        return full(shape(b), mk('unknown', 'empty array') if 'empty' in n else const(0.0 if 'zeros' in n else 1.0)) if isnd(b) and shape(b) is not None else None
    if n == 'numpy.transpose' and a:
        b = norm(a[0])
        p = kwarg(t, 'axes', 1)
        if b.op == 'inv' and isnd(b.args[0]):
            return inv(transpose(b.args[0]))
        return transpose(b, ints(p) if p is not None else None) if isnd(b) else None
    if n == 'numpy.swapaxes' and len(a) == 3:
        b = norm(a[0])
        return swap(b, a[1:]) if isnd(b) else None
    if n == 'numpy.squeeze' and a:
        b = norm(a[0])
        ax = kwarg(t, 'axis', 1)
        sh = shape(b) if isnd(b) else None
        if sh is None:
            return None
        axs = [i for i, x in enumerate(sh) if x == 1] if ax is None or ax is NONE else [i % len(sh) for i in (ints(ax) or ())]
        if any(sh[i] != 1 for i in axs):
            return None
        return reshape(b, tuple(x for i, x in enumerate(sh) if i not in axs))
    if n == 'numpy.reshape' and len(a) > 1:
        b = norm(a[0])
        sh = ints(a[1])
        return reshape(b, sh) if isnd(b) and sh is not None else None
    if n in ('numpy.ravel',) and a:
        b = norm(a[0])
        return nd(*flatten(b)) if isnd(b) else None
    if n in ('numpy.concatenate', 'numpy.vstack', 'numpy.hstack', 'numpy.append', 'numpy.stack', 'numpy.column_stack') and a:
        if n == 'numpy.append':
            xs = [norm(a[0]), norm(a[1])] if len(a) > 1 else []
        elif a[0].op in ('list', 'tuple'):
            xs = [seq(x) if x.op in ('list', 'tuple') else norm(x) for x in a[0].args]
        elif isnd(norm(a[0])):
            xs = list(norm(a[0]).args)
        else:
            return None
        if any(x is None or not isnd(x) or shape(x) is None for x in xs) or not xs:
            return None
        ax = kwarg(t, 'axis', 2 if n == 'numpy.append' else 1)
        axis = ints(ax)[0] if ax is not None and ints(ax) else 0
        if n == 'numpy.append' and ax is None:
            return nd(*(y for x in xs for y in flatten(x)))
        if n == 'numpy.stack':
            s = nd(*xs)
            sh = shape(s)
            if sh is None:
                return None
            axis %= len(sh)
            p = list(range(1, len(sh)))
            p.insert(axis, 0)
            return transpose(s, tuple(p))
        if n == 'numpy.vstack':
            xs = [nd(x) if len(shape(x)) == 1 else x for x in xs]
            axis = 0
        if n == 'numpy.hstack':
            axis = 0 if len(shape(xs[0])) == 1 else 1
        if n == 'numpy.column_stack':
            xs = [nd(*(nd(y) for y in x.args)) if len(shape(x)) == 1 else x for x in xs]
            axis = 1
        return cat(xs, axis)
    if n == 'numpy.fromstring' and a:
        sep = kwarg(t, 'sep')
        s = docs.enc(a[0])
        if s is None or not lit(sep, ' ') or dtype_of(t) not in (None, 'float', 'int'):
            return None
        ty = dtype_of(t) or 'float'
        out = []
        for w in s.split():
            x = docs.dec(w)
            if x.op == 'tok' and (x.args[0] in docs.INTK or ty == 'float' and x.args[0] in docs.FLTK):
                out.append(mk('call', mk('ext', ty), x))
            elif x.op == 'const':
                try:
                    out.append(const(float(cval(x)) if ty == 'float' else int(cval(x))))
                except ValueError:
                    return None
            else:
                return None
        return nd(*out)
    if n in ('numpy.diag', 'numpy.diagonal', 'numpy.trace', 'numpy.sum', 'numpy.prod', 'numpy.roll', 'numpy.flip') and a:
        return reduced(n[6:], norm(a[0]), t, a)
    if n in ('numpy.dot', 'numpy.matmul') and len(a) == 2:
        return dot(norm(a[0]), norm(a[1]))
    if n == 'numpy.linalg.inv' and len(a) == 1:
        return inv(norm(a[0]))
    if n == 'numpy.linalg.solve' and len(a) == 2:
        m, v = norm(a[0]), norm(a[1])
        if isnd(m) and isnd(v) and shape(m) is not None and len(shape(m)) == 2 and len(shape(v) or ()) == 1:
            return dot(v, inv(transpose(m)))
        return None
    if n in ('numpy.multiply', 'numpy.divide', 'numpy.true_divide') and len(a) == 2:
        return elementwise(ops.mul if n == 'numpy.multiply' else ops.div, norm(a[0]), norm(a[1]))
    if n in ('float', 'int') and len(a) == 1:
        x = norm(a[0])
        if x is not a[0]:
            if is_const(x) or (x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] == n):
                try:
                    return const({'float': float, 'int': int}[n](cval(x))) if is_const(x) else x
                except (TypeError, ValueError):
                    return None
            return mk('call', f, x)
        return None
    if n == 'list' and len(a) == 1:
        x = norm(a[0])
        return mk('list', *x.args) if isnd(x) else None
    if n in ('numpy.cross',) and len(a) == 2:
        return mk('call', f, norm(a[0]), norm(a[1]))
    return None


def swap(b, a):
    sh = shape(b)
    i, j = ints(a[0]), ints(a[1])
    if sh is None or i is None or j is None or not all(-len(sh) <= x < len(sh) for x in (*i, *j)):
        return None
    p = list(range(len(sh)))
    p[i[0]], p[j[0]] = p[j[0]], p[i[0]]
    return transpose(b, tuple(p))


def reduced(n, b, t, a):
    """sums, products, diagonals and shifts of an array whose elements are all known"""
    if b.op in ('list', 'tuple'):
        b = seq(b)
    sh = shape(b) if b is not None and isnd(b) else None
    if not sh:
        return None
    extra = t.args[1 + len(a):]
    if n in ('diag', 'diagonal', 'trace'):
        if len(sh) != 2 or len(a) > 1 or extra:
            return None
        d = [b.args[i].args[i] for i in range(min(sh))]
        return total(d, ops.add) if n == 'trace' else nd(*d)
    if n in ('sum', 'prod'):
        fn = ops.add if n == 'sum' else ops.mul
        ax = kwarg(t, 'axis', 1)
        if len(extra) > (1 if kwarg(t, 'axis') is not None else 0):
            return None
        if ax is None or ax is NONE:
            return total(flatten(b), fn)
        k = ints(ax)
        if k is None or len(k) != 1 or not -len(sh) <= k[0] < len(sh):
            return None
        k = k[0] % len(sh)
        rows = transpose(b, (k, *(i for i in range(len(sh)) if i != k))).args
        return total(rows, lambda x, y: elementwise(fn, x, y))
    k = kwarg(t, 'axis', 1 if n == 'flip' else 2)
    if k is None and len(sh) > 1:
        return None
    k = (ints(k) if k is not None else (0,)) or (None,)
    by = ints(a[1]) if n == 'roll' and len(a) > 1 else (0,)
    if len(k) != 1 or k[0] is None or not -len(sh) <= k[0] < len(sh) or by is None or len(by) != 1:
        return None
    p = (k[0] % len(sh), *(i for i in range(len(sh)) if i != k[0] % len(sh)))
    xs = list(transpose(b, p).args)
    if n == 'flip':
        xs.reverse()
    else:
        r = by[0] % len(xs)
        xs = xs[len(xs) - r:] + xs[:len(xs) - r]
    return transpose(nd(*xs), tuple(p.index(i) for i in range(len(p))))


def total(xs, fn):
    r = xs[0] if xs else None
    for x in xs[1:]:
        r = fn(r, x) if r is not None else None
    return r


def cat(xs, axis):
    if axis < 0:
        axis += len(shape(xs[0]))
    if axis == 0:
        return nd(*(y for x in xs for y in x.args))
    if len({len(x.args) for x in xs}) != 1:
        return None
    rs = [cat([x.args[i] for x in xs], axis - 1) for i in range(len(xs[0].args))]
    return None if any(r is None for r in rs) else nd(*rs)


NDCALLS = MK | set(FILL) | {'numpy.full', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.transpose', 'numpy.swapaxes', 'numpy.reshape', 'numpy.concatenate',
                            'numpy.vstack', 'numpy.hstack', 'numpy.stack', 'numpy.append', 'numpy.fromstring', 'numpy.linalg.inv', 'numpy.empty', 'numpy.squeeze',
                            'numpy.loadtxt', 'numpy.ravel', 'numpy.column_stack', 'numpy.diag', 'numpy.diagonal', 'numpy.roll', 'numpy.flip'}


def is_array(t):
    """the term is definitely a numpy array"""
    if t.op == 'nd' or (t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in NDCALLS):
        return True
    if t.op == 'arr':
        return is_array(t.args[0])
    if t.op in ('mul', 'div'):
        return any(is_array(x) for x in t.args)
    if t.op == 'lin':
        return any(is_array(x) for _, x in t.args[1])
    if t.op in ('dot', 'inv', 'call', 'item', 'attr'):
        return isnd(norm(t)) or t.op == 'inv'
    return False
