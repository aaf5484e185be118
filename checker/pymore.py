"""More of the Python library on known values: short-circuit generators, positions in texts, comparisons and views of arrays.

Like pyext this is exact for what it accepts and hands everything else on."""
import ast

from .terms import mk, const, NONE, TRUE, FALSE, is_const, cval, lit
from . import ops, docs, arrays
from .state import Dead

UNBOUND = {'str', 'list', 'dict', 'set', 'float', 'int', 'bytes'}
NOTMETH = {'fromkeys', 'maketrans', 'fromhex', 'from_bytes', 'mro', '__name__'}
STRKW = {'split': ('sep', 'maxsplit'), 'rsplit': ('sep', 'maxsplit'), 'splitlines': ('keepends',), 'expandtabs': ('tabsize',)}
FINDS = ('find', 'rfind', 'index', 'rindex')


def textlen(s):
    """length of an encoded text, additive over its parts"""
    r = const(sum(c not in docs._TOK for c in s))
    for c in s:
        t = docs._TOK.get(c)
        if t is not None:
            r = ops.add(r, mk('len', t))
    return r


def position(s, k):
    """offset into an encoded text of an index term, None when it does not fall on a known place"""
    if is_const(k) and type(cval(k)) is int:
        i = cval(k)
        if i >= 0:
            if not docs.hastok(s[:i]):
                return min(i, len(s))
            return None
        return max(len(s) + i, 0) if not docs.hastok(s[i:]) else None
    n = textlen(s)
    for p in range(len(s) + 1):
        q = textlen(s[:p])
        if q is k or ops.sub(q, n) is k and p < len(s):
            return p
    return None


def addleaves(a, b):
    if a.op == 'ite':
        return ops.ite(a.args[0], addleaves(a.args[1], b), addleaves(a.args[2], b))
    if b.op == 'ite':
        return ops.ite(b.args[0], addleaves(a, b.args[1]), addleaves(a, b.args[2]))
    return const(cval(a) + cval(b))


def basic(k):
    """an index that gives a view"""
    return all(is_const(x) and type(cval(x)) is int or (lit(x, Ellipsis) or x.op == 'ellipsis') or x.op == 'slice' and all(is_const(y) for y in x.args) for x in (k.args if k.op == 'tuple' else (k,)))


def rowlike(x):
    return x.op == 'nd' or x.op == 'tuple' and any(y.op == 'nd' for y in x.args)


class PyMoreMixin:
    # ------------------------------------------------------------ short-circuit consumers of generators

    def e_Call(self, n, st):
        if self.docmode and isinstance(n.func, ast.Name) and n.func.id in ('next', 'any', 'all') and not n.keywords and n.args \
                and isinstance(n.args[0], ast.GeneratorExp) and len(n.args) <= (2 if n.func.id == 'next' else 1) and self.lookup(n.func.id, st) is None:
            if n.func.id == 'next':
                return self.next_gen(n, st)
            self.stops.append(None)
            try:
                stop = n.func.id == 'any'
                r = self.comp_ast(n.args[0], st, 'list', lambda s: self.eval(n.args[0].elt, s), stop=lambda s, v: self.dec(s, self.truth(s, v)) is stop)
            finally:
                self.stops.pop()
            return self.call_ext(st, n.func.id, [r], {}, n)
        return super().e_Call(n, st)

    def next_gen(self, n, st):
        """next(E for T in I if C) is the first pass through the body of the loop"""
        fn = getattr(n, '_nextfn', None)
        if fn is None:
            g = n.args[0]
            nm = f'__next_{n.lineno}_{n.col_offset}'
            ret = [ast.Return(g.elt)]
            for c in reversed(g.generators):
                for i in reversed(c.ifs):
                    ret = [ast.If(i, ret, [])]
                ret = [ast.For(c.target, c.iter, ret, [])]
            end = ast.Return(n.args[1]) if len(n.args) > 1 else ast.Raise(ast.Call(ast.Name('StopIteration', ast.Load()), [], []), None)
            d = ast.FunctionDef(nm, ast.arguments([], [], None, [], [], None, []), ret + [end], [], None)
            d.type_params = []
            ast.copy_location(d, n)
            ast.fix_missing_locations(d)
            for x in ast.walk(d):
                if hasattr(x, 'lineno') and x.lineno is None:
                    x.lineno = n.lineno
            fn = n._nextfn = (nm, d)
        r = self.exec_block([fn[1]], st)
        if r is None:
            raise Dead()
        return self.call_value(st, self.lookup(fn[0], st), [], {}, n)

    # ------------------------------------------------------------ calls

    def call_ext(self, st, name, args, kwargs, n):
        if '.' in name and args:
            cls, meth = name.split('.', 1)
            if cls in UNBOUND and '.' not in meth and meth not in NOTMETH:
                if meth == '__format__' and len(args) == 2:
                    return self.fmt(st, args[0], args[1])
                return self.call_method(st, args[0], meth, list(args[1:]), kwargs, n)
        if self.docmode and name.startswith('numpy.'):
            r = self.np_more(st, name[6:], args, kwargs)
            if r is not NotImplemented:
                return r
        return super().call_ext(st, name, args, kwargs, n)

    def call_method(self, st, o, name, args, kwargs, n):
        if kwargs and name in STRKW and set(kwargs) <= set(STRKW[name]):
            pos = list(args)
            for i, k in enumerate(STRKW[name]):
                if k in kwargs:
                    while len(pos) < i:
                        pos.append(NONE)
                    pos.append(kwargs[k])
            args, kwargs = pos, {}
        if name in FINDS and len(args) == 1 and not kwargs:
            o = self.res(st, o)
            a = self.res(st, args[0])
            s, x = docs.enc(o) if o.op in ('tok', 'concat') else None, docs.enc(a)
            if s is not None and x is not None and docs.hastok(s) and not docs.hastok(x) and not docs.maybe_match(s, x):
                i = getattr(s, 'rfind' if name[0] == 'r' else 'find')(x)
                if i >= 0:
                    return textlen(s[:i])
                if name.endswith('find'):
                    return const(-1)
                self.do_raise(st, self.exc('ValueError', const('substring not found')))
        if name == '__format__' and len(args) == 1 and self.clsof(o) is None:
            return self.fmt(st, o, args[0])
        if self.docmode and name == 'tolist' and not args and not kwargs:
            b = self.array_of(st, self.res(st, o))
            if b is not None:
                def tl(x):
                    return self.newlist(st, [tl(y) for y in x.args]) if x.op == 'nd' else x
                return tl(b)
        if self.docmode and name in ('any', 'all', 'sum') and not args and not kwargs:
            b = self.array_of(st, self.res(st, o))
            f = arrays.flatten(b) if b is not None and arrays.shape(b) is not None else ()
            if f and all(ops.boolish(x) for x in f):
                if name == 'sum':
                    return self.count_true(st, f)
                return ops.disj(f) if name == 'any' else ops.conj(f)
        if self.docmode and o.op == 'ref' and o.args[1] == 'strio' and name in ('seek', 'tell', 'read') and args and not (name == 'seek' and lit(args[0], 0) and len(args) == 1):
            self.note('position in text', name)
        return super().call_method(st, o, name, args, kwargs, n)

    def no_attribute(self, st, o, name):
        if name in ('popleft', 'appendleft', 'extendleft', 'rotate') and o.op == 'ref' and o.args[1] == 'list':
            return
        super().no_attribute(st, o, name)

    def list_method(self, st, o, c, name, args, kwargs, n):
        if self.docmode and name == 'rotate' and c is not None and c.op == 'list' and all(x.op not in ('each', 'opt', 'splice', 'del') for x in c.args):
            k = self.res(st, args[0]) if args else const(1)
            if is_const(k) and c.args:
                i = cval(k) % len(c.args)
                st.m[('c', o)] = mk('list', *c.args[len(c.args) - i:], *c.args[:len(c.args) - i])
                return NONE
        if name == 'count' and len(args) == 1 and c is not None and c.op in ('list', 'tuple') and all(x.op not in ('each', 'opt', 'splice', 'del') for x in c.args):
            return self.count_true(st, [self.compare(st, ast.Eq(), e, args[0]) for e in c.args])
        return super().list_method(st, o, c, name, args, kwargs, n)

    def count_true(self, st, cs):
        """how many of some conditions hold"""
        def go(i, k):
            if i == len(cs):
                return const(k)
            d = self.dec(st, cs[i])
            if d is not None:
                return go(i + 1, k + d)
            return ops.ite(cs[i], go(i + 1, k + 1), go(i + 1, k))
        if sum(self.dec(st, c) is None for c in cs) > 10:
            return mk('count', *cs)
        return go(0, 0)

    def b_sum(self, st, args, kw, n):
        k = self.known_seq(st, self.res(st, args[0])) if len(args) == 1 and not kw else None
        if k and all(ops.boolish(self.res(st, x)) for x in k):
            return self.count_true(st, [self.res(st, x) for x in k])
        return super().b_sum(st, args, kw, n)

    def _num(self, name, py, st, args):
        if len(args) == 1:
            x = self.res(st, args[0])
            if x.op != 'const' and ops.boolish(x):
                return ops.ite(x, const(py(1)), const(py(0)))
        return super()._num(name, py, st, args)

    def b_iter(self, st, args, kw, n):
        if self.docmode and len(args) == 2:
            return mk('calliter', *args)
        return super().b_iter(st, args, kw, n)

    def b_dict_fromkeys(self, st, args, kw, n):
        k = self.seq(st, args[0]) if args and not kw else None
        if k is None:
            return NotImplemented
        c = mk('dict')
        for x in k:
            c = self.dict_put(c, x, args[1] if len(args) > 1 else NONE)
        return self.alloc(st, 'dict', c)

    def calliter_next(self, st, v):
        x = self.call_value(st, v.args[0], [], {}, None)
        d = self.dec(st, self.compare(st, ast.Eq(), x, v.args[1]))
        if d is None:
            self.undecidable('iter() with an end value')
        return None if d else x

    def seq(self, st, v):
        v = self.res(st, v)
        if v.op == 'calliter':
            out = []
            while len(out) < 1000:
                x = self.calliter_next(st, v)
                if x is None:
                    return out
                out.append(x)
        return super().seq(st, v)

    def uses_iter(self, st, args):
        return any(a.op == 'calliter' for a in args) or super().uses_iter(st, args)

    def b_next(self, st, args, kw, n):
        v = self.res(st, args[0])
        if v.op == 'calliter':
            x = self.calliter_next(st, v)
            if x is not None:
                return x
            if len(args) > 1:
                return args[1]
            self.do_raise(st, self.exc('StopIteration'))
        return super().b_next(st, args, kw, n)

    # ------------------------------------------------------------ texts

    def length(self, c):
        if c.op in ('list', 'tuple', 'setv', 'dict') and any(e.op == 'opt' for e in c.args) and sum(e.op == 'opt' for e in c.args) < 9 \
                and all(e.op not in ('each', 'splice', 'del') for e in c.args):
            def go(es):
                r = const(0)
                for e in es:
                    x = ops.ite(e.args[0], go(e.args[1]), go(e.args[2])) if e.op == 'opt' else const(1)
                    if not ops.constleaves(x) or not ops.constleaves(r):
                        return mk('unknown', 'length')
                    r = addleaves(r, x)
                return r
            x = go(c.args)
            if ops.constleaves(x):
                return x
        if c.op == 'concat':
            s = docs.enc(c)
            if s is not None and docs.hastok(s):
                return textlen(s)
        return super().length(c)

    def getitem(self, st, o, k):
        o, k = self.res(st, o), self.res(st, k)
        if k.op == 'slice' and o.op in ('tok', 'concat') and docs.index(o, k) is None and k.args[2] is NONE:
            s = docs.enc(o)
            if s is not None:
                lo = 0 if k.args[0] is NONE else position(s, self.res(st, k.args[0]))
                hi = len(s) if k.args[1] is NONE else position(s, self.res(st, k.args[1]))
                if lo is not None and hi is not None:
                    return docs.dec(s[lo:hi])
        if k.op == 'const' or not ops.boolish(k):
            if k.op == 'lin' and o.op in ('tok', 'concat'):
                s = docs.enc(o)
                p = position(s, k) if s is not None else None
                if p is not None and p < len(s) and s[p] not in docs._TOK:
                    return const(s[p])
        elif o.op == 'tuple' or o.op == 'ref' and o.args[1] == 'list':
            return self.fork(st, k, lambda s: self.getitem(s, o, const(1)), lambda s: self.getitem(s, o, const(0)))
        return super().getitem(st, o, k)

    def getattr(self, st, o, name, n=None):
        if self.docmode and o.op == 'ext':
            if o.args[0] == 'os' and name == 'linesep':
                return const('\n')
            if o.args[0] == 'numpy' and name == 'newaxis':
                return NONE
        return super().getattr(st, o, name, n)

    # ------------------------------------------------------------ arrays

    def compare(self, st, op, a, b):
        if self.docmode and isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            a, b = self.res(st, a), self.res(st, b)
            x, y = self.array_of(st, a), self.array_of(st, b)
            if (x is not None or y is not None) and a is not NONE and b is not NONE:
                x = x if x is not None else self.nparr(st, a)
                y = y if y is not None else self.nparr(st, b)
                if x is not None and y is not None:
                    r = arrays.elementwise(lambda p, q: self.compare(st, op, p, q), x, y)
                    if r is not None and r.op == 'nd':
                        return r
                return mk('call', mk('ext', 'numpy.' + type(op).__name__), self.freeze1(st, a), self.freeze1(st, b))
        return super().compare(st, op, a, b)

    def truth(self, st, v):
        if v.op == 'nd':
            f = arrays.flatten(v) if arrays.shape(v) is not None else ()
            if len(f) == 1:
                return self.truth(st, f[0])
            if len(f) > 1:
                self.do_raise(st, self.exc('ValueError', const('The truth value of an array with more than one element is ambiguous.')))
        return super().truth(st, v)

    def mask(self, st, v):
        """flat decided boolean array as a list of bools"""
        b = self.nparr(st, v)
        if b is None or b.op != 'nd' or not b.args or not all(ops.boolish(x) for x in b.args):
            return None
        ds = [self.dec(st, x) for x in b.args]
        return None if None in ds else ds

    def np_more(self, st, name, args, kw):
        if name in ('where', 'nonzero', 'flatnonzero', 'argwhere') and len(args) == 1 and not kw:
            m = self.mask(st, args[0])
            if m is None:
                return NotImplemented
            ix = [const(i) for i, x in enumerate(m) if x]
            if name == 'argwhere':
                return self.newarr(st, arrays.nd(*(arrays.nd(i) for i in ix)))
            a = self.newarr(st, arrays.nd(*ix))
            return a if name == 'flatnonzero' else mk('tuple', a)
        if name == 'where' and len(args) == 3 and not kw:
            c, x, y = (self.nparr(st, a) for a in args)
            if c is None or x is None or y is None or c.op != 'nd' or not all(ops.boolish(q) for q in arrays.flatten(c) or ()):
                return NotImplemented
            r = arrays.elementwise(ops.ite, c, x, y)
            return self.newarr(st, r) if r is not None and r.op == 'nd' else NotImplemented
        if name in ('any', 'all', 'count_nonzero', 'sum') and len(args) == 1 and not kw:
            b = self.nparr(st, args[0])
            f = arrays.flatten(b) if b is not None and b.op == 'nd' and arrays.shape(b) is not None else ()
            if f and all(ops.boolish(x) for x in f):
                return self.count_true(st, f) if name in ('count_nonzero', 'sum') else ops.disj(f) if name == 'any' else ops.conj(f)
        if name == 'argmax' and len(args) == 1 and not kw:
            m = self.mask(st, args[0])
            return const(m.index(True) if True in m else 0) if m is not None else NotImplemented
        if name == 'newaxis':
            return NONE
        if name in ('loadtxt', 'genfromtxt') and args and set(kw) <= {'dtype', 'skiprows', 'skip_header', 'max_rows', 'usecols', 'ndmin', 'comments'}:
            return self.np_loadtxt(st, args, kw)
        if name in ('take', 'delete') and len(args) >= 2 and set(kw) <= {'axis'}:
            b = self.nparr(st, args[0])
            ax = self.res(st, kw.get('axis', args[2] if len(args) > 2 else NONE))
            ix = self.res(st, args[1])
            one = is_const(ix) and type(cval(ix)) is int
            k = [ix] if one else self.known_seq(st, ix)
            if b is None or b.op != 'nd' or k is None or not all(is_const(i) and type(cval(i)) is int for i in k) or not is_const(ax):
                return NotImplemented
            sh = arrays.shape(b)
            if sh is None:
                return NotImplemented
            if ax is NONE:
                b, axis = arrays.nd(*arrays.flatten(b)), 0
            else:
                axis = cval(ax) % len(sh)
            p = (axis, *(i for i in range(len(sh if ax is not NONE else (1,))) if i != axis))
            t = arrays.transpose(b, p) if len(p) > 1 else b
            ks = [cval(i) for i in k]
            m = len(t.args)
            if not all(-m <= i < m for i in ks):
                self.do_raise(st, self.exc('IndexError'))
            if name == 'take':
                if one:
                    r = t.args[ks[0]]
                    return self.newarr(st, r) if r.op == 'nd' else r
                rows = [t.args[i] for i in ks]
            else:
                gone = {i % m for i in ks}
                rows = [x for i, x in enumerate(t.args) if i not in gone]
            if not rows and len(p) > 1:
                return NotImplemented
            r = arrays.nd(*rows)
            return self.newarr(st, arrays.transpose(r, tuple(p.index(i) for i in range(len(p)))) if len(p) > 1 else r)
        return NotImplemented

    def np_loadtxt(self, st, args, kw):
        if len(args) > 1:
            return NotImplemented
        c = kw.get('comments')
        if c is not None and c is not NONE and not lit(c, '#'):
            return NotImplemented
        dt = self.res(st, kw.get('dtype', NONE))
        if not (dt is NONE or dt.op == 'ext' and dt.args[0] == 'float'):
            return NotImplemented
        opt = {k: self.res(st, kw.get(k, const(d))) for k, d in (('skiprows', 0), ('skip_header', 0), ('max_rows', None), ('ndmin', 0))}
        if not all(is_const(x) for x in opt.values()):
            return NotImplemented
        opt = {k: cval(x) for k, x in opt.items()}
        src = self.res(st, args[0])
        if src.op == 'const' or ops.typ(src) == 'str':
            return NotImplemented
        if opt['max_rows'] is not None and (self.uses_iter(st, [src]) or src.op == 'ref' and src.args[1] == 'strio'):
            return NotImplemented
        lines = self.seq(st, src)
        if lines is None and src.op == 'ref' and src.args[1] == 'strio':
            lines = self.known_seq(st, self.call_method(st, src, 'readlines', [], {}, None))
        if lines is None:
            return NotImplemented
        cols = kw.get('usecols')
        if cols is not None and cols is not NONE:
            cols = self.res(st, cols)
            k = [cols] if is_const(cols) else self.known_seq(st, cols)
            if k is None or not all(is_const(i) for i in k):
                return NotImplemented
            cols = [cval(i) for i in k]
        else:
            cols = None
        rows = []
        for l in lines[opt['skiprows'] + opt['skip_header']:]:
            s = docs.enc(self.res(st, l))
            if s is None:
                return NotImplemented
            if c is not NONE:
                if docs.maybe_match(s, '#'):
                    return NotImplemented
                s = s.split('#')[0]
            w = s.split()
            if not w:
                continue
            if opt['max_rows'] is not None and len(rows) >= opt['max_rows']:
                break
            if cols is not None:
                if any(not -len(w) <= i < len(w) for i in cols):
                    self.do_raise(st, self.exc('ValueError'))
                w = [w[i] for i in cols]
            row = []
            for x in w:
                x = docs.dec(x)
                if is_const(x):
                    try:
                        row.append(const(float(cval(x))))
                        continue
                    except ValueError:
                        r = ('raise',)
                else:
                    r = docs.to_number(float, x)
                if r is None or r[0] == 'raise' and 'skip_header' in kw:
                    return NotImplemented
                if r[0] == 'raise':
                    self.do_raise(st, self.exc('ValueError'))
                row.append(r[1])
            rows.append(row)
        if not rows or len({len(r) for r in rows}) != 1:
            return NotImplemented
        a = arrays.nd(*(arrays.nd(*r) for r in rows))
        if opt['ndmin'] < 2:
            if len(rows) == 1:
                a = a.args[0]
            elif len(rows[0]) == 1:
                a = arrays.nd(*(r.args[0] for r in a.args))
            if a.op == 'nd' and len(a.args) == 1 and not opt['ndmin']:
                return NotImplemented
        return self.newarr(st, a)

    def binop(self, st, op, a, b):
        a, b = self.res(st, a), self.res(st, b)
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            if a.op != 'const' and ops.boolish(a):
                a = ops.ite(a, const(1), const(0))
            if b.op != 'const' and ops.boolish(b):
                b = ops.ite(b, const(1), const(0))
            if not isinstance(op, ast.Mult) and a.op == 'ite' and b.op == 'ite' and ops.constleaves(a) and ops.constleaves(b):
                return ops.ite(a.args[0], self.binop(st, op, a.args[1], b), self.binop(st, op, a.args[2], b))
        elif isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and ops.boolish(a) and ops.boolish(b):
            if isinstance(op, ast.BitXor):
                return ops.neg(ops.eq(a, b)) if not (a.op == 'ite' or b.op == 'ite') else ops.ite(a, ops.neg(b), b)
            return ops.conj((a, b)) if isinstance(op, ast.BitAnd) else ops.disj((a, b))
        return super().binop(st, op, a, b)

    # views: rows of an array that are stored to change the array

    def view(self, st, o, k, v):
        if v.op == 'nd' and o.op == 'ref' and o.args[1] == 'arr' and basic(k):
            r = mk('ref', self.new_oid(), 'arr')
            st.m[('view', r)] = mk('viewof', o, k)
            st.m[('c', r)] = v
            return r
        return v

    def e_Subscript(self, n, st):
        v = super().e_Subscript(n, st)
        if self.docmode and v.op == 'nd' and isinstance(n.value, ast.Name):
            o = self.lookup(n.value.id, st)
            o = self.res(st, o) if o is not None else None
            if o is not None and o.op == 'ref' and o.args[1] == 'arr':
                return self.view(st, o, self.res(st, self.eval_index(n.slice, st)), v)
        return v

    def plan(self, st, v):
        v = self.res(st, v)
        if v.op == 'calliter':
            return [('lazy', lambda s: self.calliter_next(s, v))]
        p = super().plan(st, v)
        if self.docmode and any(q[0] == 'one' and rowlike(q[1]) for q in p):
            if v.op == 'ref' and v.args[1] == 'arr':
                return [('one', self.view(st, v, const(i), q[1])) if q[0] == 'one' else q for i, q in enumerate(p)]
            if v.op in ('enumerate', 'zip') and all(q[0] == 'one' and q[1].op == 'tuple' for q in p):
                src = [None, v.args[0]] if v.op == 'enumerate' else list(v.args)
                src = [self.res(st, x) if x is not None else None for x in src]
                return [('one', mk('tuple', *(self.view(st, s, const(i), x) if s is not None and s.op == 'ref' and s.args[1] == 'arr' else x
                                              for s, x in zip(src, q[1].args)))) for i, q in enumerate(p)]
        return p

    def content(self, st, t):
        w = st.m.get(('view', t)) if t.op == 'ref' and t.args[1] == 'arr' else None
        if w is not None:
            b = self.array_of(st, w.args[0])
            c = arrays.index(b, w.args[1]) if b is not None else None
            if c is not None:
                st.m[('c', t)] = c
                return c
            self.undecidable('view of an array')
        return super().content(st, t)

    def freeze1(self, st, t):
        if t.op == 'ref' and ('view', t) in st.m:
            self.content(st, t)
        return super().freeze1(st, t)

    def array_of(self, st, o, struct=False):
        if o.op == 'ref' and ('view', o) in st.m:
            self.content(st, o)
        return super().array_of(st, o, struct)

    def setitem(self, st, o, k, v):
        o = self.res(st, o)
        w = st.m.get(('view', o)) if o.op == 'ref' and o.args[1] == 'arr' else None
        if w is not None:
            new = arrays.store(self.content(st, o), self.freeze1(st, self.res(st, k)), self.viewval(st, v))
            if new is None:
                self.undecidable('store to a part of an array')
            self.setitem(st, w.args[0], w.args[1], new)
            return
        return super().setitem(st, o, k, v)

    def viewval(self, st, v):
        r = self.nparr(st, v)
        if r is None:
            self.undecidable('store to a part of an array')
        if any(x.op in ('tok', 'concat') for x in (arrays.flatten(r) if r.op == 'nd' else [r])):
            r = arrays.astype(r, 'float')
        return r

    # ------------------------------------------------------------ formatting

    def percent(self, st, a, b):
        import re
        a = self.res(st, a)
        if a.op == 'const' and isinstance(cval(a), str):
            s = cval(a)
            pat = re.compile(r'%(?:\((\w+)\))?([-+ 0#]*)(\d*|\*)(?:\.(\d*|\*))?([a-zA-Z%])')
            ms = list(pat.finditer(s))
            rest = pat.sub('', s)
            if '%' in rest or any(m.group(5) not in 'sdifgeEGrxX%' for m in ms):
                return mk('percent', a, self.freeze1(st, b))
            if any(m.group(1) is not None or '*' in (m.group(3), m.group(4)) for m in ms):
                b = self.res(st, b)
                vals = list(b.args) if b.op == 'tuple' else [b]
                out, i, p = [], 0, 0

                def take():
                    nonlocal i
                    if i >= len(vals):
                        self.do_raise(st, self.exc('TypeError'))
                    i += 1
                    return self.res(st, vals[i - 1])
                for m in ms:
                    out.append(const(s[p:m.start()]))
                    p = m.end()
                    ty = m.group(5)
                    if ty == '%':
                        out.append(const('%'))
                        continue
                    w, pr = m.group(3), m.group(4)
                    if w == '*':
                        w = take()
                    if pr == '*':
                        pr = take()
                    if any(isinstance(x, object) and not isinstance(x, (str, type(None))) and not is_const(x) for x in (w, pr)):
                        return mk('percent', a, self.freeze1(st, b))
                    w = w if isinstance(w, str) else str(cval(w))
                    pr = pr if isinstance(pr, str) or pr is None else str(cval(pr))
                    v = self.getitem(st, b, const(m.group(1))) if m.group(1) is not None else take()
                    spec = m.group(2).replace('-', '<') + w + ('.' + (pr or '0') if pr is not None else '') + ('' if ty in 'sr' else {'i': 'd'}.get(ty, ty))
                    out.append(self.fmt(st, v, const(spec) if spec else None, 'r' if ty == 'r' else None))
                out.append(const(s[p:]))
                return ops.concat(*out)
        return super().percent(st, a, b)
