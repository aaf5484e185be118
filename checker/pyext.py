"""Library functions on completely known values: iterators, itertools, collections, regular expressions, generators.

Everything here is exact for the values it accepts and leaves the general (opaque) treatment to the other mixins otherwise."""
import ast
import re

from .terms import mk, const, NONE, TRUE, FALSE, is_const, cval, lit
from . import ops, docs, rx
from .state import Dead

CONSUME = {'list', 'tuple', 'set', 'frozenset', 'dict', 'sorted', 'sum', 'min', 'max', 'any', 'all', 'collections.Counter', 'collections.deque',
           'collections.OrderedDict', 'itertools.product', 'itertools.accumulate', 'functools.reduce', 'numpy.array', 'numpy.fromiter', 'numpy.asarray',
           'itertools.combinations', 'itertools.zip_longest', 'itertools.groupby', 'itertools.chain', 'itertools.takewhile', 'itertools.dropwhile',
           'itertools.starmap', 'itertools.pairwise', 'map', 'filter', 'numpy.sum', 'numpy.prod', 'numpy.concatenate', 'numpy.vstack', 'numpy.stack'}
MCONS = {'join', 'extend', 'writelines', 'update', 'union', 'difference', 'intersection'}


def plain(entries):
    return all(x.op not in ('each', 'opt', 'splice', 'del') for x in entries)


PYT = {'str': str, 'int': int, 'float': float, 'bool': bool, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'None': type(None)}


class PyExtMixin:
    # ------------------------------------------------------------ iterators

    def pytype(self, st, o):
        """name of the built-in type of a value of a document run (ndarray for arrays), None when it is not known"""
        if not self.docmode:
            return None
        if o.op == 'const':
            return {type(None): 'None'}.get(type(cval(o)), type(cval(o)).__name__)
        if o.op in ('tok', 'concat', 'fmt'):
            return 'str'
        if o.op == 'val':
            return o.args[0]
        if o.op == 'ref':
            return {'list': 'list', 'dict': 'dict', 'set': 'set', 'arr': 'ndarray'}.get(o.args[1])
        if o.op in ('list', 'tuple', 'dict'):
            return o.op
        if o.op == 'call' and o.args[0].op == 'ext' and o.args[0].args[0] in ('int', 'float', 'bool') and len(o.args) == 2:
            return o.args[0].args[0]
        if o.op == 'nd':
            return 'ndarray'
        return None

    def no_attribute(self, st, o, name):
        """AttributeError for a name the built-in type does not have"""
        t = PYT.get(self.pytype(st, o))
        if t is not None and not hasattr(t, name):
            self.note('missing attribute', t.__name__, name)
            self.do_raise(st, self.exc('AttributeError', const(name)))

    def bad_subscript(self, st, o, k):
        """TypeError / IndexError for a subscript the built-in type does not take"""
        t, kt = self.pytype(st, o), self.pytype(st, k)
        if self.plain_inst(st, o, '__getitem__'):
            self.note('not subscriptable', o.args[2].args[0])
            self.do_raise(st, self.exc('TypeError'))
        if t in ('int', 'float', 'bool', 'set', 'None'):
            self.note('not subscriptable', t)
            self.do_raise(st, self.exc('TypeError'))
        if t in ('str', 'list', 'tuple') and kt in ('str', 'float', 'None', 'tuple', 'list', 'dict'):
            self.note('bad subscript', t)
            self.do_raise(st, self.exc('TypeError'))
        if t == 'ndarray' and kt in ('str', 'float', 'dict') and self.plain_array(st, o):
            self.note('bad subscript', t)
            self.do_raise(st, self.exc('IndexError'))

    def plain_inst(self, st, o, name):
        """instance of a package class (all bases in the package) without the method"""
        return self.docmode and o.op == 'ref' and o.args[1] == 'inst' and self.class_lookup(st, o.args[2], name) is None \
            and not any(k.op == 'ext' and k.args[0] not in ('abc.ABC', 'ABC', 'object') for k in self.mro(st, o.args[2]))

    def plain_array(self, st, o):
        return o.op == 'nd' or self.array_of(st, o) is not None

    def is_iter(self, v):
        return v.op == 'ref' and v.args[1] == 'iter'

    def newlist(self, st, xs):
        return self.alloc(st, 'list', mk('list', *xs))

    def seq(self, st, v):
        """elements of a known sequence; an iterator given is used up"""
        v = self.res(st, v)
        if self.is_iter(v):
            c = self.content(st, v)
            if c is None or c.op != 'list' or not plain(c.args):
                return None
            st.m[('c', v)] = mk('list')
            return list(c.args)
        if v.op in ('enumerate', 'zip', 'reversed'):
            its = [x for x in v.args if x.op == 'ref']
            if any(self.is_iter(self.res(st, x)) for x in its):
                p = self.plan(st, v)
                if len(p) == 1 and p[0][0] == 'lazy':
                    out = []
                    while len(out) < 400:
                        x = p[0][1](st)
                        if x is None:
                            return out
                        out.append(x)
                    return None
        if self.is_docfile(st, v):
            v = self.call_method(st, v, 'readlines', [], {}, None)
        return self.known_seq(st, v)

    def plan(self, st, v):
        v = self.res(st, v)
        if self.docmode:
            if self.is_iter(v):
                def nxt(s, v=v):
                    c = self.content(s, v)
                    if c is None or c.op != 'list' or not plain(c.args):
                        self.undecidable('iterator state')
                    if not c.args:
                        return None
                    s.m[('c', v)] = mk('list', *c.args[1:])
                    return c.args[0]
                return [('lazy', nxt)]
            key = st.m.get(('path', v)) if v.op == 'ref' and v.args[1] == 'file' else v
            if self.doclines(st, v, key) is not None:
                def nxtl(s, v=v, key=key):
                    pos = s.m.get(('pos', v)) or const(0)
                    if not is_const(pos):
                        self.undecidable('position in file')
                    if cval(pos) >= len(self.doclines(s, v, key)):
                        return None
                    return self.doc_read(s, v, key, 'readline', [])
                if is_const(st.m.get(('pos', v)) or const(0)):
                    return [('lazy', nxtl)]
            if v.op == 'enumerate':
                inner = self.plan(st, v.args[0])
                if len(inner) == 1 and inner[0][0] == 'lazy':
                    cnt = [0]

                    def nxte(s, f=inner[0][1]):
                        x = f(s)
                        if x is None:
                            return None
                        cnt[0] += 1
                        return mk('tuple', ops.add(const(cnt[0] - 1), v.args[1]), x)
                    return [('lazy', nxte)]
            if v.op == 'zip':
                inner = [self.plan(st, a) for a in v.args]
                if any(len(p) == 1 and p[0][0] == 'lazy' for p in inner) and all(
                        (len(p) == 1 and p[0][0] == 'lazy') or all(q[0] == 'one' for q in p) for p in inner):
                    def feed(p):
                        if len(p) == 1 and p[0][0] == 'lazy':
                            return p[0][1]
                        it = iter([q[1] for q in p])
                        return lambda s: next(it, None)
                    fs = [feed(p) for p in inner]

                    def nxtz(s):
                        xs = []
                        for f in fs:
                            x = f(s)
                            if x is None:
                                return None
                            xs.append(x)
                        return mk('tuple', *xs)
                    return [('lazy', nxtz)]
        return super().plan(st, v)

    def undecidable(self, why):
        from .state import Limit
        raise Limit('cannot follow ' + why)

    def known_seq(self, st, v):
        if self.docmode and v.op == 'lazyrange':
            return None
        return super().known_seq(st, v)

    def b_iter(self, st, args, kw, n):
        if not self.docmode or len(args) != 1:
            return args[0] if len(args) == 1 else NotImplemented
        v = self.res(st, args[0])
        if self.is_iter(v) or (v.op == 'ref' and v.args[1] in ('file', 'strio')):
            return v
        k = self.known_seq(st, v)
        return self.alloc(st, 'iter', mk('list', *k)) if k is not None else v

    def b_next(self, st, args, kw, n):
        v = self.res(st, args[0])
        if self.docmode and v.op == 'ref' and v.args[1] in ('iter', 'list'):
            c = self.content(st, v)
            if c is not None and c.op == 'list' and plain(c.args):
                if c.args:
                    st.m[('c', v)] = mk('list', *c.args[1:])
                    return c.args[0]
                if len(args) > 1:
                    return args[1]
                self.do_raise(st, self.exc('StopIteration'))
        if self.docmode and v.op == 'ref' and v.args[1] == 'list' and len(args) == 2:
            c = self.content(st, v)
            r = self.first_of(st, c.args, args[1]) if c is not None and c.op == 'list' else None
            if r is not None:
                return r
        if self.docmode and v.op in ('enumerate', 'zip', 'reversed'):
            k = self.known_seq(st, v)
            if k:
                return k[0]
        return super().b_next(st, args, kw, n)

    def first_of(self, st, entries, default):
        for e in entries:
            if e.op not in ('opt',):
                if e.op in ('each', 'splice', 'del'):
                    return None
                return e
            a = self.first_of(st, e.args[1] + tuple(entries[1:]) if isinstance(e.args[1], tuple) else tuple(e.args[1]) + tuple(entries[1:]), default)
            b = self.first_of(st, tuple(e.args[2]) + tuple(entries[1:]), default)
            if a is None or b is None:
                return None
            return ops.ite(e.args[0], a, b)
        return default

    def uses_iter(self, st, args):
        return any(self.is_iter(self.res(st, a)) or self.is_docfile(st, self.res(st, a)) or (a.op in ('enumerate', 'zip', 'reversed') and self.uses_iter(st, a.args))
                   for a in args if a.op in ('ref', 'ite', 'enumerate', 'zip', 'reversed') or a in self.docs)

    def is_docfile(self, st, v):
        key = st.m.get(('path', v)) if v.op == 'ref' and v.args[1] == 'file' else v
        return self.doclines(st, v, key) is not None and self.opened(st, v)

    def opened(self, st, v):
        return v.op == 'ref' or v.op in ('param', 'attr')

    def call_ext(self, st, name, args, kwargs, n):
        if self.docmode:
            if name in CONSUME and self.uses_iter(st, args):
                new = []
                for a in args:
                    if self.uses_iter(st, [a]):
                        k = self.seq(st, a)
                        new.append(a if k is None else self.newlist(st, k))
                    else:
                        new.append(a)
                args = new
            if name.startswith('operator.'):
                r = self.operator_fn(st, name[9:], args)
                if r is not NotImplemented:
                    return r
        return super().call_ext(st, name, args, kwargs, n)

    def operator_fn(self, st, name, args):
        B = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div, 'floordiv': ast.FloorDiv, 'mod': ast.Mod, 'pow': ast.Pow,
             'concat': ast.Add, 'iadd': ast.Add}
        C = {'eq': ast.Eq, 'ne': ast.NotEq, 'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt, 'ge': ast.GtE, 'is_': ast.Is, 'is_not': ast.IsNot}
        if name in B and len(args) == 2:
            return self.binop(st, B[name](), args[0], args[1])
        if name in C and len(args) == 2:
            return self.compare(st, C[name](), args[0], args[1])
        if name == 'not_' and len(args) == 1:
            return ops.neg(self.truth(st, args[0]))
        if name == 'contains' and len(args) == 2:
            return self.contains(st, args[1], args[0])
        if name == 'getitem' and len(args) == 2:
            return self.getitem(st, args[0], args[1])
        if name == 'neg' and len(args) == 1:
            return ops.scale(args[0], -1) if ops.typ(args[0]) == 'num' else NotImplemented
        return NotImplemented

    # ------------------------------------------------------------ itertools / functools

    def b_map(self, st, args, kw, n):
        if self.docmode and len(args) > 2 and not kw:
            ks = [self.seq(st, a) for a in args[1:]]
            if all(k is not None for k in ks):
                return self.newlist(st, [self.call_value(st, args[0], list(x), {}, n) for x in zip(*ks)])
        return super().b_map(st, args, kw, n)

    def b_filter(self, st, args, kw, n):
        if self.docmode and len(args) == 2 and self.res(st, args[0]) is NONE:
            return self.comp(st, [(args[1], lambda s, v: (setattr(self, '_mv', v), None)[1])],
                             [lambda s: self.truth(s, self._mv)], lambda s: self._mv, 'list')
        return super().b_filter(st, args, kw, n)

    def _seqs(self, st, args):
        if not self.docmode:
            return None
        ks = [self.seq(st, a) for a in args]
        return ks if all(k is not None for k in ks) else None

    def b_itertools_chain(self, st, args, kw, n):
        ks = self._seqs(st, args)
        return NotImplemented if ks is None else self.alloc(st, 'iter', mk('list', *(x for k in ks for x in k)))

    def b_itertools_chain_from_iterable(self, st, args, kw, n):
        ks = self._seqs(st, args)
        if ks is not None:
            ks = self._seqs(st, ks[0])
        return NotImplemented if ks is None else self.alloc(st, 'iter', mk('list', *(x for k in ks for x in k)))

    def b_itertools_islice(self, st, args, kw, n):
        if not self.docmode or not all(is_const(self.res(st, a)) for a in args[1:]) or len(args) < 2:
            return NotImplemented
        a = [cval(self.res(st, x)) for x in args[1:]]
        lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0] or 0, a[1], (a[2] if len(a) > 2 else 1) or 1)
        v = self.res(st, args[0])
        if self.is_iter(v) or (v.op == 'ref' and v.args[1] == 'file'):
            p = self.plan(st, v)
            if len(p) != 1 or p[0][0] != 'lazy':
                return NotImplemented
            out, i = [], 0
            while hi is None or i < hi:
                x = p[0][1](st)
                if x is None or i > 2000:
                    break
                if i >= lo and (i - lo) % step == 0:
                    out.append(x)
                i += 1
            return self.alloc(st, 'iter', mk('list', *out))
        k = self.known_seq(st, v)
        return NotImplemented if k is None else self.alloc(st, 'iter', mk('list', *k[lo:hi:step]))

    def b_itertools_zip_longest(self, st, args, kw, n):
        ks = self._seqs(st, args)
        if ks is None:
            return NotImplemented
        fill = kw.get('fillvalue', NONE)
        m = max([len(k) for k in ks], default=0)
        return self.newlist(st, [mk('tuple', *(k[i] if i < len(k) else fill for k in ks)) for i in range(m)])

    def b_itertools_product(self, st, args, kw, n):
        ks = self._seqs(st, args)
        rep = kw.get('repeat', const(1))
        if ks is None or not is_const(rep):
            return NotImplemented
        import itertools
        out = list(itertools.product(*ks, repeat=cval(rep)))
        return self.newlist(st, [mk('tuple', *x) for x in out]) if len(out) < 3000 else NotImplemented

    def b_itertools_combinations(self, st, args, kw, n):
        ks = self._seqs(st, args[:1])
        if ks is None or len(args) != 2 or not is_const(args[1]):
            return NotImplemented
        import itertools
        return self.newlist(st, [mk('tuple', *x) for x in itertools.combinations(ks[0], cval(args[1]))])

    def b_itertools_pairwise(self, st, args, kw, n):
        ks = self._seqs(st, args)
        return NotImplemented if ks is None else self.newlist(st, [mk('tuple', a, b) for a, b in zip(ks[0], ks[0][1:])])

    def b_itertools_accumulate(self, st, args, kw, n):
        ks = self._seqs(st, args[:1])
        if ks is None or set(kw) - {'initial', 'func'}:
            return NotImplemented
        f = args[1] if len(args) > 1 else kw.get('func', NONE)
        k = ks[0]
        if 'initial' in kw and kw['initial'] is not NONE:
            k = [kw['initial']] + k
        out = []
        for x in k:
            if out:
                x = self.binop(st, ast.Add(), out[-1], x) if f is NONE else self.call_value(st, f, [out[-1], x], {}, n)
            out.append(x)
        return self.newlist(st, out)

    def b_itertools_repeat(self, st, args, kw, n):
        t = args[1] if len(args) > 1 else kw.get('times')
        if self.docmode and t is not None and is_const(t):
            return self.newlist(st, [args[0]] * cval(t))
        return NotImplemented

    def b_itertools_count(self, st, args, kw, n):
        if not self.docmode:
            return NotImplemented
        a = args[0] if args else kw.get('start', const(0))
        d = args[1] if len(args) > 1 else kw.get('step', const(1))
        if not (is_const(a) and is_const(d)):
            return NotImplemented
        return self.alloc(st, 'iter', mk('list', *(const(cval(a) + i * cval(d)) for i in range(300))))

    def _while(self, st, args, drop):
        ks = self._seqs(st, args[1:2])
        if ks is None:
            return NotImplemented
        for i, x in enumerate(ks[0]):
            d = self.dec(st, self.truth(st, self.call_value(st, args[0], [x], {}, None)))
            if d is None:
                return NotImplemented
            if not d:
                return self.newlist(st, ks[0][i:] if drop else ks[0][:i])
        return self.newlist(st, [] if drop else ks[0])

    def b_itertools_takewhile(self, st, args, kw, n):
        return self._while(st, args, False)

    def b_itertools_dropwhile(self, st, args, kw, n):
        return self._while(st, args, True)

    def b_itertools_groupby(self, st, args, kw, n):
        ks = self._seqs(st, args[:1])
        key = args[1] if len(args) > 1 else kw.get('key', NONE)
        if ks is None:
            return NotImplemented
        groups = []
        for x in ks[0]:
            k = x if key is NONE else self.call_value(st, key, [x], {}, n)
            if groups:
                d = self.dec(st, self.compare(st, ast.Eq(), groups[-1][0], k))
                if d is None:
                    return NotImplemented
                if d:
                    groups[-1][1].append(x)
                    continue
            groups.append((k, [x]))
        return self.newlist(st, [mk('tuple', k, self.alloc(st, 'iter', mk('list', *g))) for k, g in groups])

    def b_functools_reduce(self, st, args, kw, n):
        ks = self._seqs(st, args[1:2])
        if ks is None:
            return NotImplemented
        k = list(args[2:3]) + ks[0]
        if not k:
            self.do_raise(st, self.exc('TypeError'))
        r = k[0]
        for x in k[1:]:
            r = self.call_value(st, args[0], [r, x], {}, n)
        return r

    def b_sum(self, st, args, kw, n):
        if self.docmode:
            k = self.seq(st, args[0])
            s = args[1] if len(args) > 1 else kw.get('start', const(0))
            if k is not None:
                r = s
                for i, x in enumerate(k):
                    r = self.binop(st, ast.Add(), r, x) if not (i == 0 and lit(r, 0)) else x
                return r
            if self.content(st, self.res(st, args[0])) is None:
                return NotImplemented
        return super().b_sum(st, args, kw, n)

    def b_abs(self, st, args, kw, n):
        v = self.res(st, args[0])
        return const(abs(cval(v))) if is_const(v) and isinstance(cval(v), (int, float)) else NotImplemented

    def call_value(self, st, f, args, kwargs, n):
        f = self.res(st, f)
        if f.op == 'call' and f.args[0].op == 'ext' and len(args) == 1 and not kwargs:
            nm = f.args[0].args[0]
            if nm == 'operator.itemgetter':
                xs = [self.getitem(st, args[0], k) for k in f.args[1:]]
                return xs[0] if len(xs) == 1 else mk('tuple', *xs)
            if nm == 'operator.attrgetter' and all(is_const(k) and '.' not in cval(k) for k in f.args[1:]):
                xs = [self.getattr(st, args[0], cval(k)) for k in f.args[1:]]
                return xs[0] if len(xs) == 1 else mk('tuple', *xs)
        return super().call_value(st, f, args, kwargs, n)

    def b_divmod(self, st, args, kw, n):
        if self.docmode and len(args) == 2:
            return mk('tuple', self.binop(st, ast.FloorDiv(), *args), self.binop(st, ast.Mod(), *args))
        return NotImplemented

    def _minmax(self, name, py, st, args, kw):
        if self.docmode and (len(args) > 1 or not self.is_fileish(st, args[0])):
            vs = list(args) if len(args) > 1 else self.seq(st, args[0])
            if vs is not None:
                if not vs:
                    if 'default' in kw:
                        return kw['default']
                    self.do_raise(st, self.exc('ValueError'))
                key = kw.get('key', NONE)
                ks = vs if key is NONE else [self.res(st, self.call_value(st, key, [x], {}, None)) for x in vs]
                if all(is_const(x) for x in ks):
                    best = py(range(len(ks)), key=lambda i: cval(ks[i]))
                    return vs[best]
                if len(vs) == 1:
                    return vs[0]
                if key is not NONE:
                    return NotImplemented
                args = vs
                return super()._minmax(name, py, st, args, {})
        return super()._minmax(name, py, st, args, kw)

    def is_fileish(self, st, v):
        v = self.res(st, v)
        return v.op == 'ref' and v.args[1] in ('file', 'strio')

    # ------------------------------------------------------------ collections

    def b_collections_defaultdict(self, st, args, kw, n):
        d = self.b_dict(st, args[1:], kw, n)
        if args and args[0] is not NONE and d is not NotImplemented:
            st.m[('dflt', d)] = args[0]
        return d

    def getitem(self, st, o, k):
        o = self.res(st, o)
        f = st.m.get(('dflt', o)) if o.op == 'ref' else None
        if f is not None:
            c = self.content(st, o)
            k = self.res(st, k)
            h = self.dict_has(st, c, k) if c is not None and c.op == 'dict' else None
            if h is None:
                self.note('default dictionary')
                return mk('item', self.freeze(st, c), k)

            def miss(s):
                v = self.call_value(s, f, [], {}, None)
                s.m[('c', o)] = self.dict_put(self.content(s, o), k, v)
                return v
            return self.fork(st, h, lambda s: super(PyExtMixin, self).getitem(s, o, k), miss)
        if o.op == 'match':
            return self.match_method(st, o, 'group', [k])
        return super().getitem(st, o, k)

    def b_collections_Counter(self, st, args, kw, n):
        if self.docmode and not args and not kw:
            r = self.alloc(st, 'dict', mk('dict'))
        else:
            if args and self.uses_iter(st, args[:1]):
                args = [self.newlist(st, self.seq(st, args[0]))]
            r = super().b_collections_Counter(st, args, kw, n)
        if self.docmode and r.op == 'ref':
            st.m[('dflt', r)] = mk('ext', 'counter.zero')
        return r

    def b_counter_zero(self, st, args, kw, n):
        return const(0)

    def dict_method(self, st, o, c, name, args, kwargs, n):
        if self.docmode and name == 'most_common' and c is not None and c.op == 'dict' and plain(c.args):
            if all(is_const(e.args[1]) for e in c.args) and (not args or is_const(args[0])):
                k = sorted(c.args, key=lambda e: -cval(e.args[1]))
                if args and args[0] is not NONE:
                    k = k[:cval(args[0])]
                return self.newlist(st, [mk('tuple', *e.args) for e in k])
        if self.docmode and name == 'elements' and c is not None and c.op == 'dict' and plain(c.args) and all(is_const(e.args[1]) for e in c.args):
            return self.newlist(st, [e.args[0] for e in c.args for _ in range(cval(e.args[1]))])
        if name == '__getitem__':
            return self.getitem(st, o, args[0])
        if name == '__contains__':
            return self.contains(st, args[0], o)
        if name == 'popitem' and c is not None and c.op == 'dict' and plain(c.args) and c.args and not args:
            e = c.args[-1]
            self.ev(st, 'mut', o, name, ())
            st.m[('c', o)] = mk('dict', *c.args[:-1])
            return mk('tuple', *e.args)
        return super().dict_method(st, o, c, name, args, kwargs, n)

    def b_collections_deque(self, st, args, kw, n):
        if not self.docmode or kw or len(args) > 1:
            return NotImplemented
        return self.b_list(st, args, kw, n)

    # ------------------------------------------------------------ lists and sets

    def find(self, st, entries, x):
        """index of the first equal element, -1 for none, None when open"""
        for i, e in enumerate(entries):
            d = self.dec(st, self.compare(st, ast.Eq(), e, x))
            if d is None:
                return None
            if d:
                return i
        return -1

    def list_method(self, st, o, c, name, args, kwargs, n):
        if self.docmode and c is not None and c.op in ('list', 'tuple') and plain(c.args):
            ent = list(c.args)
            islist = c.op == 'list' and o.op == 'ref'

            def put(xs):
                self.ev(st, 'mut', o, name, tuple(args))
                st.m[('c', o)] = mk('list', *xs)
            if name == 'sort' and islist and not args:
                r = self.sort_known(st, ent, kwargs)
                if r is not None:
                    put(r)
                    return NONE
            if name == 'index' and len(args) == 1:
                i = self.find(st, ent, args[0])
                if i == -1:
                    self.do_raise(st, self.exc('ValueError'))
                if i is not None:
                    return const(i)
                return self.index_open(st, ent, args[0], 0)
            if name == 'count' and len(args) == 1:
                ds = [self.dec(st, self.compare(st, ast.Eq(), e, args[0])) for e in ent]
                if all(d is not None for d in ds):
                    return const(sum(ds))
            if name == 'remove' and islist and len(args) == 1:
                i = self.find(st, ent, args[0])
                if i == -1:
                    self.do_raise(st, self.exc('ValueError'))
                if i is not None:
                    put(ent[:i] + ent[i + 1:])
                    return NONE
            if name == 'extend' and islist and len(args) == 1 and self.uses_iter(st, args):
                k = self.seq(st, args[0])
                if k is not None:
                    put(ent + k)
                    return NONE
            if name in ('popleft', 'appendleft') and islist:
                if name == 'popleft':
                    if not ent:
                        self.do_raise(st, self.exc('IndexError'))
                    put(ent[1:])
                    return ent[0]
                put([args[0]] + ent)
                return NONE
            if name == 'pop' and islist and not ent:
                self.do_raise(st, self.exc('IndexError'))
            if name == '__len__':
                return const(len(ent))
            if name == '__getitem__':
                return self.getitem(st, o, args[0])
        return super().list_method(st, o, c, name, args, kwargs, n)

    def index_open(self, st, ent, x, i):
        if i == len(ent):
            self.do_raise(st, self.exc('ValueError'))
        return self.fork(st, self.compare(st, ast.Eq(), ent[i], x), lambda s: const(i), lambda s: self.index_open(s, ent, x, i + 1))

    def setitem(self, st, o, k, v):
        if self.docmode and k.op == 'slice' and o.op == 'ref' and o.args[1] == 'list' and all(is_const(a) for a in k.args):
            c = self.content(st, o)
            x = self.seq(st, v)
            if c is not None and c.op == 'list' and plain(c.args) and x is not None:
                l = list(c.args)
                try:
                    l[slice(*(cval(a) for a in k.args))] = x
                except ValueError:
                    self.do_raise(st, self.exc('ValueError'))
                self.ev(st, 'setitem', o, k, v)
                st.m[('c', o)] = mk('list', *l)
                return
        return super().setitem(st, o, k, v)

    def setargs(self, st, v):
        v = self.res(st, v)
        k = self.known_seq(st, v)
        return k

    def set_method(self, st, o, c, name, args, kwargs, n):
        if self.docmode and c is not None and c.op == 'setv' and plain(c.args):
            if name in ('union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint', 'update',
                        'intersection_update', 'difference_update'):
                ks = [self.seq(st, a) for a in args]
                if all(k is not None for k in ks):
                    cur = list(c.args)
                    for k in ks:
                        r = self.set_op(st, name.replace('_update', '') if name != 'update' else 'union', cur, k)
                        if r is None:
                            return NotImplemented
                        if isinstance(r, bool):
                            return const(r)
                        cur = r
                    if name == 'update' or name.endswith('_update'):
                        self.ev(st, 'mut', o, name, tuple(args))
                        st.m[('c', o)] = mk('setv', *cur)
                        return NONE
                    return self.alloc(st, 'set', mk('setv', *cur))
            if name in ('remove', 'discard'):
                i = self.find(st, c.args, args[0])
                if i == -1 and name == 'remove':
                    self.do_raise(st, self.exc('KeyError', args[0]))
                if i is not None:
                    self.ev(st, 'mut', o, name, tuple(args))
                    st.m[('c', o)] = mk('setv', *(x for j, x in enumerate(c.args) if j != i))
                    return NONE
            if name == 'add':
                i = self.find(st, c.args, args[0])
                if i is not None:
                    self.ev(st, 'mut', o, name, tuple(args))
                    if i == -1:
                        st.m[('c', o)] = mk('setv', *c.args, args[0])
                    return NONE
            if name == 'clear':
                st.m[('c', o)] = mk('setv')
                return NONE
            if name == 'copy':
                return self.alloc(st, 'set', c)
        return super().set_method(st, o, c, name, args, kwargs, n)

    def set_op(self, st, name, a, b):
        def has(x, s):
            i = self.find(st, s, x)
            if i is None:
                raise LookupError
            return i >= 0
        try:
            if name in ('union', 'bitor'):
                r = list(a)
                for x in b:
                    if not has(x, r):
                        r.append(x)
                return r
            if name in ('intersection', 'bitand'):
                return [x for x in a if has(x, b)]
            if name in ('difference', 'sub'):
                return [x for x in a if not has(x, b)]
            if name in ('symmetric_difference', 'bitxor'):
                return [x for x in a if not has(x, b)] + [x for x in b if not has(x, a)]
            if name == 'issubset':
                return all(has(x, b) for x in a)
            if name == 'issuperset':
                return all(has(x, a) for x in b)
            if name == 'isdisjoint':
                return not any(has(x, b) for x in a)
        except LookupError:
            pass
        return None

    def setlike(self, st, v):
        v = self.res(st, v)
        c = self.content(st, v) if v.op == 'ref' else v
        if v.op == 'keys':
            return self.known_seq(st, v)
        if c is not None and c.op == 'setv' and plain(c.args):
            return list(c.args)
        return None

    def binop(self, st, op, a, b):
        if self.docmode and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Sub)):
            x = self.setlike(st, a)
            y = self.setlike(st, b) if x is not None else None
            if y is not None:
                r = self.set_op(st, {ast.BitAnd: 'bitand', ast.BitOr: 'bitor', ast.BitXor: 'bitxor', ast.Sub: 'sub'}[type(op)], x, y)
                if r is not None:
                    return self.alloc(st, 'set', mk('setv', *r))
        return super().binop(st, op, a, b)

    def compare(self, st, op, a, b):
        if self.docmode and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
            x = self.setlike(st, a)
            y = self.setlike(st, b) if x is not None else None
            if y is not None:
                r, q = self.set_op(st, 'issubset', x, y), self.set_op(st, 'issuperset', x, y)
                if r is not None and q is not None:
                    return const({ast.LtE: r, ast.Lt: r and not q, ast.GtE: q, ast.Gt: q and not r, ast.Eq: r and q, ast.NotEq: not (r and q)}[type(op)])
        if a.op == 'match' and b is NONE:
            return const(not isinstance(op, (ast.Is, ast.Eq)))
        return super().compare(st, op, a, b)

    # ------------------------------------------------------------ regular expressions

    def flagbits(self, v):
        F = {'re.IGNORECASE': re.I, 're.I': re.I, 're.MULTILINE': re.M, 're.M': re.M, 're.DOTALL': re.S, 're.S': re.S, 're.VERBOSE': re.X, 're.X': re.X,
             're.ASCII': re.A, 're.A': re.A}
        if v is None:
            return 0
        if is_const(v) and isinstance(cval(v), int):
            return int(cval(v))
        if v.op == 'ext' and v.args[0] in F:
            return int(F[v.args[0]])
        if v.op == 'bitor':
            a = [self.flagbits(x) for x in v.args]
            return None if None in a else a[0] | a[1]
        return None

    def b_re_compile(self, st, args, kw, n):
        f = self.flagbits(args[1] if len(args) > 1 else kw.get('flags'))
        if args and is_const(args[0]) and isinstance(cval(args[0]), str) and f is not None:
            return mk('regex', args[0], const(f))
        return NotImplemented

    def b_re_escape(self, st, args, kw, n):
        if is_const(args[0]) and isinstance(cval(args[0]), str):
            return const(re.escape(cval(args[0])))
        return NotImplemented

    def _re_fn(name, nargs):
        def f(self, st, args, kw, n):
            args = list(args)
            if len(args) < nargs:
                return NotImplemented
            p = args[0]
            fl = kw.get('flags', args[nargs] if len(args) > nargs and name not in ('sub', 'split', 'subn') else None)
            if p.op != 'regex':
                p = self.b_re_compile(st, [p] + ([fl] if fl is not None else []), {}, n)
            if p is NotImplemented:
                return NotImplemented
            return self.regex_method(st, p, name, args[1:nargs] + (args[nargs:] if name in ('sub', 'split') else []), {k: v for k, v in kw.items() if k != 'flags'})
        return f

    b_re_match = _re_fn('match', 2)
    b_re_search = _re_fn('search', 2)
    b_re_fullmatch = _re_fn('fullmatch', 2)
    b_re_findall = _re_fn('findall', 2)
    b_re_finditer = _re_fn('finditer', 2)
    b_re_split = _re_fn('split', 2)
    b_re_sub = _re_fn('sub', 3)
    del _re_fn

    def regex_method(self, st, p, name, args, kw):
        args = [self.res(st, a) for a in args]
        subj = args[1] if name == 'sub' else args[0] if args else None
        if subj is None or kw or len(args) > (3 if name == 'sub' else 2 if name == 'split' else 1):
            return NotImplemented
        s = docs.enc(subj)
        if s is None or (docs.hastok(s) and not self.docmode):
            return NotImplemented
        pat, fl = cval(p.args[0]), cval(p.args[1])
        try:
            m = rx.Matcher(pat, fl)
        except re.error:
            self.do_raise(st, self.exc('re.error'))
        except Exception:
            return NotImplemented

        def wrap(g):
            if g is None:
                return NONE
            spans = tuple(g.get(i) for i in range(m.ngroups))
            return mk('match', subj, spans, tuple(sorted(m.names.items())))

        def part(sp):
            return docs.dec(s[sp[0]:sp[1]]) if sp is not None else NONE
        try:
            if name == 'match':
                return wrap(m.match_at(s, 0))
            if name == 'fullmatch':
                return wrap(m.match_at(s, 0, full=True))
            if name == 'search':
                return wrap(m.search(s))
            if name in ('finditer', 'findall'):
                gs = m.finditer(s)
                if name == 'finditer':
                    return self.alloc(st, 'iter', mk('list', *(wrap(g) for g in gs)))
                out = []
                for g in gs:
                    if m.ngroups == 1:
                        out.append(part(g[0]))
                    else:
                        q = [part(g[i]) if g.get(i) else const('') for i in range(1, m.ngroups)]
                        out.append(q[0] if len(q) == 1 else mk('tuple', *q))
                return self.newlist(st, out)
            mx = args[2 if name == 'sub' else 1] if len(args) > (2 if name == 'sub' else 1) else const(0)
            if not is_const(mx):
                return NotImplemented
            if name == 'split':
                out, i = [], 0
                for k, g in enumerate(m.finditer(s)):
                    if cval(mx) and k >= cval(mx):
                        break
                    out.append(part((i, g[0][0])))
                    out += [part(g.get(j)) for j in range(1, m.ngroups)]
                    i = g[0][1]
                return self.newlist(st, out + [part((i, len(s)))])
            if name == 'sub':
                rep = args[0]
                if not (is_const(rep) and '\\' not in cval(rep)) and rep.op not in ('func', 'bound'):
                    return NotImplemented
                out, i = [], 0
                for k, g in enumerate(m.finditer(s)):
                    if cval(mx) and k >= cval(mx):
                        break
                    out.append(part((i, g[0][0])))
                    out.append(rep if is_const(rep) else self.call_value(st, rep, [wrap(g)], {}, None))
                    i = g[0][1]
                return ops.concat(*out, part((i, len(s))))
        except (rx.Unknown, RecursionError):
            self.note('regular expression on an open text', pat)
            return NotImplemented
        return NotImplemented

    def match_method(self, st, o, name, args):
        subj, spans, names = o.args
        s = docs.enc(subj)

        def idx(k):
            k = self.res(st, k)
            if not is_const(k):
                return None
            v = cval(k)
            if isinstance(v, str):
                v = dict(names).get(v)
            if v is None or not 0 <= v < len(spans):
                self.do_raise(st, self.exc('IndexError'))
            return v

        def part(sp, d=NONE):
            return docs.piece(s, sp) if sp is not None else d
        if name == 'group':
            ks = [idx(a) for a in args] or [0]
            if None in ks:
                return NotImplemented
            r = [part(spans[k]) for k in ks]
            return r[0] if len(r) == 1 else mk('tuple', *r)
        if name == 'groups':
            return mk('tuple', *(part(sp, args[0] if args else NONE) for sp in spans[1:]))
        if name == 'groupdict':
            return self.alloc(st, 'dict', mk('dict', *(mk('kv', const(k), part(spans[i])) for k, i in names)))
        if name in ('start', 'end', 'span'):
            k = idx(args[0]) if args else 0
            sp = spans[k]
            if sp is None:
                sp = (-1, -1)

            if any(x != int(x) for x in sp):
                return NotImplemented

            def at(i):
                return const(i) if i < 0 else self.b_len(st, [docs.dec(s[:i])], {}, None) if i else const(0)
            if name == 'span':
                return mk('tuple', at(sp[0]), at(sp[1]))
            return at(sp[0] if name == 'start' else sp[1])
        return NotImplemented

    def truth(self, st, v):
        if v.op in ('match', 'regex'):
            return TRUE
        if v.op == 'ref' and v.args[1] == 'iter':
            return TRUE
        return super().truth(st, v)

    def isnone(self, t):
        if t.op in ('match', 'regex'):
            return FALSE
        return super().isnone(t)

    def call_method(self, st, o, name, args, kwargs, n):
        o = self.res(st, o)
        if o.op == 'regex':
            r = self.regex_method(st, o, name, args, kwargs)
            if r is not NotImplemented:
                return r
        if o.op == 'match':
            r = self.match_method(st, o, name, args)
            if r is not NotImplemented:
                return r
        if self.docmode and o.op == 'ref' and o.args[1] == 'iter' and name == '__next__':
            return self.b_next(st, [o], {}, n)
        if self.docmode and name in MCONS and self.uses_iter(st, args):
            new = []
            for a in args:
                k = self.seq(st, a) if self.uses_iter(st, [a]) else None
                new.append(a if k is None else self.newlist(st, k))
            args = new
        return super().call_method(st, o, name, args, kwargs, n)

    # ------------------------------------------------------------ generators

    def is_generator(self, fi):
        g = getattr(fi, 'gen', None)
        if g is None:
            g = False
            todo = list(fi.node.body) if not fi.is_lambda else []
            while todo and not g:
                x = todo.pop()
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                    continue
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    g = True
                todo.extend(ast.iter_child_nodes(x))
            fi.gen = g
        return g

    def inline(self, st, uid, args, kwargs, n):
        fi = self.funcs[uid]
        if not (self.docmode and self.is_generator(fi)) or getattr(self, '_ctx_run', None) == uid:
            self._ctx_run = None
            return super().inline(st, uid, args, kwargs, n)
        r = self.alloc(st, 'iter', mk('list'))

        def hook(s, v):
            c = self.content(s, r)
            if c is None or c.op != 'list':
                self.undecidable('generator')
            s.m[('c', r)] = mk('list', *c.args, v)
            return NONE
        self.yield_hooks.append(hook)
        try:
            super().inline(st, uid, args, kwargs, n)
        finally:
            self.yield_hooks.pop()
        return r

    def e_YieldFrom(self, n, st):
        v = self.eval(n.value, st)
        if not self.docmode:
            return super().e_YieldFrom(n, st) if hasattr(super(), 'e_YieldFrom') else NONE
        k = self.seq(st, v)
        if k is None:
            self.undecidable('generator')
        for x in k:
            self.yield_hooks[-1](st, x)
        return NONE

    # ------------------------------------------------------------ match statement

    def x_Match(self, s, st):
        cache = getattr(s, '_desugared', None)
        if cache is None:
            nm = f'__match_{s.lineno}'
            cache = s._desugared = (nm, self.match_ifs(nm, s.cases))
        nm, body = cache
        self.setname(st, nm, self.eval(s.subject, st))
        r = self.exec_block(body, st)
        if r is None:
            raise Dead()

    def match_ifs(self, nm, cases):
        out = []
        for c in reversed(cases):
            test = self.pattern(c.pattern, ast.Name(nm, ast.Load()))
            if c.guard is not None:
                test = ast.BoolOp(ast.And(), [test, c.guard])
            if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.pattern.name is None:
                out = list(c.body)
            else:
                out = [ast.If(test, c.body, out)]
        out = out or [ast.Pass()]
        for x in out:
            ast.copy_location(x, cases[0].pattern)
            ast.fix_missing_locations(x)
        return out

    def pattern(self, p, subj):
        true = ast.Constant(True)
        if isinstance(p, ast.MatchValue):
            return ast.Compare(subj, [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(ast.Or(), [self.pattern(x, subj) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            parts = [] if p.pattern is None else [self.pattern(p.pattern, subj)]
            if p.name is not None:
                parts.append(ast.Subscript(ast.Tuple([ast.NamedExpr(ast.Name(p.name, ast.Store()), subj), true], ast.Load()), ast.Constant(1), ast.Load()))
            return parts[0] if len(parts) == 1 else ast.BoolOp(ast.And(), parts) if parts else true
        if isinstance(p, ast.MatchSequence) and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
            parts = [ast.Call(ast.Name('isinstance', ast.Load()), [subj, ast.Tuple([ast.Name('list', ast.Load()), ast.Name('tuple', ast.Load())], ast.Load())], []),
                     ast.Compare(ast.Call(ast.Name('len', ast.Load()), [subj], []), [ast.Eq()], [ast.Constant(len(p.patterns))])]
            parts += [self.pattern(x, ast.Subscript(subj, ast.Constant(i), ast.Load())) for i, x in enumerate(p.patterns)]
            return ast.BoolOp(ast.And(), parts)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return ast.Call(ast.Name('isinstance', ast.Load()), [subj, p.cls], [])
        self.undecidable('match pattern')
