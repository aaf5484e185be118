"""Expression evaluation."""
import ast

from .terms import Term, mk, const, NONE, TRUE, FALSE, UNDEF, is_const, cval, lit, subst
from . import ops, docs, arrays
from .state import Dead, AnalysisError, join_val, resolve, opt

BINOPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
          ast.BitOr: 'bitor', ast.BitAnd: 'bitand', ast.MatMult: 'matmul', ast.BitXor: 'bitxor', ast.LShift: 'lshift', ast.RShift: 'rshift'}

EXC_BUILTINS = {'Exception', 'ValueError', 'KeyError', 'IndexError', 'TypeError', 'AttributeError', 'OSError', 'IOError', 'RuntimeError',
                'NotImplementedError', 'SystemExit', 'FileNotFoundError', 'StopIteration', 'BaseException', 'LookupError',
                'UnicodeDecodeError', 'ZeroDivisionError', 'ArithmeticError', 'AssertionError', 'ImportError', 'PermissionError', 'KeyboardInterrupt'}


def solid(t):
    """type of a term that is certain"""
    if t.op == 'const':
        v = t.args[1]
        return 'str' if isinstance(v, str) else 'num' if isinstance(v, (bool, int, float)) else None
    if t.op in ('concat', 'fmt', 'tok'):
        return 'str'
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('int', 'float', 'len') or t.op == 'len':
        return 'num'
    return None


class ExprMixin:
    def eval(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.note('unsupported expression', type(n).__name__)
            return mk('unknown', type(n).__name__, self.cur[0], self.cur[1])
        v = m(n, st)
        if v.op == 'ite':
            v = self.res(st, v)
        return v

    def e_Constant(self, n, st):
        if n.value is Ellipsis:
            return mk('ellipsis')
        return const(n.value)

    def lookup(self, name, st):
        fid = st.fid
        while fid is not None:
            v = st.get(('v', fid, name))
            if v is not None and v is not UNDEF:
                return v
            if fid[0] == 'g':
                break
            fid = st.get(('parent', fid)) or ('g', self.cur[0])
        return None

    def e_Name(self, n, st):
        v = self.lookup(n.id, st)
        if v is not None:
            if v.op == 'ite':
                v = self.res(st, v)
                st.m[('v', st.fid, n.id)] = v if ('v', st.fid, n.id) in st.m else v
            return v
        if n.id in ('True', 'False', 'None'):
            return {'True': TRUE, 'False': FALSE, 'None': NONE}[n.id]
        import builtins
        if hasattr(builtins, n.id):
            return mk('ext', n.id)
        if self.globals_done and st.fid and st.fid[0] != 'g':
            self.note('unbound name', self.cur[0], n.id)
            self.maybe_raise(st, 'UnboundLocalError', TRUE, const(n.id))
        return mk('unknown', 'name', n.id)

    def e_Attribute(self, n, st):
        o = self.eval(n.value, st)
        return self.getattr(st, o, n.attr, n)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Tuple(self, n, st):
        return self._seq('tuple', n, st)

    def _seq(self, op, n, st):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.res(st, self.eval(e.value, st))
                k = self.known_seq(st, v)
                if k is not None:
                    out.extend(k)
                else:
                    c = self.content(st, v)
                    out.extend(c.args if c is not None and c.op == 'list' else [mk('splice', v)])
            else:
                out.append(self.eval(e, st))
        return mk(op, *out)

    def e_List(self, n, st):
        c = self._seq('list', n, st)
        return self.alloc(st, 'list', c)

    def e_Set(self, n, st):
        c = self._seq('setv', n, st)
        return self.alloc(st, 'set', c)

    def e_Dict(self, n, st):
        r = None
        c = mk('dict')
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.res(st, self.eval(v, st))
                cx = self.content(st, x)
                if cx is not None and cx.op == 'dict':
                    for e in cx.args:
                        c = self.dict_put(c, e.args[0], e.args[1]) if e.op == 'kv' else mk('dict', *c.args, e)
                else:
                    c = mk('dict', *c.args, mk('splice', x))
            else:
                kk = self.eval(k, st)
                c = self.dict_put(c, kk, self.eval(v, st))
        return self.alloc(st, 'dict', c)

    def e_Lambda(self, n, st):
        return self.make_func(n, st)

    def e_JoinedStr(self, n, st):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(const(v.value))
            else:
                out.append(self.e_FormattedValue(v, st))
        return ops.concat(*out)

    def e_FormattedValue(self, v, st):
        x = self.eval(v.value, st)
        spec = self.eval(v.format_spec, st) if v.format_spec is not None else None
        conv = {115: 's', 114: 'r', 97: 'a', -1: None}.get(v.conversion)
        return self.fmt(st, x, spec, conv)

    def fmt(self, st, x, spec=None, conv=None):
        x = self.res(st, x)
        if x.op == 'ref' and x.args[1] == 'inst':
            s = self.class_lookup(st, x.args[2], '__str__')
            if s is not None and (spec is None or lit(spec, '')):
                return self.call_value(st, mk('bound', s, x), [], {}, None)
        if x.op == 'ite' and (is_const(x.args[1]) or is_const(x.args[2])):
            return ops.ite(x.args[0], self.fmt(st, x.args[1], spec, conv), self.fmt(st, x.args[2], spec, conv))
        if x.op == 'ref':
            x = self.freeze(st, x)
        if self.in_try():
            self.maybe_raise(st, 'ValueError', mk('raises', const('ValueError'), mk('fmt', x, spec or const(''), conv or '')))
        return ops.fmt(x, spec, conv)

    def in_try(self):
        return False

    def e_IfExp(self, n, st):
        c = self.truth(st, self.eval(n.test, st))
        return self.fork(st, c, lambda s: self.eval(n.body, s), lambda s: self.eval(n.orelse, s))

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)

        def go(i, s):
            v = self.eval(n.values[i], s)
            if i == len(n.values) - 1:
                return v
            c = self.truth(s, v)
            if isand:
                return self.fork(s, c, lambda s2: go(i + 1, s2), lambda s2: v if not ops.boolish(v) else FALSE)
            return self.fork(s, c, lambda s2: v if not ops.boolish(v) else TRUE, lambda s2: go(i + 1, s2))
        return go(0, st)

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            return ops.neg(self.truth(st, v))
        if isinstance(n.op, ast.USub):
            return ops.scale(v, -1) if not is_const(v) else const(-cval(v))
        if isinstance(n.op, ast.UAdd):
            return v
        return mk('invert', v)

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop(st, n.op, a, b)

    def binop(self, st, op, a, b):
        a, b = self.res(st, a), self.res(st, b)
        t = type(op)
        if t is ast.Mod and ops.typ(a) == 'str':
            return self.percent(st, a, b)
        la, lb = self.content(st, a), self.content(st, b)
        if t is ast.Add and ((la is not None and la.op == 'list') or (lb is not None and lb.op == 'list')):
            ea = la.args if la is not None and la.op == 'list' else (mk('splice', a),)
            eb = lb.args if lb is not None and lb.op == 'list' else (mk('splice', b),)
            return self.alloc(st, 'list', mk('list', *ea, *eb))
        if t is ast.Mult and la is not None and la.op == 'list' and is_const(b) and isinstance(cval(b), int) and cval(b) < 100:
            return self.alloc(st, 'list', mk('list', *(la.args * cval(b))))
        if t is ast.BitOr and la is not None and lb is not None and la.op == 'dict' and lb.op == 'dict':
            c = la
            for e in lb.args:
                c = self.dict_put(c, e.args[0], e.args[1]) if e.op == 'kv' else mk('dict', *c.args, e)
            return self.alloc(st, 'dict', c)
        for x in (a, b):
            d = self.dec(st, ops.isnone(x)) if x.op in ('const', 'ite') else None
            if d is True:
                self.maybe_raise(st, 'TypeError', TRUE)
        sa, sb = solid(a), solid(b)
        if 'str' in (sa, sb) and (t in (ast.Sub, ast.Div, ast.FloorDiv, ast.Pow, ast.MatMult, ast.BitOr, ast.BitAnd) and None not in (sa, sb) or t is ast.Add and {sa, sb} == {'str', 'num'}):
            self.maybe_raise(st, 'TypeError', TRUE)
        a, b = self.freeze1(st, a), self.freeze1(st, b)
        # distribute over constant-leaf gates so that folded alternatives stay visible
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x.op == 'ite' and is_const(x.args[1]) and is_const(x.args[2]) and is_const(y):
                p = self.binop(st, op, *((y, x.args[1]) if sw else (x.args[1], y)))
                q = self.binop(st, op, *((y, x.args[2]) if sw else (x.args[2], y)))
                return ops.ite(x.args[0], p, q)
        if t is ast.Add:
            return ops.add(a, b)
        if t is ast.Sub:
            return ops.sub(a, b)
        if t is ast.Mult:
            return ops.mul(a, b)
        if t is ast.Div:
            return ops.div(a, b)
        if t is ast.MatMult:
            return mk('call', mk('ext', 'numpy.dot'), a, b)
        name = BINOPS.get(t, 'binop')
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                return const({'floordiv': lambda: x // y, 'mod': lambda: x % y, 'pow': lambda: x ** y, 'bitor': lambda: x | y,
                              'bitand': lambda: x & y}[name]())
            except Exception:
                pass
        return mk(name, a, b)

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st)
            out.append(self.compare(st, op, left, right))
            left = right
        return ops.conj(out) if len(out) > 1 else out[0]

    def compare(self, st, op, a, b):
        a, b = self.res(st, a), self.res(st, b)
        t = type(op)
        if t in (ast.NotEq, ast.IsNot, ast.NotIn):
            inv = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}[t]()
            return ops.neg(self.compare(st, inv, a, b))
        if t is ast.Is:
            if a is NONE or b is NONE:
                return self.isnone(a if b is NONE else b)
            if is_const(a) and is_const(b):
                return const(a is b)
            if a.op == 'ref' and b.op == 'ref':
                return const(a is b)
            if b in (TRUE, FALSE) and ops.boolish(a):
                return ops.eq(a, b)
            if b in (TRUE, FALSE):
                return mk('is', a, b)
            for x, y in ((a, b), (b, a)):
                if is_const(y) and not isinstance(cval(y), str) and (x.op in ('list', 'tuple', 'dict', 'tok', 'concat', 'ref') or solid(x) == 'str'):
                    return FALSE
            return mk('is', a, b) if a is not b else TRUE
        if t is ast.Eq:
            if a.op == 'ref' and a.args[1] == 'inst':
                e = self.class_lookup(st, a.args[2], '__eq__')
                if e is not None:
                    return self.truth(st, self.call_value(st, mk('bound', e, a), [b], {}, None))
                if b is NONE:
                    return FALSE
                return const(a is b)
            ca, cb = self.content(st, a), self.content(st, b)
            if ca is not None and cb is not None and ca.op == cb.op == 'list':
                if not any(x.op in ('each', 'opt', 'splice') for x in ca.args + cb.args):
                    if len(ca.args) != len(cb.args):
                        return FALSE
                    return ops.conj([self.compare(st, op, x, y) for x, y in zip(ca.args, cb.args)])
                if not cb.args:
                    return ops.neg(self.truth(st, a))
                if not ca.args:
                    return ops.neg(self.truth(st, b))
            if cb is not None and cb.op == 'list' and not cb.args and ca is None:
                return ops.eq(a, mk('list'))
            fa, fb = self.freeze1(st, a), self.freeze1(st, b)
            return ops.eq(fa, fb)
        if t is ast.In:
            return self.contains(st, a, b)
        a, b = self.freeze1(st, a), self.freeze1(st, b)
        for x in (a, b):
            if x is NONE:
                self.maybe_raise(st, 'TypeError', TRUE)
        if t is ast.Lt:
            return ops.lt(a, b)
        if t is ast.Gt:
            return ops.lt(b, a)
        if t is ast.LtE:
            return ops.neg(ops.lt(b, a))
        if t is ast.GtE:
            return ops.neg(ops.lt(a, b))
        return mk('cmp', a, b)

    def isnone(self, t):
        if t.op in ('ref',):
            return FALSE
        if t.op == 'call' and t.args[0].op in ('method', 'ext') and self.nonnull_call(t.args[0].args[0]):
            return FALSE
        return ops.isnone(t)

    NONNULL_CALLS = {'split', 'strip', 'lower', 'upper', 'replace', 'capitalize', 'rstrip', 'lstrip', 'splitlines', 'readlines', 'readline', 'read',
                     'float', 'int', 'str', 'sorted', 'numpy.asarray', 'numpy.array', 'numpy.fromstring', 'numpy.zeros', 'format', 'findall',
                     'numpy.dot', 'numpy.append', 'numpy.split', 'numpy.swapaxes', 'numpy.ascontiguousarray', 'numpy.linalg.inv', 're.findall',
                     're.compile', 're.split', 'copy.deepcopy', 'numpy.squeeze', 'numpy.dtype', 'len', 'abs', 'max', 'min', 'os.path.join', 'numpy.cross'}

    def nonnull_call(self, name):
        return name in self.NONNULL_CALLS

    def contains(self, st, a, b):
        b = self.res(st, b)
        if b.op == 'ite':
            return ops.ite(b.args[0], self.contains(st, a, b.args[1]), self.contains(st, a, b.args[2]))
        if is_const(a) and is_const(b):
            try:
                return const(cval(a) in cval(b))
            except Exception:
                pass
        if b.op in ('tok', 'concat') or (a.op in ('tok', 'concat') and b.op == 'const'):
            r = docs.member(a, b)
            if r is not None:
                return const(r)
        c = self.content(st, b)
        if c is None and b.op in ('tuple', 'list', 'dict', 'setv'):
            c = b
        if b.op == 'keys':
            c = self.content(st, b.args[0])
            if c is None:
                return self.contains(st, a, b.args[0])
        if c is not None and c.op == 'dict':
            r = self.dict_has(st, c, a)
            if r is not None:
                return r
            return mk('in', self.freeze1(st, a), self.freeze(st, c))
        if c is not None and c.op in ('list', 'tuple', 'setv'):
            simple = all(x.op not in ('each', 'opt', 'splice') for x in c.args)
            if simple and len(c.args) <= 60:
                return ops.disj([self.compare(st, ast.Eq(), a, x) for x in c.args])
            if is_const(a) and simple:
                if any(x is a for x in c.args):
                    return TRUE
                if all(is_const(x) for x in c.args):
                    return FALSE
            return mk('in', self.freeze1(st, a), self.freeze(st, c))
        return mk('in', self.freeze1(st, a), self.freeze1(st, b))

    # ------------------------------------------------------------ truth

    def truth(self, st, v):
        v = self.res(st, v)
        if v.op == 'const':
            return const(bool(v.args[1]))
        if ops.boolish(v):
            return v
        if v.op == 'ite':
            return ops.ite(v.args[0], self.truth(st, v.args[1]), self.truth(st, v.args[2]))
        if v.op == 'ref' and v.args[1] in ('inst', 'file', 'strio'):
            return TRUE
        if v.op in ('func', 'class', 'bound', 'module', 'ext'):
            return TRUE
        c = self.content(st, v)
        if c is None and v.op in ('list', 'tuple', 'dict', 'setv'):
            c = v
        if c is not None and c.op in ('list', 'tuple', 'dict', 'setv'):
            return self.seq_nonempty(c)
        if v.op == 'concat':
            if any(p.op == 'const' and p.args[1] for p in v.args):
                return TRUE
            return ops.neg(ops.eq(v, const('')))
        if ops.typ(v) == 'num':
            return ops.neg(ops.eq(v, const(0)))
        if ops.typ(v) == 'str':
            return ops.neg(ops.eq(v, const('')))
        if v.op == 'attr' and v.args[1] == 'size':
            return ops.neg(ops.eq(v, const(0)))
        return mk('nonempty', v)

    def seq_nonempty(self, c):
        return self._ne(c.args)

    def _ne(self, entries):
        cs = []
        for e in entries:
            if e.op == 'each':
                if self._ne_sub(e.args[1]) is TRUE:
                    cs.append(self.trip_nonempty(e.args[0]))
                else:
                    cs.append(mk('anyiter', e.args[0], self._ne_sub(e.args[1])))
            elif e.op == 'opt':
                cs.append(ops.ite(e.args[0], self._ne(e.args[1]), self._ne(e.args[2])))
            elif e.op == 'splice':
                cs.append(mk('nonempty', e.args[0]))
            elif e.op in ('del',):
                return mk('nonempty', mk('list', *entries))
            else:
                return TRUE
        return ops.disj(cs) if cs else FALSE

    def _ne_sub(self, entries):
        return self._ne(entries)

    def trip_nonempty(self, L):
        n = L.args[0]
        if n.op == 'len':
            return mk('nonempty', n.args[0])
        return ops.lt(const(0), n)

    # ------------------------------------------------------------ attributes

    def mro(self, st, c):
        out = [c]
        b = st.get(('bases', c)) or self.base.get(('bases', c))
        if b is not None:
            for x in b.args:
                for y in (self.mro(st, x) if x.op == 'class' else [x]):
                    if y not in out:
                        out.append(y)
        return out

    def class_lookup(self, st, c, name):
        for k in self.mro(st, c):
            if k.op == 'class':
                v = st.get(('f', k, name))
                if v is not None:
                    return v
        return None

    def clsof(self, o):
        if o.op == 'ref' and o.args[1] == 'inst':
            return o.args[2]
        return self.sym_class.get(o)

    def getattr(self, st, o, name, n=None):
        o = self.res(st, o)
        if o.op == 'ite':
            return self.fork(st, o.args[0], lambda s: self.getattr(s, o.args[1], name, n), lambda s: self.getattr(s, o.args[2], name, n))
        if o is UNDEF or o.op == 'unknown':
            return mk('attr', o, name)
        if o.op == 'ext':
            d = o.args[0] + '.' + name
            return mk('ext', d)
        if o.op == 'module':
            v = st.get(('v', ('g', o.args[0]), name))
            if v is None:
                sub = o.args[0] + '.' + name
                if sub in self.trees:
                    if not self.globals_done:
                        self.load_module(sub, st)
                    return mk('module', sub)
                self.note('missing global', o.args[0], name)
                self.maybe_raise(st, 'AttributeError', TRUE)
                return mk('unknown', 'global', o.args[0] + '.' + name)
            return v
        if o.op == 'class':
            if name == '__name__':
                return const(o.args[0].split('.')[-1])
            v = self.class_lookup(st, o, name)
            if v is None:
                self.maybe_raise(st, 'AttributeError', TRUE, const(name))
            if v.op == 'static':
                return v.args[0]
            if v.op == 'clsm':
                return mk('bound', v.args[0], o)
            return v
        if o.op == 'super':
            c = self.super_lookup(st, o, name)
            return self.bind_attr(st, c, o.args[1], n) if c is not None else mk('superattr', o.args[1], name)
        c = self.clsof(o)
        if c is not None:
            cv = None
            for k in self.mro(st, c):
                if k.op == 'class':
                    cv = st.get(('f', k, name))
                    if cv is not None:
                        break
            if cv is not None and cv.op == 'prop':
                return self.call_value(st, cv.args[0], [o], {}, n)
            v = st.get(('f', o, name))
            if v is not None and v is not UNDEF:
                v = self.res(st, v)
                return v
            if cv is not None:
                return self.bind_attr(st, cv, o, n)
            if name == '__class__':
                return c
            if name == '__module__':
                return const(c.args[0].rsplit('.', 1)[0])
            if name == '__dict__':
                return mk('instdict', o)
            extbase = any(k.op == 'ext' and k.args[0] not in ('abc.ABC', 'ABC', 'object') for k in self.mro(st, c))
            if o.op == 'ref' and not extbase:
                ga = self.class_lookup(st, c, '__getattr__')
                if ga is not None:
                    return self.call_value(st, mk('bound', ga, o), [const(name)], {}, n)
                self.note('missing attribute', c.args[0], name)
                self.maybe_raise(st, 'AttributeError', TRUE, const(name))
            if name.startswith('__'):
                return mk('attr', o, name)
            return mk('attr', o, name)
        v = st.get(('f', o, name))
        if v is not None:
            return self.res(st, v)
        if o is NONE:
            self.note('None attribute', name)
            self.do_raise(st, self.exc('AttributeError', const(name)))
        if self.docmode:
            self.no_attribute(st, o, name)
        if o.op == 'func' and name == '__name__':
            return const(self.funcs[o.args[0]].name)
        if o.op in ('attr', 'param', 'item', 'call', 'elem', 'unknown', 'lv', 'lout', 'get'):
            self.maybe_raise(st, 'AttributeError', self.isnone(o))
        if self.docmode and name in ('shape', 'ndim', 'size', 'T'):
            r = self.array_of(st, o)
            sh = arrays.shape(r) if r is not None else None
            if sh is not None:
                if name == 'shape':
                    return mk('tuple', *(const(i) for i in sh))
                if name == 'ndim':
                    return const(len(sh))
                if name == 'size':
                    return const(len(arrays.flatten(r)))
                return arrays.transpose(r)
        if self.docmode and name in ('shape', 'ndim', 'size', 'dtype') and o.op in ('ref', 'arr', 'struct', 'call'):
            r = self.array_of(st, o, struct=True)
            if r is not None and r.op == 'struct':
                sh = arrays.struct_shape(r)
                if name == 'dtype':
                    return r.args[0]
                if sh is not None and name != 'size':
                    return mk('tuple', *(const(i) for i in sh)) if name == 'shape' else const(len(sh))
        if self.docmode and name in ('names', 'itemsize') and o.op == 'call' and o.args[0].op == 'ext' and o.args[0].args[0] == 'numpy.dtype':
            f = arrays.struct_fields(o)
            if f and name == 'names':
                return mk('tuple', *(const(k) for k, _ in f))
        if o.op == 'exc' and name == 'args' and self.docmode:
            return mk('tuple', *o.args[1:])
        if o.op == 'exc' and name == 'code':
            return o.args[1] if len(o.args) > 1 else NONE
        if o.op == 'prop' and name in ('setter', 'getter'):
            return mk('bmeth', o, name)
        return mk('attr', self.freeze1(st, o), name) if o.op != 'ref' else mk('attr', o, name)

    def bind_attr(self, st, v, o, n=None):
        if v.op == 'func':
            return mk('bound', v, o)
        if v.op == 'ctxf':
            return mk('bound', v, o)
        if v.op == 'static':
            return v.args[0]
        if v.op == 'clsm':
            return mk('bound', v.args[0], self.clsof(o) or o)
        if v.op == 'prop':
            return self.call_value(st, v.args[0], [o], {}, n)
        return v

    def super_lookup(self, st, o, name):
        cls, self_ = o.args
        full = self.mro(st, self.clsof(self_) or cls)
        after = full[full.index(cls) + 1:] if cls in full else self.mro(st, cls)[1:]
        for k in after:
            if k.op == 'class':
                v = st.get(('f', k, name))
                if v is not None:
                    return v
        return None

    def setattr(self, st, o, name, v, n=None):
        o = self.res(st, o)
        if o.op == 'ite':
            self.fork(st, o.args[0], lambda s: (self.setattr(s, o.args[1], name, v, n), NONE)[1],
                      lambda s: (self.setattr(s, o.args[2], name, v, n), NONE)[1])
            return
        if o.op == 'module':
            self.ev(st, 'gwrite', o, name)
            st.m[('v', ('g', o.args[0]), name)] = v
            return
        c = self.clsof(o)
        if c is not None:
            cv = self.class_lookup(st, c, name)
            if cv is not None and cv.op == 'prop':
                if cv.args[1] is NONE:
                    self.do_raise(st, self.exc('AttributeError', const(name)))
                self.call_value(st, cv.args[1], [o, v], {}, n)
                return
        if o is NONE:
            self.do_raise(st, self.exc('AttributeError', const(name)))
        self.ev(st, 'setattr', o, name, v)
        st.m[('f', o, name)] = v

    # ------------------------------------------------------------ subscripts

    def e_Subscript(self, n, st):
        o = self.eval(n.value, st)
        k = self.eval_index(n.slice, st)
        if self.faults and self.content(st, o) is None and o.op not in ('const', 'ext', 'class', 'module'):
            self.anyfault(st)
        return self.getitem(st, o, k)

    def eval_index(self, s, st):
        if isinstance(s, ast.Slice):
            return mk('slice', *(self.freeze1(st, self.eval(x, st)) if x is not None else NONE for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return mk('tuple', *(self.eval_index(x, st) for x in s.elts))
        return self.freeze1(st, self.eval(s, st))

    e_Slice = eval_index

    def getitem(self, st, o, k):
        o, k = self.res(st, o), self.res(st, k)
        if o.op == 'ite':
            return self.fork(st, o.args[0], lambda s: self.getitem(s, o.args[1], k), lambda s: self.getitem(s, o.args[2], k))
        c = self.content(st, o)
        if c is None and o.op in ('list', 'tuple', 'dict'):
            c = o
        if c is not None:
            c = self.res(st, c)
        if o.op == 'ref' and o.args[1] == 'inst':
            g = self.class_lookup(st, o.args[2], '__getitem__')
            if g is not None:
                return self.call_value(st, mk('bound', g, o), [k], {}, None)
        if o is NONE:
            self.note('None subscript')
            self.do_raise(st, self.exc('TypeError'))
        if self.docmode:
            self.bad_subscript(st, o, k)
        if c is not None and c.op == 'dict':
            has = self.dict_has(st, c, k)
            if has is None:
                has = mk('in', k, self.freeze(st, c))
            self.maybe_raise(st, 'KeyError', ops.neg(has), k)
            v = self.dict_get(st, c, k)
            if v is not None:
                return self.res(st, v)
            return mk('item', self.freeze(st, c), k)
        if k.op == 'ite' and c is not None and c.op in ('list', 'tuple') and is_const(k.args[1]) and is_const(k.args[2]):
            return self.fork(st, k.args[0], lambda s: self.getitem(s, o, k.args[1]), lambda s: self.getitem(s, o, k.args[2]))
        if c is not None and c.op in ('list', 'tuple'):
            if k.op == 'const' and isinstance(k.args[1], int):
                e = self.seq_at(c, k.args[1])
                if e is not None:
                    return self.res(st, e)
                if all(x.op not in ('each', 'opt', 'splice') for x in c.args):
                    self.note('index out of range')
                    self.do_raise(st, self.exc('IndexError'))
            elif k.op == 'slice':
                r = self.seq_slice(c, k)
                if r is not None:
                    if c.op == 'tuple':
                        return r
                    return self.alloc(st, 'list', mk('list', *r.args))
            elif k.op == 'idx' and len(c.args) == 1 and c.args[0].op == 'each':
                e = c.args[0]
                if len(e.args[1]) == 1 and e.args[0].args[0] is k.args[0].args[0]:
                    return subst(e.args[1][0], {e.args[0]: k.args[0]})
            fc = self.freeze(st, c)
            if self.catchable('IndexError'):
                self.maybe_raise(st, 'IndexError', mk('raises', const('IndexError'), mk('item', fc, k)))
            return self.mkitem(fc, k)
        if c is not None and c.op == 'arr':
            if self.docmode and is_const(k) and isinstance(cval(k), str):
                r = self.array_of(st, o, struct=True)
                if r is not None and r.op == 'struct':
                    r = arrays.index(r, k)
                    if r is None:
                        self.do_raise(st, self.exc('ValueError', const('no field of that name')))
                    return r
            for e in reversed(c.args[1:]):
                if e.op == 'st' and e.args[0] is k:
                    return e.args[1]
                if e.op == 'st' and is_const(e.args[0]) and is_const(k):
                    continue
                break
            if self.docmode:
                r = self.array_of(st, o, struct=True)
                if r is not None:
                    if r.op == 'nd' and is_const(k) and type(cval(k)) is int and not -len(r.args) <= cval(k) < len(r.args):
                        self.do_raise(st, self.exc('IndexError', const('index out of bounds')))
                    r = arrays.index(r, self.freeze1(st, k))
                    if r is not None:
                        return r
            return self.mkitem(self.freeze(st, c), k)
        if o.op in ('tok', 'concat'):
            r = docs.index(o, k)
            if r is not None:
                return r
        if o.op == 'const' and isinstance(cval(o), (str, bytes)) and k.op == 'slice' and all(is_const(x) for x in k.args):
            return const(cval(o)[slice(*(cval(x) for x in k.args))])
        if o.op == 'const' and k.op == 'const' and isinstance(cval(o), str):
            try:
                return const(cval(o)[cval(k)])
            except Exception:
                self.do_raise(st, self.exc('IndexError'))
        if o.op == 'module' or o.op == 'class':
            return mk('item', o, k)
        base = c if c is not None else o
        if base.op in ('attr', 'param', 'item', 'call', 'elem', 'unknown', 'lv', 'lout', 'get') and self.handlers:
            it = mk('item', base, k)
            if self.catchable('KeyError') and not (is_const(k) and isinstance(cval(k), int)) and k.op not in ('slice', 'tuple', 'idx', 'lin') and not self.listlike(base):
                self.maybe_raise(st, 'KeyError', ops.neg(mk('in', k, base)), k)
            if self.catchable('IndexError') and k.op != 'slice':
                self.maybe_raise(st, 'IndexError', mk('raises', const('IndexError'), it))
            if self.catchable('TypeError'):
                self.maybe_raise(st, 'TypeError', self.isnone(base))
        if self.docmode:
            r = self.array_of(st, o, struct=True)
            if r is not None:
                if r.op == 'nd' and is_const(k) and type(cval(k)) is int and not -len(r.args) <= cval(k) < len(r.args):
                    self.do_raise(st, self.exc('IndexError', const('index out of bounds')))
                r = arrays.index(r, self.freeze1(st, k))
                if r is not None:
                    return r
        return self.mkitem(base if base.op != 'ref' else self.freeze(st, base), k)

    def array_of(self, st, o, struct=False):
        """normal form of an array value of known shape, else None"""
        if o.op == 'ref' and o.args[1] != 'arr' or o.op in ('const', 'tok', 'concat', 'list', 'tuple', 'dict', 'func', 'class', 'ext', 'param'):
            return None
        t = arrays.norm(self.freeze(st, o))
        return t if t.op == 'nd' or (struct and t.op == 'struct') else None

    def listlike(self, t):
        return t.op == 'call' and t.args[0].op == 'method' and t.args[0].args[0] in ('split', 'readlines', 'splitlines', 'findall')

    def mkitem(self, o, k):
        if k.op == 'idx' and k.args[0].args[0].op == 'len' and k.args[0].args[0].args[0] is o:
            return mk('elem', o, k.args[0])
        # slice of a slice start: x[a:][i] -> x[a+i] for constants
        if o.op == 'item' and o.args[1].op == 'slice' and o.args[1].args[2] is NONE:
            lo, hi = o.args[1].args[0], o.args[1].args[1]
            lo = const(0) if lo is NONE else lo
            if is_const(lo) and isinstance(cval(lo), int) and cval(lo) >= 0 and is_const(k) and isinstance(cval(k), int) and cval(k) >= 0:
                if hi is NONE or (is_const(hi) and isinstance(cval(hi), int) and cval(hi) > cval(lo) + cval(k)):
                    return self.mkitem(o.args[0], const(cval(lo) + cval(k)))
            if k.op in ('idx', 'lin') and is_const(lo) and isinstance(cval(lo), int) and cval(lo) >= 0 and not (k.op == 'lin' and k.args[0] and k.args[0] < 0):
                return self.mkitem(o.args[0], ops.add(k, lo))
        if o.op == 'list' and len(o.args) == 1 and o.args[0].op == 'each' and len(o.args[0].args[1]) == 1 and k.op == 'idx' \
                and o.args[0].args[0].args[0] is k.args[0].args[0]:
            return subst(o.args[0].args[1][0], {o.args[0].args[0]: k.args[0]})
        if o.op == 'list' and len(o.args) == 1 and o.args[0].op == 'each' and len(o.args[0].args[1]) == 1 and is_const(k) and isinstance(cval(k), int) \
                and o.args[0].args[1][0].op not in ('opt', 'each', 'splice'):
            # element k of a mapped list is the mapping of element k
            L = o.args[0].args[0]
            r = self.at_index(o.args[0].args[1][0], L, k)
            if r is not None:
                return r
        return mk('item', o, k)

    def at_index(self, t, L, k):
        """value of a per-iteration term at constant iteration k"""
        n = L.args[0]
        if n.op != 'len':
            if cval(k) < 0:
                return None
        bad = []

        def f(x):
            if x.op == 'elem' and x.args[1] is L:
                return self.mkitem(subst(x.args[0], f), k)
            if x.op == 'idx' and x.args[0] is L:
                if cval(k) < 0:
                    bad.append(x)
                return k
            if x.op in ('lv',) and x.args[0] is L:
                bad.append(x)
            return None
        r = subst(t, f)
        return None if bad else r

    def seq_at(self, c, i):
        a = c.args
        if i >= 0:
            for j in range(min(i + 1, len(a))):
                if a[j].op in ('each', 'opt', 'splice'):
                    return None
            return a[i] if i < len(a) else None
        for j in range(1, min(-i, len(a)) + 1):
            if a[-j].op in ('each', 'opt', 'splice'):
                return None
        return a[i] if -i <= len(a) else None

    def seq_slice(self, c, k):
        if any(x.op in ('each', 'opt', 'splice') for x in c.args):
            lo, hi, stp = k.args
            if lo is NONE and hi is NONE and stp is NONE:
                return c
            if stp is NONE and hi is NONE and is_const(lo) and isinstance(cval(lo), int) and cval(lo) >= 0 and \
                    len(c.args) > cval(lo) and not any(x.op in ('each', 'opt', 'splice') for x in c.args[:cval(lo)]):
                return mk(c.op, *c.args[cval(lo):])
            if stp is NONE and lo is NONE and is_const(hi) and isinstance(cval(hi), int) and cval(hi) < 0 and \
                    not any(x.op in ('each', 'opt', 'splice') for x in c.args[cval(hi):]) and len(c.args) >= -cval(hi):
                return mk(c.op, *c.args[:cval(hi)])
            return None
        if all(is_const(x) for x in k.args):
            return mk(c.op, *c.args[slice(*(cval(x) for x in k.args))])
        return None

    def setitem(self, st, o, k, v):
        o, k = self.res(st, o), self.res(st, k)
        if o.op == 'ite':
            self.fork(st, o.args[0], lambda s: (self.setitem(s, o.args[1], k, v), NONE)[1], lambda s: (self.setitem(s, o.args[2], k, v), NONE)[1])
            return
        if o is NONE:
            self.do_raise(st, self.exc('TypeError'))
        if o.op == 'ref' and o.args[1] == 'inst':
            g = self.class_lookup(st, o.args[2], '__setitem__')
            if g is not None:
                self.call_value(st, mk('bound', g, o), [k, v], {}, None)
                return
        self.ev(st, 'setitem', o, k, v)
        c = self.content(st, o)
        if c is None:
            c = o
            if self.docmode and o.op == 'nd':
                self.undecidable('store to a part of an array')
        if c.op == 'dict':
            st.m[('c', o)] = self.dict_put(c, k, v)
            return
        if c.op == 'list' and is_const(k) and isinstance(cval(k), int):
            if self.seq_at(c, cval(k)) is not None:
                a = list(c.args)
                a[cval(k)] = v
                st.m[('c', o)] = mk('list', *a)
                return
        if self.docmode and c.op in ('arr', 'call'):
            nk = arrays.namekey(k)
            if nk is not None:
                b = arrays.norm(c.args[0] if c.op == 'arr' else c)
                if b.op == 'struct' and arrays.struct_get(b, nk[0]) is None:
                    self.do_raise(st, self.exc('ValueError', const('no field of that name')))
        if c.op == 'arr':
            st.m[('c', o)] = self.arr_put(c, k, v)
        else:
            st.m[('c', o)] = mk('arr', c, mk('st', k, self.freeze1(st, v) if v.op == 'ref' and v.args[1] != 'inst' else v))

    def arr_put(self, c, k, v):
        a = c.args
        if a[-1].op == 'st' and a[-1].args[0] is k:
            a = a[:-1]
        return mk('arr', *a, mk('st', k, v))

    def del_item(self, st, o, k):
        o = self.res(st, o)
        self.ev(st, 'delitem', o, k)
        c = self.content(st, o)
        if c is not None and c.op == 'dict' and is_const(k) and all(e.op == 'kv' and is_const(e.args[0]) for e in c.args):
            if not any(e.args[0] is k for e in c.args):
                self.do_raise(st, self.exc('KeyError', k))
            st.m[('c', o)] = mk('dict', *(e for e in c.args if e.args[0] is not k))
            return
        if c is not None and c.op == 'list' and is_const(k) and isinstance(cval(k), int) and self.seq_at(c, cval(k)) is not None:
            a = list(c.args)
            del a[cval(k)]
            st.m[('c', o)] = mk('list', *a)
            return
        if c is not None and c.op in ('dict', 'list'):
            st.m[('c', o)] = mk(c.op, *c.args, mk('del', k))
        else:
            st.m[('c', o)] = mk('arr', c if c is not None else o, mk('del', k))

    # ------------------------------------------------------------ dict content

    def dict_put(self, c, k, v):
        a = list(c.args)
        for i in range(len(a) - 1, -1, -1):
            e = a[i]
            if e.op == 'kv' and e.args[0] is k:
                a[i] = mk('kv', k, v)
                return mk('dict', *a)
            if e.op == 'kv' and is_const(e.args[0]) and is_const(k):
                continue
            if e.op == 'kv' and self.docmode and ops.eq(e.args[0], k) is FALSE:
                continue
            break
        return mk('dict', *a, mk('kv', k, v))

    def dict_get(self, st, c, k):
        return self._dget(st, list(c.args), k)

    def _dget(self, st, entries, k):
        for i in range(len(entries) - 1, -1, -1):
            e = entries[i]
            rest = entries[:i]
            if e.op == 'kv':
                q = ops.eq(e.args[0], k)
                d = self.dec(st, q)
                if d is True:
                    return e.args[1]
                if d is False:
                    continue
                r = self._dget(st, rest, k)
                return ops.ite(q, e.args[1], r) if r is not None else e.args[1]
            if e.op == 'opt':
                a = self._dget(st, rest + list(e.args[1]), k)
                b = self._dget(st, rest + list(e.args[2]), k)
                if a is None:
                    return b
                if b is None:
                    return a
                return ops.ite(e.args[0], a, b)
            if e.op == 'splice':
                r = self._dget(st, rest, k)
                it = self.mkitem(e.args[0], k)
                if r is None:
                    return it
                return ops.ite(mk('in', k, e.args[0]), it, r)
            if e.op == 'each' and all(x.op == 'kv' and is_const(x.args[0]) for x in e.args[1]) and is_const(k) and \
                    not any(x.args[0] is k for x in e.args[1]):
                continue
            return mk('item', self.freeze(st, mk('dict', *entries)), k)
        return None

    def dict_has(self, st, c, k):
        return self._dhas(st, list(c.args), k)

    def _dhas(self, st, entries, k):
        for i in range(len(entries) - 1, -1, -1):
            e = entries[i]
            rest = entries[:i]
            if e.op == 'kv':
                q = ops.eq(e.args[0], k)
                if q is TRUE:
                    return TRUE
                if q is FALSE:
                    continue
                r = self._dhas(st, rest, k)
                return ops.disj((q, r)) if r is not None else None
            if e.op == 'opt':
                a = self._dhas(st, rest + list(e.args[1]), k)
                b = self._dhas(st, rest + list(e.args[2]), k)
                return ops.ite(e.args[0], a, b) if a is not None and b is not None else None
            if e.op == 'splice':
                r = self._dhas(st, rest, k)
                return ops.disj((mk('in', k, e.args[0]), r)) if r is not None else None
            return None
        return FALSE

    # ------------------------------------------------------------ containers

    def content(self, st, t):
        c = st.get(('c', t))
        if c is None:
            return None
        if c.op in ('list', 'dict', 'setv') and any(e.op == 'opt' for e in c.args):
            c2 = mk(c.op, *self._strip_opts(st, c.args))
            if c2 is not c:
                st.m[('c', t)] = c2
                c = c2
        elif c.op == 'ite':
            c = self.res(st, c)
        return c

    def _strip_opts(self, st, entries):
        out = []
        for e in entries:
            if e.op == 'opt':
                d = self.dec(st, e.args[0])
                if d is not None:
                    out.extend(self._strip_opts(st, e.args[1] if d else e.args[2]))
                    continue
            out.append(e)
        return out

    def known_seq(self, st, v):
        """list of element terms when the sequence is completely known"""
        c = self.content(st, v)
        if c is None:
            c = v
        if c.op in ('list', 'tuple', 'setv') and all(x.op not in ('each', 'opt', 'splice', 'del') for x in c.args):
            return list(c.args)
        if c.op == 'dict' and all(x.op == 'kv' for x in c.args):
            return [x.args[0] for x in c.args]
        if v.op == 'keys':
            return self.known_seq(st, v.args[0])
        if v.op == 'items':
            c = self.content(st, v.args[0])
            if c is not None and c.op == 'dict' and all(x.op == 'kv' for x in c.args):
                return [mk('tuple', x.args[0], x.args[1]) for x in c.args]
        if v.op == 'values':
            c = self.content(st, v.args[0])
            if c is not None and c.op == 'dict' and all(x.op == 'kv' for x in c.args):
                return [x.args[1] for x in c.args]
        if v.op == 'range' and all(is_const(x) for x in v.args):
            try:
                r = range(*(cval(x) for x in v.args))
                if len(r) <= 400:
                    return [const(i) for i in r]
            except Exception:
                return None
        if v.op == 'enumerate':
            s = self.known_seq(st, v.args[0])
            if s is not None and is_const(v.args[1]):
                return [mk('tuple', const(i + cval(v.args[1])), x) for i, x in enumerate(s)]
        if v.op == 'zip':
            ss = [self.known_seq(st, x) for x in v.args]
            if all(s is not None for s in ss) and ss:
                return [mk('tuple', *x) for x in zip(*ss)]
            ks = [s for s in ss if s is not None]
        if v.op == 'const' and isinstance(v.args[1], str) and len(v.args[1]) < 80:
            return [const(x) for x in v.args[1]]
        if v.op == 'reversed':
            s = self.known_seq(st, v.args[0])
            return s[::-1] if s is not None else None
        if self.docmode and not (v.op == 'ref' and v.args[1] != 'arr'):
            r = self.array_of(st, v)
            if r is not None:
                return list(r.args)
        return None

    def freeze1(self, st, t):
        if t.op == 'ref' and t.args[1] not in ('inst', 'file', 'strio'):
            return self.freeze(st, t)
        if t.op == 'ref':
            return t
        if t.op in ('const', 'param', 'ext'):
            return t
        return self.freeze(st, t) if self.has_ref(t) else t

    _HR = {}

    def has_ref(self, t):
        r = self._HR.get(t)
        if r is None:
            r = False
            stack, seen = [t], set()
            while stack:
                x = stack.pop()
                if isinstance(x, tuple):
                    stack.extend(x)
                    continue
                if not isinstance(x, Term) or x in seen:
                    continue
                seen.add(x)
                if x.op == 'ref' and x.args[1] not in ('inst', 'file', 'strio'):
                    r = True
                    break
                if self._HR.get(x) is False:
                    continue
                stack.extend(x.args)
            self._HR[t] = r
        return r

    def freeze(self, st, t, deep=False, seen=()):
        """replace container references by their present content (instances only when deep)"""
        memo = {}
        busy = set()

        def f(x):
            if x.op == 'ref':
                if x in busy:
                    return mk('cycle')
                kind = x.args[1]
                if kind == 'inst':
                    if not deep:
                        return x
                    busy.add(x)
                    fields = []
                    for k in sorted((k[2] for k in st.m if k[0] == 'f' and k[1] is x)):
                        fields.append(mk('kv', const(k), go(st.m[('f', x, k)])))
                    busy.discard(x)
                    return mk('inst', x.args[2], *fields)
                if kind in ('file',):
                    return x
                c = st.get(('c', x))
                if c is None:
                    return x
                busy.add(x)
                r = go(c)
                busy.discard(x)
                if r.op == 'list' and len(r.args) == 1 and r.args[0].op == 'splice':
                    r = r.args[0].args[0]
                return r
            if x.op in ('func', 'bound', 'class'):
                return x
            c = st.m.get(('c', x)) if x.op not in ('const',) else None
            if c is not None and c is not x and x not in busy:
                busy.add(x)
                r = go(c)
                busy.discard(x)
                return r
            return None

        def go(x):
            return subst(x, f)
        return go(t)
