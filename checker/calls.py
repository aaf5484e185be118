"""Calls: package functions are inlined, builtins and containers modelled, everything else becomes a term."""
import ast
import string as _string

from .terms import Term, mk, const, NONE, TRUE, FALSE, UNDEF, is_const, cval, lit, subst, contains
from . import ops, docs, arrays
from .state import Dead, AnalysisError, merge, Outcome, opt
from .expr import EXC_BUILTINS

FRESH_ARR = {'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.array', 'numpy.full', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.copy',
             'numpy.full_like', 'numpy.empty_like', 'numpy.identity', 'numpy.eye'}
LOGM = {'debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log'}
STR_PURE = {'split', 'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'capitalize', 'replace', 'startswith', 'endswith', 'splitlines', 'find',
            'index', 'count', 'isalpha', 'isdigit', 'isnumeric', 'title', 'rsplit', 'partition', 'rpartition', 'zfill', 'ljust', 'rjust',
            'center', 'encode', 'decode', 'swapcase', 'casefold', 'isspace', 'isupper', 'islower', 'expandtabs', 'removeprefix', 'removesuffix',
            'isdecimal', 'rindex', 'rfind', 'isalnum'}
MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add', 'discard', 'popitem',
       'resize', 'fill', 'itemset', 'put', 'setflags', 'difference_update', 'intersection_update', 'appendleft'}
STATEFUL = {'read', 'readline', 'readlines', 'seek', 'tell', '__next__'}
RAISES = {'float': ('ValueError', 'TypeError'), 'int': ('ValueError', 'TypeError'), 'numpy.fromstring': ('ValueError',), 'numpy.array': ('ValueError',),
          'numpy.asarray': ('ValueError',), 'os.stat': ('OSError',), 'open': ('OSError',), 'os.path.getsize': ('OSError',),
          'numpy.loadtxt': ('ValueError',)}
SAFE_EXT = ('logging.', 'sys._getframe', 'isinstance', 'len', 'hasattr', 'callable', 'id', 'type', 'os.path.', 'os.linesep', 'contextlib.', 'io.StringIO', 'StringIO', 'warnings.', 'bool', 'repr')
FILEOPS = {'read', 'readline', 'readlines', 'write', 'writelines', 'seek', 'tell', 'truncate', 'flush'}
FILE_FAULT_EXT = {'lxml.etree.parse', 'lxml.etree.iterparse', 'xml.etree.ElementTree.parse', 'yaml.safe_load', 'mmap.mmap', 'os.fstat'}


ARITH = ('lin', 'mul', 'div', 'pow', 'mod', 'floordiv')


def scalar(x):
    """no operand of an arithmetic term can be an array or another object"""
    if x.op == 'lin':
        return all(scalar(y) for _, y in x.args[1])
    if x.op in ARITH:
        return all(scalar(y) for y in x.args if isinstance(y, Term))
    return ops.typ(x) in ('num', 'bool') or (x.op == 'item' and x.args[0].op == 'shape')


class Unordered:
    """an unknown element of a sort key: comparing it is not decided"""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, Unordered) and o.t is self.t:
            return True
        raise TypeError

    def __lt__(self, o):
        raise TypeError
    __gt__ = __lt__


class CallMixin:
    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and self.lookup('super', st) is None:
            return self.make_super(n, st)
        if isinstance(n.func, ast.Attribute):
            o = self.eval(n.func.value, st)
            args, kwargs = self.eval_args(n, st)
            return self.call_attr(st, o, n.func.attr, args, kwargs, n)
        f = self.eval(n.func, st)
        args, kwargs = self.eval_args(n, st)
        return self.call_value(st, f, args, kwargs, n)

    def make_super(self, n, st):
        if n.args:
            c = self.eval(n.args[0], st)
            s = self.eval(n.args[1], st)
            return mk('super', c, s)
        # current function's class and first argument
        cls = self.cstack_cls[-1] if getattr(self, 'cstack_cls', None) else None
        fi = self.funcs[self.cstack_uid[-1]]
        c = mk('class', f'{fi.mod}.{fi.cls}')
        selfn = fi.node.args.args[0].arg
        return mk('super', c, self.lookup(selfn, st))

    def eval_args(self, n, st):
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.res(st, self.eval(a.value, st))
                k = self.known_seq(st, v)
                if k is not None:
                    args.extend(k)
                else:
                    args.append(mk('splice', v))
            else:
                args.append(self.eval(a, st))
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                v = self.res(st, v)
                c = self.content(st, v)
                if c is not None and c.op == 'dict' and all(e.op == 'kv' and is_const(e.args[0]) for e in c.args):
                    for e in c.args:
                        kwargs[cval(e.args[0])] = e.args[1]
                elif v is not NONE:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        return args, kwargs

    # ------------------------------------------------------------ dispatch

    def call_attr(self, st, o, name, args, kwargs, n):
        o = self.res(st, o)
        if o.op == 'ite':
            return self.fork(st, o.args[0], lambda s: self.call_attr(s, o.args[1], name, args, kwargs, n),
                             lambda s: self.call_attr(s, o.args[2], name, args, kwargs, n))
        if o.op in ('ext', 'module', 'class', 'super') or self.clsof(o) is not None:
            if o.op == 'super':
                c = self.super_lookup(st, o, name)
                if c is None:
                    self.ev(st, 'extcall', mk('superattr', o.args[1], name), tuple(args))
                    return NONE if name == '__init__' else mk('call', mk('superattr', o.args[1], name), *args)
                f = self.bind_attr(st, c, o.args[1], n)
                return self.call_value(st, f, args, kwargs, n)
            f = self.getattr(st, o, name, n)
            if f.op in ('func', 'bound', 'class', 'ext', 'static', 'ite', 'ctxf', 'bmeth'):
                return self.call_value(st, f, args, kwargs, n)
            if o.op in ('class', 'module'):
                return self.call_value(st, f, args, kwargs, n)
            if f.op != 'attr' or f.args[0] is not o:
                return self.call_value(st, f, args, kwargs, n)
        return self.call_method(st, o, name, args, kwargs, n)

    def call_value(self, st, f, args, kwargs, n):
        f = self.res(st, f)
        o = f.op
        if o == 'ite':
            return self.fork(st, f.args[0], lambda s: self.call_value(s, f.args[1], args, kwargs, n),
                             lambda s: self.call_value(s, f.args[2], args, kwargs, n))
        if o == 'func':
            return self.inline(st, f.args[0], args, kwargs, n)
        if o == 'ctxf':
            if self.yield_hooks and getattr(self, '_ctx_now', False):
                pass
            return mk('ctxcall', f.args[0], tuple(args), tuple(sorted(kwargs.items())))
        if o == 'bound':
            if f.args[0].op == 'ctxf':
                return mk('ctxcall', f.args[0].args[0], (f.args[1],) + tuple(args), tuple(sorted(kwargs.items())))
            return self.call_value(st, f.args[0], [f.args[1]] + list(args), kwargs, n)
        if o == 'static':
            return self.call_value(st, f.args[0], args, kwargs, n)
        if o == 'class':
            return self.instantiate(st, f, args, kwargs, n)
        if o == 'bmeth':
            if f.args[0].op == 'prop':
                return f
            return self.call_method(st, f.args[0], f.args[1], args, kwargs, n)
        if o == 'ext':
            return self.call_ext(st, f.args[0], args, kwargs, n)
        if o == 'partial':
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call_value(st, f.args[0], list(f.args[1]) + list(args), kw, n)
        if o == 'attr' and f.args[0].op not in ('ext',):
            return self.call_method(st, f.args[0], f.args[1], args, kwargs, n)
        if f.op == 'ref' and f.args[1] == 'inst':
            c = self.class_lookup(st, f.args[2], '__call__')
            if c is not None:
                return self.call_value(st, mk('bound', c, f), args, kwargs, n)
        if f is NONE:
            self.do_raise(st, self.exc('TypeError'))
        if f.op == 'const':
            self.do_raise(st, self.exc('TypeError'))
        return self.opaque(st, f, args, kwargs)

    def opaque(self, st, f, args, kwargs):
        a = [self.freeze1(st, x) for x in args]
        kw = [mk('kw', k, self.freeze1(st, v)) for k, v in sorted(kwargs.items())]
        self.ev(st, 'call', f, tuple(args), tuple(sorted(kwargs.items())))
        return mk('call', f, *a, *kw)

    def instantiate(self, st, c, args, kwargs, n):
        r = mk('ref', self.new_oid(), 'inst', c)
        init = self.class_lookup(st, c, '__init__')
        if init is not None:
            self.call_value(st, mk('bound', init, r), args, kwargs, n)
        else:
            if args:
                st.m[('f', r, 'args')] = mk('tuple', *args)
        return r

    # ------------------------------------------------------------ inlining

    def bind(self, st, fi, args, kwargs):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kwargs = dict(kwargs)
        star2 = kwargs.pop('**', None)
        args = list(args)
        if any(x.op == 'splice' for x in args):
            i = [x.op for x in args].index('splice')
            sp = args[i].args[0]
            rest = len(names) - i
            args = args[:i] + [self.getitem(st, sp, const(j)) for j in range(max(rest, 0))]
        for nme, v in zip(names, args):
            env[nme] = v
        extra = args[len(names):]
        nd = len(fi.defaults)
        for i, nme in enumerate(names):
            if nme in env:
                if nme in kwargs:
                    self.do_raise(st, self.exc('TypeError'))
                continue
            di = i - (len(names) - nd)
            dflt = fi.defaults[di] if di >= 0 else None
            if nme in kwargs:
                env[nme] = kwargs.pop(nme)
            elif star2 is not None:
                k = const(nme)
                env[nme] = ops.ite(mk('in', k, star2), mk('item', star2, k), dflt) if dflt is not None else mk('item', star2, k)
            elif dflt is not None:
                env[nme] = dflt
            else:
                self.note('missing argument', fi.uid, nme)
                self.do_raise(st, self.exc('TypeError', const(nme)))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif x.arg in fi.kwdefaults:
                env[x.arg] = fi.kwdefaults[x.arg]
            elif star2 is not None:
                env[x.arg] = mk('item', star2, const(x.arg))
            else:
                self.do_raise(st, self.exc('TypeError', const(x.arg)))
        if a.vararg:
            env[a.vararg.arg] = mk('tuple', *extra)
        elif extra:
            self.note('too many arguments', fi.uid)
            self.do_raise(st, self.exc('TypeError'))
        if a.kwarg:
            ent = [mk('kv', const(k), v) for k, v in kwargs.items()]
            if star2 is not None:
                ent.insert(0, mk('splice', star2))
            env[a.kwarg.arg] = self.alloc(st, 'dict', mk('dict', *ent))
        elif kwargs:
            self.note('unexpected keyword', fi.uid, *sorted(kwargs))
            self.do_raise(st, self.exc('TypeError', *(const(k) for k in sorted(kwargs))))
        return env

    cstack_uid = []

    def inline(self, st, uid, args, kwargs, n):
        fi = self.funcs[uid]
        stub = self.stubs.get(uid) or self.stubs.get(fi.name if fi.cls else None)
        if stub is not None:
            r = stub(self, st, args, kwargs)
            if r is not NotImplemented:
                return r
        self.inlined.add(uid.split("#")[0] if isinstance(uid, str) else uid)
        if len(self.cstack) > self.max_depth or self.cstack.count(uid) >= 3:
            self.note('recursion bound', uid)
            return self.opaque(st, mk('func', uid), args, kwargs)
        env = self.bind(st, fi, args, kwargs)
        self.ev(st, 'enter', mk('func', uid), tuple(sorted(env.items())))
        fid = self.new_fid()
        oldfid, oldcur = st.fid, self.cur
        if fi.closure[0] not in ('g', 'cls'):
            st.m[('parent', fid)] = fi.closure
        for k, v in env.items():
            st.m[('v', fid, k)] = v
        st.fid = fid
        self.cur = (fi.mod, fi.node.lineno)
        self.cstack.append(uid)
        self.cstack_uid = self.cstack
        try:
            if fi.is_lambda:
                v = self.eval(fi.node.body, st)
                live = [(st, v)]
            else:
                self.coll.append([])
                end = None
                try:
                    end = self.exec_block(fi.node.body, st)
                finally:
                    outs = self.coll.pop()
                live = []
                for o in outs:
                    if o.kind == 'return' and o.fid == fid:
                        live.append((o.st, o.val))
                    else:
                        self.coll[-1].append(o)
                if end is not None:
                    live.append((end, NONE))
        finally:
            self.cstack.pop()
            self.cur = oldcur
            st.fid = oldfid
        if not live:
            raise Dead()
        ns, v = merge(live)
        st.become(ns)
        st.fid = oldfid
        if fid not in self.captured:
            for k in [k for k in st.m if k[0] in ('v', 'curexc', 'parent', 'globals', 'nonlocal') and k[1] == fid]:
                del st.m[k]
        return self.res(st, v)

    def e_Yield(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        if self.yield_hooks:
            h = self.yield_hooks[-1]
            return h(st, v)
        self.note('generator')
        k = ('gen', st.fid)
        return NONE

    # ------------------------------------------------------------ external functions

    def call_ext(self, st, name, args, kwargs, n):
        m = getattr(self, 'b_' + name.replace('.', '_'), None)
        if m is not None:
            r = m(st, args, kwargs, n)
            if r is not NotImplemented:
                return r
        fr = [self.freeze1(st, x) for x in args]
        kw = [mk('kw', k, self.freeze1(st, v)) for k, v in sorted(kwargs.items())]
        t = mk('call', mk('ext', name), *fr, *kw)
        short = name.split('.')[-1]
        if short in EXC_BUILTINS or short.endswith('Error'):
            return t
        self.ev(st, 'extcall', mk('ext', name), tuple(args), tuple(sorted(kwargs.items())))
        if any(x is NONE for x in args[:1]) and name in ('float', 'int', 'len', 'enumerate', 'sorted', 'numpy.split'):
            self.maybe_raise(st, 'TypeError', TRUE)
        if name in RAISES:
            for e in RAISES[name]:
                if e == 'TypeError':
                    if self.catchable('TypeError') and fr and fr[0].op in ('attr', 'item', 'param', 'elem'):
                        self.maybe_raise(st, e, self.isnone(fr[0]))
                    continue
                if not all(is_const(x) and isinstance(cval(x), (int, float)) for x in fr[:1]):
                    self.maybe_raise(st, e, mk('raises', const(e), t))
        if self.faults and name in FILE_FAULT_EXT:
            self.fault(st, t)
        elif self.faults and not name.startswith(SAFE_EXT):
            self.anyfault(st)
        if name in FRESH_ARR:
            return self.alloc(st, 'arr', t)
        if name in ('io.StringIO', 'StringIO'):
            return self.alloc(st, 'strio', args[0] if args else const(''))
        return t

    def fault(self, st, what):
        """the operation `what` may fail with an arbitrary error"""
        s2 = st.copy()
        c = mk('fault', what, len(self.events))
        s2.pc = st.pc + (c,)
        self.push_raise(s2, self.exc('AnyError', what))
        st.pc = st.pc + (ops.neg(c),)

    def own_open(self, st):
        for k, v in st.m.items():
            if k[0] == 'o' and v is not FALSE and self.dec(st, v) is not False:
                return True
        return False

    def anyfault(self, st):
        if self.faults == 'all' and self.own_open(st):
            self.fault(st, mk('site', self.cur[0], self.cur[1]))

    # builtins

    def b_len(self, st, args, kw, n):
        v = self.res(st, args[0])
        if self.docs is not None and v.op == 'ext' and v.args[0] == 'os.linesep':
            return const(1)
        if v.op == 'ite':
            return ops.ite(v.args[0], self.b_len(st, [v.args[1]], {}, n), self.b_len(st, [v.args[2]], {}, n))
        k = self.known_seq(st, v)
        if k is not None:
            return const(len(k))
        if v.op == 'ref' and v.args[1] == 'inst':
            c = self.class_lookup(st, v.args[2], '__len__')
            if c is not None:
                return self.call_value(st, mk('bound', c, v), [], {}, n)
        if v is NONE or self.pytype(st, v) in ('int', 'float', 'bool'):
            self.do_raise(st, self.exc('TypeError'))
        if self.handlers and v.op in ('attr', 'item', 'param', 'elem', 'call') and self.catchable('TypeError'):
            self.maybe_raise(st, 'TypeError', self.isnone(v))
        return self.length(self.freeze1(st, v))

    def length(self, c):
        if c.op == 'const' and isinstance(cval(c), (str, bytes)):
            return const(len(cval(c)))
        if c.op in ('list', 'tuple', 'dict', 'setv'):
            r = const(0)
            for e in c.args:
                if e.op == 'each':
                    if all(x.op not in ('opt', 'each', 'splice') for x in e.args[1]):
                        r = ops.add(r, ops.scale(e.args[0].args[0], len(e.args[1])))
                    else:
                        return mk('len', c)
                elif e.op == 'splice':
                    r = ops.add(r, self.length(e.args[0]))
                elif e.op in ('opt', 'del'):
                    return mk('len', c)
                else:
                    r = ops.add(r, const(1))
            return r
        if c.op in ('keys', 'items', 'values', 'enumerate', 'reversed'):
            return self.length(c.args[0])
        if c.op == 'range':
            return self.range_len(c)
        if c.op == 'item' and c.args[1].op == 'slice':
            lo, hi, stp = c.args[1].args
            if hi is NONE and stp is NONE and is_const(lo) and lo is not NONE and cval(lo) >= 0:
                pass
        if c.op == 'call' and c.args[0].op == 'ext' and c.args[0].args[0] in ('sorted', 'list', 'tuple') and len(c.args) > 1:
            return self.length(c.args[1])
        return mk('len', c)

    def range_len(self, r):
        a = r.args
        if len(a) == 1:
            return a[0]
        if len(a) == 2 or lit(a[2], 1):
            return ops.sub(a[1], a[0])
        return mk('len', r)

    def b_range(self, st, args, kw, n):
        return mk('range', *(self.freeze1(st, a) for a in args))

    def b_enumerate(self, st, args, kw, n):
        if args[0] is NONE:
            self.do_raise(st, self.exc('TypeError'))
        start = args[1] if len(args) > 1 else kw.get('start', const(0))
        return mk('enumerate', args[0], start)

    def b_zip(self, st, args, kw, n):
        return mk('zip', *args)

    def b_reversed(self, st, args, kw, n):
        return mk('reversed', args[0])

    def b_iter(self, st, args, kw, n):
        return args[0] if len(args) == 1 else NotImplemented

    def b_map(self, st, args, kw, n):
        if len(args) != 2:
            return NotImplemented
        return self.comp(st, [(args[1], lambda s, v: (setattr(self, '_mv', v), None)[1])], [],
                         lambda s: self.call_value(s, args[0], [self._mv], {}, n), 'list')

    def b_filter(self, st, args, kw, n):
        if len(args) != 2 or args[0] is NONE:
            return NotImplemented
        return self.comp(st, [(args[1], lambda s, v: (setattr(self, '_mv', v), None)[1])],
                         [lambda s: self.truth(s, self.call_value(s, args[0], [self._mv], {}, n))], lambda s: self._mv, 'list')

    def b_any(self, st, args, kw, n):
        return self.anyall(st, args[0], False)

    def b_all(self, st, args, kw, n):
        return self.anyall(st, args[0], True)

    def anyall(self, st, v, isall):
        v = self.res(st, v)
        c = self.content(st, v)
        c = c if c is not None else v
        if c.op not in ('list', 'tuple', 'setv'):
            L = mk('loop', self.length(self.freeze1(st, v)), len(self.loops))
            b = self.truth(st, self.mkitem(self.freeze1(st, v), mk('idx', L)))
            r = mk('anyiter', L, ops.neg(b) if isall else b)
            return ops.neg(r) if isall else r
        t = self._any(st, c.args, isall)
        return ops.neg(t) if isall else t

    def _any(self, st, entries, negate):
        cs = []
        for e in entries:
            if e.op == 'each':
                q = self._any(st, e.args[1], negate)
                if q is not FALSE:
                    cs.append(q if q is TRUE and False else mk('anyiter', e.args[0], q))
            elif e.op == 'opt':
                cs.append(ops.ite(e.args[0], self._any(st, e.args[1], negate), self._any(st, e.args[2], negate)))
            elif e.op == 'splice':
                L = mk('loop', mk('len', e.args[0]), len(self.loops))
                b = self.truth(st, self.mkitem(e.args[0], mk('idx', L)))
                cs.append(mk('anyiter', L, ops.neg(b) if negate else b))
            else:
                b = self.truth(st, e)
                cs.append(ops.neg(b) if negate else b)
        return ops.disj(cs) if cs else FALSE

    TYPES = {'str': 'str', 'int': 'num', 'float': 'num', 'bool': 'bool', 'list': 'list', 'dict': 'dict', 'tuple': 'tuple', 'set': 'set',
             'numpy.ndarray': 'arr', 'complex': 'num'}

    def b_isinstance(self, st, args, kw, n):
        x, t = self.res(st, args[0]), args[1]
        if x.op == 'ite':
            return ops.ite(x.args[0], self.b_isinstance(st, [x.args[1], t], kw, n), self.b_isinstance(st, [x.args[2], t], kw, n))
        ts = list(t.args) if t.op == 'tuple' else [t]
        if self.content(st, t) is not None:
            ts = self.known_seq(st, t) or [t]
        return ops.disj([self.isinst(st, x, y) for y in ts])

    def isinst(self, st, x, t):
        if t.op == 'class':
            c = self.clsof(x)
            if c is not None:
                return const(t in self.mro(st, c))
            if x.op in ('const', 'ref', 'list', 'tuple', 'dict', 'concat', 'func') or self.pytype(st, x) not in (None, 'object'):
                return FALSE
            return mk('isinstance', x, t)
        name = t.args[0] if t.op == 'ext' else None
        if name == 'object':
            return TRUE
        if x.op in ('regex', 'match') and name is not None:
            return const(name in (('re.Pattern', 'typing.Pattern', 're._pattern_type') if x.op == 'regex' else ('re.Match', 'typing.Match')))
        if x.op == 'const':
            v = cval(x)
            py = {'str': str, 'int': int, 'float': float, 'bool': bool, 'list': list, 'dict': dict, 'tuple': tuple, 'set': set, 'complex': complex}.get(name)
            if py is not None:
                return const(isinstance(v, py))
            if name is not None:
                return FALSE
        if name == 'numpy.ndarray' and self.docmode:
            if arrays.is_array(self.freeze1(st, x)):
                return TRUE
            if ops.typ(x) is not None or x.op in ('list', 'tuple', 'dict') or (x.op == 'ref' and x.args[1] in ('list', 'dict', 'set', 'inst', 'tuple')):
                return FALSE
        k = None
        if x.op == 'ref':
            k = {'list': 'list', 'dict': 'dict', 'set': 'set', 'arr': 'arr', 'inst': 'inst', 'file': 'file', 'strio': 'file'}.get(x.args[1])
        else:
            k = ops.typ(x)
            if k == 'num' and x.op in ARITH and not self.docmode and not scalar(x):
                return mk('isinstance', self.freeze1(st, x), t)
            if k == 'num' and name in ('int', 'float', 'bool'):
                if x.op in ('len', 'idx'):
                    return const(name == 'int')
                if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('int', 'float'):
                    return const(x.args[0].args[0] == name)
                return mk('isinstance', x, t)
            if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0].startswith('numpy.') and name in ('str', 'list', 'dict', 'tuple', 'bool'):
                k = 'arr'
        if k is not None and name in self.TYPES:
            w = self.TYPES[name]
            if k == 'bool' and name == 'int':
                return TRUE
            return const(k == w) if not (k == 'num') else (FALSE if w != 'num' else mk('isinstance', x, t))
        return mk('isinstance', self.freeze1(st, x), t)

    def b_type(self, st, args, kw, n):
        if len(args) != 1:
            return NotImplemented
        x = self.res(st, args[0])
        c = self.clsof(x)
        if c is not None:
            return c
        if x.op == 'const':
            return mk('ext', type(cval(x)).__name__)
        if x.op == 'ref' and x.args[1] in ('list', 'dict', 'set'):
            return mk('ext', x.args[1])
        return mk('call', mk('ext', 'type'), self.freeze1(st, x))

    def b_str(self, st, args, kw, n):
        if not args:
            return const('')
        return self.fmt(st, args[0]) if len(args) == 1 else NotImplemented

    def b_repr(self, st, args, kw, n):
        return self.fmt(st, args[0], None, 'r')

    def b_format(self, st, args, kw, n):
        return self.fmt(st, args[0], args[1] if len(args) > 1 else None)

    def b_bool(self, st, args, kw, n):
        return self.truth(st, args[0]) if args else FALSE

    def _num(self, name, py, st, args):
        if args:
            x = self.res(st, args[0])
            if x.op == 'const' and len(args) == 1 and isinstance(cval(x), (int, float, str)):
                try:
                    return const(py(cval(x)))
                except ValueError:
                    self.do_raise(st, self.exc('ValueError'))
            if x.op in ('tok', 'concat') and len(args) == 1:
                r = docs.to_number(py, x)
                if r is not None:
                    if r[0] == 'raise':
                        self.do_raise(st, self.exc('ValueError'))
                    return r[1]
            if x.op == 'ite' and (is_const(x.args[1]) or is_const(x.args[2])):
                return self.fork(st, x.args[0], lambda s: self.call_ext(s, name, [x.args[1]], {}, None), lambda s: self.call_ext(s, name, [x.args[2]], {}, None))
        elif name == 'int':
            return const(0)
        return NotImplemented

    def b_int(self, st, args, kw, n):
        return self._num('int', int, st, args)

    def b_float(self, st, args, kw, n):
        return self._num('float', float, st, args)

    def b_list(self, st, args, kw, n):
        if not args:
            return self.alloc(st, 'list', mk('list'))
        v = self.res(st, args[0])
        k = self.known_seq(st, v)
        if k is not None:
            return self.alloc(st, 'list', mk('list', *k))
        c = self.content(st, v)
        if c is not None and c.op in ('list',):
            return self.alloc(st, 'list', c)
        if v.op in ('enumerate', 'zip', 'items', 'range', 'values', 'reversed') or (c is not None and c.op == 'dict'):
            return self.comp(st, [(v, lambda s, x: (setattr(self, '_mv', x), None)[1])], [], lambda s: self._mv, 'list')
        v = v.args[0] if v.op == 'keys' else v
        return self.alloc(st, 'list', mk('list', mk('splice', self.freeze1(st, v))))

    def b_tuple(self, st, args, kw, n):
        if not args:
            return mk('tuple')
        k = self.known_seq(st, self.res(st, args[0]))
        if k is not None:
            return mk('tuple', *k)
        return NotImplemented

    def b_dict(self, st, args, kw, n):
        c = mk('dict')
        if args:
            v = self.res(st, args[0])
            cv = self.content(st, v)
            if cv is not None and cv.op == 'dict':
                c = cv
            else:
                pairs = self.known_seq(st, v)
                if pairs is not None and all(self.known_seq(st, p) is not None and len(self.known_seq(st, p)) == 2 for p in pairs) and ops.typ(v) != 'str':
                    for p in pairs:
                        a, b = self.known_seq(st, p)
                        c = self.dict_put(c, a, b)
                elif v.op == 'zip':
                    c0 = self.content(st, self.comp(st, [(v, lambda s, x: (setattr(self, '_mv', x), None)[1])], [],
                                                    lambda s: mk('kv', self.getitem(s, self._mv, const(0)), self.getitem(s, self._mv, const(1))), 'dict'))
                    c = c0
                else:
                    c = mk('dict', mk('splice', self.freeze1(st, v)))
        for k, v in kw.items():
            if k == '**':
                c = mk('dict', *c.args, mk('splice', v))
            else:
                c = self.dict_put(c, const(k), v)
        return self.alloc(st, 'dict', c)

    def b_set(self, st, args, kw, n):
        if not args:
            return self.alloc(st, 'set', mk('setv'))
        k = self.known_seq(st, self.res(st, args[0]))
        if k is not None:
            u = []
            for x in k:
                if x not in u:
                    u.append(x)
            return self.alloc(st, 'set', mk('setv', *u))
        return self.alloc(st, 'set', mk('setv', mk('splice', self.freeze1(st, args[0]))))

    b_frozenset = b_set

    def b_sorted(self, st, args, kw, n):
        v = self.res(st, args[0])
        k = self.known_seq(st, v)
        if k is not None and not kw and all(is_const(x) for x in k):
            try:
                return self.alloc(st, 'list', mk('list', *(const(x) for x in sorted(cval(x) for x in k))))
            except TypeError:
                pass
        if k is not None and self.docmode:
            r = self.sort_known(st, k, kw)
            if r is not None:
                return self.alloc(st, 'list', mk('list', *r))
        fv = self.freeze1(st, v)
        if fv.op == 'keys':
            fv = fv.args[0]
        t = mk('call', mk('ext', 'sorted'), fv, *(mk('kw', a, self.lamterm(st, b)) for a, b in sorted(kw.items())))
        return self.alloc(st, 'list', mk('list', mk('splice', t)))

    def lamterm(self, st, f):
        """describe a key function by what it computes from its argument"""
        if f.op in ('func', 'bound'):
            x = mk('param', 'λ')
            try:
                v = self.call_value(st.copy(), f, [x], {}, None)
                return mk('fn', self.freeze1(st, v))
            except Dead:
                return f
        return f

    def _minmax(self, name, py, st, args, kw):
        vs = args if len(args) > 1 else self.known_seq(st, self.res(st, args[0]))
        if vs is not None and len(vs) and not kw:
            if all(is_const(x) for x in vs):
                return const(py(cval(x) for x in vs))
            # the first of equals, as in Python: a later one replaces it only when it is beyond
            r = self.res(st, vs[0])
            for x in vs[1:]:
                x = self.res(st, x)
                d = self.dec(st, ops.lt(r, x) if name == 'max' else ops.lt(x, r))
                if d is None:
                    break
                r = x if d else r
            else:
                return r
            return mk('call', mk('ext', name), *sorted({self.freeze1(st, v) for v in vs}, key=lambda t: t.n))
        return NotImplemented

    def b_max(self, st, args, kw, n):
        return self._minmax('max', max, st, args, kw)

    def b_min(self, st, args, kw, n):
        return self._minmax('min', min, st, args, kw)

    def b_sum(self, st, args, kw, n):
        k = self.known_seq(st, self.res(st, args[0]))
        if k is not None:
            r = args[1] if len(args) > 1 else const(0)
            for x in k:
                r = ops.add(r, x)
            return r
        return NotImplemented

    ARRAY = frozenset(dir([])) - {'append', 'extend', 'pop', 'insert', 'remove', 'clear', 'reverse', 'index', 'count'} | frozenset(
        ('shape', 'ndim', 'dtype', 'size', 'tolist', 'T', 'flatten', 'ravel', 'reshape', 'transpose', 'astype', '__array__', 'item'))

    def b_hasattr(self, st, args, kw, n):
        o, a = self.res(st, args[0]), args[1]
        c = self.clsof(o)
        if c is not None and is_const(a):
            if self.class_lookup(st, c, cval(a)) is not None or st.get(('f', o, cval(a))) is not None:
                return TRUE
            if o.op == 'ref':
                return FALSE
        if o.op == 'class' and is_const(a):
            return const(self.class_lookup(st, o, cval(a)) is not None or hasattr(object, cval(a)))
        if o.op == 'ref' and is_const(a):
            py = {'list': list, 'dict': dict, 'set': set}.get(o.args[1])
            if py:
                return const(hasattr(py, cval(a)))
        if o.op == 'const' and is_const(a):
            return const(hasattr(cval(o), cval(a)))
        if is_const(a):
            py = str if o.op in ('tok', 'concat', 'fmt') else tuple if o.op == 'tuple' else self.ARRAY if o.op == 'nd' or o.op == 'ref' and o.args[1] == 'arr' else None
            if py:
                return const(cval(a) in py if isinstance(py, frozenset) else hasattr(py, cval(a)))
        return mk('hasattr', self.freeze1(st, o), a)

    def b_getattr(self, st, args, kw, n):
        if is_const(args[1]):
            if len(args) > 2:
                h = self.b_hasattr(st, args[:2], {}, n)
                return self.fork(st, h, lambda s: self.getattr(s, args[0], cval(args[1]), n), lambda s: args[2])
            return self.getattr(st, args[0], cval(args[1]), n)
        return mk('dynattr', self.freeze1(st, args[0]), self.freeze1(st, args[1]))

    def b_setattr(self, st, args, kw, n):
        if is_const(args[1]):
            self.setattr(st, args[0], cval(args[1]), args[2], n)
            return NONE
        self.ev(st, 'setattr', args[0], '*', args[2])
        return NONE

    def b_callable(self, st, args, kw, n):
        if args[0].op in ('func', 'bound', 'class', 'ext'):
            return TRUE
        return NotImplemented

    def b_print(self, st, args, kw, n):
        f = self.res(st, kw['file']) if 'file' in kw else NONE
        if f is not NONE and not (f.op == 'attr' and 'std' in str(f.args[1])):
            sep, end = kw.get('sep', const(' ')), kw.get('end', const('\n'))
            sep = const(' ') if sep is NONE else sep
            end = const('\n') if end is NONE else end
            parts = []
            for i, a in enumerate(args):
                parts += ([sep] if i else []) + [self.b_str(st, [a], {}, n)]
            self.call_method(st, f, 'write', [ops.concat(*parts, end)], {}, n)
            return NONE
        self.ev(st, 'print', tuple(args))
        return NONE

    def b_open(self, st, args, kw, n):
        path = args[0] if args else kw.get('file')
        mode = args[1] if len(args) > 1 else kw.get('mode', const('r'))
        enc = args[3] if len(args) > 3 else kw.get('encoding', NONE)
        t = mk('call', mk('ext', 'open'), self.freeze1(st, path), mode)
        self.maybe_raise(st, 'OSError', mk('raises', const('OSError'), t))
        r = self.alloc(st, 'file', const(''))
        st.m[('o', r)] = TRUE
        st.m[('path', r)] = path
        self.ev(st, 'open', path, mode, enc, r, kw.get('errors', NONE))
        return r

    b_io_open = b_codecs_open = b_open

    def b_yaml_safe_load(self, st, args, kw, n):
        """a YAML table of the package whose content is given"""
        tabs = [(k[5:], v) for k, v in self.docs.items() if isinstance(k, str) and k.startswith('yaml:')]
        o = self.res(st, args[0]) if args else kw.get('stream')
        if not tabs or o is None:
            return NotImplemented
        path = st.get(('path', o)) if o.op == 'ref' else o
        path = self.freeze1(st, path) if path is not None else o
        for name, data in tabs:
            if contains(path, lambda x: is_const(x) and isinstance(cval(x), str) and cval(x).endswith(name)):
                return self.from_data(st, data)
        return NotImplemented

    b_yaml_load = b_yaml_full_load = b_yaml_safe_load

    def from_data(self, st, d):
        if isinstance(d, dict):
            return self.alloc(st, 'dict', mk('dict', *(mk('kv', self.from_data(st, k), self.from_data(st, v)) for k, v in d.items())))
        if isinstance(d, list):
            return self.newlist(st, [self.from_data(st, x) for x in d])
        if isinstance(d, tuple):
            return mk('tuple', *(self.from_data(st, x) for x in d))
        return d if isinstance(d, Term) else const(d)

    def b_sys_exit(self, st, args, kw, n):
        self.do_raise(st, self.exc('SystemExit', args[0] if args else NONE))

    b_exit = b_quit = b_os__exit = b_sys_exit

    def b_copy_deepcopy(self, st, args, kw, n):
        return self.deepcopy(st, self.res(st, args[0]), {})

    def b_copy_copy(self, st, args, kw, n):
        o = self.res(st, args[0])
        if o.op == 'ref' and o.args[1] in ('list', 'dict', 'set', 'arr'):
            return self.alloc(st, o.args[1], self.content(st, o))
        if o.op == 'ref' and o.args[1] == 'inst':
            r = mk('ref', self.new_oid(), 'inst', o.args[2])
            for k in [k for k in st.m if k[0] == 'f' and k[1] is o]:
                st.m[('f', r, k[2])] = st.m[k]
            return r
        if o.op in ('const', 'tuple'):
            return o
        return self.alloc(st, 'arr', self.content(st, o) or o)

    def deepcopy(self, st, o, memo):
        if o in memo:
            return memo[o]
        if o.op == 'ref' and o.args[1] in ('list', 'dict', 'set', 'arr'):
            r = self.alloc(st, o.args[1])
            memo[o] = r
            c = self.content(st, o)
            st.m[('c', r)] = subst(c, lambda x: self.deepcopy(st, x, memo) if x.op == 'ref' and x is not o else None) if c is not None else mk('list')
            return r
        if o.op == 'ref' and o.args[1] == 'inst':
            r = mk('ref', self.new_oid(), 'inst', o.args[2])
            memo[o] = r
            for k in [k for k in st.m if k[0] == 'f' and k[1] is o]:
                st.m[('f', r, k[2])] = self.deepcopy(st, st.m[k], memo)
            return r
        if o.op in ('const', 'func', 'class', 'ext', 'module'):
            return o
        if o.op in ('tuple', 'ite'):
            return subst(o, lambda x: self.deepcopy(st, x, memo) if x.op == 'ref' else None)
        return self.alloc(st, 'arr', self.content(st, o) or o)

    def b_functools_partial(self, st, args, kw, n):
        return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))

    def b_collections_Counter(self, st, args, kw, n):
        k = self.known_seq(st, self.res(st, args[0])) if args and self.docmode else None
        if k is not None:
            c = {}
            for x in k:
                for y in c:
                    e = ops.eq(x, y)
                    if e is TRUE:
                        c[y] += 1
                        break
                    if e is not FALSE:
                        c = None
                        break
                else:
                    c[x] = 1
                if c is None:
                    break
            if c is not None:
                return self.alloc(st, 'dict', mk('dict', *(mk('kv', x, const(i)) for x, i in c.items())))
        t = mk('call', mk('ext', 'collections.Counter'), *(self.freeze1(st, a) for a in args))
        return t

    def sort_known(self, st, k, kw):
        """sorted() of known elements whose keys are constants"""
        if set(kw) - {'key', 'reverse'} or not is_const(kw.get('reverse', FALSE)):
            return None
        key = kw.get('key', NONE)
        ks = k
        if key is not NONE:
            ks = [self.res(st, self.call_value(st, key, [x], {}, None)) for x in k]
            ks = [mk('tuple', *(self.known_seq(st, x))) if x.op == 'ref' and self.known_seq(st, x) is not None else x for x in ks]

        def py(x):
            if is_const(x):
                return cval(x)
            if x.op == 'tuple':
                return tuple(py(y) for y in x.args)
            return Unordered(x)
        try:
            o = sorted(range(len(k)), key=lambda i: py(ks[i]), reverse=bool(cval(kw.get('reverse', FALSE))))
        except TypeError:
            return None
        return [k[i] for i in o]

    def b_collections_OrderedDict(self, st, args, kw, n):
        return self.b_dict(st, args, kw, n)

    def b_contextlib_closing(self, st, args, kw, n):
        return mk('call', mk('ext', 'contextlib.closing'), args[0])

    def b_contextlib_suppress(self, st, args, kw, n):
        return mk('call', mk('ext', 'contextlib.suppress'), *args)

    # ------------------------------------------------------------ methods

    def call_method(self, st, o, name, args, kwargs, n):
        o = self.res(st, o)
        if o.op == 'ite':
            return self.fork(st, o.args[0], lambda s: self.call_method(s, o.args[1], name, args, kwargs, n),
                             lambda s: self.call_method(s, o.args[2], name, args, kwargs, n))
        if self.clsof(o) is not None:
            f = self.getattr(st, o, name, n)
            if not (f.op == 'attr' and f.args[0] is o):
                return self.call_value(st, f, args, kwargs, n)
        if o is NONE:
            self.note('None method', name)
            self.do_raise(st, self.exc('AttributeError', const(name)))
        c = self.content(st, o)
        if self.docmode:
            self.no_attribute(st, o, name)
        if o.op == 'ref':
            kind = o.args[1]
            if kind in ('file', 'strio'):
                return self.file_method(st, o, name, args, kwargs, n)
            if kind == 'list':
                r = self.list_method(st, o, c, name, args, kwargs, n)
                if r is not NotImplemented:
                    return r
            if kind == 'dict':
                r = self.dict_method(st, o, c, name, args, kwargs, n)
                if r is not NotImplemented:
                    return r
            if kind == 'set':
                r = self.set_method(st, o, c, name, args, kwargs, n)
                if r is not NotImplemented:
                    return r
        if o.op in ('list', 'tuple', 'dict') and name not in MUT:
            r = getattr(self, ('dict' if o.op == 'dict' else 'list') + '_method')(st, o, o, name, args, kwargs, n)
            if r is not NotImplemented:
                return r
        if o.op == 'const' and isinstance(cval(o), (str, bytes)):
            if name == 'join' and isinstance(cval(o), str):
                return self.str_join(st, o, args[0])
            if name == 'format' and isinstance(cval(o), str):
                return self.str_format(st, o, args, kwargs)
            if name in STR_PURE and all(is_const(a) or (a.op == 'tuple' and all(is_const(y) for y in a.args)) for a in args) and not kwargs:
                try:
                    r = getattr(cval(o), name)(*(cval(a) if is_const(a) else tuple(cval(y) for y in a.args) for a in args))
                    if isinstance(r, list):
                        return self.alloc(st, 'list', mk('list', *(const(x) for x in r)))
                    if isinstance(r, tuple):
                        return mk('tuple', *(const(x) for x in r))
                    return const(r)
                except Exception:
                    self.do_raise(st, self.exc('ValueError'))
        if o.op in ('tok', 'concat') and name in STR_PURE and not (name == 'join') and not kwargs:
            r = docs.method(name, o, args)
            if r is not NotImplemented:
                return self.from_py(st, r)
        if name == 'join' and ops.typ(o) == 'str':
            return self.str_join(st, o, args[0])
        if name == 'format' and o.op in ('concat', 'ite', 'const'):
            return self.str_format(st, o, args, kwargs)
        if o.op in ('attr', 'param', 'item', 'elem', 'lv', 'lout', 'get', 'phi', 'unknown') and name in self.elem_methods and name not in LOGM:
            for q in self.elem_methods[name]:
                if q.rsplit('.', 1)[0] == self.cur[0]:
                    f = self.class_lookup(st, mk('class', q), name)
                    if f is not None and f.op == 'func':
                        self.sym_class.setdefault(o, mk('class', q))
                        return self.call_value(st, mk('bound', f, o), args, kwargs, n)
        if name in LOGM and self.is_logger(o):
            fa = tuple(self.freeze1(st, a) for a in args)
            self.ev(st, 'log', o, name, fa)
            st.m[('lg',)] = mk('logged', *fa)
            return NONE
        if o.op in ('attr', 'param', 'item', 'call', 'elem', 'unknown', 'lv', 'lout', 'get'):
            self.maybe_raise(st, 'AttributeError', self.isnone(o))
        if name == 'close' and not args:
            self.ev(st, 'hclose', o)
            return NONE
        if name in ('write', 'writelines') and len(args) == 1:
            return self.opaque_write(st, o, name, args)
        if name in ('items', 'keys', 'values') and not args:
            return mk(name, o)
        if name == 'get' and len(args) in (1, 2) and not kwargs and not self.is_xml_get(o):
            d = args[1] if len(args) > 1 else NONE
            return mk('get', self.freeze1(st, o), self.freeze1(st, args[0]), d)
        if name in MUT:
            return self.opaque_mut(st, o, c, name, args, kwargs)
        if name == 'copy' and not args and not self.is_logger(o):
            return self.alloc(st, 'arr' if c is None or c.op == 'arr' else o.args[1], c if c is not None else o)
        if name == 'reshape' and self.docmode and args:
            b = self.nparr(st, o)
            dims = self.known_seq(st, self.res(st, args[0])) if len(args) == 1 and not is_const(self.res(st, args[0])) else args
            sh = arrays.ints(mk('tuple', *(self.res(st, a) for a in dims))) if dims is not None else None
            if sh is not None and b is not None and b.op == 'nd' and arrays.shape(b) is not None and arrays.reshape(b, tuple(sh)) is None:
                self.do_raise(st, self.exc('ValueError', const('cannot reshape array')))
        fo = self.freeze1(st, o)
        fa = [self.freeze1(st, a) for a in args]
        kw = [mk('kw', k, self.freeze1(st, v)) for k, v in sorted(kwargs.items())]
        if name in STATEFUL and self.docs:
            r = self.doc_read(st, o, o, name, args)
            if r is not None:
                self.ev(st, 'hcall', o, name, tuple(args))
                return r
        if name in STATEFUL:
            h = st.m.get(('h', o)) or mk('start')
            t = mk('call', mk('method', name), fo, h, *fa, *kw)
            st.m[('h', o)] = mk('after', h, name, tuple(fa))
            self.ev(st, 'hcall', o, name, tuple(args))
            if self.faults:
                self.fault(st, t)
            return t
        t = mk('call', mk('method', name), fo, *fa, *kw)
        if name not in STR_PURE:
            self.ev(st, 'method', o, name, tuple(args))
        if name in ('index', 'remove'):
            self.maybe_raise(st, 'ValueError', mk('raises', const('ValueError'), t))
        if name in ('truncate', 'flush'):
            self.ev(st, 'hcall', o, name, tuple(args))
        self.anyfault(st) if self.faults else None
        return t

    def from_py(self, st, r):
        if isinstance(r, list):
            return self.alloc(st, 'list', mk('list', *(docs.dec(x) for x in r)))
        if isinstance(r, tuple):
            return mk('tuple', *(docs.dec(x) for x in r))
        return docs.dec(r) if isinstance(r, str) else const(r)

    def is_xml_get(self, o):
        return False

    def is_logger(self, o):
        if o.op == 'param':
            return True
        if o.op == 'call':
            return o.args[0].op == 'ext' and o.args[0].args[0] == 'logging.getLogger'
        if o.op == 'attr':
            return 'logger' in o.args[1]
        return o.op in ('ext',) and o.args[0] == 'logging'

    def opaque_write(self, st, o, name, args):
        c = st.m.get(('c', o)) or const('')
        st.m[('c', o)] = ops.concat(c, self.freeze1(st, args[0])) if name == 'write' else ops.concat(c, mk('join', const(''), self.freeze1(st, args[0])))
        self.ev(st, 'hcall', o, 'write', tuple(args))
        if self.faults:
            self.fault(st, mk('write', o))
        return NONE

    def opaque_mut(self, st, o, c, name, args, kwargs):
        self.ev(st, 'mut', o, name, tuple(args))
        base = c if c is not None else o
        if name == 'append' and base.op != 'arr' and len(args) == 1:
            st.m[('c', o)] = mk('list', *(base.args if base.op == 'list' else (mk('splice', base),)), args[0])
            return NONE
        if name == 'extend' and base.op != 'arr':
            st.m[('c', o)] = base if base.op == 'list' else mk('list', mk('splice', base))
            self.list_extend(st, o, args[0], noev=True)
            return NONE
        if name == 'pop':
            k = args[0] if args else const(-1)
            v = self.getitem(st, o, k) if not (base.op == 'dict') else mk('item', base, k)
            st.m[('c', o)] = mk('arr', *(base.args if base.op == 'arr' else (base,)), mk('del', k))
            return v
        if name == 'update' and args and not kwargs:
            x = self.content(st, args[0])
            ent = x.args if x is not None and x.op == 'dict' else (mk('splice', args[0]),)
            st.m[('c', o)] = mk('dict', *(base.args if base.op == 'dict' else (mk('splice', base),)), *ent)
            return NONE
        st.m[('c', o)] = mk('mutated', base, name, tuple(self.freeze1(st, a) for a in args))
        return mk('call', mk('method', name), base, *(self.freeze1(st, a) for a in args))

    def file_method(self, st, o, name, args, kwargs, n):
        c = st.m.get(('c', o)) or const('')
        isfile = o.args[1] == 'file'
        if name == 'close':
            if isfile:
                st.m[('o', o)] = FALSE
                self.ev(st, 'close', o)
            return NONE
        if name in ('write', 'writelines'):
            x = self.freeze1(st, args[0])
            if isfile:
                self.ev(st, 'fwrite', o, x)
            if isfile and self.faults:
                self.fault(st, mk('write', o))
            st.m[('c', o)] = ops.concat(c, x if name == 'write' else self.str_join(st, const(''), args[0]))
            return NONE
        if name == 'getvalue':
            return c
        if name in ('__enter__',):
            return o
        if name == 'fileno':
            return mk('call', mk('method', 'fileno'), o)
        if self.docmode and name in STATEFUL and (isfile or name != 'seek' or lit(args[0], 0)):
            r = self.doc_read(st, o, st.m.get(('path', o)), name, args)
            if r is not None:
                self.ev(st, 'hcall', o, name, tuple(args))
                return r
        if name in STATEFUL or name in ('truncate', 'flush'):
            if isfile and self.faults:
                self.fault(st, mk('fileop', o, name))
            if isfile:
                self.ev(st, 'hcall', o, name, tuple(args))
            path = st.m.get(('path', o))
            src = mk('file', self.freeze1(st, path)) if path is not None else mk('strio', self.freeze1(st, c))
            h = st.m.get(('h', o)) or mk('start')
            fa = [self.freeze1(st, a) for a in args]
            if name == 'truncate':
                k = self.cut_from_end(c, fa[0], o.args[1] == 'strio') if self.docs is not None and fa else None
                st.m[('c', o)] = k if k is not None else mk('truncated', c, *fa)
                return NONE
            if name == 'tell' and self.docs is not None and c is not None:
                return mk('endof', c)
            if name == 'tell':
                return mk('call', mk('method', name), src, h)
            st.m[('h', o)] = mk('after', h, name, tuple(fa))
            return mk('call', mk('method', name), src, h, *fa)
        return mk('call', mk('method', name), mk('file', self.freeze1(st, st.m.get(('path', o)) or NONE)), *(self.freeze1(st, a) for a in args))

    @staticmethod
    def cut_from_end(c, size, strio=False):
        '''content c cut at (its end - k) when its last k characters are known'''
        if size.op == 'endof' and size.args[0] is c:
            return c
        if size.op == 'lin' and len(size.args[1]) == 1 and size.args[1][0][0] == 1:
            k, e = -size.args[0], size.args[1][0][1]
            parts = list(c.args) if c.op == 'concat' else [c]
            last = parts[-1]
            if e.op == 'endof' and e.args[0] is c and isinstance(k, int) and k > 0 and is_const(last) \
                    and isinstance(cval(last), str) and len(cval(last)) >= k:
                return ops.concat(*parts[:-1], const(cval(last)[:-k]))
            if e.op == 'endof' and e.args[0] is c and isinstance(k, int) and k < 0:
                return c if strio else ops.concat(c, const('\0' * -k))
        return None

    def doclines(self, st, o, key):
        if o.op == 'ref' and o.args[1] == 'strio' and self.docmode:
            c = st.m.get(('c', o)) or const('')
            e = docs.enc(c)
            if e is None or st.m.get(('h', o)) is not None:
                return None
            return [docs.dec(x) for x in e.splitlines(True)]
        return self.docs.get(key) if key is not None else None

    def doc_read(self, st, o, key, name, args):
        lines = self.doclines(st, o, key)
        if lines is None:
            return None
        pos = st.m.get(('pos', o)) or const(0)
        if not is_const(pos):
            return None
        p = cval(pos)
        if name in ('readlines', 'read') and args and not lit(args[0], -1) and args[0] is not NONE:
            return None
        if name == 'readlines':
            st.m[('pos', o)] = const(len(lines))
            return self.alloc(st, 'list', mk('list', *lines[p:]))
        if name == 'read':
            st.m[('pos', o)] = const(len(lines))
            return ops.concat(*lines[p:]) if lines[p:] else const('')
        if name in ('readline', '__next__'):
            if p < len(lines):
                st.m[('pos', o)] = const(p + 1)
                return lines[p]
            if name == '__next__':
                self.do_raise(st, self.exc('StopIteration'))
            return const('')
        if name == 'seek' and lit(args[0], 0) and len(args) == 1:
            st.m[('pos', o)] = const(0)
            return const(0)
        return None

    def b_next(self, st, args, kw, n):
        o = self.res(st, args[0])
        key = st.m.get(('path', o)) if o.op == 'ref' else o
        if self.doclines(st, o, key) is not None:
            if len(args) > 1:
                pos = st.m.get(('pos', o)) or const(0)
                if is_const(pos) and cval(pos) >= len(self.doclines(st, o, key)):
                    return args[1]
            r = self.doc_read(st, o, key, '__next__', [])
            return NotImplemented if r is None else r
        return NotImplemented

    def list_extend(self, st, o, v, noev=False):
        if not noev:
            self.ev(st, 'mut', o, 'extend', (v,))
        c = self.content(st, o)
        v = self.res(st, v)
        k = self.known_seq(st, v)
        if k is not None:
            ent = tuple(k)
        else:
            cv = self.content(st, v)
            if cv is not None and cv.op == 'list':
                ent = cv.args
            else:
                fv = self.freeze1(st, v)
                ent = fv.args if fv.op == 'list' else (mk('splice', fv),)
        st.m[('c', o)] = mk('list', *c.args, *ent)

    def list_method(self, st, o, c, name, args, kwargs, n):
        if c is None:
            return NotImplemented
        if c.op != 'list' and name in ('append', 'extend', 'pop', 'insert'):
            if c.op == 'arr' or name in ('pop', 'insert'):
                return NotImplemented
            c = mk('list', mk('splice', c))
            st.m[('c', o)] = c
        if name == 'append':
            self.ev(st, 'mut', o, name, tuple(args))
            st.m[('c', o)] = mk('list', *c.args, args[0])
            return NONE
        if name == 'extend':
            self.list_extend(st, o, args[0])
            return NONE
        if name == 'insert' and is_const(args[0]) and isinstance(cval(args[0]), int):
            i = cval(args[0])
            if i == 0 or all(x.op not in ('each', 'opt', 'splice') for x in c.args):
                self.ev(st, 'mut', o, name, tuple(args))
                a = list(c.args)
                a.insert(i, args[1])
                st.m[('c', o)] = mk('list', *a)
                return NONE
        if name == 'pop':
            k = args[0] if args else const(-1)
            if is_const(k) and isinstance(cval(k), int):
                e = self.seq_at(c, cval(k))
                if e is not None:
                    self.ev(st, 'mut', o, name, tuple(args))
                    a = list(c.args)
                    a.pop(cval(k))
                    st.m[('c', o)] = mk('list', *a)
                    return e
            return NotImplemented
        if name == 'reverse' and c.op == 'list':
            self.ev(st, 'mut', o, name, ())
            if all(x.op not in ('each', 'opt', 'splice') for x in c.args):
                st.m[('c', o)] = mk('list', *reversed(c.args))
            else:
                st.m[('c', o)] = mk('list', mk('splice', mk('reversed', self.freeze(st, c))))
            return NONE
        if name == 'sort':
            self.ev(st, 'mut', o, name, ())
            t = mk('call', mk('ext', 'sorted'), self.freeze(st, c), *(mk('kw', a, self.lamterm(st, b)) for a, b in sorted(kwargs.items())))
            st.m[('c', o)] = mk('list', mk('splice', t))
            return NONE
        if name == 'clear':
            self.ev(st, 'mut', o, name, ())
            st.m[('c', o)] = mk('list')
            return NONE
        if name == 'copy':
            return self.alloc(st, 'list', c)
        if name == 'index' and c.op in ('list', 'tuple') and all(is_const(x) for x in c.args) and is_const(args[0]):
            for i, x in enumerate(c.args):
                if x is args[0]:
                    return const(i)
            self.do_raise(st, self.exc('ValueError'))
        if name == 'count' and c.op in ('list', 'tuple') and all(is_const(x) for x in c.args) and is_const(args[0]):
            return const(sum(1 for x in c.args if x is args[0]))
        return NotImplemented

    def dict_method(self, st, o, c, name, args, kwargs, n):
        if c is None or c.op != 'dict':
            if name in ('items', 'keys', 'values') and not args:
                return mk(name, o)
            return NotImplemented
        if name in ('items', 'keys', 'values') and not args:
            return mk(name, o)
        if name == 'get':
            k = self.res(st, args[0])
            if k.op == 'ite':
                return self.fork(st, k.args[0], lambda s: self.dict_method(s, o, c, name, [k.args[1]] + args[1:], {}, n),
                                 lambda s: self.dict_method(s, o, c, name, [k.args[2]] + args[1:], {}, n))
            d = args[1] if len(args) > 1 else kwargs.get('default', NONE)
            h = self.dict_has(st, c, k)
            if h is None:
                return mk('get', self.freeze(st, c), k, self.freeze1(st, d))
            v = self.dict_get(st, c, k)
            if v is None:
                return d
            dd = self.dec(st, h)
            if dd is not None:
                return v if dd else d
            return ops.ite(h, v, d)
        if name == 'pop':
            k = args[0]
            self.ev(st, 'mut', o, name, tuple(args))
            h = self.dict_has(st, c, k)
            dh = self.dec(st, h) if h is not None else None
            if dh is True and is_const(k):
                v = self.dict_get(st, c, k)
                if all(e.op == 'kv' for e in c.args):
                    st.m[('c', o)] = mk('dict', *(e for e in c.args if e.args[0] is not k))
                else:
                    st.m[('c', o)] = mk('dict', *c.args, mk('del', k))
                return v
            if dh is False:
                if len(args) > 1:
                    return args[1]
                self.do_raise(st, self.exc('KeyError', k))
            v = self.dict_get(st, c, k)
            st.m[('c', o)] = mk('dict', *c.args, mk('del', k))
            if len(args) > 1 and h is not None:
                return ops.ite(h, v, args[1])
            return v if v is not None else mk('item', self.freeze(st, c), k)
        if name == 'setdefault':
            k = args[0]
            h = self.dict_has(st, c, k)
            d = args[1] if len(args) > 1 else NONE
            if h is not None:
                def put(s):
                    self.ev(s, 'mut', o, name, tuple(args))
                    s.m[('c', o)] = self.dict_put(self.content(s, o), k, d)
                    return d
                return self.fork(st, h, lambda s: self.getitem(s, o, k), put)
        if name == 'update':
            self.ev(st, 'mut', o, name, tuple(args))
            for a in args:
                a = self.res(st, a)
                ca = self.content(st, a)
                if ca is not None and ca.op == 'dict':
                    for e in ca.args:
                        c = self.dict_put(c, *e.args) if e.op == 'kv' else mk('dict', *c.args, e)
                else:
                    c = mk('dict', *c.args, mk('splice', self.freeze1(st, a)))
            for k, v in kwargs.items():
                c = self.dict_put(c, const(k), v)
            st.m[('c', o)] = c
            return NONE
        if name == 'copy':
            return self.alloc(st, 'dict', c)
        if name == 'clear':
            self.ev(st, 'mut', o, name, ())
            st.m[('c', o)] = mk('dict')
            return NONE
        return NotImplemented

    def set_method(self, st, o, c, name, args, kwargs, n):
        if name == 'add':
            self.ev(st, 'mut', o, name, tuple(args))
            if args[0] not in c.args:
                st.m[('c', o)] = mk('setv', *c.args, args[0])
            return NONE
        return NotImplemented

    # ------------------------------------------------------------ strings

    def str_join(self, st, sep, v):
        v = self.res(st, v)
        k = self.known_seq(st, v)
        if k is not None:
            out = []
            for i, x in enumerate(k):
                if i:
                    out.append(sep)
                out.append(x)
            return ops.concat(*out) if out else const('')
        fv = self.freeze1(st, v)
        if lit(sep, '') and fv.op == 'list':
            r = self.join_empty(fv.args)
            if r is not None:
                return r
        return mk('join', sep, fv)

    def join_empty(self, entries):
        out = []
        for e in entries:
            if e.op == 'each':
                q = self.join_empty(e.args[1])
                if q is None:
                    return None
                out.append(mk('each', e.args[0], (q,)))
            elif e.op == 'opt':
                a, b = self.join_empty(e.args[1]), self.join_empty(e.args[2])
                if a is None or b is None:
                    return None
                out.append(ops.ite(e.args[0], a, b))
            elif e.op == 'splice':
                out.append(mk('join', const(''), e.args[0]))
            else:
                out.append(e)
        return ops.concat(*out)

    def str_format(self, st, tmpl, args, kwargs):
        tmpl = self.res(st, tmpl)
        if tmpl.op == 'ite':
            return ops.ite(tmpl.args[0], self.str_format(st, tmpl.args[1], args, kwargs), self.str_format(st, tmpl.args[2], args, kwargs))
        toks = []
        for p in (tmpl.args if tmpl.op == 'concat' else (tmpl,)):
            if p.op == 'const' and isinstance(p.args[1], str):
                toks.extend(p.args[1])
            else:
                toks.append(p)
        auto = [0]
        pos = [0]

        def field(name):
            if name == '':
                i = auto[0]
                auto[0] += 1
                return args[i] if i < len(args) else mk('unknown', 'fmtarg', i)
            import re
            m = re.match(r'^(\w+)(.*)$', name)
            b, rest = m.group(1), m.group(2)
            v = args[int(b)] if b.isdigit() and int(b) < len(args) else kwargs.get(b, mk('unknown', 'fmtarg', b))
            for a in re.findall(r'\.(\w+)|\[([^\]]*)\]', rest):
                if a[0]:
                    v = self.getattr(st, v, a[0])
                else:
                    v = self.getitem(st, v, const(int(a[1]) if a[1].isdigit() else a[1]))
            return v

        def parse(stop):
            out = []
            while pos[0] < len(toks):
                c = toks[pos[0]]
                if c in stop:
                    return ops.concat(*out)
                pos[0] += 1
                if c == '{':
                    if pos[0] < len(toks) and toks[pos[0]] == '{' and not stop:
                        pos[0] += 1
                        out.append(const('{'))
                        continue
                    nm = ''
                    while pos[0] < len(toks) and toks[pos[0]] not in (':', '}', '!'):
                        x = toks[pos[0]]
                        nm += x if isinstance(x, str) else '?'
                        pos[0] += 1
                    conv = None
                    if pos[0] < len(toks) and toks[pos[0]] == '!':
                        conv = toks[pos[0] + 1]
                        pos[0] += 2
                    v = field(nm)
                    spec = None
                    if pos[0] < len(toks) and toks[pos[0]] == ':':
                        pos[0] += 1
                        spec = parse(('}',))
                    pos[0] += 1
                    out.append(self.fmt(st, v, spec, conv))
                elif c == '}':
                    if pos[0] < len(toks) and toks[pos[0]] == '}':
                        pos[0] += 1
                    out.append(const('}'))
                elif isinstance(c, str):
                    out.append(const(c))
                else:
                    out.append(c)
            return ops.concat(*out)
        return parse(())

    def percent(self, st, a, b):
        import re
        vals = list(b.args) if b.op == 'tuple' else [b]
        if a.op != 'const':
            return mk('percent', a, self.freeze1(st, b))
        out, i, p = [], 0, 0
        s = cval(a)
        for m in re.finditer(r'%([-+ 0#]*)(\d*)(?:\.(\d+))?([sdifgeEGrxX%])', s):
            out.append(const(s[p:m.start()]))
            p = m.end()
            if m.group(4) == '%':
                out.append(const('%'))
                continue
            if i >= len(vals):
                self.do_raise(st, self.exc('TypeError'))
            v = vals[i]
            i += 1
            ty = m.group(4)
            fl = m.group(1).replace('-', '<')
            spec = fl + m.group(2) + ('.' + m.group(3) if m.group(3) is not None else '') + ('' if ty in 'sr' else {'i': 'd'}.get(ty, ty))
            out.append(self.fmt(st, v, const(spec) if spec else None, 'r' if ty == 'r' else None))
        out.append(const(s[p:]))
        return ops.concat(*out)
