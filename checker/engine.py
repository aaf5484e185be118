"""Interprocedural value-flow analysis: builds gated-SSA value terms for the package's functions.

Every call into the package is inlined, every control-flow join merges the abstract states with a gate term,
every loop over an unknown collection is summarised to a closed form or a mu/eta pair (lv / lout terms).
No input value is ever chosen: inputs are opaque terms constrained at most by a scenario (e.g. "is None").
"""
import ast
import os

from .terms import Term, mk, const, NONE, TRUE, FALSE, UNDEF, is_const, cval, lit, subst
from . import ops, arrays
from .state import State, Outcome, Dead, AnalysisError, Limit, merge, decide, resolve, opt
from .expr import ExprMixin
from .calls import CallMixin
from .loops import LoopMixin
from .pyext import PyExtMixin
from .pymore import PyMoreMixin
from .xmldoc import XmlMixin

PKG = 'parsevasp'

EXC_PARENTS = {
    'IOError': ('OSError',), 'FileNotFoundError': ('OSError',), 'PermissionError': ('OSError',), 'IsADirectoryError': ('OSError',),
    'OSError': ('Exception',), 'KeyError': ('LookupError',), 'IndexError': ('LookupError',), 'LookupError': ('Exception',),
    'UnicodeDecodeError': ('ValueError',), 'UnicodeError': ('ValueError',), 'ValueError': ('Exception',), 'TypeError': ('Exception',),
    'AttributeError': ('Exception',), 'NotImplementedError': ('RuntimeError',), 'RuntimeError': ('Exception',), 'NameError': ('Exception',),
    'UnboundLocalError': ('NameError',), 'ZeroDivisionError': ('ArithmeticError',), 'ArithmeticError': ('Exception',),
    'AssertionError': ('Exception',), 'StopIteration': ('Exception',), 'ImportError': ('Exception',), 'ModuleNotFoundError': ('ImportError',),
    'Exception': ('BaseException',), 'SystemExit': ('BaseException',), 'KeyboardInterrupt': ('BaseException',), 'AnyError': ('Exception',),
    'OverflowError': ('ArithmeticError',), 'XMLSyntaxError': ('ParseError',), 'ParseError': ('SyntaxError',), 'SyntaxError': ('Exception',),
}


def exc_norm(n):
    n = n.split('.')[-1] if n else n
    return {'IOError': 'OSError', 'EnvironmentError': 'OSError'}.get(n, n)


def exc_ancestors(n):
    n = exc_norm(n)
    out, todo = [], [n]
    while todo:
        x = exc_norm(todo.pop())
        if x in out:
            continue
        out.append(x)
        todo.extend(EXC_PARENTS.get(x, ('Exception',) if x not in ('BaseException', 'Exception') else (() if x == 'BaseException' else ('BaseException',))))
    return out


class FuncInfo:
    __slots__ = ('gen', 'uid', 'node', 'mod', 'cls', 'closure', 'defaults', 'kwdefaults', 'is_lambda', 'deco', 'name')


class Ev:
    """an effect performed by the analysed code"""
    __slots__ = ('kind', 'data', 'pc', 'loops', 'stack', 'mod', 'line')

    def __init__(self, kind, data, pc, loops, stack, mod, line):
        self.kind, self.data, self.pc, self.loops, self.stack, self.mod, self.line = kind, data, pc, loops, stack, mod, line

    def where(self):
        return f'{self.mod.replace(".", "/")}.py:{self.line} in {self.stack[-1] if self.stack else "<module>"}'

    def __repr__(self):
        return f'<{self.kind} {self.data} @{self.mod}:{self.line}>'


class Analyzer(PyMoreMixin, XmlMixin, PyExtMixin, ExprMixin, CallMixin, LoopMixin):
    def __init__(self, repo, pkg=PKG, tables=None):
        self.repo = repo
        self.pkg = pkg
        self.base = {}
        self.trees = {}
        self.src = {}
        self.funcs = {}
        self.classes = {}      # name -> (ClassDef, mod)
        self.oid = 0
        self.fidc = 0
        self.events = []
        self.coll = []
        self.loops = []
        self.stops = []
        self.cstack = []
        self.handlers = []
        self.notes = {}
        self.assume = None
        self.faults = None
        self.yield_hooks = []
        self.sym_class = {}
        self.cur = ('', 0)
        self.hints = {}
        self.globals_done = False
        self.loading = set()
        self.inlined = set()
        self.steps = 0
        self.captured = set()
        self.elem_methods = {}
        self.stubs = {}
        self.docs = {'yaml:' + k: v for k, v in (tables or {}).items()}
        self.docmode = False
        self.peel = False
        self.max_depth = 30
        self.track_reads = False
        self.fail_on = None
        root = os.path.join(repo, pkg)
        if not os.path.isdir(root):
            raise AnalysisError(f'package directory {root} not found')
        for fn in sorted(os.listdir(root)):
            if fn.endswith('.py'):
                mod = pkg if fn == '__init__.py' else f'{pkg}.{fn[:-3]}'
                with open(os.path.join(root, fn), encoding='utf8') as fo:
                    s = fo.read()
                try:
                    self.trees[mod] = ast.parse(s)
                except SyntaxError as e:
                    raise AnalysisError(f'{fn}: {e}')
                self.src[mod] = s
        st = State({}, (), None, {})
        self.coll.append([])
        for mod in self.trees:
            self.load_module(mod, st)
        self.coll.pop()
        self.base = st.m
        self.load_events = self.events
        self.events = []
        self.globals_done = True
        self.docs = {}
        self.base_pc = ()
        self.elem_methods = {}
        st = self.fresh_state()
        for q, (node, mod) in self.classes.items():
            c = mk('class', q)
            if any(k.op == 'class' and k is not c for k in self.mro(st, c)) or any(
                    any(b.op == 'class' and b is c for b in self.base[('bases', mk('class', q2))].args) for q2 in self.classes):
                continue
            for x in node.body:
                if isinstance(x, ast.FunctionDef) and not x.name.startswith('__'):
                    self.elem_methods.setdefault(x.name, []).append(q)

    # ------------------------------------------------------------ modules

    def load_module(self, mod, st):
        if mod in self.loading:
            return
        self.loading.add(mod)
        old, oldcur, oldst = st.fid, self.cur, self.cstack
        self.cstack = []
        st.fid = ('g', mod)
        st.m[('v', st.fid, '__name__')] = const(mod)
        st.m[('v', st.fid, '__file__')] = mk('ext', mod + '.__file__')
        for s in self.trees[mod].body:
            try:
                self.exec_stmt(s, st)
            except Dead:
                self.note('module statement dead', mod, getattr(s, 'lineno', 0))
        st.pc = ()
        st.fid, self.cur, self.cstack = old, oldcur, oldst

    def note(self, what, *extra):
        k = (what,) + extra
        self.notes[k] = self.notes.get(k, 0) + 1

    # ------------------------------------------------------------ public entry points

    def fresh_state(self):
        return State({}, (), ('v', 'entry'), self.base)

    def cls(self, name):
        for q, (node, mod) in self.classes.items():
            if q.split('.')[-1] == name:
                return mk('class', q)
        raise AnalysisError(f'anchor class {name} not found')

    def glob(self, mod, name):
        v = self.base.get(('v', ('g', f'{self.pkg}.{mod}'), name))
        if v is None:
            raise AnalysisError(f'anchor {mod}.{name} not found')
        return v

    def class_attr(self, cls, name):
        return self.class_lookup(self.fresh_state(), cls, name)

    def run(self, thunk, st=None, assume=None, faults=None, pc=(), stubs=None, track_reads=False, docs=None):
        """evaluate thunk(st) -> value term; returns (outcomes, events)"""
        st = st if st is not None else self.fresh_state()
        st.pc = st.pc + tuple(pc)
        self.events = []
        self.coll = [[]]
        self.loops, self.cstack, self.handlers, self.yield_hooks = [], [], [], []
        self.assume, self.faults = assume, faults
        self.stubs = stubs or {}
        self.docs = docs or {}
        self.docmode = docs is not None
        self.peel = docs is not None
        self.track_reads = track_reads
        outs = []
        try:
            v = thunk(st)
            outs.append(Outcome('return', st, v))
        except Dead:
            pass
        outs = self.coll.pop() + outs
        ev = self.events
        self.events = []
        return [o for o in outs if o.kind in ('return', 'raise')], ev

    def sym_instance(self, clsname, label='self'):
        t = mk('param', label)
        self.sym_class[t] = self.cls(clsname)
        return t

    # ------------------------------------------------------------ bookkeeping

    def new_oid(self):
        self.oid += 1
        return self.oid

    def new_fid(self):
        self.fidc += 1
        return ('v', self.fidc)

    def alloc(self, st, kind, content=None, cls=None):
        r = mk('ref', self.new_oid(), kind, cls if cls is not None else '')
        if content is not None:
            st.m[('c', r)] = content
        return r

    def ev(self, st, kind, *data):
        e = Ev(kind, data, st.pc, tuple(self.loops), tuple(self.cstack), self.cur[0], self.cur[1])
        self.events.append(e)
        return e

    def dec(self, st, c):
        return decide(c, st.pc, self.assume)

    def res(self, st, t):
        return resolve(t, st.pc, self.assume) if t.op == 'ite' else t

    def fork(self, st, cond, ft, ff):
        d = self.dec(st, cond)
        if d is True:
            return ft(st)
        if d is False:
            return ff(st)
        sa, sb = st.copy(), st.copy()
        sa.pc = st.pc + (cond,)
        sb.pc = st.pc + (ops.neg(cond),)
        live = []
        for s, f in ((sa, ft), (sb, ff)):
            try:
                live.append((s, f(s)))
            except Dead:
                pass
        if not live:
            raise Dead()
        ns, v = merge(live)
        st.become(ns)
        return v

    def push_raise(self, st, exc):
        self.coll[-1].append(Outcome('raise', st.copy(), exc, site=(self.cur, tuple(self.cstack))))

    def do_raise(self, st, exc):
        self.push_raise(st, exc)
        raise Dead()

    def try_call(self, st, f):
        """frozen value of f on a copy of the state; raised(exceptions) when it does not return on every path"""
        s2 = st.copy()
        self.coll.append([])
        try:
            v = self.freeze(s2, f(s2), deep=True)
        except Dead:
            v = None
        finally:
            outs = self.coll.pop()
        bad = sorted({o.val for o in outs if o.kind == 'raise'}, key=lambda t: t.n)
        if bad:
            return mk('raised' if v is None else 'mayraise', *bad)
        return v

    def exc(self, name, *args):
        return mk('exc', name, *args)

    def catchable(self, name):
        for names in self.handlers:
            if names is None:
                return False
            for a in exc_ancestors(name):
                if a in names:
                    return True
        return False

    def maybe_raise(self, st, name, cond, *args):
        """implicit exception `name` under cond, only when an enclosing handler may catch it (or it is certain)"""
        d = self.dec(st, cond)
        if d is False:
            return
        if d is True:
            self.do_raise(st, self.exc(name, *args))
        if not self.catchable(name):
            return
        s2 = st.copy()
        s2.pc = st.pc + (cond,)
        self.push_raise(s2, self.exc(name, *args))
        st.pc = st.pc + (ops.neg(cond),)

    # ------------------------------------------------------------ statements

    def exec_block(self, body, st):
        """returns the state after the block or None"""
        try:
            for s in body:
                self.exec_stmt(s, st)
        except Dead:
            return None
        return st

    def exec_stmt(self, s, st):
        self.steps += 1
        old = self.cur
        mod = self.cur[0]
        if st.fid and st.fid[0] == 'g':
            mod = st.fid[1]
        self.cur = (mod, getattr(s, 'lineno', 0))
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.note('unsupported statement', type(s).__name__)
            if self.docmode:
                raise Limit('unsupported statement ' + type(s).__name__)
            return
        m(s, st)
        self.cur = (mod, old[1])

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st)

    def x_Pass(self, s, st):
        pass

    def x_Global(self, s, st):
        st.m[('globals', st.fid)] = mk('tuple', *(const(n) for n in s.names))

    def x_Nonlocal(self, s, st):
        owner = st.get(('parent', st.fid))
        while owner is not None and owner[0] not in ('g', 'cls'):
            if all(st.get(('v', owner, n)) is not None for n in s.names):
                break
            owner = st.get(('parent', owner))
        if owner is None or owner[0] in ('g', 'cls'):
            raise Limit('nonlocal name not found')
        st.m[('nonlocal', st.fid)] = (owner, tuple(s.names))

    def x_Import(self, s, st):
        for a in s.names:
            if a.name.split('.')[0] == self.pkg:
                if a.name in self.trees:
                    self.load_module(a.name, st) if not self.globals_done else None
                v = mk('module', a.name if a.asname else self.pkg)
            else:
                v = mk('ext', a.name if a.asname else a.name.split('.')[0])
            self.setname(st, a.asname or a.name.split('.')[0], v)

    def x_ImportFrom(self, s, st):
        mod = s.module or ''
        if s.level:
            basepkg = st.fid[1] if st.fid[0] == 'g' else self.cur[0]
            bits = basepkg.split('.')
            if basepkg in self.trees and basepkg != self.pkg:
                bits = bits[:-1]
            bits = bits[:len(bits) - (s.level - 1)] if s.level > 1 else bits
            mod = '.'.join(bits + ([mod] if mod else []))
        for a in s.names:
            if mod.split('.')[0] == self.pkg:
                sub = mod + '.' + a.name
                if sub in self.trees:
                    if not self.globals_done:
                        self.load_module(sub, st)
                    v = mk('module', sub)
                else:
                    if mod not in self.trees:
                        raise AnalysisError(f'module {mod} not found')
                    if not self.globals_done:
                        self.load_module(mod, st)
                    v = st.get(('v', ('g', mod), a.name)) or mk('ext', sub)
            else:
                v = mk('ext', mod + '.' + a.name)
            self.setname(st, a.asname or a.name, v)

    def x_FunctionDef(self, s, st, cls=None):
        f = self.make_func(s, st, cls)
        for d in reversed(s.decorator_list):
            n = ast.unparse(d)
            if n == 'property' or n.endswith('cached_property'):
                f = mk('prop', f, NONE)
            elif n.endswith('.setter'):
                prev = st.m.get(('v', st.fid, s.name)) or NONE
                f = mk('prop', prev.args[0] if prev.op == 'prop' else NONE, f)
            elif n == 'staticmethod':
                f = mk('static', f)
            elif n == 'classmethod':
                f = mk('clsm', f)
            elif n in ('abstractmethod', 'abc.abstractmethod', 'wraps', 'contextmanager', 'contextlib.contextmanager'):
                if n.endswith('contextmanager'):
                    f = mk('ctxf', f)
            else:
                dv = self.eval(d, st)
                f = self.call_value(st, dv, [f], {}, d)
        self.setname(st, s.name, f)

    def make_func(self, node, st, cls=None):
        fi = FuncInfo()
        name = getattr(node, 'name', '<lambda>')
        mod = self.cur[0]
        fi.name = name
        fi.node, fi.mod, fi.cls, fi.is_lambda = node, mod, cls, isinstance(node, ast.Lambda)
        top = st.fid[0] in ('g', 'cls')
        fi.closure = st.fid
        if not top:
            self.captured.add(st.fid)
        fi.uid = f'{mod}.{cls + "." if cls else ""}{name}' if not fi.is_lambda and top else f'{mod}.{name}@{node.lineno}:{node.col_offset}#{st.fid}'
        if cls and fi.uid in self.funcs and self.funcs[fi.uid].node is not node:
            fi.uid += f'#{len(self.funcs)}'
        a = node.args
        fi.defaults = [self.eval(d, st) for d in a.defaults]
        fi.kwdefaults = {k.arg: self.eval(d, st) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fi.deco = []
        old = self.funcs.get(fi.uid)
        if old is not None and not top and (old.defaults != fi.defaults or old.kwdefaults != fi.kwdefaults):
            fi.uid += f'~{len(self.funcs)}'
        self.funcs[fi.uid] = fi
        return mk('func', fi.uid)

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, st):
        q = f'{self.cur[0]}.{s.name}'
        c = mk('class', q)
        self.classes[q] = (s, self.cur[0])
        bases = [self.eval(b, st) for b in s.bases]
        st.m[('bases', c)] = mk('tuple', *bases)
        old = st.fid
        st.fid = ('cls', q)
        st.m[('parent', st.fid)] = old
        for x in s.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                cur = self.cur
                self.x_FunctionDef(x, st, s.name)
                self.cur = cur
            else:
                self.exec_stmt(x, st)
        pre = ('v', st.fid)
        for k in list(st.m):
            if k[0] == 'v' and k[1] == st.fid:
                st.m[('f', c, k[2])] = st.m.pop(k)
        st.fid = old
        self.setname(st, s.name, c)

    def x_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        self.coll[-1].append(Outcome('return', st.copy(), v, st.fid))
        raise Dead()

    def x_Break(self, s, st):
        self.coll[-1].append(Outcome('break', st.copy(), None, st.fid))
        raise Dead()

    def x_Continue(self, s, st):
        self.coll[-1].append(Outcome('continue', st.copy(), None, st.fid))
        raise Dead()

    def x_Raise(self, s, st):
        if s.exc is None:
            cur = st.m.get(('curexc', st.fid)) or self.exc('AnyError')
            self.do_raise(st, cur)
        v = self.eval(s.exc, st)
        v = self.res(st, v)
        self.do_raise(st.copy(), self.to_exc(st, v))

    def to_exc(self, st, v):
        if v.op == 'exc':
            return v
        if v.op == 'ext':
            return self.exc(exc_norm(v.args[0]))
        if v.op == 'call' and v.args[0].op == 'ext':
            return self.exc(exc_norm(v.args[0].args[0]), *v.args[1:])
        if v.op == 'ref' and v.args[1] == 'inst':
            for c in self.mro(st, v.args[2]):
                if c.op == 'ext':
                    return self.exc(exc_norm(c.args[0]), v)
        if v.op == 'class':
            for c in self.mro(st, v):
                if c.op == 'ext':
                    return self.exc(exc_norm(c.args[0]))
        return self.exc('AnyError', v)

    def x_Assert(self, s, st):
        c = self.truth(st, self.eval(s.test, st))

        def bad(x):
            self.do_raise(x, self.exc('AssertionError'))
        self.fork(st, c, lambda x: NONE, bad)

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                k = self.eval_index(t.slice, st)
                self.del_item(st, o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                self.ev(st, 'setattr', o, t.attr, UNDEF)
                st.m.pop(('f', o, t.attr), None)
            elif isinstance(t, ast.Name):
                st.m.pop(('v', st.fid, t.id), None)

    def x_If(self, s, st):
        c = self.truth(st, self.eval(s.test, st))
        d = self.dec(st, c)
        if d is not None:
            r = self.exec_block(s.body if d else s.orelse, st)
            if r is None:
                raise Dead()
            return
        sa, sb = st.copy(), st.copy()
        sa.pc = st.pc + (c,)
        sb.pc = st.pc + (ops.neg(c),)
        ra = self.exec_block(s.body, sa)
        rb = self.exec_block(s.orelse, sb)
        live = [(x, None) for x in (ra, rb) if x is not None]
        if not live:
            raise Dead()
        ns, _ = merge(live)
        st.become(ns)

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)

    def x_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.Name(id=t.id, ctx=ast.Load()), st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            old = self.getattr(st, o, t.attr, t)
        else:
            o, k = self.place(t, st)
            old = self.getitem(st, o, k)
        r = self.eval(s.value, st)
        old = self.res(st, old)
        if isinstance(s.op, ast.Add) and old.op == 'ref' and old.args[1] == 'list':
            self.list_extend(st, old, r)
            return
        if not is_const(old) and ops.typ(old) is None and old.op not in ('lv', 'lin', 'mul', 'concat', 'ite'):
            self.ev(st, 'augmut', old)
        v = self.binop(st, s.op, old, r)
        if isinstance(t, ast.Name):
            self.setname(st, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(st, o, t.attr, v, t)
        else:
            self.setitem(st, o, k, v)

    def place(self, t, st):
        """object and key of a subscript that is stored to; a[i][j] is a[i, j] for arrays"""
        if isinstance(t.value, ast.Subscript) and self.docmode:
            o, k = self.place(t.value, st)
            ints = k.args if k.op == 'tuple' else (k,)
            o = self.res(st, o)
            if o.op == 'ref' and o.args[1] == 'arr' and (all(is_const(x) and type(cval(x)) is int for x in ints) or arrays.namekey(k) is not None):
                j = self.eval_index(t.slice, st)
                return o, mk('tuple', *ints, *(j.args if j.op == 'tuple' else (j,)))
            o = self.getitem(st, o, k)
        else:
            o = self.eval(t.value, st)
        return o, self.eval_index(t.slice, st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.setname(st, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr(st, o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o, k = self.place(t, st)
            self.setitem(st, o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.res(st, v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            seq = self.known_seq(st, v)
            n = len(t.elts)
            if star:
                i = star[0]
                if seq is not None and len(seq) >= n - 1:
                    for e, x in zip(t.elts[:i], seq):
                        self.assign(e, x, st)
                    mid = seq[i:len(seq) - (n - 1 - i)]
                    self.assign(t.elts[i].value, self.alloc(st, 'list', mk('list', *mid)), st)
                    for e, x in zip(t.elts[i + 1:], seq[len(seq) - (n - 1 - i):]):
                        self.assign(e, x, st)
                else:
                    for j, e in enumerate(t.elts[:i]):
                        self.assign(e, self.getitem(st, v, const(j)), st)
                    hi = const(-(n - 1 - i)) if n - 1 - i else NONE
                    self.assign(t.elts[i].value, self.getitem(st, v, mk('slice', const(i), hi, NONE)), st)
                    for j, e in enumerate(t.elts[i + 1:]):
                        self.assign(e, self.getitem(st, v, const(j - (n - 1 - i))), st)
            elif seq is not None and len(seq) == n:
                for e, x in zip(t.elts, seq):
                    self.assign(e, x, st)
            else:
                for j, e in enumerate(t.elts):
                    self.assign(e, self.getitem(st, v, const(j)), st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def setname(self, st, name, v):
        fid = st.fid
        g = st.m.get(('globals', fid))
        if g is not None and any(lit(x, name) for x in g.args):
            fid = ('g', self.cur[0])
            self.ev(st, 'gwrite', mk('module', self.cur[0]), name)
        nl = st.m.get(('nonlocal', fid))
        if nl is not None and name in nl[1]:
            fid = nl[0]
        k = ('v', fid, name)
        st.m[k] = v

    # ------------------------------------------------------------ try / with

    def handler_names(self, h, st):
        if h.type is None:
            return ['BaseException']
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in types:
            v = self.eval(t, st)
            if v.op == 'ext':
                out.append(exc_norm(v.args[0]))
            elif v.op == 'class':
                out.append(v.args[0])
                for c in self.mro(st, v):
                    if c.op == 'ext':
                        out.append('?' + exc_norm(c.args[0]))
            elif v.op == 'tuple':
                out.extend(exc_norm(x.args[0]) for x in v.args if x.op == 'ext')
            else:
                out.append('Exception')
        return out

    def match(self, name, names):
        """True / False / None(maybe)"""
        anc = exc_ancestors(name)
        if any(n in anc for n in names):
            return True
        if name == 'AnyError':
            return None
        # fault of a parent class may be an instance of a caught subclass
        for n in names:
            if exc_norm(name) in exc_ancestors(n) and exc_norm(name) in ('OSError', 'Exception', 'LookupError') and exc_norm(name) != exc_norm(n):
                return None
        return False

    def x_Try(self, s, st):
        hs = [(h, self.handler_names(h, st)) for h in s.handlers]
        self.coll.append([])
        self.handlers.append({n for _, ns in hs for n in ns})
        end = self.exec_block(s.body, st)
        self.handlers.pop()
        outs = self.coll.pop()
        self.coll.append([])
        live = []
        if end is not None and s.orelse:
            end = self.exec_block(s.orelse, end)
        if end is not None:
            live.append((end, None))
        for o in outs:
            if o.kind != 'raise':
                self.coll[-1].append(o)
                continue
            name = o.val.args[0]
            done = False
            for h, ns in hs:
                mm = self.match(name, ns)
                if mm is False:
                    continue
                hst = o.st.copy()
                hst.fid = st.fid
                if mm is None:
                    cond = mk('excis', o.val, const(','.join(ns)))
                    other = o.st.copy()
                    other.pc = other.pc + (ops.neg(cond),)
                    hst.pc = hst.pc + (cond,)
                    o = Outcome('raise', other, o.val, site=o.site)
                hst.m[('curexc', hst.fid)] = o.val
                if h.name:
                    hst.m[('v', hst.fid, h.name)] = o.val
                r = self.exec_block(h.body, hst)
                if r is not None:
                    r.m.pop(('curexc', r.fid), None)
                    live.append((r, None))
                if mm is True:
                    done = True
                    break
            if not done:
                self.coll[-1].append(o)
        outs = self.coll.pop()
        for o in outs:
            if s.finalbody:
                fst = o.st
                keep = fst.fid
                fst.fid = st.fid
                r = self.exec_block(s.finalbody, fst)
                if r is None:
                    continue
                r.fid = keep
                o.st = r
            self.coll[-1].append(o)
        if not live:
            raise Dead()
        fid = st.fid
        for x, _ in live:
            x.fid = fid
        ns, _ = self.merge_sorted(live)
        st.become(ns)
        if s.finalbody:
            if self.exec_block(s.finalbody, st) is None:
                raise Dead()

    def merge_sorted(self, live):
        return merge(live)

    def x_With(self, s, st):
        self._with(list(s.items), s.body, st)

    def _with(self, items, body, st):
        if not items:
            if self.exec_block(body, st) is None:
                raise Dead()
            return
        it = items[0]
        v = self.eval(it.context_expr, st)
        v = self.res(st, v)

        def inner(s2):
            self._with(items[1:], body, s2)

        if v.op == 'ctxcall':
            # package context manager: run the generator, the with-body at its yield
            fid = st.fid

            def hook(s2, val):
                gfid = s2.fid
                cs = self.cstack
                self.cstack = self.cstack[:-1]
                s2.fid = fid
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, val, s2)
                try:
                    inner(s2)
                finally:
                    self.cstack = cs
                s2.fid = gfid
                return NONE
            self.yield_hooks.append(hook)
            self._ctx_run = v.args[0].args[0] if v.args[0].op == 'func' else None
            try:
                self.call_value(st, v.args[0], list(v.args[1]), dict(v.args[2]), it.context_expr)
            finally:
                self.yield_hooks.pop()
            return
        target = v
        closing = None
        if v.op == 'ref' and v.args[1] == 'inst':
            target = self.call_method(st, v, '__enter__', [], {}, it.context_expr)
        elif v.op == 'ref' and v.args[1] in ('file', 'strio'):
            closing = v
        elif v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] == 'contextlib.closing':
            closing = target = v.args[1]
        else:
            self.ev(st, 'with', v)
            if v.op != 'call':
                closing = v
        if it.optional_vars is not None:
            self.assign(it.optional_vars, target, st)
        suppress = None
        if v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0].endswith('suppress'):
            suppress = [exc_norm(a.args[0]) for a in v.args[1:] if a.op == 'ext']
        self.coll.append([])
        end = None
        if suppress:
            self.handlers.append(set(suppress))
        try:
            inner(st)
            end = st
        except Dead:
            pass
        if suppress:
            self.handlers.pop()
        outs = self.coll.pop()
        live = [(end, None)] if end is not None else []

        def leave(x):
            keep = x.fid
            x.fid = st.fid
            if closing is not None:
                self.call_method(x, closing, 'close', [], {}, it.context_expr)
            elif v.op == 'ref' and v.args[1] == 'inst':
                self.call_method(x, v, '__exit__', [NONE, NONE, NONE], {}, it.context_expr)
            x.fid = keep
        for o in outs:
            if suppress and o.kind == 'raise' and self.match(o.val.args[0], suppress):
                o.st.fid = st.fid
                live.append((o.st, None))
                continue
            try:
                leave(o.st)
            except Dead:
                continue
            self.coll[-1].append(o)
        if not live:
            raise Dead()
        ns, _ = merge(live)
        st.become(ns)
        leave(st)
