"""Running constructors over shape-abstract documents and reading the resulting objects."""
import os

from .common import *
from . import docs, arrays, values
from .arrays import ND, nd
from .docs import tok, text


def doc_assume(extra=None):
    def f(c):
        if extra is not None:
            r = extra(c)
            if r is not None:
                return r
        if c.op == 'raises' and lit(c.args[0], 'OSError'):
            return False
        if c.op == 'nonempty' and c.args[0].op == 'param':
            return True         # a path is not the empty string
        return docs.assume(c)
    return f


def lines_of(*ls):
    """document lines (each ends in a newline) from strings / tokens / lists"""
    out = []
    for l in ls:
        parts = l if isinstance(l, (list, tuple)) else (l,)
        out.append(text(*parts, '\n'))
    return out


class Outs(list):
    """outcomes of one analysis, able to repeat it under a decision of an open field condition"""
    rerun = None
    opened = ()
    when = ''
    pins = {}

    def cases(self, depth=3, used=()):
        """the scenarios of the open conditions on single fields (every one of them is met by some input)"""
        c = next((c for c in self.opened if not (fields_of(c) & set(used))), None)
        if c is None or depth == 0:
            yield self
            return
        for b in (True, False):
            o = self.rerun(c, b)
            o.pins = dict(self.pins)
            if b and c.op == 'eq':
                for x, y in (c.args, c.args[::-1]):
                    if number_of(x):
                        o.pins[x] = y
            elif not b and c.op == 'nonempty' and number_of(c.args[0]):
                o.pins[c.args[0]] = const(0 if number_of(c.args[0]) == 'int' else 0.0)
            o.when = (self.when + ' and ' if self.when else '') + ('' if b else 'not ') + show(c)[:80]
            yield from o.cases(depth - 1, tuple(used) + tuple(fields_of(c)))


def fields_of(c):
    return set(leaves(c, ('tok', 'val')))


def leaves(t, kinds):
    out = []

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, Term):
            if x.op in kinds:
                out.append(x)
            else:
                for y in x.args:
                    go(y)
    go(t)
    return out


def number_of(t):
    """t is the number of one field: its kind"""
    if t.op == 'val' and t.args[0] in ('int', 'float'):
        return t.args[0]
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('int', 'float') and len(t.args) == 2 and t.args[1].op == 'tok' \
            and t.args[1].args[0] in docs.RANGE:
        return t.args[0].args[0]
    return None


def free(c):
    """a condition on a field that both some and not all values of its kind meet"""
    if c.op == 'nonempty' and (number_of(c.args[0]) or (c.args[0].op == 'val' and c.args[0].args[0] == 'bool')):
        return True
    if c.op == 'val' and c.args[0] == 'bool':
        return True
    if c.op in ('lt', 'eq') and len(c.args) == 2:
        k = [number_of(x) for x in c.args]
        n = [cval(x) if is_const(x) and isinstance(cval(x), (int, float)) and not isinstance(cval(x), bool) else None for x in c.args]
        for i in (0, 1):
            if k[i] and n[1 - i] is not None:
                return k[i] == 'float' or n[1 - i] == int(n[1 - i]) or c.op == 'lt'
        if k[0] and k[1] and c.args[0] is not c.args[1]:
            return True
    return False


def run_doc(A, thunk, pc, assume, d, decided=()):
    seen = []

    def asm(c):
        for x, b in decided:
            if c is x:
                return b
        r = assume(c)
        if r is None and c not in seen and len(seen) < 40:
            if os.environ.get('VERIF_OPEN'):
                print('open', c.op, show(c)[:200])
            if free(c):
                seen.append(c)
        return r
    o = Outs(A.run(thunk, pc=pc, assume=asm, docs=d)[0])
    o.opened = seen
    o.rerun = lambda c, b: run_doc(A, thunk, pc, assume, d, tuple(decided) + ((c, b),))
    return o


PINS = {}


def pinned(t):
    """t with the fields fixed by the scenario replaced by their value"""
    if not PINS or not isinstance(t, Term):
        return t
    return subst(t, lambda x: PINS.get(x))


class Recorder:
    """collects the results of a judge; stands in for the context"""

    def __init__(self, ctx):
        self.ctx, self.A, self.tier, self.log = ctx, ctx.A, ctx.tier, []

    def ok(self, *a):
        self.log.append(('ok', a, {}))

    def viol(self, *a, **k):
        self.log.append(('viol', a, k))

    def undecided(self, *a):
        self.log.append(('undecided', a, {}))

    def check(self, rule, construct, cond, msg='', where=''):
        if cond is True:
            self.ok(rule, construct)
        elif cond is False:
            self.viol(rule, construct, msg, where)
        else:
            self.undecided(rule, construct, msg)
        return cond

    def count(self, *a):
        self.ctx.count(*a)

    def replay(self):
        for k, a, kw in self.log:
            getattr(self.ctx, k)(*a, **kw)


def percase(f):
    """a judge of outcomes that is repeated per scenario when the outcome as a whole is not decided"""
    def g(ctx, *args, **kw):
        outs = next((a for a in list(args) + list(kw.values()) if isinstance(a, Outs)), None)
        if outs is None or outs.rerun is None or isinstance(ctx, Recorder):
            return f(ctx, *args, **kw)
        rec = Recorder(ctx)
        r = f(rec, *args, **kw)
        if not outs.opened or not any(k == 'undecided' for k, _, _ in rec.log):
            rec.replay()
            return r
        res = {}
        for case in outs.cases():
            rc = Recorder(ctx)
            PINS.clear()
            PINS.update(case.pins)
            f(rc, *(case if a is outs else a for a in args), **{k: case if v is outs else v for k, v in kw.items()})
            for k, a, kws in rc.log:
                if k == 'viol':
                    a = a[:2] + (f'{a[2]} (when {case.when})',) + a[3:]
                res.setdefault(a[:2], []).append((k, a, kws))
        PINS.clear()
        bad = False
        for key, l in res.items():
            k, a, kws = next((x for x in l if x[0] == 'viol'), None) or next((x for x in l if x[0] == 'undecided'), None) or l[0]
            bad = bad or k == 'viol'
            getattr(ctx, k)(*a, **kws)
        return False if bad else None
    g.__name__ = f.__name__
    return g


def ctor(A, cname, lines, how='path', extra=None, **kw):
    """construct cname from the document; how: path / handle / string"""
    c = A.cls(cname)
    kwargs = {'logger': P('logger')}
    d = {}
    if how == 'string':
        name = [p for p in params_of(A, cname) if p.endswith('_string')]
        kwargs[name[0]] = ops.concat(*lines) if lines else const('')
    else:
        p = P('file_path' if how == 'path' else 'file_handler')
        kwargs[p.args[0]] = p
        d[p] = lines
    for k, v in kw.items():
        kwargs[k] = v if isinstance(v, Term) else const(v)
    return run_doc(A, lambda st: A.call_value(st, c, [], kwargs, None), given(*(v for v in kwargs.values() if v.op == 'param')), doc_assume(extra), d), None


def ends(outs):
    """('ret', outcome) / ('exit', code, outcome) / ('exc', name, outcome) with the conditions left open"""
    r = []
    for o in outs:
        if o.kind == 'return':
            r.append(('ret', None, o))
        elif o.val.args[0] == 'SystemExit':
            c = o.val.args[1] if len(o.val.args) > 1 else NONE
            r.append(('exit', cval(c) if is_const(c) else None, o))
        else:
            r.append(('exc', o.val.args[0], o))
    return r


def verdict(outs):
    """set of possible endings"""
    return {(k, v) for k, v, _ in ends(outs)}


def site(o):
    return shortw(o.site) if o.site else ''


@percase
def expect_end(ctx, rule, construct, outs, want, why=''):
    """the run ends in `want` (('ret', None) or ('exit', code)) on every path"""
    E = verdict(outs)
    if not E:
        ctx.undecided(rule, construct, 'no ending found')
        return None
    if want[0] == 'exit' and isinstance(want[1], tuple):
        # content with several faults: any of their codes
        codes = want[1]
        want = next((w for w in E if w[0] == 'exit' and w[1] in want[1]), ('exit', want[1][0]))
        if all(w[0] == 'exit' and w[1] in codes for w in E):
            ctx.ok(rule, construct)
            return True
    hit = want in E or (want[0] == 'exit' and ('exit', None) in E)
    if E == {want}:
        ctx.ok(rule, construct)
        return True
    if hit:
        ctx.undecided(rule, construct, f'may also end with {sorted(map(str, E - {want}))}')
        return None
    o = next(o for k, v, o in ends(outs))
    got = ', '.join(sorted(_end(k, v) for k, v in E))
    ctx.viol(rule, construct, f'ends with {got}, expected {_end(*want)}{": " + why if why else ""}', where=site(o))
    return False


def _end(k, v):
    return {'ret': 'a normal return', 'exit': f'program exit {v}', 'exc': f'an uncaught {v}'}[k]


def guard(ctx, rule, construct, fn, always=False):
    """a unit of work; an internal limit of the analysis leaves the obligation undecided instead of stopping the check"""
    def body():
        try:
            return fn()
        except AnalysisError:
            raise
        except (Exception, RecursionError) as e:   # noqa
            PINS.clear()
            if os.environ.get('VERIF_TRACE'):
                import traceback
                traceback.print_exc()
            ctx.undecided(rule, construct, f'analysis limit: {type(e).__name__}: {e}')
            return None
    return body() if isinstance(ctx, Recorder) else ctx.unit(body, always)


def returned(outs):
    return [o for o in outs if o.kind == 'return']


def yaml_keys(name):
    """top-level keys of a YAML table of the package (read as data)"""
    import os
    import yaml
    from .harness import REPO
    with open(os.path.join(REPO, 'parsevasp', name), encoding='utf8') as f:
        return yaml.safe_load(f)


def table_assume(keys, extra=None):
    """membership in the table loaded from YAML is decided from the table's text"""
    def f(c):
        if extra is not None:
            r = extra(c)
            if r is not None:
                return r
        if c.op == 'in' and contains(c.args[1], lambda x: x.op == 'ext' and x.args[0].startswith('yaml.')):
            if is_const(c.args[0]):
                return cval(c.args[0]) in keys
            if c.args[0].op == 'tok' and c.args[0].args[0] == 'word':
                return False
        return None
    return f


KNOWN_OPS = {'const', 'tok', 'list', 'tuple', 'dict', 'kv', 'concat', 'val', 'nd', 'dot', 'inv', 'mul', 'div'}


def known(t):
    """t is built from labelled fields, literals, int()/float() and containers only"""
    if isinstance(t, tuple):
        return all(known(x) for x in t)
    if not isinstance(t, Term):
        return True
    if t.op == 'call':
        return t.args[0].op == 'ext' and t.args[0].args[0] in ('int', 'float') and all(known(x) for x in t.args[1:])
    if t.op == 'item':
        return t.args[0].op == 'dot' and known(t.args[0])
    if t.op in ('struct', 'inst'):
        return all(known(x) for x in t.args[1:])
    if t.op == 'lin':
        return all(known(x) for _, x in t.args[1])
    return t.op in KNOWN_OPS and all(known(x) for x in t.args)


def unknown(t):
    """a smallest part of t that is not known"""
    for x in t.args:
        for y in x if isinstance(x, tuple) else (x,):
            if isinstance(y, Term) and not known(y):
                return unknown(y)
    return t


def same(actual, expected):
    """True / False / None (actual is not a recognised value)"""
    actual, expected = pinned(actual), pinned(expected)
    if actual is expected:
        return True
    if unlist(actual) is unlist(expected):
        return None
    return differs(actual, expected)


ALG = ('mul', 'div', 'lin', 'dot', 'inv')


def differs(actual, expected):
    """for values that are not the same term: True (equal all the same), False (different), None"""
    if not isinstance(expected, Term):
        expected = const(expected)
    k = known(actual)
    if k and not contains(actual, lambda x: x.op in ALG):
        return False
    r = values.compare(actual, expected)
    if r is True and (actual.op in ('list', 'tuple', 'nd', 'dict')) != (expected.op in ('list', 'tuple', 'nd', 'dict')):
        return True if actual.op in ALG or expected.op in ALG else None
    return False if r is None and k else r


def unlist(t):
    """array, list and tuple unified"""
    return subst(t, lambda x: mk('list', *(unlist(y) for y in x.args)) if x.op in ('nd', 'tuple') else None)


def flat(t):
    """pieces of a text term: literals and ('v', value)"""
    out = []

    def go(x):
        if x.op == 'concat':
            for p in x.args:
                go(p)
        elif x.op == 'const' and isinstance(x.args[1], str):
            if out and isinstance(out[-1], str):
                out[-1] += x.args[1]
            elif x.args[1]:
                out.append(x.args[1])
        elif x.op == 'fmt':
            out.append(('v', x.args[0], x.args[1]))
        else:
            out.append(('v', x, None))
    go(t)
    return out


def same_text(actual, expected):
    """expected: list of str and terms; True / False / None"""
    a = flat(actual)
    e = []
    for p in expected:
        if isinstance(p, str):
            if e and isinstance(e[-1], str):
                e[-1] += p
            elif p:
                e.append(p)
        else:
            e.append(('v', p))
    res = True
    if any(not isinstance(p, str) and not known(p[1]) for p in a):
        gone = frozenset().union(*[values.depends(q[1]) for q in e if not isinstance(q, str)])
        srcs = [values.sources(p[1]) for p in a if not isinstance(p, str)]
        return False if all(pure for _, pure in srcs) and gone - frozenset().union(*[s for s, _ in srcs]) else None
    if len(a) != len(e):
        return False
    for p, q in zip(a, e):
        if isinstance(p, str) != isinstance(q, str):
            return False
        if isinstance(p, str):
            if p != q:
                return False
        else:
            if p[1] is not q[1]:
                return False
    return res


def INT(t):
    return mk('call', mk('ext', 'int'), t)


def FLT(t):
    return mk('call', mk('ext', 'float'), t)


def query(A, cname, lines, fn, how='path', extra=None, **kw):
    """construct from the document, then fn(st, obj) -> value term; returns outcomes with values frozen"""
    c = A.cls(cname)
    kwargs = {'logger': P('logger')}
    d = {}
    if how == 'string':
        name = [p for p in params_of(A, cname) if p.endswith('_string')]
        kwargs[name[0]] = ops.concat(*lines) if lines else const('')
    elif how != 'none':
        p = P('file_path' if how == 'path' else 'file_handler')
        kwargs[p.args[0]] = p
        d[p] = lines
    mkdict = kw.pop('_dict', None)
    pos = kw.pop('_pos', None)
    for k, v in kw.pop('_tables', {}).items():
        d['yaml:' + k] = v
    for k, v in kw.items():
        kwargs[k] = v if isinstance(v, Term) else const(v)

    def thunk(st):
        k2 = dict(kwargs)
        if mkdict is not None:
            k2.update(mkdict(st))
        if pos is not None:
            # the supplied handle has been read from before
            st.m[('pos', P('file_handler'))] = pos
        o = A.call_value(st, c, [], k2, None)
        return arrays.norm(A.freeze(st, fn(st, o), deep=True))
    return run_doc(A, thunk, given(*(v for v in kwargs.values() if v.op == 'param')), doc_assume(extra), d)


def meth(A, name, *args, **kw):
    return lambda st, o: A.call_method(st, o, name, [a if isinstance(a, Term) else const(a) for a in args],
                                       {k: v if isinstance(v, Term) else const(v) for k, v in kw.items()}, None)


@percase
def expect_value(ctx, rule, construct, outs, judge, what=''):
    """every path returns; judge(value) -> True/False/None"""
    E = verdict(outs)
    if not E:
        ctx.undecided(rule, construct, 'no ending found')
        return None
    rets = returned(outs)
    if not rets:
        o = outs[0]
        ctx.viol(rule, construct, f'ends with {", ".join(sorted(_end(k, v) for k, v in E))} instead of returning a value', where=site(o))
        return False
    if len(E) > 1:
        ctx.undecided(rule, construct, f'may also end with {sorted(map(str, E))}')
        return None
    res = []
    for o in rets:
        r = judge(o.val)
        if r is False:
            ctx.viol(rule, construct, f'{what}yields {show(o.val)[:300]}')
            return False
        res.append(r)
    if all(r is True for r in res):
        ctx.ok(rule, construct)
        return True
    ctx.undecided(rule, construct, 'value not recognised: ' + show(rets[0].val)[:120])
    return None


def arr(A, st, rows):
    """a numpy array in the heap"""
    return A.alloc(st, 'arr', ND(rows))


def out_words(t):
    """written text as lines of words; a word is a tuple of literal strings and values (Term)"""
    lines, line, word = [], [], []

    def endw():
        nonlocal word
        if word:
            line.append(tuple(word))
            word = []
    for p in pieces(t):
        if isinstance(p, str):
            for ch in p:
                if ch == '\n':
                    endw()
                    lines.append(line)
                    line = []
                elif ch.isspace():
                    endw()
                elif word and isinstance(word[-1], str):
                    word[-1] += ch
                else:
                    word.append(ch)
        else:
            word.append(p[1])
    endw()
    return lines, line


def pieces(t):
    """flat() with outer strips seen through"""
    out = []

    def go(x):
        if x.op == 'concat':
            for p in x.args:
                go(p)
        elif x.op == 'const' and isinstance(x.args[1], str):
            if x.args[1]:
                out.append(x.args[1])
        elif x.op == 'fmt':
            # padded fields are separated only by literal blanks around them
            out.append(('v', x.args[0], x.args[1]))
        elif x.op == 'call' and x.args[0].op == 'method' and x.args[0].args[0] in ('rstrip', 'strip', 'lstrip') and len(x.args) == 2:
            ps = pieces(x.args[1])
            if ps and isinstance(ps[-1], str) and x.args[0].args[0] != 'lstrip':
                ps[-1] = ps[-1].rstrip()
            if ps and isinstance(ps[0], str) and x.args[0].args[0] != 'rstrip':
                ps[0] = ps[0].lstrip()
            out.extend(p for p in ps if p)
        elif x.op == 'tok' or not isinstance(x, Term):
            out.append(('v', x, None))
        else:
            out.append(('v', x, None))
    go(t)
    return out


def word_is(w, e):
    """word w equals expected e (str / number / Term): True / False / None"""
    if PINS:
        w = tuple(pinned(p) for p in w)
        w = tuple(str(cval(p)) if isinstance(p, Term) and is_const(p) else p for p in w)
        e = pinned(e)
        e = cval(e) if isinstance(e, Term) and is_const(e) else e
    if isinstance(e, str):
        if all(isinstance(p, str) for p in w):
            return ''.join(w) == e
        return False if all(isinstance(p, str) or known(p) for p in w) else None
    if isinstance(e, (int, float)):
        if all(isinstance(p, str) for p in w):
            try:
                return float(''.join(w)) == e
            except ValueError:
                return False
        return False if all(isinstance(p, str) or known(p) for p in w) else None
    if len(w) == 1 and isinstance(w[0], Term):
        return True if w[0] is e else differs(w[0], e)
    if is_const(e) and all(isinstance(p, str) for p in w):
        return word_is(w, cval(e))
    return False if all(isinstance(p, str) or known(p) for p in w) else None


def hidden(p):
    """a written part that may stand for any text, blanks and newlines included"""
    if not isinstance(p, Term) or known(p):
        return False
    while p.op == 'item':
        p = p.args[0]
    return not (p.op in ALG or p.op == 'call' and p.args[0].op == 'ext' and (p.args[0].args[0] in ('int', 'float', 'abs', 'round', 'len') or p.args[0].args[0].startswith(('numpy.', 'math.'))))


def lines_match(t, want):
    """written text against expected lines (list of lists of words; None = any line): (verdict, message)"""
    lines, rest = out_words(t)
    if rest:
        if not all(isinstance(p, str) or known(p) for w in rest for p in w):
            return None, 'text not recognised'
        return False, 'the last line does not end in a newline'
    unknown = [p for l, e in zip(lines, want + [()] * len(lines)) if e is not None for w in l for p in w if hidden(p)]
    if unknown:
        return None, 'not recognised: ' + show(unknown[0])[:120]
    if len(lines) != len(want):
        return False, f'{len(lines)} lines are written, expected {len(want)}; ' + '; '.join(fmtline(l) for l in lines)[:300]
    for i, (l, e) in enumerate(zip(lines, want)):
        if e is None:
            continue
        if len(l) != len(e) or any(word_is(w, x) is False for w, x in zip(l, e)):
            return False, f'line {i + 1} is {fmtline(l)[:220]!r}, expected {fmtline([(x,) for x in e])[:220]!r}'
        if any(word_is(w, x) is None for w, x in zip(l, e)):
            return None, f'line {i + 1} not recognised'
    return True, ''


def fmtline(l):
    return ' '.join(''.join(p if isinstance(p, str) else f'<{show(p)}>' if isinstance(p, Term) else str(p) for p in w) for w in l)


@percase
def expect_text(ctx, rule, construct, outs, want):
    def judge(v):
        r, msg = lines_match(v, want)
        judge.msg = msg
        return r
    E = verdict(outs)
    rets = returned(outs)
    if len(E) == 1 and rets:
        for o in rets:
            r, msg = lines_match(o.val, want)
            if r is False:
                ctx.viol(rule, construct, msg)
                return False
            if r is None:
                ctx.undecided(rule, construct, msg)
                return None
        ctx.ok(rule, construct)
        return True
    return expect_value(ctx, rule, construct, outs, lambda v: lines_match(v, want)[0])


def kvget(d, *path):
    """entry of a frozen dict/list value, None when absent"""
    for k in path:
        if d is None:
            return None
        if d.op == 'dict':
            r = None
            for x in d.args:
                if x.op == 'kv' and lit(x.args[0], k):
                    r = x.args[1]
            d = r
        elif d.op in ('list', 'tuple', 'nd') and isinstance(k, int):
            d = d.args[k] if k < len(d.args) else None
        elif d.op == 'inst':
            r = None
            for x in d.args[1:]:
                if x.op == 'kv' and lit(x.args[0], k):
                    r = x.args[1]
            d = r
        else:
            return None
    return d


@percase
def expect_fields(ctx, rule, construct, outs, want):
    """want: {path tuple: expected term}; each field is one obligation"""
    E = verdict(outs)
    rets = returned(outs)
    if len(E) != 1 or not rets:
        return expect_value(ctx, rule, construct, outs, lambda v: None)
    ok = True
    for path, e in want.items():
        nm = f'{construct}: {"/".join(map(str, path))}'
        for o in rets:
            v = kvget(o.val, *path)
            if v is None:
                r = None if not (o.val.op in ('dict', 'list', 'tuple', 'inst', 'nd')) else None
                if known(o.val):
                    ctx.viol(rule, nm, 'is missing')
                    ok = False
                else:
                    ctx.undecided(rule, nm, 'not found')
                break
            r = same(v, e)
            if r is False:
                ctx.viol(rule, nm, f'is {show(v)[:200]}, expected {show(e)[:200]}')
                ok = False
                break
            if r is None:
                ctx.undecided(rule, nm, show(v)[:120])
                break
        else:
            ctx.ok(rule, nm)
    return ok


def all3(rs):
    """three-valued all()"""
    rs = list(rs)
    return False if False in rs else None if None in rs else True


def matching(fits):
    """one site for each line out of the sites it fits, no site twice: None if there is no such choice"""
    owner = {}

    def place(j, seen):
        for i in fits[j]:
            if i not in seen:
                seen.add(i)
                if i not in owner or place(owner[i], seen):
                    owner[i] = j
                    return True
        return False
    return owner if all(place(j, set()) for j in range(len(fits))) else None
