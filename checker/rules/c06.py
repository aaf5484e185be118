"""C06: exits use declared codes, preceded by the message registered for exactly that code."""
from ..corpus import *
from ..common import shortw
from .c01 import write_runs


def declared(A, c):
    """{name: number} of the ERROR_ constants visible on a class, and its message table {number: text}"""
    st = A.fresh_state()
    codes, table = {}, {}
    for k in reversed([k for k in A.mro(st, c) if k.op == 'class']):
        for key, v in A.base.items():
            if key[0] == 'f' and key[1] is k and isinstance(key[2], str) and key[2].startswith('ERROR_') and key[2] != 'ERROR_MESSAGES':
                codes[key[2]] = cval(v) if is_const(v) else v
    m = A.class_attr(c, 'ERROR_MESSAGES')
    d = A.content(st, m) if m is not None else None
    if d is not None and d.op == 'dict':
        for e in d.args:
            if e.op == 'kv':
                k, v = e.args
                table[cval(k) if is_const(k) else k] = cval(v) if is_const(v) else v
            else:
                table = None
                break
    else:
        table = None
    return codes, table


def texts(t):
    """all constant fragments of a message term"""
    r = []
    for x in subterms(t):
        if x.op == 'const' and isinstance(x.args[1], str):
            r.append(x.args[1])
    return r


def check(ctx):
    A = ctx.A
    ctx.rule('CODES', 'every declared error code is a positive integer and no two codes visible on one class share a number')
    ctx.rule('GLOBAL', 'no code number is declared with two meanings in two places of the package')
    ctx.rule('EXIT', 'every SystemExit carries a declared code')
    ctx.rule('LOGGED', 'every exit is preceded by a log call on the same path')
    ctx.rule('MESSAGE', 'when the log text is one of the table messages it is the one registered for the returned code')
    ctx.rule('LOOKUP', 'no path raises while looking up a message or a code')
    ctx.rule('UNOPENED', 'when the file of the caller cannot be opened the call ends with the code for a file that is not found, and closing no handle with the code for an empty one')
    ctx.floor = 100
    allc, alltab = {}, {}
    byclass = {}
    for q in sorted(A.classes):
        c = mk('class', q)
        codes, table = declared(A, c)
        if not codes:
            continue
        byclass[q] = (codes, table)
        seen = {}
        for n, v in sorted(codes.items()):
            lab = f'{q}.{n}'
            if isinstance(v, Term):
                ctx.undecided('CODES', lab, show(v))
                continue
            if not isinstance(v, int) or isinstance(v, bool):
                ctx.viol('CODES', lab, f'the code is {v!r}, not an integer', q)
            elif v in seen:
                ctx.viol('CODES', lab, f'shares the number {v} with {seen[v]}', q)
            elif v <= 0:
                ctx.viol('CODES', lab, f'the code {v} does not signal an error', q)
            else:
                ctx.ok('CODES', lab)
            seen.setdefault(v, n)
            allc.setdefault(v, set()).add(n)
        if table is None:
            ctx.undecided('CODES', f'{q}.ERROR_MESSAGES', 'table not resolved')
        else:
            msgs = {}
            for k, v in table.items():
                if isinstance(v, str):
                    alltab.setdefault(k, set()).add(v)
                    if v in msgs:
                        ctx.viol('CODES', f'{q}.ERROR_MESSAGES[{k}]', f'has the same text as code {msgs[v]}', q)
                    msgs[v] = k
    for v, names in sorted(allc.items()):
        ctx.check('GLOBAL', f'code {v}', len(names) == 1, f'the number {v} is declared as {", ".join(sorted(names))}', '')
    msgcodes = {}
    for k, vs in alltab.items():
        for v in vs:
            msgcodes.setdefault(v, set()).add(k)
    nex = 0
    done = {}

    def exits(label, outs, ev, cname):
        nonlocal nex
        for o in outs:
            if o.kind != 'raise':
                continue
            name = o.val.args[0]
            where = shortw(o.site)
            if name in ('KeyError', 'AttributeError') and ('ERROR_' in ' '.join(texts(o.val)) or any(str(a).startswith('ERROR_') for a in o.val.args[1:] if not isinstance(a, Term))):
                ctx.viol('LOOKUP', f'{label}: {owner_of(o)}', f'{show(o.val)[:100]} is raised instead of the error exit', where)
                continue
            if name == 'KeyError' and lookup_site(A, o):
                ctx.viol('LOOKUP', f'{label}: {owner_of(o)}', f'the message lookup fails with {show(o.val)[:100]}', where)
                continue
            if name != 'SystemExit':
                continue
            nex += 1
            lab = f'{label}: {owner_of(o)}'
            arg = o.val.args[1] if len(o.val.args) > 1 else NONE
            cands = consts(A, o.st, arg)
            if cands is None:
                ctx.undecided('EXIT', lab, show(arg)[:80])
                continue
            bad = [c for c in cands if not isinstance(c, int) or isinstance(c, bool) or c not in allc]
            if bad:
                ctx.viol('EXIT', lab, f'exits with {bad[0]!r}, which is not a declared error code', where)
                continue
            ctx.ok('EXIT', lab)
            # the last log call on this path (dataflow fact kept in the state)
            last = logged(A, o.st, o.st.m.get(('lg',)) or UNDEF)
            if UNDEF in last:
                ctx.viol('LOGGED', lab, f'exit with code {cands[0]} without a log call on this path', where)
                continue
            if None in last:
                ctx.undecided('LOGGED', lab, 'log state of a loop')
                continue
            ctx.ok('LOGGED', lab)
            text = [f for x in last for f in texts(x)]
            hit = set()
            for f in text:
                for m, ks in msgcodes.items():
                    if len(m) > 8 and m in f:
                        hit.add((m, frozenset(ks)))
            # the longest message containing others wins
            hit = [(m, ks) for m, ks in hit if not any(m != m2 and m in m2 for m2, _ in hit)]
            for m, ks in hit:
                if len(cands) == 1 and len(last) == 1 and cands[0] not in ks:
                    ctx.viol('MESSAGE', lab, f'exit code {cands[0]} is announced with the message of code {sorted(ks)[0]}: {m[:60]!r}', where)
                    break
            else:
                ctx.ok('MESSAGE', lab)

    def owner_of(o):
        return o.site[1][-1].replace('parsevasp.', '').split('#')[0] if o.site[1] else '<module>'

    def unopened(label, outs, cname):
        """what happens when the file of the caller cannot be opened"""
        want = declared(A, A.cls(cname))[0].get('ERROR_FILE_NOT_FOUND')
        found = False
        for o in outs:
            if not any(x.op == 'raises' and x.args[0] is const('OSError') and contains(x.args[1], lambda y: y.op == 'ext' and y.args[0] == 'open') and contains(x.args[1], lambda y: y is P('file_path')) for x in o.st.pc):
                continue
            found = True
            if o.kind != 'raise' or o.val.args[0] != 'SystemExit':
                ctx.viol('UNOPENED', label, 'the file of the caller cannot be opened and ' + ('the call succeeds' if o.kind != 'raise' else f'{o.val.args[0]} is raised instead of the error exit'), shortw(o.site))
                return
            c = consts(A, o.st, o.val.args[1]) if len(o.val.args) > 1 else None
            if c is None:
                return ctx.undecided('UNOPENED', label, show(o.val)[:100])
            if set(c) != {want}:
                return ctx.viol('UNOPENED', label, f'the file of the caller cannot be opened and the exit code is {c[0]} instead of {want}', shortw(o.site))
        if found:
            ctx.ok('UNOPENED', label)
    for label, outs, ev, src, cname in ctor_runs(A):
        if src == 'file_path':
            unopened(label, outs, cname)
        exits(label, outs, ev, cname)
    for label, outs, ev, src, cname in wrong_ctor_runs(A):
        exits(label, outs, ev, cname)
    for label, outs, ev, cname, name in method_runs(A, select=lambda c, n, v: n != 'write'):
        exits(label, outs, ev, cname)
    for label, outs, ev, src, cname in write_runs(A):
        if src == 'file_path':
            unopened(label, outs, cname)
        exits(label, outs, ev, cname)
    for label, outs, ev, names in function_runs(A):
        exits(label, outs, ev, None)
    oc = A.glob('base', 'open_close_file_handler')
    outs, ev = A.run(lambda st: A.call_value(st, oc, [], {'logger': P('logger')}, None), pc=given(P('logger')))
    want = declared(A, A.cls('BaseParser'))[0].get('ERROR_EMPTY_HANDLER')
    ends = {(o.kind, o.val.args[0] if o.kind == 'raise' else '', *(consts(A, o.st, o.val.args[1]) or [None] if o.kind == 'raise' and len(o.val.args) > 1 else [])) for o in outs}
    ctx.check('UNOPENED', 'open_close_file_handler() without file and handle', ends == {('raise', 'SystemExit', want)}, f'ends with {sorted(map(str, ends))} instead of the exit code {want}', '')
    ctx.count('exits checked', nex)
    ctx.count('classes declaring codes', len(byclass))
    if nex < 60:
        raise AnalysisError('too few exits were found')


def logged(A, st, t):
    t = A.res(st, t)
    if t.op == 'ite':
        return logged(A, st, t.args[1]) + logged(A, st, t.args[2])
    if t.op == 'phi':
        return [None]
    if t.op == 'lout' or t.op == 'lv':
        return [None] if not (len(t.args) > 2 and isinstance(t.args[2], Term) and t.args[2].op == 'logged') else [mk('logged')]
    if t is UNDEF or t.op == 'logged':
        return [t]
    return [None]


def consts(A, st, t):
    t = A.res(st, t)
    if t.op == 'ite':
        a, b = consts(A, st, t.args[1]), consts(A, st, t.args[2])
        return None if a is None or b is None else a + b
    if t.op == 'phi':
        r = []
        for x in t.args:
            c = consts(A, st, x)
            if c is None:
                return None
            r += c
        return r
    if is_const(t):
        return [cval(t)]
    return None


def lookup_site(A, o):
    """the raising expression subscripts ERROR_MESSAGES"""
    (mod, line), stack = o.site
    tree = A.trees.get(mod)
    for n in ast.walk(tree):
        if isinstance(n, ast.Subscript) and n.lineno <= line <= (n.end_lineno or n.lineno):
            v = n.value
            if (isinstance(v, ast.Attribute) and v.attr == 'ERROR_MESSAGES') or (isinstance(v, ast.Name) and v.id == 'ERROR_MESSAGES'):
                return True
    return False
