"""C07: exactly one content source."""
import itertools

from ..corpus import *

CODE = {'Xml': 510}
EXCL = ('Incar', 'Kpoints', 'Poscar')
RANKED = ('Outcar', 'Doscar', 'Eigenval', 'Chgcar', 'Potcar', 'Stream', 'Xml')
CONTENT = ('read', 'readline', 'readlines', 'seek', 'tell')


def first_open(ev):
    for e in ev:
        if e.kind == 'open':
            return e
    return None


def codes(outs):
    r = set()
    for o in outs:
        if o.kind == 'raise':
            n = o.val.args[0]
            a = o.val.args[1] if len(o.val.args) > 1 else None
            a = cval(a) if isinstance(a, Term) and is_const(a) else a
            r.add((n, a) if n == 'SystemExit' else (n, None))
    return r


def atoms(c):
    if c.op in ('and', 'or', 'not', 'ite'):
        return {y for x in c.args for y in atoms(x)}
    return {c}


def murky(o):
    """the path depends on which sources were given in a way that is not understood"""
    for c in o.st.pc:
        for a in atoms(c):
            if a.op not in ('isnone', 'isinstance', 'fault', 'raises', 'nonempty', 'done', 'anyiter') and contains(a, lambda x: x.op == 'isnone' and x.args[0].op == 'param' and x.args[0].args[0] not in ('logger',) or x is mk('unknown', 'length')):
                return a
    return None


def check(ctx):
    A = ctx.A
    ctx.rule('REJECT', 'a call without or with more than one content source has no outcome but the documented rejection, before any file is opened')
    ctx.rule('ACCEPT', 'a call with exactly one content source is never rejected for its sources and can succeed')
    ctx.rule('PRECEDENCE', 'with a path and a handle the content is read from the handle and the path is not opened')
    ctx.floor = 50

    def run(cname, given_):
        ps = params_of(A, cname)
        srcs = sources(A, cname)
        kw = {}
        for p in ps:
            if p in srcs:
                kw[p] = P(p) if p in given_ else NONE
            elif p == 'logger':
                kw[p] = P(p)
            else:
                kw[p] = P(p)
        return construct(A, cname, kw, pc=given(*(P(s) for s in given_)) + given(P('logger')), stubs={'_parsee': widened})

    def rejected(label, cname, outs, ev, want):
        cs = codes(outs)
        op = first_open(ev)
        rd = [e for e in ev if e.kind == 'hcall' and e.data[1] in CONTENT]
        ret = [o for o in outs if o.kind == 'return']
        m = [x for x in map(murky, outs) if x is not None]
        if m and (ret or cs != {want} or op is not None or rd):
            ctx.undecided('REJECT', label, f'condition on the sources: {show(m[0])[:120]}')
        elif ret:
            ctx.viol('REJECT', label, 'the call is accepted' if cs <= set() else 'the call can succeed', '')
        elif cs != {want}:
            ctx.viol('REJECT', label, f'ends with {sorted(map(str, cs))} instead of {want}', shortw(outs[0].site) if outs else '')
        elif op is not None or rd:
            e = op or rd[0]
            ctx.viol('REJECT', label, 'a file or handle is used before the call is rejected', e.where())
        else:
            ctx.ok('REJECT', label)

    for cname in EXCL:
        srcs = sources(A, cname)
        if set(srcs) != {f'{cname.lower()}_string', f'{cname.lower()}_dict', 'file_path', 'file_handler'}:
            raise AnalysisError(f'{cname}: unexpected content sources {srcs}')
        for n in range(len(srcs) + 1):
            for g in itertools.combinations(srcs, n):
                label = f'{cname}({", ".join(g) or "no source"})'
                outs, ev = run(cname, g)
                kinds = {'file' if s in SRC else s for s in g}
                if len(kinds) != 1:
                    rejected(label, cname, outs, ev, ('SystemExit', 10))
                else:
                    accepted(ctx, A, label, outs, ev, 10)
                    if n == 2:
                        precedence(ctx, label, ev)
    for cname in RANKED:
        want = ('ValueError', None) if cname == 'Potcar' else ('SystemExit', CODE.get(cname, 10))
        for n in range(3):
            for g in itertools.combinations(SRC, n):
                label = f'{cname}({", ".join(g) or "no source"})'
                outs, ev = run(cname, g)
                if not g:
                    rejected(label, cname, outs, ev, want)
                else:
                    accepted(ctx, A, label, outs, ev, CODE.get(cname, 10))
                    if n == 2:
                        precedence(ctx, label, ev)
    # write(): exactly one target
    for cname in PARSERS:
        if 'write' not in methods(A, cname):
            continue
        me = A.sym_instance(cname)
        for g in ((), SRC):
            label = f'{cname}.write({", ".join(g) or "no target"})'

            def thunk(st):
                return A.call_method(st, me, 'write', [], {s: P(s) for s in g}, None)
            outs, ev = A.run(thunk, pc=given(*(P(s) for s in g)) + tuple(mk('nonempty', P(s)) for s in g), stubs={'_parsee': widened})
            rejected(label, cname, outs, ev, ('SystemExit', 10))
    ctx.count('source combinations', sum(1 for o in ctx.obl if o[0] in ('REJECT', 'ACCEPT')))


def accepted(ctx, A, label, outs, ev, code):
    m = [x for x in map(murky, outs) if x is not None]
    if m:
        ctx.undecided('ACCEPT', label, f'condition on the sources: {show(m[0])[:120]}')
        return
    bad = [o for o in outs if o.kind == 'raise' and o.val.args[0] == 'SystemExit' and code in [cval(a) if isinstance(a, Term) and is_const(a) else a for a in o.val.args[1:2]]]
    if bad:
        ctx.viol('ACCEPT', label, f'a single source is rejected with code {code}', shortw(bad[0].site))
    elif not any(o.kind == 'return' for o in outs):
        ctx.viol('ACCEPT', label, 'no path accepts this source', shortw(outs[0].site) if outs else '')
    else:
        ctx.ok('ACCEPT', label)


def precedence(ctx, label, ev):
    bad = None
    for e in ev:
        if e.kind == 'open' and contains(e.data[0], lambda x: x is P('file_path')):
            bad = bad or ('the path is opened although a handle was supplied', e)
        if e.kind == 'extcall' and e.data[0].op == 'ext' and e.data[0].args[0].startswith('lxml.etree.') and any(a is P('file_path') for a in e.data[1] if isinstance(a, Term)):
            bad = bad or ('the path is parsed although a handle was supplied', e)
    used = any(contains(a, lambda x: x is P('file_handler')) for e in ev if e.kind in ('hcall', 'extcall', 'method') for a in [e.data[0], *[x for x in (e.data[1] if isinstance(e.data[1], tuple) else ()) if isinstance(x, Term)]])
    if bad:
        ctx.viol('PRECEDENCE', label, bad[0], bad[1].where())
    elif not used:
        ctx.viol('PRECEDENCE', label, 'the supplied handle is never read', '')
    else:
        ctx.ok('PRECEDENCE', label)
