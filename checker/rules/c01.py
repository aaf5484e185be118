"""C01: files opened by the package are closed on every exit; caller handles are never closed."""
from ..corpus import *
from ..common import shortw, owner


def write_runs(A, faults=None, pc=()):
    for cname in PARSERS:
        m = methods(A, cname)
        if 'write' not in m:
            continue
        for src in SRC:
            outs, ev = method_call(A, cname, 'write', m['write'], argmap={'**': {src: P(src)}}, faults=faults,
                                   pc=tuple(pc) + given(P(src)) + (mk('nonempty', P(src)),))
            yield f'{cname}.write({src}=...)', outs, ev, src, cname


def root_of(t):
    while t.op in ('attr', 'item', 'elem') and t.args:
        t = t.args[0]
    return t


def is_caller_handle(t):
    for x in (t.args if t.op == 'phi' else (t,)):
        if x.op == 'param' and 'handle' in x.args[0]:
            return True
        if x.op == 'attr' and 'handle' in x.args[1]:
            return True
        if x.op == 'ite' and (is_caller_handle(x.args[1]) or is_caller_handle(x.args[2])):
            return True
    return False


def leak(A, st, v):
    """True when some gate combination of the open/closed state leaves the file open"""
    if v.op == 'ite':
        d = A.dec(st, v.args[0])
        if d is not None:
            return leak(A, st, v.args[1] if d else v.args[2])
        a, b = leak(A, st, v.args[1]), leak(A, st, v.args[2])
        if a is b:
            return a
        if (a is True or b is True) and not any(x.op in ('phi', 'unknown', 'lv', 'lout') for x in subterms(v.args[0])):
            return True
        return None
    if v is UNDEF or v is FALSE:
        return False
    if v is TRUE:
        return True
    return None


def check(ctx):
    A = ctx.A
    ctx.rule('CLOSED', 'on every outcome of an entry point (return, error exit, exception) each file object opened inside it is closed')
    ctx.rule('NOTCLOSED', 'close() is never reached on a handle that came from the caller')
    ctx.floor = 30
    opens = 0

    def closed(label, outs, ev):
        nonlocal opens
        opened = [e for e in ev if e.kind == 'open']
        opens += len(opened)
        refs = {e.data[3]: e for e in opened}
        bad = None
        und = None
        for o in outs:
            for k, v in o.st.m.items():
                if k[0] != 'o':
                    continue
                d = leak(A, o.st, v)
                if d is False:
                    continue
                e = refs.get(k[1])
                where = e.where() if e else ''
                exitdesc = f'{o.kind}' + (f' {o.val.args[0]}' if o.kind == 'raise' else '') + (f' at {shortw(o.site)}' if o.site else '')
                fault = [x for x in o.st.pc if x.op == 'fault']
                if fault:
                    exitdesc += f' after a failure of {show(fault[-1].args[0])[:80]}'
                if d is True:
                    bad = bad or (f'file opened here is still open on exit: {exitdesc}', where)
                else:
                    und = und or (f'{exitdesc} {show(v)[:100]}', where)
        if bad:
            ctx.viol('CLOSED', label, *bad)
        elif und:
            ctx.undecided('CLOSED', label, und[0])
        else:
            ctx.ok('CLOSED', label)

    def notclosed(label, ev):
        for e in ev:
            if e.kind in ('hclose', 'with') and is_caller_handle(e.data[0]) and not (e.kind == 'with' and e.data[0].op == 'call'):
                ctx.viol('NOTCLOSED', label, f'the caller\'s handle {show(e.data[0])[:60]} is closed', e.where())
                return
            if e.kind in ('call', 'extcall', 'method') and False:
                pass
        ctx.ok('NOTCLOSED', label)

    for label, outs, ev, src, cname in ctor_runs(A, faults='all'):
        closed(label, outs, ev)
        notclosed(label, ev)
    for label, outs, ev, src, cname in write_runs(A, faults='all'):
        closed(label, outs, ev)
        notclosed(label, ev)
    for label, outs, ev, names in function_runs(A, faults='all'):
        if label.endswith('.open_close_file_handler'):
            continue
        closed(label, outs, ev)
        notclosed(label, ev)

    def sel(cname, name, v):
        return name not in ('_parsee', '_parsew', '_parse') if cname == 'Xml' else True
    for label, outs, ev, cname, name in method_runs(A, select=sel, faults='all' if ctx.tier == 'thorough' else None):
        if name == 'write':
            continue
        closed(label, outs, ev)
        notclosed(label, ev)
    ctx.count('open() events', opens)
    ctx.count('open/close call sites in source', sum(s.count('open(') + s.count('.close(') for s in A.src.values()))
    if opens < 8:
        from ..state import AnalysisError
        raise AnalysisError('fewer open() events than confirmed by hand')
