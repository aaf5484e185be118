"""C03: accessors, renderings and writers are read only."""
from ..corpus import *
from ..effects import origins, describe, MUTATORS
from .c01 import write_runs


def accessor(cname, name, v):
    return name.startswith('get') or name in ('__str__', '__repr__') or v.op == 'prop' or name in ('check_allowed_keys',)


def readonly(ctx, label, ev, start, allow=()):
    und = None
    for e in ev:
        if e.kind not in MUTATORS and e.kind != 'gwrite':
            continue
        if e.kind == 'gwrite':
            continue
        if any(e.data[0] is a for a in allow):
            continue
        for kind, t in origins(e.data[0], start):
            if kind == 'param' and t.op == 'param' and t.args[0] != 'logger':
                if any(t is a for a in allow):
                    continue
                ctx.viol('READONLY', label, describe(e), e.where())
                return
            if kind == 'static':
                ctx.viol('READONLY', label, 'shared ' + describe(e), e.where())
                return
            if kind == 'unknown':
                und = und or describe(e)
    if und:
        ctx.undecided('READONLY', label, und)
    else:
        ctx.ok('READONLY', label)


def check(ctx):
    A = ctx.A
    ctx.rule('READONLY', 'no mutation reachable from an accessor, rendering or write() targets an object that existed before the call')
    ctx.floor = 60
    n = 0
    start = A.oid
    for label, outs, ev, cname, name in method_runs(A, select=accessor):
        n += sum(1 for e in ev if e.kind in MUTATORS)
        readonly(ctx, label, ev, start)
    for label, outs, ev, src, cname in write_runs(A):
        n += sum(1 for e in ev if e.kind in MUTATORS)
        readonly(ctx, label, ev, start, allow=(P('file_handler'),))
    ctx.count('mutation events classified', n)
