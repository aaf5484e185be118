"""C05: every message goes to the supplied logger, which is never reconfigured."""
from ..corpus import *
from .c01 import write_runs

RECONF = ('addHandler', 'removeHandler', 'setLevel', 'addFilter', 'removeFilter', 'setFormatter', 'disable')
EMITTERS = ('warnings.warn', 'warnings.warn_explicit', 'traceback.print_exc', 'traceback.print_stack', 'traceback.print_exception',
            'pprint.pprint', 'builtins.print', 'logging.basicConfig')
LOGF = ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log')

LOGGER = mk('attr', P('self'), '_logger')


def own(t, st=None):
    """True when the term can only be the logger the caller supplied (directly or stored on self)"""
    if t.op == 'param':
        return t.args[0] == 'logger'
    if t.op == 'attr':
        return t.args[1] == '_logger' and t.args[0].op != 'ext' or ('logger' in t.args[1] and t.args[0].op == 'param')
    if t.op in ('ite',):
        a, b = own(t.args[1]), own(t.args[2])
        return True if a and b else (False if a is False and b is False else None)
    if t.op == 'phi':
        r = [own(x) for x in t.args]
        return True if all(r) else (False if all(x is False for x in r) else None)
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'logging.getLogger':
        return False
    if t.op == 'ext':
        return False
    if t.op in ('lv', 'lout', 'unknown', 'item', 'elem', 'get'):
        return None
    return False


def check(ctx):
    A = ctx.A
    ctx.rule('OWN', 'the receiver of every logging call is the logger supplied by the caller, on every path where one was supplied')
    ctx.rule('QUIET', 'nothing is printed, warned or written to a standard stream')
    ctx.rule('RECONF', 'the supplied logger and the logging configuration are not changed')
    ctx.floor = 200
    nlog = 0

    def effects(label, ev):
        nonlocal nlog
        bad = und = None
        for e in ev:
            if e.kind == 'log':
                nlog += 1
                r = own(e.data[0])
                if r is False:
                    bad = bad or ('OWN', f'a message is sent to {show(e.data[0])[:80]} instead of the supplied logger', e)
                elif r is None:
                    und = und or show(e.data[0])[:80]
            elif e.kind == 'print':
                bad = bad or ('QUIET', 'print() is called', e)
            elif e.kind in ('hcall', 'method') and e.data[0].op == 'ext' and e.data[0].args[0] in ('sys.stdout', 'sys.stderr', 'sys.__stdout__', 'sys.__stderr__'):
                bad = bad or ('QUIET', f'{show(e.data[0])}.{e.data[1]} is called', e)
            elif e.kind == 'extcall' and e.data[0].op == 'ext':
                n = e.data[0].args[0]
                if n in EMITTERS:
                    bad = bad or ('RECONF' if 'basic' in n else 'QUIET', f'{n} is called', e)
                elif n.startswith('logging.') and n.split('.')[-1] in LOGF and n.count('.') == 1:
                    bad = bad or ('OWN', f'{n} is called', e)
            elif e.kind == 'method' and e.data[1] in RECONF and own(e.data[0]) is True:
                bad = bad or ('RECONF', f'{e.data[1]}() is called on the supplied logger', e)
            elif e.kind == 'setattr' and own(e.data[0]) is True:
                bad = bad or ('RECONF', f'{show(e.data[0])}.{e.data[1]} is assigned', e)
        if bad:
            ctx.viol(bad[0], label, bad[1], bad[2].where())
        elif und:
            ctx.undecided('OWN', label, und)
        else:
            ctx.ok('OWN', label)

    held = 0
    for label, outs, ev, src, cname in ctor_runs(A):
        effects(label, ev)
    for label, outs, ev, src, cname in wrong_ctor_runs(A):
        effects(label, ev)
        # the logger is stored as given: methods called later use it
        for o in outs:
            if o.kind != 'return':
                continue
            v = o.st.m.get(('f', o.val, '_logger'))
            held += 1
            r = own(A.res(o.st, v)) if v is not None else False
            ctx.check('OWN', f'{label}: stored logger', r, f'the instance keeps {show(v) if v is not None else "no logger"} instead of the supplied logger', label)
    for label, outs, ev, cname, name in method_runs(A, select=lambda c, n, v: n not in ('write', '_setup_logger'), pc=given(LOGGER, P('logger'))):
        effects(label, ev)
    for label, outs, ev, src, cname in write_runs(A, pc=given(LOGGER)):
        effects(label, ev)
    for label, outs, ev, names in function_runs(A):
        if 'logger' in names:
            effects(label, ev)
    ctx.count('logging calls checked', nlog)
    ctx.count('constructed instances checked', held)
    if nlog < 50:
        raise AnalysisError('too few logging calls were found')
