"""C23: the run status of OUTCAR follows the convergence rules."""
from .outcardoc import *
from ..docs import between


def values(kind, at):
    """the values of a parameter relative to the counts it is compared with: (text, smallest, largest, name)"""
    out = []
    pts = sorted(set(at))
    prev = 0
    for p in pts:
        if p - 1 > prev:
            out.append((tok(between(prev + 1, p - 1), f'{kind}{prev}'), prev + 1, p - 1))
        out.append((str(p), p, p))
        prev = p
    out.append((tok(between(prev + 1), f'{kind}{prev}'), prev + 1, None))
    return out


def name(lo, hi):
    return str(lo) if lo == hi else f'above {lo - 1}' if hi is None else f'{lo} to {hi}'


def check(ctx):
    A = ctx.A
    ctx.rule('ionic', 'ionic convergence is True below NSW, False at NSW above one, None for NSW of at most one and without relaxation')
    ctx.rule('electronic', 'electronic convergence is True exactly when the last ionic step took fewer electronic steps than NELM')
    ctx.rule('unfinished', 'a run that did not finish is not converged')
    ctx.rule('breach', 'contains_nelm_breach: some ionic step reached NELM; consistent_nelm_breach: all of them did, without the last one of an unfinished run')
    ctx.rule('iteration', 'the last iteration, NSW, NELM and whether the run finished are reported')
    ctx.rule('no steps', 'an OUTCAR without electronic steps ends with code 600')
    full = ctx.tier != 'quick'
    ctx.floor = 900
    shapes = [(1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2, 1), (1, 2, 3), (2, 3, 2), (3, 3, 3), (3, 3, 1), (2, 3, 1, 3)]
    shapes += [(12,), (1,) * 11, (10, 11)] if full else [(11,), (1,) * 10]
    many = [(2,) * 10 + (1,), (2,) * 8 + (1, 2, 2), (1,) + (2,) * 10, (2,) * 11]
    for counts in shapes + many:
        n, last = len(counts), counts[-1]
        for fin in (True, False):
            # electronic steps
            for nelm, lo, hi in values('nelm', {1, *counts} - {0}):
                nm = f'steps {counts}, NELM {name(lo, hi)}{"" if fin else ", unfinished"}'
                for ib, ibn in (('2', 'relaxation'), ('-1', 'no relaxation')):
                    status(ctx, f'{nm}, {ibn}', params(nelm, tok(between(n + 1), 'nsw'), ib), counts, fin, {'electronic_converged': fin and last < lo}, 'electronic' if fin else 'unfinished')
                per = [c >= (hi if hi is not None else lo) for c in counts]
                some = any(per)
                rel = per if fin else per[:-1]
                status(ctx, nm, params(nelm, str(n), '1'), counts, fin, {'contains_nelm_breach': some, 'consistent_nelm_breach': bool(rel) and all(rel), 'nelm': number(nelm)}, 'breach')
            if counts in many and not full:
                continue
            # ionic steps
            for nsw, lo, hi in [('0', 0, 0)] + values('nsw', {1, n, n - 1} - {0}):
                for ib, ion, ibn in ((tok('pos', 'ibrion'), True, 'positive'), ('1', True, '1'), ('2', True, '2'), ('44', True, '44'), ('0', False, '0'), ('-1', False, '-1'), (tok('neg', 'ibrion'), False, 'negative'),
                                     (None, False, 'not printed')):
                    if not full and ibn in ('1', '44') and n > 2:
                        continue
                    nm = f'{n} of NSW {name(lo, hi)}, IBRION {ibn}{"" if fin else ", unfinished"}, steps {counts}'
                    if not fin:
                        want, rule = (False, 'unfinished')
                    elif not ion:
                        want, rule = None, 'ionic'
                    elif n < lo:
                        want, rule = True, 'ionic'
                    elif hi is not None and hi <= 1:
                        want, rule = None, 'ionic'
                    else:
                        want, rule = False, 'ionic'
                    e = {'ionic_converged': want, 'nsw': number(nsw)}
                    status(ctx, nm, params(tok(between(max(counts) + 1), 'nelm'), nsw, ib), counts, fin, e, rule)
        status(ctx, f'steps {counts}', params('60', '30', '2'), counts, True, {'last_iteration_index': mk('list', const(n), const(last)), 'finished': True, 'nelm': const(60), 'nsw': const(30)}, 'iteration')
        status(ctx, f'steps {counts}, unfinished', params('60', '30', '2'), counts, False, {'last_iteration_index': mk('list', const(n), const(last)), 'finished': False}, 'iteration')
    # the order in which the parameters are printed
    for order in ((2, 1, 0), (1, 2, 0), (0, 2, 1), (2, 0, 1)):
        a = [params(tok(between(4), 'nelm'))[1:-2], params(None, tok(between(3), 'nsw'))[1:-2], params(None, None, tok('pos', 'ibrion'))[1:-2]]
        p = [l for k in order for l in a[k]]
        status(ctx, f'parameters in order {order}', p, (2, 3), True, {'ionic_converged': True, 'electronic_converged': True, 'contains_nelm_breach': False, 'consistent_nelm_breach': False}, 'iteration')
    for fin in (True, False):
        for how in ('path', 'handle'):
            con = f'{"finished" if fin else "unfinished"} without electronic steps, {how}'
            lines = lines_of(*params('60', '30', '2'), *(timing() if fin else []))
            guard(ctx, 'no steps', con, lambda: expect_end(ctx, 'no steps', con, ctor(A, 'Outcar', lines, how)[0], ('exit', 600)))


def number(x):
    return INT(x) if isinstance(x, Term) else const(int(x))


def status(ctx, nm, pars, counts, fin, want, rule):
    L = lines_of(*pars, *iterations(counts), *(timing() if fin else []))
    outs = lambda: query(ctx.A, 'Outcar', L, meth(ctx.A, 'get_run_status'))
    ctx.count('documents')

    def go():
        o = outs()
        expect_fields(ctx, rule, nm, o, {(k,): v if isinstance(v, Term) else const(v) for k, v in want.items()})
    guard(ctx, rule, nm, go)
