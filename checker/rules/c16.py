"""C16: numbers in the written POSCAR and KPOINTS stay separated and keep the requested precision.

The written text is a sequence of literals and formatted fields (value, format specification). Whatever the values are, two
neighbouring numbers of a line have a literal blank between them, floating point fields are fixed notation with enough decimals,
and the lines end in one newline each."""
import re

from .poscardoc import *
from .kpointsdoc import KDoc, kpoints_dict

SPEC = re.compile(r'(?:.?[<>=^])?[+\- ]?z?#?0?(\d+)?(,|_)?(?:\.(\d+))?([a-zA-Z%])?$', re.S)
FLOAT = re.compile(r'[+-]?(\d*)\.(\d*)([eEdD][+-]?\d+)?$')


def number(t):
    """'int' / 'float' / None (not a number) / '?' for a written value"""
    if t.op == 'tok':
        return None
    k = number_of(t)
    if k:
        return k
    if t.op in ('len', 'idx'):
        return 'int'
    if t.op in ('dot', 'mul', 'div', 'lin', 'inv', 'item'):
        return 'float' if known(t) else '?'
    return '?'


def faults(t, prec, cap):
    """messages about the text; None when it is not recognised"""
    ps = pieces(t)
    if not ps or not (isinstance(ps[-1], str) and ps[-1].endswith('\n')):
        if ps and not isinstance(ps[-1], str) and number(ps[-1][1]) == '?':
            return None
        return ['the last line does not end in a newline']
    out = []
    prev = None       # last number of the line with nothing but non-blank text since
    first = True
    for p in ps:
        if isinstance(p, str):
            if '\r' in p:
                out.append('a carriage return is written')
            if first:
                _, nl, p = p.partition('\n')
                first = not nl
            if any(ch.isspace() for ch in p):
                prev = None
            elif prev is not None and any(ch.isdigit() or ch in '+-.' for ch in p):
                out.append(f'{p!r} is written directly after the number {show(prev)[:60]}')
            for w in p.split():
                m = FLOAT.match(w)
                if m and m.group(1) + m.group(2) and (m.group(3) or len(m.group(2)) < prec):
                    out.append(f'{w} has {len(m.group(2))} decimals, {prec} are requested')
            continue
        if first:
            continue
        v, spec = p[1], p[2]
        k = number(v)
        if k == '?':
            return None
        if k is None:
            prev = None
            continue
        if prev is not None:
            out.append(f'there is no blank between the fields of {show(prev)[:60]} and {show(v)[:60]}')
        prev = v
        s = '' if spec is None else cval(spec) if is_const(spec) else None
        if s is None:
            return None
        m = SPEC.match(s)
        if m is None:
            return None
        if m.group(2):
            out.append(f'the field of {show(v)[:60]} is written with digit grouping')
        if k == 'float':
            if m.group(4) not in ('f', 'F'):
                out.append(f'the field of {show(v)[:60]} has the format {s!r}, which is not fixed notation')
            elif int(m.group(3) if m.group(3) is not None else 6) < prec:
                out.append(f'the field of {show(v)[:60]} has the format {s!r}, {prec} decimals are requested')
    return out


def check(ctx):
    A = ctx.A
    ctx.rule('numbers', 'between two numbers of a line there is a literal blank, floating point numbers are written in fixed notation with the requested decimals, '
                        'and the last line ends in a newline')
    ctx.rule('lines', 'no empty lines are written except the ones of the layout (before predictors, between the pairs of line mode)')

    @percase
    def judge(ctx, con, outs, prec, blanks):
        E = verdict(outs)
        if len(E) != 1 or not returned(outs):
            return expect_value(ctx, 'numbers', con, outs, lambda v: None)
        for o in returned(outs):
            r = faults(o.val, prec, None)
            if r is None:
                return ctx.undecided('numbers', con, show(o.val)[:200])
            if r:
                return ctx.viol('numbers', con, '; '.join(sorted(set(r))[:3]))
            n = sum(1 for l in out_words(o.val)[0] if not l)
            if n != blanks:
                return ctx.viol('lines', con, f'{n} empty lines are written, expected {blanks}')
        ctx.ok('numbers', con)
        ctx.ok('lines', con)
        ctx.count('texts')
        ctx.count('number fields', sum(1 for p in pieces(returned(outs)[0].val) if not isinstance(p, str) and number(p[1])))

    def through_write(st, o):
        h = A.alloc(st, 'strio', const(''))
        A.call_method(st, o, 'write', [], {'file_handler': h}, None)
        return st.m[('c', h)]
    hows = (('get_string', meth(A, 'get_string')), ('write', through_write))

    def precs(default):
        return [(None, default)] + [(p, p) for p in ((0, 1, 4, 9, 13, 20) if ctx.tier == 'quick' else range(0, 31))]

    def run(con, cname, lines, default, blanks, **kw):
        for prec, want in precs(default):
            for how, q in hows:
                c = f'{cname} {con}{"" if prec is None else f", prec={prec}"}, {how}'
                k = dict(kw) if prec is None else {**kw, 'prec': prec}
                guard(ctx, 'numbers', c, lambda: judge(ctx, c, query(A, cname, lines, q, 'none' if lines is None else 'path', **k), want, blanks))

    some = ((True, False, True), (True, True, True), (False, False, True), (True, True, False))
    on = ((True,) * 3,) * 4
    for sp in ('A', 'AB', 'ABA', 'AABC'):
        names = [T('word', s) for s in sp]
        for flags, fn in ((on, ''), (some, ', flags')):
            for vel, pred in ((False, False), (True, False), (False, True), (True, True)):
                if ctx.tier == 'quick' and sp in ('AB', 'AABC') and (vel != pred):
                    continue
                for wd in (True, False):
                    for comment in ((True, False) if sp == 'A' else (True,)):
                        m = poscar_dict(A, names, 'site', True, vel, pred, flags, comment)
                        run(f'dictionary {sp}{fn}{", velocities" if vel else ""}{", predictors" if pred else ""}{"" if wd else ", Cartesian"}{"" if comment else ", no comment"}',
                            'Poscar', None, 12, int(pred), _dict=m.build, write_direct=wd)
    for sel in (None, 'Selective dynamics'):
        for vel, pred in ((None, False), ('Direct', False), ('Direct', True)):
            d = Doc('Direct', sel, (('T', 'F', 'T'), ('T', 'T', 'F'), ('F', 'T', 'T')), vel=vel, pred=pred, scale='1.0')
            run(f'file {sel or "plain"}{", velocities" if vel else ""}{", predictors" if pred else ""}', 'Poscar', d.lines, 12, int(pred))
    cases = []
    for n in (1, 2, 4):
        for wt in (True, False):
            for te in (False, True):
                cases.append((f'explicit, {n} points{", weights" if wt else ""}{", tetrahedra" if te else ""}', kpoints_dict(A, 'explicit', n, wt, te), 0))
    for n in (1, 2, 3, 4, 5, 6):
        cases.append((f'line mode, {n} points', kpoints_dict(A, 'line', n, False), (n - 1) // 2))
    for c in ('Gamma', 'Monkhorst-Pack'):
        for sh in (False, True):
            cases.append((f'automatic {c}{", shifts" if sh else ""}', kpoints_dict(A, 'automatic', centering=c, shifts=sh), 0))
    for sh in (False, True):
        cases.append((f'generating vectors{", shifts" if sh else ""}', kpoints_dict(A, 'automatic', centering='Reciprocal', shifts=sh, gen=True), 0))
    cases.append(('without comment', kpoints_dict(A, 'explicit', 2, comment=False), 0))
    for nm, m, b in cases:
        run(nm, 'Kpoints', None, 9, b, _dict=m.build)
    for d, nm, b in ((KDoc('explicit', weights=True, tetra='Tetrahedra'), 'file explicit', 0), (KDoc('line', n=4), 'file line mode', 1), (KDoc('automatic', center='Gamma'), 'file automatic', 0)):
        run(nm, 'Kpoints', d.lines, 9, b)
    ctx.floor = 150
    ctx.assumptions = ['values are finite numbers', 'precisions other than the listed ones format alike: the specification is an affine function of the precision']
