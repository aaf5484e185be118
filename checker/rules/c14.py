"""C14: written KPOINTS follow their mode and the reader reads them as the same mode, centering and frame."""
from .kpointsdoc import *


def row(v):
    return list(v.args) if isinstance(v, Term) else list(v)


def check(ctx):
    A = ctx.A
    ctx.rule('layout', 'comment line, number line, mode line, then exactly the block of the mode')
    ctx.rule('readback', 'the written text, with its numbers as unknown fields, is read as the same mode, centering, frame and values')

    def want_lines(m):
        L = [None]
        if m.mode == 'explicit':
            L += [[str(len(m.points))], 'Direct']
            L += [list(p) + [1.0 if w is NONE else w] for p, w in zip(m.points, m.weights)]
            if m.tetra is not None:
                L += ['Tetrahedra', [str(len(m.tetra)), m.vol]] + [list(t) for t in m.tetra]
        elif m.mode == 'automatic':
            L += [['0'], 'centering']
            if m.div is not None:
                L.append(list(m.div))
            if m.gen is not None:
                L += [list(v) for v in m.gen]
            L.append(list(m.shifts) if m.shifts is not None else [0.0] * 3)
        else:
            L += [[m.num], 'Line', 'Direct']
            for i, p in enumerate(m.points):
                L.append(list(p))
                if i % 2 and i < len(m.points) - 1:
                    L.append([])
        return L

    KW = {'Direct': 'dDrR', 'Line': 'lL', 'Tetrahedra': 'tT'}

    def through_write(st, o):
        h = A.alloc(st, 'strio', const(''))
        A.call_method(st, o, 'write', [], {'file_handler': h}, None)
        return st.m[('c', h)]

    @percase
    def judge(ctx, con, outs, m):
        E = verdict(outs)
        if len(E) != 1 or not returned(outs):
            return expect_value(ctx, 'layout', con, outs, lambda v: None)
        for o in returned(outs):
            lines, rest = out_words(o.val)
            bad = [p for l in lines + [rest] for w in l for p in w if hidden(p)]
            if bad:
                return ctx.undecided('layout', con, 'not recognised: ' + show(bad[0])[:200])
            want = want_lines(m)
            if rest:
                return ctx.viol('layout', con, 'the last line does not end in a newline')
            if len(lines) != len(want):
                return ctx.viol('layout', con, f'{len(lines)} lines are written, expected {len(want)}: ' + ' / '.join(fmtline(l) for l in lines)[:300])
            for i, (l, e) in enumerate(zip(lines, want)):
                if e is None:
                    continue
                if e == 'centering':
                    e = 'Direct' if False else m.centering
                    ok = len(l) >= 1 and isinstance(l[0][0], str) and l[0][0][0].lower() == e[0].lower()
                elif isinstance(e, str):
                    ok = len(l) >= 1 and isinstance(l[0][0], str) and l[0][0][0] in KW[e]
                else:
                    ok = len(l) == len(e) and all3(word_is(w, x) for w, x in zip(l, e))
                if ok is None:
                    return ctx.undecided('layout', con, f'line {i + 1} is not recognised: {fmtline(l)[:200]}')
                if not ok:
                    return ctx.viol('layout', con, f'line {i + 1} is {fmtline(l)[:200]!r}, expected {(e if isinstance(e, str) else fmtline([(x,) for x in e]))[:200]!r}')
            ctx.ok('layout', con)
            readback(ctx, con, lines, m)

    def readback(ctx, con, lines, m):
        """read the written text with every number as an unknown field"""
        def fld(p):
            if isinstance(p, str):
                return const(p)
            if p.op == 'val':
                return T('nat' if p.args[0] == 'int' else 'dec', p.args[1])
            return p
        doc = []
        for l in lines:
            parts = []
            for w in l:
                parts += [' '] + [fld(p) for p in w]
            doc.append(parts)
        src = lines_of(*doc)

        def R(x):
            return (INT if x.args[0] == 'int' else FLT)(fld(x)) if x.op == 'val' else x
        w = {('mode',): const(m.mode)}
        if m.mode == 'automatic':
            w[('centering',)] = const(m.centering)
            w[('points',)] = NONE
            w[('divisions',)] = mk('list', *(R(x) for x in m.div)) if m.div is not None else NONE
            w[('generating_vectors',)] = mk('list', *(mk('list', *(R(x) for x in v)) for v in m.gen)) if m.gen is not None else NONE
            w[('shifts',)] = mk('list', *(R(x) for x in m.shifts)) if m.shifts is not None else mk('list', const(0.0), const(0.0), const(0.0))
        else:
            for i, (p, wt) in enumerate(zip(m.points, m.weights)):
                w[('points', i, 0)] = ND([R(x) for x in p])
                w[('points', i, 2)] = TRUE
                if m.mode == 'explicit':
                    w[('points', i, 1)] = const(1.0) if wt is NONE else R(wt)
            w[('tetra',)] = mk('list', *(mk('list', *(R(x) for x in t)) for t in m.tetra)) if m.tetra is not None else NONE
            w[('tetra_volume',)] = R(m.vol) if m.tetra is not None else NONE
            w[('num_kpoints',)] = const(len(m.points)) if m.mode == 'explicit' else R(m.num)
        for how in ('path', 'string'):
            guard(ctx, 'readback', con, lambda: expect_fields(ctx, 'readback', f'{how}: {con}', query(A, 'Kpoints', src, meth(A, 'get_dict'), how), w))

    cases = []
    for n in (1, 2, 3) if ctx.tier == 'quick' else (1, 2, 3, 4, 5, 6):
        for wt in (True, False):
            for te in (False, True):
                cases.append((f'explicit, {n} points{", weights" if wt else ""}{", tetrahedra" if te else ""}', kpoints_dict(A, 'explicit', n, wt, te)))
    for n in (1, 2, 3, 4, 5, 6) if ctx.tier == 'quick' else (1, 2, 3, 4, 5, 6, 8, 9, 10):
        for wt in (True, False):
            cases.append((f'line mode, {n} points{", weights" if wt else ""}', kpoints_dict(A, 'line', n, wt)))
    for c in ('Gamma', 'Monkhorst-Pack'):
        for sh in (False, True):
            cases.append((f'automatic {c}{", shifts" if sh else ""}', kpoints_dict(A, 'automatic', centering=c, shifts=sh)))
    for sh in (False, True):
        cases.append((f'automatic generating vectors{", shifts" if sh else ""}', kpoints_dict(A, 'automatic', centering='Reciprocal', shifts=sh, gen=True)))
    for what, alias in EQUAL:
        cases.append((f'explicit, {what} that are equal', kpoints_dict(A, 'explicit', 3, tetra=3, alias=alias)))
        for n in (2, 4, 6):
            cases.append((f'line mode, {n} points, {what} that are equal', kpoints_dict(A, 'line', n, alias=alias)))
        for c in ('Gamma', 'Monkhorst-Pack'):
            cases.append((f'automatic {c}, {what} that are equal', kpoints_dict(A, 'automatic', centering=c, shifts=True, alias=alias)))
        cases.append((f'automatic generating vectors, {what} that are equal', kpoints_dict(A, 'automatic', centering='Reciprocal', shifts=True, gen=True, alias=alias)))
    cases.append(('explicit, 12 points, 11 tetrahedra', kpoints_dict(A, 'explicit', 12, tetra=11)))
    cases.append(('line mode, 22 points', kpoints_dict(A, 'line', 22)))
    cases.append(('explicit without comment', kpoints_dict(A, 'explicit', 2, comment=False)))
    for nm, m in cases:
        for how, q in (('get_string', meth(A, 'get_string')), ('write', through_write)):
            con = f'{nm}, {how}'
            guard(ctx, 'layout', con, lambda: judge(ctx, con, query(A, 'Kpoints', None, q, 'none', _dict=m.build), m))
            ctx.count('contents')

    # the number line follows the list
    def removed(st, o):
        A.call_method(st, o, 'delete_point', [const(1)], {}, None)
        return A.call_method(st, o, 'get_string', [], {}, None)
    m = kpoints_dict(A, 'explicit', 3)
    m2 = kpoints_dict(A, 'explicit', 3)
    m2.points, m2.weights = [m.points[i] for i in (0, 2)], [m.weights[i] for i in (0, 2)]
    guard(ctx, 'layout', 'after delete_point', lambda: judge(ctx, 'explicit after delete_point', query(A, 'Kpoints', None, removed, 'none', _dict=m.build), m2))
    # files read and written
    for d, nm in [(KDoc('explicit', fr, weights=w, tetra=te), f'{fr}, weights {w}, tetra {te}') for fr in ('Direct', 'Reciprocal') for w in (True, False) for te in (None, 'Tetrahedra')] + \
            [(KDoc('line', fr, n=4, sep=sep), f'line mode {fr}, separator {sep!r}') for fr in ('Direct', 'reciprocal') for sep in ('', '  ')] + \
            [(KDoc('automatic', center=c, shifts=sh), f'automatic {c}, shifts {sh}') for c in ('Gamma', 'm', 'Reciprocal') for sh in (True, False)] + \
            [(d, f'{nm}, {what} that are equal') for what, alias in EQUAL for d, nm in (
                (KDoc('explicit', n=3, tetra='Tetrahedra', alias=alias), 'explicit'), (KDoc('line', n=4, alias=alias), 'line mode'), (KDoc('line', n=6, alias=alias), 'line mode, 6 points'),
                (KDoc('automatic', alias=alias), 'automatic'), (KDoc('automatic', center='Reciprocal', alias=alias), 'generating vectors'))] + \
            [(KDoc('explicit', n=12, tetra='Tetrahedra'), 'explicit, 12 points'), (KDoc('line', n=22), 'line mode, 22 points'), (KDoc('line', n=2), 'line mode, 2 points')]:
        for how in ('path', 'handle', 'string'):
            con = f'read {how}: {nm}'
            guard(ctx, 'readback', con, lambda: expect_fields(ctx, 'readback', con, query(A, 'Kpoints', d.lines, meth(A, 'get_dict'), how), d.want()))
            ctx.count('documents read')
    ctx.floor = 150
