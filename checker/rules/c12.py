"""C12: the written POSCAR has the VASP layout and consistent counts."""
from .poscardoc import *


def check(ctx):
    A = ctx.A
    ctx.rule('layout', 'the written text is comment, scaling 1, three cell vectors, species, counts, selective line iff a flag is off, frame line, one line per site, '
                       'velocity block and predictor block iff present')
    ctx.rule('comment', 'the first line begins with #, names the compound as grouped below and keeps the comment that was given')
    ctx.rule('grouping', 'species, counts and site lines agree in order and number, and each site keeps its own position, flags, velocity and predictor')
    TF = {True: 'T', False: 'F'}
    some = ((True, False, True), (True, True, True), (False, False, True), (True, True, False))
    one = ((True, True, True), (True, True, True), (True, True, True), (True, False, True))
    none = ((True,) * 3,) * 4
    zero = ((False,) * 3,) * 4
    species = [('ABAB', 'interleaved'), ('AAB', 'grouped'), ('ABB', 'least first'), ('AAAA', 'one species'), ('A', 'single site'), ('BACA', 'four'), ('ABCA', 'split ends')]
    for sp, nm in species:
        names = [T('word', s) for s in sp]
        for flags, fn in ((none, 'all on'), (some, 'mixed flags'), (one, 'last site off'), (zero, 'all off')):
            if fn == 'last site off' and len(sp) < 4:
                flags = flags[-len(sp):]
            for vel, pred in ((False, False), (True, False), (False, True), (True, True)):
                if ctx.tier == 'quick' and nm in ('least first', 'split ends') and (vel != pred):
                    continue
                for cons in (False, True):
                    for wd in ((True, False) if fn == 'mixed flags' else (True,)):
                        m = poscar_dict(A, names, 'site', True, vel, pred, flags)
                        con = f'{nm}, {fn}{", velocities" if vel else ""}{", predictors" if pred else ""}{", conserve_order" if cons else ""}{"" if wd else ", cartesian"}'
                        guard(ctx, 'layout', con, lambda: layout(ctx, A, con, query(A, 'Poscar', None, meth(A, 'get_string'), 'none', _dict=m.build, conserve_order=cons, write_direct=wd),
                                                                 m, flags, vel, pred, cons, wd, sp))
                        ctx.count('contents')

    for sp in ('A', 'AAB', 'ABAB', 'BACA'):
        for cons in (False, True):
            for wd in (True, False):
                m = poscar_dict(A, [T('word', s) for s in sp], 'plain', True)
                con = f'{sp}, sites of species and position alone{", conserve_order" if cons else ""}{"" if wd else ", cartesian"}'
                guard(ctx, 'layout', con, lambda: layout(ctx, A, con, query(A, 'Poscar', None, meth(A, 'get_string'), 'none', _dict=m.build, conserve_order=cons, write_direct=wd),
                                                         m, none, False, False, cons, wd, sp))
                ctx.count('contents')
    # sites that agree in some of their data, and more sites than digits
    for what, alias in (('positions', (r'^p\d_', 'p_')), ('velocities and predictors', (r'^[vr]\d_\d', 'v')), ('coordinates', (r'^([pv]\d)_\d', r'\1_')), ('everything', (r'^[pvr].*', 'p'))):
        for sp in ('ABAB', 'AAB', 'AAAA'):
            for flags in (none, some):
                for cons in (False, True):
                    for wd in (True, False):
                        m = poscar_dict(A, [T('word', s) for s in sp], 'site', True, True, True, flags, alias=alias)
                        con = f'{sp}, {what} that are equal{", mixed flags" if flags is some else ""}{", conserve_order" if cons else ""}{"" if wd else ", cartesian"}'
                        guard(ctx, 'layout', con, lambda: layout(ctx, A, con, query(A, 'Poscar', None, meth(A, 'get_string'), 'none', _dict=m.build, conserve_order=cons, write_direct=wd),
                                                                 m, flags, True, True, cons, wd, sp))
                        ctx.count('contents')
    for sp in ('AAAAAAAAAAAAB', 'ABAAAAAAAAAABA'):
        for cons in (False, True):
            m = poscar_dict(A, [T('word', s) for s in sp], 'site', True, True, True, some * 4)
            con = f'{len(sp)} sites, mixed flags{", conserve_order" if cons else ""}'
            guard(ctx, 'layout', con, lambda: layout(ctx, A, con, query(A, 'Poscar', None, meth(A, 'get_string'), 'none', _dict=m.build, conserve_order=cons), m, some * 4, True, True, cons, True, sp))

    # which sites carry an off flag, and which of the three flags it is
    from itertools import product
    pat = [(False, True, True), (True, False, True), (True, True, False), (False, False, True), (False, True, False), (True, False, False), (False, False, False)]
    for sp in ('A', 'AB', 'AAB', 'ABB', 'ABA', 'ABAB', 'AABC', 'CABA') if ctx.tier == 'quick' else ('A', 'AB', 'AAB', 'ABB', 'ABA', 'BAA', 'ABAB', 'AABC', 'CABA', 'ABBA', 'AAAA', 'ABCD'):
        names = [T('word', s) for s in sp]
        for bi, bits in enumerate(product((False, True), repeat=len(sp))):
            flags = tuple(pat[(bi + 2 * i) % len(pat)] if b else (True,) * 3 for i, b in enumerate(bits))
            for cons in (False, True):
                con = f'{sp}, off at {"".join("x" if b else "-" for b in bits)}{", conserve_order" if cons else ""}'
                vel, pred = bool(bi % 2), bool(bi % 3 == 1)
                m = poscar_dict(A, names, 'site', True, vel, pred, flags)
                guard(ctx, 'layout', con, lambda: layout(ctx, A, con, query(A, 'Poscar', None, meth(A, 'get_string'), 'none', _dict=m.build, conserve_order=cons),
                                                         m, flags, vel, pred, cons, True, sp))
                ctx.count('contents')

    # files read and written again, without comment, and through write()
    def through_write(st, o):
        h = A.alloc(st, 'strio', const(''))
        A.call_method(st, o, 'write', [], {'file_handler': h}, None)
        return st.m[('c', h)]
    for sel in (None, 'Selective dynamics'):
        for vel in (None, 'Direct'):
            for pred in (False, True):
                ff = (('T', 'F', 'T'), ('.TRUE.', '.FALSE.', '.TRUE.'), ('f', 't', 'F'))
                on = (('T', 'T', 'T'),) * 3
                rot = [tuple(fl[(j + k) % 3] for j in range(3) for fl in [('F', 'f', '.FALSE.', 'T', '.F.', 't', 'f', '.true.', '.f.')[3 * i:3 * i + 3]]) for k, i in ((0, 0), (1, 1), (2, 2))]
                alls = [(tuple(rot[(i + r) % 3][(j + r) % 3] for j in range(3)) for i in range(3)) for r in range(3)]
                for fl, fn in ((ff, 'flags'), (on, 'all on'), *((tuple(x), f'spellings {r}') for r, x in enumerate(alls) if sel)):
                    d = Doc('Direct', sel, fl, vel=vel, pred=pred, scale='1.0')
                    flags = tuple(tuple('t' in x.lower() for x in y) for y in fl) if sel else none
                    m = type('M', (), {})()
                    m.comment = d.comment
                    m.names = [T('word', n.args[1]) for n in d.names]
                    m.cell, m.pos = d.cellval(), [d.posval(i) for i in range(3)]
                    m.vel, m.pred = [d.velval(i) for i in range(3)], [d.predval(i) for i in range(3)]
                    for cons in (False, True):
                        for how, q in (('get_string', meth(A, 'get_string')), ('write', through_write)):
                            con = f'file {sel or "plain"}, {fn}, {vel or "no"} velocities{", predictors" if pred else ""}{", conserve_order" if cons else ""}, {how}'
                            guard(ctx, 'layout', con, lambda: layout(ctx, A, con, query(A, 'Poscar', d.lines, q, conserve_order=cons), m, flags, bool(vel), pred, cons, True, 'AAB'))
                            ctx.count('contents')
    m = poscar_dict(A, [T('word', 'A'), T('word', 'B')], 'site', True, comment=False)
    guard(ctx, 'layout', 'no comment', lambda: layout(ctx, A, 'no comment', query(A, 'Poscar', None, meth(A, 'get_string'), 'none', _dict=m.build), m, none, False, False, False, True, 'AB'))

    # after modify and delete_site the counts follow
    def changed(st, o):
        A.call_method(st, o, 'delete_site', [const(1)], {}, None)
        return A.call_method(st, o, 'get_string', [], {}, None)
    m = poscar_dict(A, [T('word', s) for s in 'ABBC'], 'site', True, True, True, some)
    k = type('M', (), {})()
    k.comment = m.comment
    k.names, k.cell = [T('word', s) for s in 'ABC'], m.cell
    k.pos, k.vel, k.pred = ([x[i] for i in (0, 2, 3)] for x in (m.pos, m.vel, m.pred))
    guard(ctx, 'grouping', 'after delete_site', lambda: layout(ctx, A, 'after delete_site', query(A, 'Poscar', None, changed, 'none', _dict=m.build), k,
                                                               [some[i] for i in (0, 2, 3)], True, True, False, True, 'ABC'))
    ctx.floor = 150


@percase
def layout(ctx, A, con, outs, m, flags, vel, pred, cons, wd, sp):
    E = verdict(outs)
    if len(E) != 1 or not returned(outs):
        return expect_value(ctx, 'layout', con, outs, lambda v: None)
    n = len(m.names)
    selective = any(not x for fl in flags[:n] for x in fl)
    for o in returned(outs):
        lines, rest = out_words(o.val)
        unknown = [p for l in lines[1:] + [rest] for w in l for p in w if hidden(p)]
        if unknown:
            return ctx.undecided('layout', con, 'not recognised: ' + show(unknown[0])[:150])
        head = 'Direct' if wd else 'Cartesian'
        c = (lambda v: v) if wd else (lambda v: arrays.dot(v, m.cell))
        want = ['the comment', [1.0]] + [list(v.args) for v in m.cell.args] + ['the species', 'the counts'] + (['the selective dynamics line'] if selective else []) + [[head]]
        first = len(want)
        want += ['a site'] * n
        if vel:
            want += [[head]] + ['a velocity'] * n
        if pred:
            want += [[]] + ['a predictor'] * n
        if rest:
            return ctx.viol('layout', con, 'the last line does not end in a newline')
        if len(lines) != len(want):
            return ctx.viol('layout', con, f'{len(lines)} lines are written, expected {len(want)} ({"selective, " if selective else ""}{n} sites{", velocities" if vel else ""}'
                                           f'{", predictors" if pred else ""})')
        for i, (l, e) in enumerate(zip(lines, want)):
            if isinstance(e, list) and (len(l) != len(e) or any(word_is(w, x) is False for w, x in zip(l, e))):
                return ctx.viol('layout', con, f'line {i + 1} is {fmtline(l)[:200]!r}, expected {fmtline([(x,) for x in e])[:200]!r}')
        for i, (l, e) in enumerate(zip(lines, want)):
            if isinstance(e, list) and any(word_is(w, x) is None for w, x in zip(l, e)):
                return ctx.undecided('layout', con, f'line {i + 1} not recognised: {fmtline(l)[:150]}')
        if not any(isinstance(p, str) and p.strip() for w in lines[0] for p in w) and not lines[0]:
            return ctx.viol('layout', con, 'the first line is empty')
        if selective:
            l = lines[first - 2]
            if not (l and isinstance(l[0][0], str) and l[0][0][0] in 'sS'):
                return ctx.viol('layout', con, f'line {first - 1} is {fmtline(l)!r}, expected the selective dynamics line')
        # grouping
        first_line(ctx, con, o.val, lines[5], lines[6], m)
        spl, cl = lines[5], lines[6]
        if any(len(w) != 1 or not isinstance(w[0], Term) or w[0].op != 'tok' for w in spl):
            return ctx.viol('layout', con, f'the species line is {fmtline(spl)!r}')
        species = [w[0].args[1] for w in spl]
        try:
            counts = [int(''.join(w)) for w in cl]
        except (ValueError, TypeError):
            return ctx.viol('layout', con, f'the counts line is {fmtline(cl)!r}')
        if len(counts) != len(species) or sum(counts) != n:
            return ctx.viol('grouping', con, f'species {species} have the counts {counts} for {n} sites')
        ext = [s for s, k in zip(species, counts) for _ in range(k)]
        at = first + n
        rest = [(what, at + 1 + k * (n + 1), vals) for k, (what, vals) in enumerate(
            [(w, x) for on, w, x in ((vel, 'velocity', [c(v) if vel else v for v in m.vel]), (pred, 'predictor', m.pred)) if on])]
        fits = []
        for j in range(n):
            l = lines[first + j]
            fit = [len(l) >= 3 and all3(word_is(w, x) for w, x in zip(l, c(m.pos[i]).args)) for i in range(n)]
            hit = [i for i in range(n) if fit[i] is True]
            if not hit and None in fit:
                return ctx.undecided('layout', con, 'not recognised: ' + fmtline(l)[:150])
            if not hit:
                return ctx.viol('grouping', con, f'site line {j + 1} {fmtline(l)[:200]!r} is the position of no site')
            k = [i for i in hit if m.names[i].args[1] == ext[j]]
            if not k:
                return ctx.viol('grouping', con, f'site line {j + 1} is the site of species {m.names[hit[0]].args[1]}, the species and counts lines make it one of {ext[j]}')
            hit, fl = k, [''.join(map(str, w)) for w in l[3:]]
            want_fl = lambda i: ['T' if x else 'F' for x in flags[i]] if selective else []
            k = [i for i in hit if want_fl(i) == fl]
            if not k:
                return ctx.viol('grouping', con, f'the site with flags {want_fl(hit[0])} is written with {fl}')
            hit = k
            for what, start, vals in rest:
                l = lines[start + j]
                fit = {i: len(l) == 3 and all3(word_is(w, x) for w, x in zip(l, vals[i].args)) for i in hit}
                k = [i for i in hit if fit[i] is True]
                if not k and None in fit.values():
                    return ctx.undecided('layout', con, 'not recognised: ' + fmtline(l)[:150])
                if not k:
                    return ctx.viol('grouping', con, f'{what} line {j + 1} is {fmtline(l)[:200]!r}, expected that of the site written as number {j + 1}')
                hit = k
            fits.append(set(hit))
        if matching(fits) is None:
            return ctx.viol('grouping', con, f'the site lines are those of sites {[sorted(x) for x in fits]}, not each site once')
        if cons and any(j not in x for j, x in enumerate(fits)):
            return ctx.viol('grouping', con, f'the order of the sites is not kept: {[sorted(x) for x in fits]}')
    ctx.ok('layout', con)
    ctx.ok('grouping', con)


def branches(ps, conds=()):
    """the texts a list of parts can stand for, with the conditions they are under"""
    for i, p in enumerate(ps):
        if isinstance(p, Term) and p.op == 'ite':
            for c, x in ((p.args[0], p.args[1]), (ops.neg(p.args[0]), p.args[2])):
                yield from branches(ps[:i] + [y if isinstance(y, str) else y[1] for y in pieces(x)] + ps[i + 1:], conds + (c,))
            return
    yield ps, conds


def first_line(ctx, con, text_, spl, cl, m):
    """# in front, the compound in the order of the species line (unless the comment contains it) and the comment"""
    ps = []
    for p in pieces(text_):
        p = p if isinstance(p, str) else p[1]
        if isinstance(p, str) and '\n' in p:
            ps.append(p[:p.index('\n')])
            break
        ps.append(p)
    try:
        formula = ''.join(docs.code(w[0]) + ('' if c == ('1',) else ''.join(c)) for w, c in zip(spl, cl))
    except (TypeError, AttributeError, IndexError):
        return
    old = getattr(m, 'comment', None)
    for b, conds in branches(ps):
        if any(isinstance(p, Term) and p.op != 'tok' for p in b):
            return ctx.undecided('comment', con, 'not recognised: ' + show(next(p for p in b if isinstance(p, Term) and p.op != 'tok'))[:150])
        t = ''.join(p if isinstance(p, str) else docs.code(p) for p in b)
        given_ = any(c.op == 'in' and formula in (docs.enc(c.args[0]) or '') and old is not None and c.args[1] is old for c in conds)
        at = t.find(formula)
        bad = None
        if not t.startswith('#'):
            bad = 'does not begin with #'
        elif not given_ and (at < 0 or t[at + len(formula):][:1].isdigit()):
            bad = 'does not name the compound'
        elif old is not None and docs.code(old) not in t:
            bad = 'has lost the comment'
        if bad:
            return ctx.viol('comment', con, f'the first line {fmtline([tuple(b)])[:160]!r} {bad}')
    ctx.ok('comment', con)
