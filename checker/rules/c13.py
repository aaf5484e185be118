"""C13: malformed or unsupported POSCAR / KPOINTS content is rejected with its code, clean content is not."""
from .kpointsdoc import *
from .poscardoc import Doc


def check(ctx):
    A = ctx.A
    ctx.rule('rejected', 'faulty content ends the program with the code of the fault before an object is returned')
    ctx.rule('accepted', 'content without these faults gives an object')
    hows = ('path', 'handle', 'string')
    ff = (('T', 'F', 'T'),) * 3
    P_ = 'Poscar'

    def run(cname, nm, lines, want):
        for how in hows:
            con = f'{cname} {how}: {nm}'
            rule = 'accepted' if want is None else 'rejected'
            guard(ctx, rule, con, lambda: expect_end(ctx, rule, con, ctor(A, cname, lines, how)[0], ('ret', None) if want is None else ('exit', want)))
            ctx.count('documents')
    s = T('posf', 'scale')
    for fr in ('Direct', 'Cartesian'):
        for sel in (None, 'Selective dynamics'):
            for vel in (None, 'Direct', 'Cartesian'):
                for pred in (False, True):
                    nm = f'{fr}{", selective" if sel else ""}{f", {vel} velocities" if vel else ""}{", predictors" if pred else ""}'
                    run(P_, nm, Doc(fr, sel, ff, scale=s, vel=vel, pred=pred).lines, None)
                    for sc, sn in ((T('negf', 'scale'), 'negative'), (T('neg', 'scale'), 'negative integer'), ('-1.0', 'minus one'), ('-0.5', 'minus a half')):
                        if ctx.tier == 'thorough' or (not vel and not pred) or sn == 'negative':
                            run(P_, f'{sn} scaling, {nm}', Doc(fr, sel, ff, scale=sc, vel=vel, pred=pred).lines, 307)
            for tail in ([''], ['', ''], ['   '], ['', '   ', '']):
                run(P_, f'{fr}{", selective" if sel else ""}, trailing blank lines {tail}', Doc(fr, sel, ff, scale=s, tail=tail).lines, None)
                for vel, pred in (('Direct', False), (None, True), ('Cartesian', True)):
                    run(P_, f'{fr}{", selective" if sel else ""}, {vel} velocities, predictors {pred}, trailing blank lines {tail}',
                        Doc(fr, sel, ff, scale=s, vel=vel, pred=pred, tail=tail).lines, None)
            w, u = T('word', 'w'), T('word', 'u')
            for a, an in (('Direct', 'Direct'), ('Cartesian', 'Cartesian'), ('', 'blank'), ('d', 'd'), (w, 'word')):
                for b, bn in ((w, 'word'), ([w, ' ', u], 'words'), ([w, ' ', f('x'), ' ', f('y')], 'word and numbers'), ('Selective', 'keyword')):
                    run(P_, f'{fr}{", selective" if sel else ""}, trailing block {an} then {bn}', Doc(fr, sel, ff, scale=s).lines + lines_of([a], b), 302)
    for sc, sn in (('0.0', 'zero'), ('1', 'one'), ('1.0', 'one'), (T('nat', 'n'), 'natural'), (['  ', T('posf', 'x'), '  '], 'padded')):
        d = Doc('Direct', scale=s)
        run(P_, f'{sn} scaling', d.lines[:1] + lines_of(sc) + d.lines[2:], None)
    # VASP 4: the counts take the place of the species
    n, m = T('nat', 'n'), T('nat', 'm')
    for parts, nm in ((['2', ' ', '1'], 'single blanks'), (['   2   1'], 'leading and several blanks'), (['3'], 'one count'), (['  3  '], 'padded count'), ([n, ' ', m], 'unknown counts'),
                      ([' ', n, '   ', m, '  '], 'unknown counts, several blanks'), ([n], 'one unknown count')):
        for fr in ('Direct', 'Cartesian'):
            d = Doc(fr, scale=s)
            run(P_, f'VASP 4, {fr}, {nm}', d.lines[:5] + lines_of(parts) + d.lines[7:], 301)
            d = Doc(fr, 'Selective', ff, scale=s)
            run(P_, f'VASP 4, selective {fr}, {nm}', d.lines[:5] + lines_of(parts) + d.lines[7:], 301)
    # KPOINTS
    K = 'Kpoints'
    for fr in ('Direct', 'direct', 'D', 'Reciprocal', 'rec', 'R', 'r'):
        for wt in (True, False):
            for te in (None, 'Tetrahedra', 't'):
                run(K, f'explicit {fr}, weights {wt}, tetra {te}', KDoc('explicit', fr, weights=wt, tetra=te).lines, None)
        run(K, f'line mode {fr}', KDoc('line', fr, n=4).lines, None)
    for fr in ('Cartesian', 'cartesian', 'cart', 'C', 'c', 'K', 'k', 'kart'):
        for wt in (True, False):
            run(K, f'explicit {fr}, weights {wt}', KDoc('explicit', fr, weights=wt).lines, 200)
        run(K, f'explicit {fr} with tetrahedra', KDoc('explicit', fr, tetra='Tetrahedra').lines, 200)
        run(K, f'line mode {fr}', KDoc('line', fr, n=4).lines, 200)
        run(K, f'line mode {fr}, l', KDoc('line', fr, n=2, center='l').lines, 200)
    for tail in ([''], ['', '']):
        run(K, f'explicit with blank lines {tail}', KDoc('explicit', tail=tail).lines, None)
        run(K, f'line mode with blank lines {tail}', KDoc('line', n=4, tail=tail).lines, None)
        run(K, f'automatic with blank lines {tail}', KDoc('automatic', tail=tail).lines, None)
    for c in ('Gamma', 'gamma', 'G', 'g', 'Monkhorst-Pack', 'monkhorst', 'M', 'm'):
        for sh in (True, False):
            run(K, f'automatic {c}, shifts {sh}', KDoc('automatic', center=c, shifts=sh).lines, None)
    for c in ('Reciprocal', 'r'):
        run(K, f'automatic {c}', KDoc('automatic', center=c).lines, None)
    for num in ('0', '-1', T('neg', 'num')):
        for c in ('Auto', 'auto', 'A', 'a', 'Automatic'):
            run(K, f'{c} with {show(num) if isinstance(num, Term) else num} points', lines_of(T('word', 'title'), num, c, [' ', T('nat', 'len')]), 202)
        for c in ('Direct', 'direct', 'D', 'd', 'Cartesian', 'cart', 'C', 'c'):
            run(K, f'expert mode {c} with {show(num) if isinstance(num, Term) else num} points', lines_of(T('word', 'title'), num, c, ln(vec('x')), ln(vec('y')), ln(vec('z')), ln(vec('s'))), 203)
    for nw in (1, 2, 3, 4, 6, 7):
        for te in ('Tetrahedra', 'tetra', 'T'):
            run(K, f'{te} lines of {nw} entries', KDoc('explicit', tetra=te, tetra_words=nw).lines, 201)
    d5, d4 = KDoc('explicit', tetra='Tetrahedra').lines, KDoc('explicit', tetra='Tetrahedra', tetra_words=4).lines
    run(K, 'second tetrahedron line short', d5[:-1] + d4[-1:], 201)
    run(K, 'first tetrahedron line short', d4[:-1] + d5[-1:], 201)
    for what, alias in EQUAL:
        run(K, f'explicit, {what} that are equal', KDoc('explicit', n=3, tetra='Tetrahedra', alias=alias).lines, None)
        run(K, f'line mode, {what} that are equal', KDoc('line', n=4, alias=alias).lines, None)
        run(K, f'automatic, {what} that are equal', KDoc('automatic', alias=alias).lines, None)
    ctx.floor = 500
