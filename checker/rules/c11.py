"""C11: POSCAR coordinates carry one consistent frame end to end."""
from .poscardoc import *


def check(ctx):
    A = ctx.A
    ctx.rule('stored', 'positions and velocities read are the direct coordinates of their own fields: one inverse-cell conversion for Cartesian input, none for direct input; '
                       'the scaling factor multiplies cell and Cartesian positions only')
    ctx.rule('returned', 'get_dict and the writer give the stored direct coordinates, or one conversion with the cell on request, with the flag and header of that frame')
    s = T('posf', 'scale')
    FR = ('Direct', 'direct', 'D', 'Cartesian', 'cart', 'K', 'kartesisch') if ctx.tier == 'quick' else \
        ('Direct', 'direct', 'D', 'd', 'Cartesian', 'cartesian', 'cart', 'C', 'c', 'K', 'k', 'kartesisch')
    ff = (('T', 'F', 'T'), ('T', 'T', 'T'), ('F', 'F', 'F'))
    docs_ = []
    for fr in FR:
        for sel in (None, 'Selective dynamics'):
            docs_.append((f'{fr}{", selective" if sel else ""}', Doc(fr, sel, ff, scale=s)))
    docs_.append(('Direct, s', Doc('Direct', 's', ff, scale=s)))
    docs_.append(('Cartesian, literal scale', Doc('Cartesian', scale='2.5')))
    docs_.append(('Direct, literal scale', Doc('Direct', scale='2.5')))
    for fr in ('Direct', 'Cartesian'):
        for vf in ('Direct', 'Cartesian', 'c', 'd'):
            docs_.append((f'{fr} with {vf} velocities', Doc(fr, scale=s, vel=vf)))
            docs_.append((f'{fr} with {vf} velocities and predictors', Doc(fr, 'Selective', ff, scale=s, vel=vf, pred=True)))
        docs_.append((f'{fr} with predictors', Doc(fr, scale=s, pred=True)))
    equal = [('positions', (r'^p\d_', 'p_')), ('coordinates', (r'^([pv]\d)_\d', r'\1_')), ('velocities', (r'^[vr]\d_\d', 'v')), ('cell parameters', (r'^[abc]\d', 'a')), ('positions and velocities', (r'^[pvr]', 'p'))]
    for what, alias in equal:
        for fr in ('Direct', 'Cartesian'):
            docs_.append((f'{fr} with {what} that are equal', Doc(fr, 'Selective', ff, scale=s, vel=fr, pred=True, alias=alias)))
    docs_.append(('Cartesian, many sites', Doc('Cartesian', scale=s, vel='Cartesian', pred=True, species=(('A', 9), ('B', 1), ('C', 2)))))
    for nm, d in docs_:
        for how in ('path', 'string') if ctx.tier == 'quick' else ('path', 'handle', 'string'):
            con = f'{how}: {nm}'
            guard(ctx, 'stored', con, lambda: expect_fields(ctx, 'stored', con, query(A, 'Poscar', d.lines, meth(A, 'get_dict'), how),
                                                            d.want(fields=('position', 'velocities', 'predictors', 'direct'))))
            ctx.count('documents')
        con = f'get_dict(direct=False): {nm}'
        guard(ctx, 'returned', con, lambda: expect_fields(ctx, 'returned', con, query(A, 'Poscar', d.lines, meth(A, 'get_dict', direct=False)),
                                                          d.want(False, fields=('position', 'velocities', 'predictors', 'direct'))))
        for wd in (True, False):
            con = f'write_direct={wd}: {nm}'
            guard(ctx, 'returned', con, lambda: written(ctx, A, con, query(A, 'Poscar', d.lines, meth(A, 'get_string'), write_direct=wd), wd,
                                                        [(d.posval(i), d.velval(i), d.predval(i)) for i in range(len(d.names))], d.cellval(), bool(d.selective)))
    # dictionaries with plain sites and with Site objects
    names = [T('word', 'A'), T('word', 'A'), T('word', 'B')]
    for style in ('site', 'dict'):
        for direct in (True, False, (True, False, True), (False, True, False)):
            for vel, pred in ((False, False), (True, False), (True, True)):
                nm = f'{style}s direct={direct}{" velocities" if vel else ""}{" predictors" if pred else ""}'
                m = poscar_dict(A, names, style, direct, vel, pred)
                w = {('unitcell',): m.cell}
                wc = dict(w)
                for i in range(3):
                    w.update({('sites', i, 'position'): m.pos[i], ('sites', i, 'velocities'): m.vel[i], ('sites', i, 'predictors'): m.pred[i], ('sites', i, 'direct'): TRUE})
                    wc.update({('sites', i, 'position'): m.cart(m.pos[i]), ('sites', i, 'velocities'): m.cart(m.vel[i]), ('sites', i, 'predictors'): m.pred[i], ('sites', i, 'direct'): FALSE})
                guard(ctx, 'stored', nm, lambda: expect_fields(ctx, 'stored', 'dict: ' + nm, query(A, 'Poscar', None, meth(A, 'get_dict'), 'none', _dict=m.build), w))
                guard(ctx, 'returned', nm, lambda: expect_fields(ctx, 'returned', 'get_dict(direct=False): ' + nm, query(A, 'Poscar', None, meth(A, 'get_dict', direct=False), 'none', _dict=m.build), wc))
                for wd in (True, False):
                    con = f'write_direct={wd}: {nm}'
                    guard(ctx, 'returned', con, lambda: written(ctx, A, con, query(A, 'Poscar', None, meth(A, 'get_string'), 'none', _dict=m.build, write_direct=wd), wd,
                                                                list(zip(m.pos, m.vel, m.pred)), m.cell, False))
                ctx.count('dictionaries')

    for what, alias in equal:
        for direct in (True, False, (True, False, True)):
            m = poscar_dict(A, names, 'site', direct, True, True, alias=alias)
            nm = f'{what} that are equal, direct={direct}'
            w = {('unitcell',): m.cell}
            for i in range(3):
                w.update({('sites', i, 'position'): m.pos[i], ('sites', i, 'velocities'): m.vel[i], ('sites', i, 'predictors'): m.pred[i], ('sites', i, 'direct'): TRUE})
            guard(ctx, 'stored', nm, lambda: expect_fields(ctx, 'stored', 'dict: ' + nm, query(A, 'Poscar', None, meth(A, 'get_dict'), 'none', _dict=m.build), w))

    # a second read does not convert again
    def twice(st, o):
        A.call_method(st, o, 'get_dict', [], {'direct': FALSE}, None)
        A.call_method(st, o, 'get_string', [], {}, None)
        return A.call_method(st, o, 'get_dict', [], {}, None)
    for fr in ('Direct', 'Cartesian'):
        d = Doc(fr, scale=s, vel=fr, pred=True)
        for wd in (True, False):
            con = f'after reading and writing, write_direct={wd}: {fr}'
            guard(ctx, 'returned', con, lambda: expect_fields(ctx, 'returned', con, query(A, 'Poscar', d.lines, twice, write_direct=wd), d.want(fields=('position', 'velocities', 'predictors', 'direct'))))
    ctx.floor = 400


@percase
def written(ctx, A, con, outs, wd, vals, cell, selective):
    """header words and the coordinate rows; the order of the sites is free but common to all blocks"""
    E = verdict(outs)
    if len(E) != 1 or not returned(outs):
        return expect_value(ctx, 'returned', con, outs, lambda v: None)
    c = (lambda v: v) if wd else (lambda v: arrays.dot(v, cell))
    head = 'Direct' if wd else 'Cartesian'
    n = len(vals)
    blocks = [('position', 8 if selective else 7, [c(p) for p, v, r in vals])]
    at = blocks[0][1] + 1 + n
    if vals[0][1] is not NONE:
        blocks.append(('velocity', at, [c(v) for p, v, r in vals]))
        at += 1 + n
    if vals[0][2] is not NONE:
        blocks.append(('predictor', at, [r for p, v, r in vals]))
        at += 1 + n
    for o in returned(outs):
        lines, rest = out_words(o.val)
        if len(lines) != at:
            # the layout as such is C12's matter
            return ctx.undecided('returned', con, f'{len(lines)} lines')
        fits = [set(range(n)) for _ in range(n)]
        for what, start, rows in blocks:
            if what != 'predictor' and any(word_is(w, x) is not True for w, x in zip(lines[start], [head])):
                return ctx.viol('returned', con, f'{what} header is {fmtline(lines[start])!r}, expected {head!r}')
            for j in range(n):
                l = lines[start + 1 + j]
                if len(l) < 3 or any(hidden(p) for w in l[:3] for p in w):
                    return ctx.undecided('returned', con, f'{what} line not recognised')
                fit = [all3(word_is(w, x) for w, x in zip(l, e.args)) if e.op == 'nd' and len(e.args) == 3 else False for e in rows]
                hit = {i for i, r in enumerate(fit) if r is True}
                if not hit and None in fit:
                    return ctx.undecided('returned', con, f'{what} line not recognised')
                if not hit:
                    return ctx.viol('returned', con, f'{what} line {fmtline(l)[:250]!r} is the {what} of no site in the {head.lower()} frame')
                if not hit & fits[j]:
                    return ctx.viol('returned', con, f'{what} line {j + 1} is that of site {sorted(hit)}, the lines before it are those of site {sorted(fits[j])}')
                fits[j] &= hit
        if matching(fits) is None:
            return ctx.viol('returned', con, f'the lines are those of sites {[sorted(x) for x in fits]}, not each site once')
    ctx.ok('returned', con)
