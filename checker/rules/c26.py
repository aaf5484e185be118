"""C26: every DOSCAR column is stored under its own orbital and spin component."""
from .poscardoc import T, f
from ..docrun import *
from ..docs import between

L1 = [['s', 'p', 'd'], ['s', 'p', 'd', 'f']]
P3, D5 = ['py', 'pz', 'px'], ['dxy', 'dyz', 'dz2', 'dxz', 'dx2-y2']
F7 = ['fy(3x2-y2)', 'fxyz', 'fyz2', 'fz3', 'fxz2', 'fz(x2-y2)', 'fx(x2-3y2)']
LM = [['s'] + P3 + D5, ['s'] + P3 + D5 + F7]
# (column count, non collinear) -> (orbitals in the order VASP prints them, components)
LAYOUTS = {(1 + len(o) * n, n == 4): (o, n) for o in L1 + LM for n in (1, 2, 4)}
TOTALS = {3: 1, 5: 2}


class DosDoc:
    def __init__(self, total=3, part=None, ions=1, n=2, coord='CAR', tail=(), name=None, ndos=None, first=None, later=None):
        p = lambda x: T('posf', x)
        self.name = name or T('word', 'system')
        self.emax, self.emin, self.ef, self.wt = f('emax'), T('negf', 'emin'), f('efermi'), p('weight')
        head = ['     ', self.emax, '     ', self.emin, '   ', str(n if ndos is None else ndos), '      ', self.ef, '      ', self.wt]
        if first:
            head = [first]
        self.num = [T('nat', f'num{i}') for i in range(4)]
        L = [[f'   {ions}   ', self.num[1], '   ', '1' if part else '0', '   ', self.num[3]], ['  ', p('v0'), '  ', p('v1'), '  ', p('v2'), '  ', p('v3'), '  ', p('v4')],
             ['  1.000000000000000E-004'], ['  ', coord], [' ', self.name] if isinstance(self.name, Term) else [' '] + list(self.name), head]
        self.tot = [[f(f'e{i}')] + [p(f't{i}_{c}') for c in range(1, total)] for i in range(n)]
        row = lambda r: ['    '] + sum(([x, '  '] for x in r), [])[:-1]
        L += [row(r) for r in self.tot]
        self.par = []
        if part:
            for a in range(ions):
                L.append([later] if a and later else head)
                blk = [[f(f'e{i}')] + [p(f'p{a}_{i}_{c}') for c in range(1, part)] for i in range(n)]
                self.par.append(blk)
                L += [row(r) for r in blk]
        L += [[t] for t in tail]
        self.lines = lines_of(*L)


def check(ctx):
    A = ctx.A
    ctx.rule('total', 'energy, total and integrated density of states come from their own columns, one per spin component')
    ctx.rule('partial', 'every orbital receives exactly its own consecutive columns after the energy')
    ctx.rule('order', 'the p orbitals are named in the order VASP prints them')
    ctx.rule('rejected', 'column counts without a layout are rejected')
    ctx.rule('metadata', 'the metadata come from their own header positions')
    ctx.floor = 150
    full = ctx.tier != 'quick'
    sizes = [(1, 1), (2, 3)] if not full else [(1, 1), (2, 3), (3, 2), (1, 4), (4, 1)]
    for total in TOTALS:
        for ions, n in sizes + [(1, 2)]:
            for how in ('path', 'handle'):
                for ncl in (False, True):
                    for part in (None, 10, 19, 37):
                        if part is not None and (part, ncl) not in LAYOUTS:
                            continue
                        d = DosDoc(total, part, ions, n)
                        nm = f'{total} columns, {part or "no partial"}{" columns" if part else ""}, {ions} ions, {n} energies, {"non-" if ncl else ""}collinear, {how}'
                        guard(ctx, 'total', nm, lambda: tot(ctx, nm, d, total, ncl, how))
    for (cols, ncl), (orbs, comps) in sorted(LAYOUTS.items()):
        for ions, n in sizes:
            for total in ((5,) if comps == 2 else (3,)):
                d = DosDoc(total, cols, ions, n)
                nm = f'{cols} columns, {"non-" if ncl else ""}collinear, {ions} ions, {n} energies'
                guard(ctx, 'partial', nm, lambda: part_(ctx, nm, d, cols, ncl, orbs, comps, (ions, n) == sizes[0]))
    # the header line repeated for later ions may be printed differently
    for cols in (4, 10, 19):
        orbs, comps = LAYOUTS[cols, False]
        d = DosDoc(5 if comps == 2 else 3, cols, 3, 2, later='   10.0  -10.0   2   0.5  0.9', first='   10.0  -10.0   2   0.5  1.0')
        nm = f'{cols} columns, header of later ions differs'
        guard(ctx, 'partial', nm, lambda: part_(ctx, nm, d, cols, False, orbs, comps, False))
    for ncl in (False, True):
        ok = {c for c, k in LAYOUTS if k == ncl}
        for cols in range(2, 68):
            if cols not in ok:
                nm = f'{cols} columns, {"non-" if ncl else ""}collinear'
                d = DosDoc(3, cols, 1, 1)
                guard(ctx, 'rejected', nm, lambda: rejected(ctx, nm, d, ncl))
    for total in (2, 4, 6, 7, 9):
        nm = f'{total} columns of the total density of states'
        guard(ctx, 'rejected', nm, lambda: rejected(ctx, nm, DosDoc(total, None, 1, 2), False))
    # no partial part
    for ncl in (False, True):
        for total in TOTALS:
            nm = f'no partial density of states, {total} columns, {"non-" if ncl else ""}collinear'
            d = DosDoc(total, None, 2, 2)
            guard(ctx, 'partial', nm, lambda: expect_value(ctx, 'partial', nm, query(A, 'Doscar', d.lines, meth(A, 'get_pdos'), non_collinear=ncl),
                                                           lambda v: True if v is arrays.nd() or v is mk('list') else None))
    for coord, cart in (('CAR', True), ('car', True), ('DIR', False), ('Cartesian', True), ('direct', False)):
        for part in (None, 10):
            for name in (None, [T('word', 'n1'), ' ', T('word', 'n2')], ['unknown system'], ['Si ', T('nat', 'n3')]):
                d = DosDoc(3, part, 2, 3, coord, name=name)
                nm = f'{coord}, name of {1 if name is None else len(name)} parts{", with partial" if part else ""}'
                sysname = d.name if isinstance(d.name, Term) else text(*d.name)
                e = {'n_ions': const(2), 'n_atoms': INT(d.num[1]), 'cartesian': const(cart), 'name': sysname, 'emax': FLT(d.emax), 'emin': FLT(d.emin), 'n_dos': const(3),
                     'efermi': FLT(d.ef), 'weight': FLT(d.wt)}
                guard(ctx, 'metadata', nm, lambda: expect_fields(ctx, 'metadata', nm, query(A, 'Doscar', d.lines, meth(A, 'get_metadata')), {(k,): v for k, v in e.items()}))


def fieldsof(v):
    if v.op != 'struct':
        return None
    return {cval(x.args[0]): x.args[1] for x in v.args[1:]}


def column(rows, c, k, comps):
    """k consecutive columns from c on, single ones as plain numbers"""
    def cell(r):
        return FLT(r[c]) if comps == 1 else nd(*(FLT(r[c + i]) for i in range(k)))
    return nd(*(cell(r) for r in rows))


def judged(ctx, rule, nm, outs, want, extra=None):
    """want: {field: value}"""
    E = verdict(outs)
    rets = returned(outs)
    if len(E) != 1 or not rets:
        return expect_value(ctx, rule, nm, outs, lambda v: None)
    for o in rets:
        got = fieldsof(o.val)
        if got is None:
            return ctx.undecided(rule, nm, 'no structured array found: ' + show(o.val)[:100])
        names = set(got) - {'energy'}
        if set(got) != set(want):
            ctx.viol(rule, nm, f'has the fields {list(got)}, expected {list(want)}')
            return
        for k, e in want.items():
            g = got[k]
            if g is e:
                ctx.ok(rule, f'{nm}: {k}')
            elif known(g) and known(e):
                ctx.viol(rule, f'{nm}: {k}', f'is {show(g)[:160]}, expected {show(e)[:160]}')
            else:
                ctx.undecided(rule, f'{nm}: {k}', show(g)[:100])


def tot(ctx, nm, d, total, ncl, how):
    comps = TOTALS[total]
    e = {'energy': column(d.tot, 0, 1, 1), 'total': column(d.tot, 1, comps, comps), 'integrated': column(d.tot, 1 + comps, comps, comps)}
    judged(ctx, 'total', nm, query(ctx.A, 'Doscar', d.lines, meth(ctx.A, 'get_dos'), how=how, non_collinear=ncl), e)


def part_(ctx, nm, d, cols, ncl, orbs, comps, first):
    outs = query(ctx.A, 'Doscar', d.lines, meth(ctx.A, 'get_pdos'), non_collinear=ncl)
    e = {'energy': nd(*(column(b, 0, 1, 1) for b in d.par))}
    for i, o in enumerate(orbs):
        e[o] = nd(*(column(b, 1 + i * comps, comps, comps) for b in d.par))
    # the order of the p orbitals is an obligation of its own
    if 'px' in e:
        got = [fieldsof(o.val) for o in returned(outs)]
        if got and all(g and 'px' in g and 'pz' in g for g in got):
            swapped = all(g['px'] is e['pz'] and g['pz'] is e['px'] for g in got)
            if first:
                con = f'{cols} columns, {"non-" if ncl else ""}collinear: px and pz'
                if swapped:
                    ctx.viol('order', con, 'px holds the columns of pz and pz those of px; VASP prints s, py, pz, px')
                elif all(g['px'] is e['px'] and g['pz'] is e['pz'] for g in got):
                    ctx.ok('order', con)
                else:
                    ctx.undecided('order', con)
            if swapped:
                e['px'], e['pz'] = e['pz'], e['px']
    judged(ctx, 'partial', nm, outs, e)


def rejected(ctx, nm, d, ncl):
    outs = query(ctx.A, 'Doscar', d.lines, lambda st, o: NONE, non_collinear=ncl)
    E = verdict(outs)
    if E and all(k != 'ret' for k, _ in E):
        ctx.ok('rejected', nm)
    elif E and all(k == 'ret' for k, _ in E):
        ctx.viol('rejected', nm, 'an object is returned for a column count without a layout')
    else:
        ctx.undecided('rejected', nm, str(sorted(map(str, E))))
