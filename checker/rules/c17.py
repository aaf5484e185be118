"""C17: of forces, stress, unit cell, positions and energies the requested ionic step is the one returned."""
from .vaspxml import *

ETYPES = {'energy_extrapolated': 'e_0_energy', 'energy_free': 'e_fr_energy', 'energy_no_entropy': 'e_wo_entrp'}
STATUS = ('initial', 'last', 'all')


def check(ctx):
    A = ctx.A
    ctx.rule('step', 'initial is the first, last the highest and all every ionic step of the file, for both ways of parsing')
    ctx.rule('energies', 'energies are concatenated in step order with their step counts, final energies are those outside the electronic cycle, nosc keeps the last electronic step')
    ctx.rule('status', 'any other status ends with code 507')
    ctx.rule('absent', 'None is returned when the section is absent')
    full = ctx.tier != 'quick'
    steps = [(1,), (2, 1), (1, 3, 2), (1, 1, 1, 2)] + ([(3,), (4, 1, 2, 2, 1), (1,) * 11] if full else [(1,) * 11])
    species = [('Si',), ('Si', 'O'), ('Si', 'Si', 'Si', 'O')] + ([('Si', 'O', 'O'), ('H',) * 7] if full else [])

    for sp in species:
        for steps_ in steps:
            if len(steps_) > 4 and len(sp) != 2:
                continue
            v = V(species=sp, steps=steps_, nk=1, nb=1, ndos=1)
            n = len(steps_)
            for event in (False, True):
                for ex in (True, False):
                    con = f'{"event driven" if event else "regular"}, {len(sp)} atoms, {n} ionic steps{"" if ex else ", extract_all off"}'
                    guard(ctx, 'step', con, lambda: steps_case(ctx, A, v, n, event, ex, con))
                con = f'{"event driven" if event else "regular"}, electronic steps {steps_}'
                if sp == species[0] or full or len(steps_) == 3:
                    guard(ctx, 'energies', con, lambda: energy_case(ctx, A, v, n, event, con))
    # steps that repeat each other, as in a run at a fixed geometry
    for what, alias in (('steps that are equal', (r'^c\d+_', 'c_')), ('geometries that are equal', (r'^(c\d+|ini|fin)_(basis|pos)', r'g_\2')), ('energies that are equal', (r'^c\d+_(sc\d+|fin)', 'e')),
                        ('rows that are equal', (r'_\d+_(\d+)$', r'_0_\1')), ('columns that are equal', (r'_(\d+)_\d+$', r'_\1_0'))):
        for steps_ in ((2, 1, 2), (1, 3)) + (((1,) * 11,) if full else ()):
            v = V(species=('Si', 'O'), steps=steps_, nk=1, nb=1, ndos=1, alias=alias)
            for event in (False, True):
                con = f'{"event driven" if event else "regular"}, {len(steps_)} ionic steps, {what}'
                guard(ctx, 'step', con, lambda: steps_case(ctx, A, v, len(steps_), event, True, con))
                guard(ctx, 'energies', con, lambda: energy_case(ctx, A, v, len(steps_), event, con))
    v = V(steps=(2, 1), nk=1, nb=1, ndos=1)
    for meth_ in ('get_forces', 'get_stress', 'get_unitcell', 'get_positions', 'get_energies', 'get_lattice'):
        for bad in ('final', 'first', '', 'ALL', 'Last', 1):
            con = f'{meth_}({bad!r})'
            guard(ctx, 'status', con, lambda: expect_end(ctx, 'status', con, xitems(A, v.doc(), [(meth_, [bad], {})]), ('exit', 507)))
    for sec, m in (('forces', 'get_forces'), ('stress', 'get_stress'), ('energy', 'get_energies'), ('structure', 'get_unitcell'), ('structure', 'get_positions')):
        w = V(steps=(2, 1), nk=1, nb=1, ndos=1, omit=(sec,)) if sec != 'energy' else V(steps=(0, 0), nk=1, nb=1, ndos=1, omit=(sec,))
        for event in (False, True):
            con = f'{m} without {sec}, {"event driven" if event else "regular"}'
            guard(ctx, 'absent', con, lambda: expect_items(ctx, 'absent', con, xitems(A, w.doc(), [(m, [s], {}) for s in STATUS], event=event), STATUS, [NONE] * 3))


def steps_case(ctx, A, v, n, event, ex, con):
    src = {'get_forces': lambda c: v.exp[c, 'forces'].val(), 'get_stress': lambda c: v.exp[c, 'stress'].val(),
           'get_unitcell': lambda c: v.exp[f'c{c}', 'basis'].val(), 'get_positions': lambda c: v.exp[f'c{c}', 'positions'].val()}
    tags = {'get_unitcell': 'basis', 'get_positions': 'positions'}
    calls, names, wants = [], [], []
    for m, f in src.items():
        for s in STATUS:
            calls.append((m, [s], {}))
            names.append(f'{m}({s})')
            a, b = f(1), f(n)
            every = {c: f(c) for c in range(1, n + 1)}
            if not ex and m in tags:
                # without extract_all the structures at both ends of the file may be taken instead
                a = (a, v.exp['ini', tags[m]].val())
                b = (b, v.exp['fin', tags[m]].val())
            alts = lambda x: x if isinstance(x, tuple) else (x,)
            pairs = [{1: x, 2: y} for x in alts(a) for y in alts(b)]
            allw = (every, *pairs) if not ex or n == 1 else (every,)
            wants.append({'initial': a, 'last': b, 'all': allw}[s])
    if ex:
        for s in STATUS:
            calls.append(('get_lattice', [s], {}))
            names.append(f'get_lattice({s})')
            g, h = src['get_unitcell'], src['get_positions']
            sel = {'initial': lambda f: f(1), 'last': lambda f: f(n), 'all': lambda f: {c: f(c) for c in range(1, n + 1)}}[s]
            w = {'unitcell': sel(g), 'positions': sel(h), 'species': ND([const(SYM[x]) for x in v.species])}
            if s == 'all' and n == 1:
                w = (w, {'unitcell': {1: g(1), 2: g(1)}, 'positions': {1: h(1), 2: h(1)}, 'species': w['species']})
            wants.append(w)
    expect_items(ctx, 'step', con, xitems(A, v.doc(), calls, event=event, extract_all=ex), names, wants)


def energies_of(v, status, etypes, nosc):
    cs = list(v.calcs())
    cs = {'initial': cs[:1], 'last': cs[-1:], 'all': cs}[status]
    d = {}
    for e in etypes:
        k = ETYPES[e]
        d[e + '_final'] = ND([FLT(v.T('dec', f'c{c}_fin_{k}')) for c in cs])
        d[e] = ND([FLT(v.T('dec', f'c{c}_sc{j}_{k}')) for c in cs for j in range(v.steps[c - 1])[-1 if nosc else 0:]])
    d['electronic_steps'] = ND([const(1 if nosc else v.steps[c - 1]) for c in cs])
    return d


def energy_case(ctx, A, v, n, event, con):
    calls, names, wants = [], [], []
    for s in STATUS:
        for et in (None, ['energy_free'], ['energy_no_entropy'], ['energy_no_entropy', 'energy_extrapolated', 'energy_free']):
            for nosc in (True, False):
                calls.append(('get_energies', [s], {'nosc': nosc, **({'etype': et} if et else {})}))
                names.append(f'get_energies({s}, {et}, nosc={nosc})')
                wants.append(energies_of(v, s, et or ['energy_extrapolated'], nosc))
    expect_items(ctx, 'energies', con, xitems(A, v.doc(), calls, event=event), names, wants)
