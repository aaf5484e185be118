"""C21: accessors of absent vasprun.xml sections return None and never raise."""
from .vaspxml import *

ALL = ('partial', 'projected', 'dynmat', 'born', 'dielectric', 'epsilon', 'epsilon_ion', 'dos_specific', 'eig_specific', 'decoys')

# accessor -> what its section is called in the documents
ACC = [('get_forces', ('initial',), 'forces'), ('get_forces', ('last',), 'forces'), ('get_forces', ('all',), 'forces'),
       ('get_stress', ('initial',), 'stress'), ('get_stress', ('last',), 'stress'), ('get_stress', ('all',), 'stress'),
       ('get_unitcell', ('last',), 'structure'), ('get_unitcell', ('all',), 'structure'), ('get_positions', ('initial',), 'structure'), ('get_positions', ('all',), 'structure'),
       ('get_energies', ('last',), 'energy'), ('get_energies', ('all',), 'energy'), ('get_hessian', (), 'dynmat'), ('get_dynmat', (), 'dynmat'),
       ('get_dielectrics', (), ('dielectric', 'epsilon', 'epsilon_ion')), ('get_epsilon', (), 'epsilon'), ('get_epsilon_ion', (), 'epsilon_ion'),
       ('get_fermi_level', (), ('dos', 'efermi')), ('get_fermi_level_specific', (), ('dos_specific', 'efermi')), ('get_born', (), 'born'), ('get_species', (), 'atominfo'),
       ('get_kpoints', (), 'kpointlist'), ('get_kpointsw', (), 'kpointlist'), ('get_dos', (), 'dos'), ('get_dos_specific', (), 'dos_specific'),
       ('get_eigenvalues', (), 'eigenvalues'), ('get_occupancies', (), 'eigenvalues'), ('get_eigenvalues_specific', (), 'eig_specific'),
       ('get_eigenvelocities', (), 'velocities'), ('get_kpoints_specific', (), ('eig_specific', 'velocities')), ('get_kpointsw_specific', (), ('eig_specific', 'velocities')),
       ('get_projectors', (), 'projected'), ('get_version', (), ('generator', 'version')), ('get_parameters', (), None), ('get_dict', (), None)]


def sections(v):
    """names of the sections of the document that are present"""
    p = set(v.with_)
    for x in ('forces', 'stress', 'structure', 'energy', 'dos', 'eigenvalues', 'atominfo'):
        if v.has(x) and v.steps:
            p.add(x)
    if v.has('atominfo'):
        p.add('atominfo')
    if v.has('kpoints') and v.has('kpointlist'):
        p.add('kpointlist')
    for x in ('generator', 'version', 'efermi'):
        if v.has(x):
            p.add(x)
    return p


def absent(v, sec, ex=True):
    """the section (all of them for alternatives, any of them for nested ones) is absent"""
    p = sections(v)
    if sec is None:
        return False
    if sec == 'structure' and not ex and (v.has('initialpos') or v.has('finalpos')):
        return False        # the structures outside the calculations serve as first and last
    if sec == 'eigenvalues' and 'projected' in p:
        return False        # the projected section repeats them
    if isinstance(sec, str):
        return sec not in p
    if sec[-1] in ('efermi', 'version'):
        return any(x not in p for x in sec)
    return all(x not in p for x in sec)


def check(ctx):
    A = ctx.A
    ctx.rule('absent', 'the accessor of a section that is not in the file returns None')
    ctx.rule('never raises', 'no accessor raises or ends the program for want of a section')
    full = ctx.tier != 'quick'
    base = dict(species=('Si', 'O'), nk=2, nb=2, ndos=2, steps=(1, 1))
    cases = [('no calculation', dict(steps=())), ('nothing but the root', dict(steps=(), omit=('generator', 'incar', 'kpoints', 'parameters', 'atominfo', 'initialpos', 'finalpos'))),
             ('only the generator', dict(steps=(), omit=('incar', 'kpoints', 'parameters', 'atominfo', 'initialpos', 'finalpos'))),
             ('bare', dict()), ('all sections', dict(with_=ALL)), ('all sections, velocities', dict(with_=tuple(x for x in ALL if x != 'eig_specific') + ('velocities',), spin=2))]
    # sections that others rely on come with them
    single = ('generator', 'version', 'incar', 'divisions', 'dos', 'efermi', 'eigenvalues', 'forces', 'stress', 'initialpos', 'finalpos', 'structure', 'energy', 'kpointlist', 'kpoints',
              'parameters', 'atominfo', 'NELM', 'SYMPREC', 'SYSTEM', 'NBANDS', 'ISPIN', 'NSW', 'NELECT', 'SIGMA', 'ISMEAR', 'e_fr_energy')
    for x in single:
        kw = dict(omit=(x,))
        if x == 'energy':
            kw = dict(omit=(x,), steps=(0, 0))
        cases.append((f'without {x}', dict(kw, with_=())))
        cases.append((f'all but {x}', dict(kw, with_=ALL)))
    for x in ALL:
        cases.append((f'all but {x}', dict(with_=tuple(y for y in ALL if y != x))))
        cases.append((f'only {x}', dict(with_=(x,))))
    if full:
        for i, x in enumerate(single):
            for y in single[i + 1:]:
                if x in ('energy', 'e_fr_energy') or y in ('energy', 'e_fr_energy'):
                    continue
                cases.append((f'without {x} and {y}', dict(omit=(x, y))))
    for name, kw in cases:
        v = V(**{**base, **kw})
        for event in (False, True):
            for ex in (True, False):
                con = f'{"event driven" if event else "regular"}, {name}{"" if ex else ", extract_all off"}'
                if not ex and (event or not full and name.startswith('only')):
                    continue
                guard(ctx, 'absent', con, lambda: one(ctx, A, v, event, ex, con))
    # any single place of the complete file left out: nothing raises, and an accessor all of whose fields are gone returns None
    for base_name, kw in [('', dict(with_=ALL)), (', velocities, two spins', dict(with_=tuple(x for x in ALL if x != 'eig_specific') + ('velocities',), spin=2))]:
        for event in (False, True):
            nm = 'event driven' if event else 'regular'
            whole = guard(ctx, 'absent', f'{nm}, complete file{base_name}', lambda: values(A, V(**{**base, **kw}), event), always=True)
            if not whole:
                continue
            need = [toks(x) for x in whole]
            used = set().union(*need)
            v = V(**{**base, **kw})
            for p in v.places():
                last = p.rsplit('/', 1)[-1]
                if last.split(' ')[0] in ('set[kpoint', 'set[ion', 'set[band'):
                    continue
                gone = v.fields() - V(**{**base, **kw, 'drop': p}).fields()
                if gone and not gone & used or not full and base_name and 'velocities' not in p and 'spin' not in p:
                    continue
                guard(ctx, 'absent', f'{nm}, without {p[9:]}{base_name}', lambda: dropped(ctx, A, V(**{**base, **kw, 'drop': p}), event, need, f'{nm}, without {p[9:]}{base_name}'))


def values(A, v, event):
    """values of all accessors of the complete document"""
    r = returned(accessors(A, v, event, True))
    return r[0].val.args if len(r) == 1 else None


def accessors(A, v, event, ex):
    def fn(st, o):
        return mk('list', *[A.try_call(st, lambda s: A.call_method(s, o, m, [const(x) for x in a], {}, None)) for m, a, sec in ACC])
    return xquery(A, v.doc(), fn, event=event, extract_all=ex)


def dropped(ctx, A, v, event, need, con):
    left(ctx, con, accessors(A, v, event, True), need, v.fields())


@percase
def left(ctx, con, outs, need, fields):
    E = verdict(outs)
    rets = returned(outs)
    if len(E) == 1 and not rets:
        k, x = next(iter(E))
        if k == 'exit' and x in (501, 502, 503, 504, 505):
            return ctx.ok('never raises', con + ': parsing')
        return ctx.viol('never raises', con + ': parsing', f'ends with {", ".join(sorted(map(str, E)))}', where=site(outs[0]))
    if len(E) != 1 or not rets:
        return expect_value(ctx, 'absent', con, outs, lambda v: None)
    for i, (m, a, sec) in enumerate(ACC):
        c = f'{con}: {m}({", ".join(a)})'
        for o in rets:
            r = o.val.args[i]
            if r.op == 'raised':
                ctx.viol('never raises', c, f'raises {show(r.args[0])}')
            elif r.op != 'mayraise' and need[i] and not need[i] & fields and r is not NONE and known(r):
                ctx.viol('absent', c, f'returns {show(r)[:200]}, expected None')
            else:
                continue
            break
        else:
            ctx.ok('never raises', c)


NEEDS = {'eigenvalues': ('kpointlist', 'NBANDS', 'ISPIN'), 'projected': ('kpointlist', 'NBANDS', 'ISPIN', 'atominfo'), 'eig_specific': ('NBANDS', 'ISPIN'),
         'velocities': ('NBANDS', 'ISPIN')}


def one(ctx, A, v, event, ex, con):
    # sections whose shape another section defines cannot be read without it: the documented exits of those are accepted
    finish(ctx, con, accessors(A, v, event, ex), v, ex)


@percase
def finish(ctx, con, outs, v, ex):
    E = verdict(outs)
    rets = returned(outs)
    if len(E) == 1 and not rets:
        lack = [s for s, n in NEEDS.items() if s in sections(v) and any(not v.has(x) or x == 'kpointlist' and not v.has('kpoints') or x in ('NBANDS', 'ISPIN') and not v.has('parameters')
                                                                         for x in n)]
        if 'partial' in v.with_ and not v.has('atominfo'):
            lack.append('partial')
        if 'dynmat' in v.with_ and not v.has('atominfo') or 'born' in v.with_ and not v.has('atominfo'):
            lack.append('dynmat')
        k, x = next(iter(E))
        if lack and k == 'exit' and x in (501, 502, 503, 504):
            return ctx.ok('never raises', con + ': parsing')
        return ctx.viol('never raises', con + ': parsing', f'ends with {", ".join(sorted(map(str, E)))}', where=site(outs[0]))
    if len(E) != 1 or not rets:
        return expect_value(ctx, 'absent', con, outs, lambda v: None)
    for i, (m, a, sec) in enumerate(ACC):
        c = f'{con}: {m}({", ".join(a)})'
        for o in rets:
            r = o.val.args[i]
            if r.op == 'raised':
                ctx.viol('never raises', c, f'raises {show(r.args[0])}')
                break
            if r.op == 'tuple':
                ctx.viol('absent', c, f'returns {show(r)[:200]}')
                break
            if absent(v, sec, ex):
                if r is NONE:
                    ctx.ok('absent', c)
                elif known(r):
                    ctx.viol('absent', c, f'returns {show(r)[:200]}, expected None')
                else:
                    ctx.undecided('absent', c, show(r)[:100])
        else:
            ctx.ok('never raises', c)
