"""C18: axes, spin channels and columns of band data, projectors and densities of states."""
from .vaspxml import *


def check(ctx):
    A = ctx.A
    ctx.rule('bands', 'eigenvalues (first column), occupancies (second column), eigenvelocities (all columns) are [band][k-point], or [k-point][band] with k_before_band, per spin channel')
    ctx.rule('projectors', 'projectors are [ion][band][k-point][orbital], or [ion][k-point][band][orbital]')
    ctx.rule('dos', 'column 0 is the energy, 1 the total, 2 the integrated density; the orbital columns from 1 on are split per ion')
    full = ctx.tier != 'quick'
    sizes = [(2, 3, 2), (1, 2, 1), (3, 1, 2)] + ([(3, 3, 3), (1, 1, 1), (2, 4, 1), (4, 2, 3), (1, 3, 4)] if full else [])
    for nk, nb, na in sizes:
        for spin in (1, 2):
            for cols in (2, 1, 3) if full else ((2, 1) if nk == 2 else (2,)):
                for kb in (False, True):
                    for event in (False, True):
                        v = V(species=('Si', 'O', 'Ga', 'H')[:na], nk=nk, nb=nb, spin=spin, cols=cols, steps=(1,), with_=('projected', 'eig_specific'), ndos=2)
                        con = f'{"event driven" if event else "regular"}, {nk} k-points, {nb} bands, {na} ions, {"one spin" if spin == 1 else "two spins"}, {cols} columns{", k_before_band" if kb else ""}'
                        guard(ctx, 'bands', con, lambda: bands(ctx, A, v, kb, event, con))
    for what, alias in (('spins that are equal', (r'_s1(?=_|$)', '_s0')), ('rows that are equal', (r'_\d+_(\d+)$', r'_0_\1')), ('k-points that are equal', (r'_k\d+(?=_)', '_k0')),
                        ('columns that are equal', (r'_(\d+)_\d+$', r'_\1_0'))):
        for event in (False, True):
            v = V(species=('Si', 'O'), nk=2, nb=3, spin=2, cols=2, steps=(1,), with_=('projected', 'eig_specific', 'partial', 'dos_specific'), ndos=2, alias=alias)
            con = f'{"event driven" if event else "regular"}, {what}'
            guard(ctx, 'bands', con, lambda: bands(ctx, A, v, False, event, con))
            guard(ctx, 'dos', con, lambda: dos(ctx, A, v, event, con))
    for nd_, na in [(2, 2), (3, 1)] + ([(1, 3), (2, 4)] if full else []):
        for spin in (1, 2):
            for part in (False, True):
                for event in (False, True):
                    v = V(species=('Si', 'O', 'Ga', 'H')[:na], nk=1, nb=1, spin=spin, steps=(1,), ndos=nd_, with_=('dos_specific',) + (('partial',) if part else ()))
                    con = f'{"event driven" if event else "regular"}, {nd_} energies, {na} ions, {"one spin" if spin == 1 else "two spins"}{", partial" if part else ""}'
                    guard(ctx, 'dos', con, lambda: dos(ctx, A, v, event, con))


def bands(ctx, A, v, kb, event, con):
    ch = v.channels
    wants = [ch(lambda s: v.band_array('eig', 0, s, kb)), ch(lambda s: v.band_array('eig', 1, s, kb)) if v.cols > 1 else NONE,
             ch(lambda s: v.band_array('eigsp', 0, s, kb, 2))]
    calls = ['get_eigenvalues', 'get_occupancies', 'get_eigenvalues_specific']
    outs = xitems(A, v.doc(), [(c, [], {}) for c in calls + ['get_projectors']], event=event, k_before_band=kb)
    expect_items(ctx, 'bands', con, outs, calls + ['get_projectors'], wants + [ch(lambda s: v.projectors(s, kb))])
    w = V(alias=v.alias, species=v.species, nk=v.nk, nb=v.nb, spin=v.spin, cols=v.cols, steps=(1,), with_=('velocities',), ndos=1)
    outs = xitems(A, w.doc(), [('get_eigenvelocities', [], {})], event=event, k_before_band=kb)
    expect_items(ctx, 'bands', con, outs, ['get_eigenvelocities'], [ch(lambda s: w.band_array('vel', None, s, kb, 2))])


def dos(ctx, A, v, event, con):
    outs = xitems(A, v.doc(), [('get_dos', [], {}), ('get_dos_specific', [], {}), ('get_fermi_level', [], {}), ('get_fermi_level_specific', [], {})], event=event)
    expect_items(ctx, 'dos', con, outs, ['get_dos', 'get_dos_specific', 'get_fermi_level', 'get_fermi_level_specific'],
                 [v.dos_value('dos'), v.dos_value('dossp'), FLT(T('dec', 'dos_efermi')), FLT(T('dec', 'dossp_efermi'))])
