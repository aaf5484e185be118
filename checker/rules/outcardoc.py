"""OUTCAR documents and the values they stand for."""
from .poscardoc import T, f
from ..docrun import *

RULE = ' --------------------------------------------------------------------------------'
DIRS = ['XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX']
HEADS = {'non_symmetrized': '  ELASTIC MODULI  (kBar)', 'symmetrized': '  SYMMETRIZED ELASTIC MODULI (kBar)', 'contr': ' ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)',
         'total': ' TOTAL ELASTIC MODULI (kBar)'}


def params(nelm=None, nsw=None, ibrion=None, nbands='8', gap='      '):
    L = []
    if nbands is not None:
        L.append(['   k-points           NKPTS =    128   k-points in BZ     NKDIM =    128   number of bands    NBANDS=' + gap, nbands])
    if nelm is not None:
        L += [['   NELM   =    ', nelm, ';   NELMIN=  2; NELMDL=  -5     # of ELM steps']]
    if nsw is not None:
        L += [['   NSW    =     ', nsw, '    number of steps for IOM'], ['   NBLOCK =      1;   KBLOCK =     30    inner block; outer block']]
    if ibrion is not None:
        L += [['   IBRION =      ', ibrion, '    ionic relax: 0-MD 1-quasi-New 2-CG']]
    return L + [['   NFREE  =      0    steps in history (QN), initial steepest desc. (CG)'], ['']]


def iteration(i, j):
    return [['-' * 39 + f' Iteration {i:6d}({j:4d})  ' + '-' * 39], [''], ['    POTLOK:  cpu time    0.0155: real time    0.0155'], ['']]


def iterations(counts, start=1):
    L = []
    for i, n in enumerate(counts):
        for j in range(1, n + 1):
            L += iteration(i + start, j)
    return L


def timing(*extra):
    return [[' General timing and accounting informations for this job:'], [' ' + '=' * 56], [''], *extra, ['']]


def analysis(kind, n, cell='Original cell was already a primitive cell.', group='face centered cubic supercell.'):
    head = {'static': 'Analysis of symmetry for initial positions (statically):', 'dynamic': 'Analysis of symmetry for dynamics (positions and initial velocities):'}[kind]
    if isinstance(cell, str):
        price = [[' Subroutine PRICEL returns:'], [' ', cell]]
    else:
        price = [[' Subroutine PRICEL returns following result:'], [''], [' LATTYP: Found a face centered cubic cell.'], [' ALAT       =     ', f('alat')], [''],
                 ['  ', cell, ' primitive cells build up your supercell.']]
    return [[head], ['=' * 69], *price, [''], [''], [' Routine SETGRP: Setting up the symmetry group for a'], [' ', group], [''], [''],
            [' Subroutine GETGRP returns: Found ', n, ' space group operations'], [' (whereof ', T('nat', 'pure'), ' operations were pure point group operations)'],
            [' out of a pool of ', T('nat', 'pool'), ' trial point group operations.'], [''], ['']]


def elastic(kind, tag=''):
    rows = [[f(f'{kind}{tag}{i}{j}') for j in range(6)] for i in range(6)]
    L = [[HEADS[kind]], [' Direction    XX          YY          ZZ          XY          YZ          ZX'], [RULE]]
    for d, r in zip(DIRS, rows):
        L.append([f' {d}      '] + sum(([x, '    '] for x in r), [])[:-1])
    return L + [[RULE], ['']], nd(*(nd(*(FLT(x) for x in r)) for r in rows))


def magnet(proj, ions, orbs='spd', tag='', total=True, lead=''):
    """lines, site moments {ion: {orb: value}}, totals {orb: value}"""
    names = list(orbs) + ['tot']
    L = [[f' magnetization ({proj})'], [''], ['# of ion       ' + '       '.join(orbs) + '       tot'], [lead + '-' * 42]]
    site, tot = {}, {}
    for i in range(1, ions + 1):
        v = {o: f(f'm{proj}{tag}{i}{o}') for o in names}
        L.append([f'    {i}       '] + sum(([v[o], '  '] for o in names), [])[:-1])
        site[i] = {o: FLT(x) for o, x in v.items()}
    if total:
        v = {o: f(f'm{proj}{tag}t{o}') for o in names}
        L += [[lead + '-' * 50], [lead + 'tot         '] + sum(([v[o], '  '] for o in names), [])[:-1]]
        tot = {o: FLT(x) for o, x in v.items()}
    else:
        tot = dict(site[1])
    return L + [[''], ['']], site, tot


def electrons(*mags):
    return [['number of electron      ', f('nelect'), ' magnetization      ', *sum(([m, '  '] for m in mags), [])[:-1]]]
