"""C24: each quantity of OUTCAR is filed under its own label."""
from .outcardoc import *
from ..docs import between
import itertools


def check(ctx):
    A = ctx.A
    ctx.rule('elastic', 'elastic moduli are stored under the key of their heading')
    ctx.rule('magnetization', 'moments and totals are stored under the projection of their heading, with every orbital from its own column')
    ctx.rule('full cell', 'the magnetization of the cell is the one printed last')
    ctx.rule('symmetry', 'symmetry data are filed under the analysis they belong to, in order')
    ctx.rule('keys', 'the keys of the results do not depend on the content')
    ctx.rule('bands', 'the number of bands is reported')
    ctx.rule('timing', 'times and memory are stored under their own label, empty ones as None')
    ctx.floor = 250
    P0 = params('60', '0', '-1')
    full = ctx.tier != 'quick'

    def run(rule, nm, lines, accessor, want, how='path'):
        ctx.count('documents')
        guard(ctx, rule, nm, lambda: expect_fields(ctx, rule, nm, query(A, 'Outcar', lines_of(*lines), meth(A, accessor), how=how), {k: v if isinstance(v, Term) else const(v) for k, v in want.items()}))

    # elastic moduli
    kinds = ['non_symmetrized', 'symmetrized', 'total']
    for sel in [()] + [s for k in (1, 2, 3) for s in itertools.combinations(kinds, k)] + [('total', 'symmetrized', 'non_symmetrized'), ('symmetrized', 'total', 'non_symmetrized')]:
        for contr in (False, True):
            L, e = P0 + iterations((2,)), {(k,): NONE for k in kinds}
            for k in sel:
                if contr and k == 'total':
                    L = L + elastic('contr')[0]
                l, v = elastic(k)
                L, e[(k,)] = L + l, v
            if contr and 'total' not in sel:
                L = L + elastic('contr')[0]
            for how in ('path', 'handle'):
                run('elastic', f'{" + ".join(sel) or "no moduli"}{", ionic contribution printed" if contr else ""}, {how}', L + timing(), 'get_elastic_moduli', e, how)
    L, e = P0 + iterations((1, 1)), {}
    for k in kinds + kinds:
        l, v = elastic(k, '' if (k,) in e else 'b')
        L, e[(k,)] = L + l, v
    run('elastic', 'printed twice', L + timing(), 'get_elastic_moduli', e)

    # magnetization
    def magdoc(projs, ions, orbs, blocks=1, total=True, mags=1, lead=''):
        L, e = list(P0), {}
        for b in range(blocks):
            L = L + iteration(b + 1, 1)
            m = [f(f'mag{b}_{i}') for i in range(mags)]
            if mags:
                L = L + electrons(*m)
            for p in projs:
                l, s, t = magnet(p, ions, orbs, f'b{b}_', total, lead)
                L = L + l
                for i, r in s.items():
                    for o, x in r.items():
                        e[('sphere', p, 'site_moment', i, o)] = x
                e.update({('sphere', p, 'total_magnetization', o): x for o, x in t.items()})
            e[('full_cell',)] = mk('list', *(FLT(x) for x in m))
        for p in 'xyz':
            if p not in projs:
                e[('sphere', p, 'site_moment')] = mk('dict')
                e[('sphere', p, 'total_magnetization')] = mk('dict')
        return L + timing(), e
    for projs in ('', 'x', 'xyz', 'y', 'z', 'xz'):
        for ions in (1, 2, 4) + ((11,) if projs == 'x' and full else ()):
            for orbs in ('spd', 'spdf', 'sp', 's'):
                for blocks in (1, 2):
                    total = ions > 1
                    if not full and blocks == 2 and orbs in ('sp', 's'):
                        continue
                    if not projs and (ions > 1 or orbs != 'spd'):
                        continue
                    L, e = magdoc(projs, ions, orbs, blocks, total, max(1, len(projs)))
                    nm = f'projections {projs or "none"}, {ions} ions, {orbs}, {blocks} blocks'
                    run('magnetization', nm, L, 'get_magnetization', e)
                    sh = {('sphere', p): sorted(e) for p in ()}
                    guard(ctx, 'magnetization', nm + ': entries', lambda: entries(ctx, nm + ': entries', L, projs, ions, list(orbs) + ['tot']))
    for projs in ('x', 'xyz'):
        L, e = magdoc(projs, 2, 'spd', 1, True, len(projs), '  ')
        run('magnetization', f'projections {projs}, table indented', L, 'get_magnetization', e)
    for mags in (0, 1, 3):
        for blocks in (1, 2, 3):
            L, e = magdoc('', 1, 'spd', blocks, True, mags)
            e = {k: v for k, v in e.items() if k == ('full_cell',)} if mags else {}
            if e:
                run('full cell', f'{mags} components, printed {blocks} times', L, 'get_magnetization', e)
    # symmetry
    word = T('word', 'group')
    groups = [('face centered cubic supercell.',) * 2, (['simple ', T('word', 'g1'), ' supercell.'], ['body centered ', T('word', 'g2'), ' supercell.'])]
    for seq in (['static'], ['dynamic'], ['static', 'dynamic'], ['static', 'dynamic'] * 2, ['static', 'static'], ['dynamic', 'static'], ['static', 'dynamic', 'static'], []):
        for words, cells in ((False, False), (True, False), (True, True)):
            L, e = list(P0), {(q, k): [] for q in ('num_space_group_operations', 'original_cell_type', 'symmetrized_cell_type') for k in ('static', 'dynamic')}
            for i, k in enumerate(seq):
                n = T('nat', f'ops{i}')
                g = ['simple ', T('word', f'g{i}'), ' supercell.'] if words else [f'{["face", "body", "side", "base"][i]} centered cubic supercell.']
                b = analysis(k, n, *([T('pos', f'cells{i}')] if cells and i % 2 == 0 else []))
                at = next(j for j, l in enumerate(b) if l[0].startswith(' Routine SETGRP')) + 1
                b[at] = [' ', *g]
                L = L + b
                e['num_space_group_operations', k].append(INT(n))
                e['original_cell_type', k].append(text(T('pos', f'cells{i}'), ' primitive cells') if cells and i % 2 == 0 else const('primitive cell'))
                low = text(*(mk('tok', 'word', x.args[1], 'lower') if isinstance(x, Term) else x for x in g))
                e['symmetrized_cell_type', k].append(low)
            L = L + iterations((1,)) + timing()
            run('symmetry', f'{" then ".join(seq) or "no analysis"}{", group names unknown" if words else ""}{", supercell" if cells else ""}', L, 'get_symmetry', {k: mk('list', *v) for k, v in e.items()})
    # number of bands
    n = T('pos', 'nbands')
    for how in ('path', 'handle'):
        run('bands', how, params('60', '0', '-1', n) + iterations((2,)) + timing(), 'get_run_status', {('nbands',): INT(n)}, how)
        run('bands', f'field filled completely, {how}', params('60', '0', '-1', n, gap='') + iterations((2,)) + timing(), 'get_run_status', {('nbands',): INT(n)}, how)
    run('bands', 'not printed', params(nbands=None, nelm='60', nsw='0') + iterations((1,)), 'get_run_status', {('nbands',): NONE})
    # timing and memory
    TIMES = ['Total CPU time used', 'User time', 'System time', 'Elapsed time', 'Maximum memory used', 'Average memory used']
    PARTS = ['base', 'nonl-proj', 'fftplans', 'grid', 'one-center', 'wavefun']
    for nm, times, parts, empty in (('all', TIMES, PARTS, ()), ('all, empty memory', TIMES, PARTS, ('Maximum memory used', 'Average memory used')), ('times only', TIMES[:4], [], ()),
                                    ('no user time', [t for t in TIMES if t != 'User time'], PARTS[:2], ()), ('backwards', TIMES[::-1], PARTS[::-1], ('Elapsed time',)), ('none', [], [], ())):
        L, e = params('60', '0', '-1') + iterations((2,)), {}
        if parts:
            L = L + [[' total amount of memory used by VASP MPI-rank0    30000. kBytes'], ['=' * 71], ['']]
            for p in parts:
                L.append([f'   {p:9s} :  ', f('mem' + p), ' kBytes'])
                e['mem_usage_' + p] = FLT(f('mem' + p))
            L += [[''], ['']]
        block = []
        for t in times:
            unit = 'kb' if 'memory' in t else 'sec'
            block.append([f'{t} ({unit}):'.rjust(42)] + ([] if t in empty else ['     ', f(t)]))
            e['_'.join(t.lower().split())] = NONE if t in empty else FLT(f(t))
        L = L + timing(*block, [''], ['                          Minor page faults:        ', T('nat', 'faults')], ['                          Major page faults:            0'])
        for how in ('path', 'handle'):
            guard(ctx, 'timing', f'{nm}, {how}', lambda: timed(ctx, f'{nm}, {how}', query(A, 'Outcar', lines_of(*L), meth(A, 'get_run_stats'), how=how), e))
    # keys
    docs_ = {'nothing but steps': params(nbands=None, nelm='60', nsw='0') + iterations((1,)), 'unfinished': P0 + iterations((2,)),
             'everything': P0 + analysis('static', T('nat', 'o')) + analysis('dynamic', T('nat', 'o2')) + iterations((2,)) + electrons(f('m')) + sum((magnet(p, 2)[0] for p in 'xyz'), []) +
             sum((elastic(k)[0] for k in kinds), []) + timing(),
             'elastic only': P0 + iterations((1, 2)) + elastic('symmetrized')[0] + timing()}
    expected = {'get_elastic_moduli': ((), None), 'get_symmetry': ((), None), 'get_run_status': ((), None), 'get_magnetization': ((), None)}
    for acc, path in [(a, ()) for a in expected] + [('get_symmetry', (q,)) for q in ('num_space_group_operations', 'original_cell_type', 'symmetrized_cell_type')] + \
            [('get_magnetization', ('sphere',))] + [('get_magnetization', ('sphere', p)) for p in 'xyz']:
        nm = acc + (': ' + '/'.join(path) if path else '')
        guard(ctx, 'keys', nm, lambda: keys(ctx, nm, acc, path, docs_))


def keyset(d):
    if d is None or d.op != 'dict' or not all(x.op == 'kv' and is_const(x.args[0]) for x in d.args):
        return None
    return {cval(x.args[0]) for x in d.args}


def keys(ctx, nm, acc, path, docs_):
    """one set of keys over all documents"""
    got = {}
    for dn, L in docs_.items():
        for o in query(ctx.A, 'Outcar', lines_of(*L), meth(ctx.A, acc)):
            k = keyset(kvget(o.val, *path)) if o.kind == 'return' else None
            if k is None:
                return ctx.undecided('keys', nm, f'{dn}: not found')
            got.setdefault(frozenset(k), dn)
    if len(got) == 1:
        return ctx.ok('keys', nm)
    (a, da), (b, db) = list(got.items())[:2]
    ctx.viol('keys', nm, f'the keys depend on the content: {sorted(a ^ b)} is there with {da if a - b else db!r} but not with {db if a - b else da!r}')


def entries(ctx, nm, L, projs, ions, names):
    """no ion or orbital more or less than printed"""
    for o in query(ctx.A, 'Outcar', lines_of(*L), meth(ctx.A, 'get_magnetization')):
        if o.kind != 'return':
            return ctx.undecided('magnetization', nm, 'no value')
        for p in projs:
            s, t = kvget(o.val, 'sphere', p, 'site_moment'), kvget(o.val, 'sphere', p, 'total_magnetization')
            k = keyset(s)
            ks = [keyset(t)] + [keyset(kvget(s, i)) for i in range(1, ions + 1)]
            if k is None or None in ks:
                return ctx.undecided('magnetization', nm, 'entries not found')
            if k != set(range(1, ions + 1)):
                return ctx.viol('magnetization', nm, f'{p}: moments of the ions {sorted(k)} are stored, {ions} are printed')
            for x in ks:
                if x != set(names):
                    return ctx.viol('magnetization', nm, f'{p}: orbitals {sorted(x)} are stored, {names} are printed')
    ctx.ok('magnetization', nm)


def timed(ctx, nm, outs, want):
    """exactly the entries wanted"""
    expect_fields(ctx, 'timing', nm, outs, {(k,): v for k, v in want.items()})
    for o in returned(outs):
        if o.val.op != 'dict' or not all(a.op == 'kv' and is_const(a.args[0]) for a in o.val.args):
            return ctx.undecided('timing', nm, show(o.val)[:200])
        more = {cval(a.args[0]) for a in o.val.args} - set(want)
        ctx.check('timing', nm + ': nothing else', not more, f'contains {sorted(map(str, more))}, which are not printed', '')
