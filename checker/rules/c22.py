"""C22: numbers that cannot be converted are never silently replaced."""
from .vaspxml import V, xquery, toks, ACC_ALL
from . import poscardoc, kpointsdoc, outcardoc, c26, c27, c28
from ..docrun import *
from .. import docs
from ..docs import enc, dec, INTK, FLTK

STARS = ('asterisks', const('**********'))
ALLSEC = ('partial', 'projected', 'dynmat', 'born', 'dielectric', 'epsilon', 'epsilon_ion', 'dos_specific', 'eig_specific', 'selective')


def glued(x):
    """two numbers printed without a blank between them"""
    return 'two numbers without a blank', docs.text(tok('fix', 'g1' + x.args[1]), tok('mfix', 'g2' + x.args[1]))


def bad(x):
    return 'a malformed number', tok('bad', 'b' + x.args[1])


def swap(t, x, new):
    """document text with a field replaced"""
    if t is NONE:
        return t
    s = enc(t)
    c = enc(x)
    return dec(s.replace(c, enc(new))) if s is not None and c in s else t


def numeric(x):
    return x.args[0] in INTK or x.args[0] in FLTK


def check(ctx):
    ctx.rule('overflow', 'a vasprun.xml scalar printed as asterisks ends with code 509')
    ctx.rule('xml', 'a vasprun.xml number that cannot be converted ends in an error or an error code')
    ctx.rule('inputs', 'a number of INCAR, KPOINTS, POSCAR and POTCAR that cannot be converted ends in an error; INCAR keeps it as text')
    ctx.rule('outputs', 'a number of OUTCAR, DOSCAR, EIGENVAL and CHGCAR that cannot be converted ends in an error')
    ctx.rule('timing', 'a timing or memory entry of OUTCAR that is not a number is None')
    ctx.floor = 200
    full = ctx.tier != 'quick'
    inputs(ctx, full)
    outputs(ctx, full)
    xml(ctx, full)


# ---------------------------------------------------------------- line based files

def values(A, acc):
    def fn(st, o):
        return mk('list', *[A.try_call(st, lambda s: f(s, o)) for f in acc])
    return fn


def call(A, name, *args):
    return lambda st, o: A.call_method(st, o, name, [const(a) for a in args], {}, None)


def at(A, name):
    return lambda st, o: A.getattr(st, o, name)


def sweep(ctx, rule, nm, cname, lines, acc, kinds, how='path', only=None):
    """break every field that a result is made of, one after the other"""
    A = ctx.A
    whole = returned(query(A, cname, lines, values(A, acc), how=how))
    if len(whole) != 1 or any(v.op in ('raised', 'mayraise') for v in whole[0].val.args):
        ctx.undecided(rule, nm, 'well formed file not followed')
        return
    need = [toks(v) for v in whole[0].val.args]
    used = [x for x in sorted(set().union(*need), key=lambda t: t.n) if numeric(x) and (only is None or only(x))]
    for x in used:
        for k in kinds:
            what, new = k(x) if callable(k) else k
            con = f'{nm}: {x.args[1]} is {what}'
            L = [swap(l, x, new) for l in lines]
            guard(ctx, rule, con, lambda: judge(ctx, rule, con, query(A, cname, L, values(A, acc), how=how), x, need, new))


@percase
def judge(ctx, rule, con, outs, x, need, new):
    E = verdict(outs)
    if not E:
        return ctx.undecided(rule, con, 'no ending found')
    if all(k in ('exc', 'exit') for k, _ in E):
        return ctx.ok(rule, con)
    rets = returned(outs)
    if any(k in ('exc', 'exit') for k, _ in E):
        return ctx.undecided(rule, con, f'may also end with {sorted(map(str, E))}')
    lost = []
    for o in rets:
        for i, n in enumerate(need):
            if x not in n:
                continue
            v = o.val.args[i] if o.val.op == 'list' and len(o.val.args) == len(need) else None
            if v is None or v.op == 'mayraise' or v.op != 'raised' and not known(v):
                return ctx.undecided(rule, con, show(unknown(v or o.val))[:160])
            if v.op != 'raised':
                lost.append(v)
    if lost:
        ctx.viol(rule, con, f'the file is accepted: the value made of it becomes {show(lost[0])[:300]}', where=site(rets[0]))
    else:
        ctx.ok(rule, con)


def inputs(ctx, full):
    A = ctx.A
    P_ = poscardoc.Doc
    fl = [('T', 'F', 'T'), ('F', 'F', 'F'), ('T', 'T', 'T')]
    f = poscardoc.f
    ent = lambda st, o: A.getattr(st, o, 'entries')   # noqa
    for nm, d in (('POSCAR, direct', P_()), ('POSCAR, cartesian, scaled', P_('Cartesian', scale=tok('posf', 'scale'))), ('POSCAR, selective', P_('Direct', 'Selective', fl)),
                  ('POSCAR, velocities', P_(vel='Cartesian')), ('POSCAR, velocities and predictors', P_(vel='Direct', pred=True)),
                  ('POSCAR, all', P_('Cartesian', 'Selective', fl, vel='Cartesian', pred=True, scale=tok('posf', 'scale')))):
        how = ('path', 'string', 'handle') if full else ('path',) if nm != 'POSCAR, direct' else ('path', 'string')
        for h in how:
            sweep(ctx, 'inputs', f'{nm}, {h}', 'Poscar', d.lines, [ent], (STARS, bad, glued), h)
    for k, x in enumerate(('2', '1')):
        for what, new in (STARS, bad(tok('nat', f'count{k}')), ('a decimal number', tok('fix', 'cnt'))):
            con = f'POSCAR, number of atoms {k + 1} is {what}'
            d = P_()
            L = list(d.lines)
            i = next(i for i, l in enumerate(L) if enc(l).split() == ['2', '1'])
            w = enc(L[i]).split()
            w[k] = enc(new)
            L[i] = dec('  ' + '  '.join(w) + '\n')
            guard(ctx, 'inputs', con, lambda: fails(ctx, 'inputs', con, query(A, 'Poscar', L, ent)))
    K = kpointsdoc.KDoc
    for nm, d in (('KPOINTS, explicit', K('explicit')), ('KPOINTS, tetrahedra', K('explicit', tetra='Tetrahedra')),
                  ('KPOINTS, automatic', K('automatic')), ('KPOINTS, Monkhorst-Pack', K('automatic', center='Monkhorst')), ('KPOINTS, generating vectors', K('automatic', center='Reciprocal')),
                  ('KPOINTS, line', K('line')), ('KPOINTS, line of two segments', K('line', n=4))):
        for h in ('path', 'string', 'handle') if full else ('path',):
            sweep(ctx, 'inputs', f'{nm}, {h}', 'Kpoints', d.lines, [ent], (STARS, bad, glued), h)
    for mode in ('explicit', 'automatic', 'line'):
        d = K(mode, num='0' if mode == 'automatic' else '20')
        for what, new in (STARS, bad(tok('nat', 'num'))):
            L = list(d.lines)
            L[1] = docs.text('  ', new, '\n')
            con = f'KPOINTS, {mode}, number of k-points is {what}'
            guard(ctx, 'inputs', con, lambda: fails(ctx, 'inputs', con, query(A, 'Kpoints', L, ent)))
    # POTCAR
    d = c28.PotDoc()
    sweep(ctx, 'inputs', 'POTCAR', 'Potcar', d.lines, [at(A, 'metadata')], (STARS, bad, glued))
    # INCAR: what is no number is text
    for what, x in (STARS, bad(tok('nat', 'v')), ('two numbers without a blank', docs.text(tok('fix', 'g1'), tok('mfix', 'g2')))):
        for tag in ('ENCUT', 'SIGMA', 'NSW', 'MAGMOM'):
            con = f'INCAR, {tag} is {what}'
            outs = lambda: query(A, 'Incar', lines_of([f'{tag} = ', x], ['EDIFF = ', tok('fix', 'ed')]), lambda st, o: A.call_method(st, o, 'get', [const(tag.lower())], {}, None), validate_tags=False)
            guard(ctx, 'inputs', con, lambda: incar(ctx, con, outs(), x))


@percase
def incar(ctx, con, outs, x):
    """an error, or the text itself"""
    E = verdict(outs)
    if E and all(k in ('exc', 'exit') for k, _ in E):
        return ctx.ok('inputs', con)
    expect_value(ctx, 'inputs', con, outs, lambda v: True if v is x or v.op == 'list' and len(v.args) == 1 and v.args[0] is x else None if not known(v) else False)


@percase
def fails(ctx, rule, con, outs):
    E = verdict(outs)
    if not E:
        return ctx.undecided(rule, con, 'no ending found')
    if all(k in ('exc', 'exit') for k, _ in E):
        return ctx.ok(rule, con)
    rets = returned(outs)
    if any(k in ('exc', 'exit') for k, _ in E) or any(not known(o.val) for o in rets):
        return ctx.undecided(rule, con, f'may end with {sorted(map(str, E))}')
    ctx.viol(rule, con, f'the file is accepted with {show(rets[0].val)[:300]}', where=site(rets[0]))


def outputs(ctx, full):
    A = ctx.A
    O = outcardoc
    base = lambda: O.params('60', '0', '-1') + O.iterations((1,))   # noqa
    acc = [call(A, 'get_elastic_moduli'), call(A, 'get_magnetization'), call(A, 'get_symmetry')]
    blocks = [(f'elastic moduli, {k}', O.elastic(k)[0]) for k in ('non_symmetrized', 'symmetrized', 'total')]
    blocks += [(f'magnetization {p}', O.magnet(p, 2, 'spd')[0]) for p in 'xyz'] + [('magnetization, one ion', O.magnet('x', 1, 'spdf', total=False)[0])]
    blocks += [('cell magnetization', O.electrons(O.f('mx'), O.f('my'), O.f('mz'))), ('symmetry', O.analysis('static', tok('nat', 'nops')))]
    if full:
        blocks += [('dynamic symmetry', O.analysis('dynamic', tok('nat', 'nops'))), ('cell magnetization, one', O.electrons(O.f('m')))]
    for nm, b in blocks:
        few = None if full or not nm.startswith('elastic') else lambda x: x.args[1][-2] in '05' or x.args[1][-1] in '05'
        sweep(ctx, 'outputs', f'OUTCAR, {nm}', 'Outcar', lines_of(*(base() + b)), acc, (STARS, bad, glued), only=few)
    for what, new in (STARS, bad(tok('nat', 'nb')), ('a decimal number', tok('fix', 'cnt'))):
        con = f'OUTCAR, NBANDS is {what}'
        guard(ctx, 'outputs', con, lambda: fails(ctx, 'outputs', con, query(A, 'Outcar', lines_of(*(O.params('60', '0', '-1', new) + O.iterations((1,)))), call(A, 'get_run_status'))))
    stats = [('Total CPU time used (sec)', 'total_cpu_time_used'), ('Maximum memory used (kb)', 'maximum_memory_used')]
    for label, key in stats:
        for what, x in ((STARS, bad(tok('nat', 't')), ('a number', O.f('t')), ('empty', const('')))):
            con = f'OUTCAR, {label} is {what}'
            L = lines_of(*(base() + O.timing([f'                  {label}:  ', x], ['                     Elapsed time (sec):   ', O.f('elapsed')])))
            want = FLT(x) if what == 'a number' else NONE
            guard(ctx, 'timing', con, lambda: expect_value(ctx, 'timing', con, query(A, 'Outcar', L, lambda st, o: A.getitem(st, A.call_method(st, o, 'get_run_stats', [], {}, None), const(key))),
                                                           lambda v: same(v, want)))
    fs = (STARS, glued)
    for total, part in ((3, None), (5, None), (3, 10), (5, 19), (3, 4)):
        d = c26.DosDoc(total, part, 2, 2)
        few = lambda x: full or x.args[1][0] not in 'tp' or x.args[1].rsplit('_', 1)[-1] in ('1', '2', str(part and part - 1))   # noqa
        sweep(ctx, 'outputs', f'DOSCAR, {total} and {part or "no partial"} columns', 'Doscar', d.lines, [call(A, 'get_dos'), call(A, 'get_pdos'), call(A, 'get_metadata')], fs, only=few)
    for nk, nb, ns in ((2, 2, 1), (2, 2, 2)):
        for occ in (True, False):
            d = c27.EigDoc(nk, nb, ns, occ)
            sweep(ctx, 'outputs', f'EIGENVAL, {ns} spins{", occupancies" if occ else ""}', 'Eigenval', d.lines, [call(A, 'get_eigenvalues'), call(A, 'get_kpoints'), call(A, 'get_metadata')], fs)
    for sets in (1, 2, 4):
        d = c27.ChgDoc((2, 1, 3), sets, sets > 1, 5)
        sweep(ctx, 'outputs', f'CHGCAR, {sets} data sets', 'Chgcar', d.lines, [at(A, 'charge_density'), at(A, 'magnetization_density')], fs)


# ---------------------------------------------------------------- vasprun.xml

def xml(ctx, full):
    A = ctx.A
    base = dict(species=('Si', 'O'), nk=2, nb=2, ndos=2, steps=(1, 1))
    for nm0, kw in (('', dict(with_=ALLSEC)), (', two spins', dict(with_=tuple(x for x in ALLSEC if x != 'eig_specific') + ('velocities',), spin=2))):
        for event in (False, True):
            nm = ('event driven' if event else 'regular') + nm0
            new = lambda: V(**{**base, **kw})   # noqa
            whole = returned(guard(ctx, 'xml', nm, lambda: acc(A, new(), event), always=True) or ())
            if len(whole) != 1:
                ctx.undecided('xml', nm, 'well formed file not followed')
                continue
            need = [toks(x) if x.op != 'raised' else set() for x in whole[0].val.args]
            used = {x for x in set().union(*need) if numeric(x)}
            v = new()
            for e in v.root.walk():
                ts = [x for x in sorted(toks(e.text), key=lambda t: t.n) if x in used]
                if not ts or not full and skip(e, nm0, event):
                    continue
                scalar = e.tag == 'i'
                if not full and len(ts) > 1:
                    ts = [ts[0], ts[-1]] if e.parent.kids.index(e) == 0 else [ts[-1]]
                for x in ts:
                    for what, t in [STARS, bad(x)] if full or scalar else [STARS] if x is ts[0] else [bad(x)]:
                        con = f'{nm}, {e.path()[9:]}: {x.args[1]} is {what}'
                        guard(ctx, 'xml', con, lambda: broken(ctx, A, new(), x, t, event, need, con, scalar and what == 'asterisks'))


def skip(e, nm0, event):
    """elements left to the thorough tier: the inner ones of longer lists"""
    sib = [k for k in e.parent.kids if k.tag == e.tag]
    i = sib.index(e)
    if e.tag == 'i':
        return False
    if nm0 and 'spin 1' in e.path():
        return True
    return 0 < i < len(sib) - 1 or event and i == 0 and len(sib) > 1


def acc(A, v, event):
    def fn(st, o):
        return mk('list', *[A.try_call(st, lambda s: A.call_method(s, o, m, [const(x) for x in a], {}, None)) for m, a in ACC_ALL])
    return xquery(A, v.doc(), fn, event=event, extract_all=True)


def broken(ctx, A, v, x, t, event, need, con, overflow):
    for e in v.root.walk():
        e.text = swap(e.text, x, t)
    outs = acc(A, v, event)
    if overflow:
        return expect_end(ctx, 'overflow', con, outs, ('exit', 509))
    judge(ctx, 'xml', con, outs, x, need, t)
