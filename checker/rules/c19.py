"""C19: each quantity of vasprun.xml is taken from its own section, by the regular and the event driven parser."""
from .vaspxml import *
from .c17 import energies_of, ETYPES

PARAM = {'symprec': ('SYMPREC', FLT), 'ismear': ('ISMEAR', INT), 'sigma': ('SIGMA', FLT), 'ispin': ('ISPIN', INT), 'nbands': ('NBANDS', INT), 'nelect': ('NELECT', FLT),
         'system': ('SYSTEM', None), 'nelm': ('NELM', INT), 'nsw': ('NSW', INT)}
KIND = {'SYMPREC': 'dec', 'ISMEAR': 'int', 'SIGMA': 'dec', 'NELECT': 'dec', 'SYSTEM': 'word', 'NELM': 'pos', 'NSW': 'nat'}
SPECIAL = {'eig_specific': 'spk', 'velocities': 'velk'}


def check(ctx):
    A = ctx.A
    ctx.rule('own place', 'each parameter, lattice quantity and data set holds the fields of its own section, converted, whichever other sections there are')
    ctx.rule('complete', 'no text of an element is read before the element has been read completely')
    full = ctx.tier != 'quick'
    some = ('partial', 'projected', 'dynmat', 'born', 'dielectric', 'epsilon', 'epsilon_ion', 'dos_specific', 'decoys')
    docs_ = [('bare', dict()), ('two spins, bare', dict(spin=2)), ('all sections, velocities', dict(with_=some + ('velocities',))),
             ('all sections, interpolated eigenvalues', dict(with_=some + ('eig_specific', 'selective'), spin=2)),
             ('all sections, interpolated last', dict(with_=some + ('eig_specific', 'late_specific'))),
             ('interpolated last, velocities', dict(with_=('dos_specific', 'velocities', 'late_specific'), spin=2)),
             ('eigenvalues without occupancies', dict(cols=1, with_=('dos_specific', 'decoys')))]
    for x in some:
        docs_.append((f'only {x}', dict(with_=(x,), spin=2 if x in ('partial', 'projected') else 1)))
    for x in some if full else ():
        docs_.append((f'all but {x}', dict(with_=tuple(y for y in some if y != x) + ('velocities',))))
    for x in ('divisions', 'kpointlist', 'dos', 'eigenvalues', 'forces', 'stress', 'structure', 'efermi', 'initialpos', 'finalpos', 'incar', 'NELM', 'SYMPREC', 'SYSTEM', 'ISMEAR',
              'SIGMA', 'NSW', 'NELECT'):
        om = (x, 'eigenvalues', 'projected') if x == 'kpointlist' else (x,)
        docs_.append((f'no {x}', dict(omit=om, with_=('decoys', 'dos_specific') if x != 'dos' else ('decoys',))))
    for name, kw in docs_:
        for event in (False, True):
            v = V(**{'species': ('Si', 'O', 'Si'), 'steps': (1, 2), 'nk': 2, 'nb': 3, 'ndos': 2, **kw})
            con = f'{"event driven" if event else "regular"}, {name}'
            guard(ctx, 'own place', con, lambda: one(ctx, A, v, event, con))


def expected(v):
    W = v.with_
    E = {}
    for k, (tag, f) in PARAM.items():
        fixed = {'NBANDS': v.nb, 'ISPIN': v.spin}.get(tag)
        E['parameters', k] = NONE if not v.has(tag) else const(fixed) if fixed else (f(T(KIND[tag], f'par_{tag}')) if f else text(' ', T('word', f'par_{tag}'), ' '))
    n = len(v.steps)
    calc = lambda f: {c: f(c) for c in range(1, n + 1)}
    st = v.has('structure')
    E['lattice', 'unitcell'] = calc(lambda c: v.exp[f'c{c}', 'basis'].val()) if st else NONE
    E['lattice', 'positions'] = calc(lambda c: v.exp[f'c{c}', 'positions'].val()) if st else NONE
    E['lattice', 'species'] = ND([const(SYM[x]) for x in v.species])
    pts, w = v.k
    E['lattice', 'kpoints'] = pts.val() if v.has('kpointlist') else NONE
    E['lattice', 'kpointsw'] = ND([FLT(r[0]) for r in w.t]) if v.has('kpointlist') else NONE
    E['lattice', 'kpointdiv'] = ND([INT(T('nat', f'div{i}')) for i in range(3)]) if v.has('divisions') else NONE
    D = lambda k, x: E.__setitem__(('data', k), x)
    ch = v.channels
    has_eig = v.has('eigenvalues')
    D('eigenvalues', ch(lambda s: v.band_array('eig', 0, s, False)) if has_eig else NONE)
    D('occupancies', ch(lambda s: v.band_array('eig', 1, s, False)) if has_eig and v.cols > 1 else NONE)
    D('eigenvalues_specific', ch(lambda s: v.band_array('eigsp', 0, s, False, 2)) if 'eig_specific' in W else NONE)
    D('eigenvelocities', ch(lambda s: v.band_array('vel', None, s, False, 2)) if 'velocities' in W else NONE)
    sp = v.ks if 'eig_specific' in W else v.kv if 'velocities' in W else None
    D('kpoints', sp[0].val() if sp else NONE)
    D('kpointsw', ND([FLT(r[0]) for r in sp[1].t]) if sp else NONE)
    D('dos', v.dos_value('dos') if v.has('dos') else NONE)
    D('dos_specific', v.dos_value('dossp') if 'dos_specific' in W else NONE)
    if v.has('energy'):
        D('totens', calc(lambda c: {k: x for e, tag in ETYPES.items() for k, x in
                                    ((e + '_final', FLT(T('dec', f'c{c}_fin_{tag}'))), (e, ND([FLT(T('dec', f'c{c}_sc{j}_{tag}')) for j in range(v.steps[c - 1])])))}))
    D('forces', calc(lambda c: v.exp[c, 'forces'].val()) if v.has('forces') and st else NONE if not v.has('forces') else None)
    D('stress', calc(lambda c: v.exp[c, 'stress'].val()) if v.has('stress') and st else NONE if not v.has('stress') else None)
    D('projectors', ch(lambda s: v.projectors(s, False)) if 'projected' in W else NONE)
    D('hessian', v.exp['hessian'].val() if 'dynmat' in W else NONE)
    D('dynmat', {'eigenvalues': ND([FLT(x) for x in v.exp['dynval']]), 'eigenvectors': v.exp['dynvec'].val()} if 'dynmat' in W else NONE)
    D('born', ND([[[FLT(x) for x in r] for r in rows.t] for rows in v.exp['born']]) if 'born' in W else NONE)
    cut = lambda r, a, b: ND([[FLT(x) for x in row[a:b]] for row in r.t])
    diel = {'imag': NONE, 'real': NONE, 'energy': NONE, 'epsilon': NONE, 'epsilon_ion': NONE}
    if 'dielectric' in W:
        diel.update(imag=cut(v.exp['imag'], 1, 7), real=cut(v.exp['real'], 1, 7), energy=ND([FLT(r[0]) for r in v.exp['imag'].t]))
    for k in ('epsilon', 'epsilon_ion'):
        if k in W:
            diel[k] = v.exp[k].val()
    for k, x in diel.items():
        E['dielectrics', k] = x
    E['version', ] = text(T('nat', 'v1'), '.', T('nat', 'v2'), '.', T('nat', 'v3')) if v.has('version') and v.has('generator') else NONE
    return E


def one(ctx, A, v, event, con):
    E = expected(v)
    early = []

    def fn(st, o):
        r = mk('list', *[A.call_method(st, o, m, [], {}, None) for m in ('get_dict', 'get_dielectrics', 'get_version')])
        return mk('list', r, st.m.get(('xearly',)) or NONE)
    outs = xquery(A, v.doc(), fn, event=event)

    def judge(key, want):
        def f(val):
            d, diel, ver = val.args[0].args
            if key == ('version',):
                got = ver
            elif key[0] == 'dielectrics':
                if diel is NONE:
                    got = NONE
                else:
                    got = kvget(diel, key[1])
                    if got is None:
                        return want is NONE if diel.op == 'dict' else None
            else:
                got = kvget(d, *key)
                if got is None:
                    return False if known(d) else None
            return compare(got, want)
        return f
    wants, names = [], []
    for key, want in E.items():
        if want is not None:
            f = judge(key, want)
            f.__doc__ = brief(want)
            wants.append(f)
            names.append('/'.join(key))
    whole(ctx, con, outs, names, wants)


@percase
def whole(ctx, con, outs, names, wants):
    E = verdict(outs)
    rets = returned(outs)
    if len(E) != 1 or not rets:
        return expect_value(ctx, 'own place', con, outs, lambda v: None)
    for nm, w in zip(names, wants):
        rs = [w(o.val) for o in rets]
        if False in rs:
            d = rets[0].val.args[0].args
            ctx.viol('own place', f'{con}: {nm}', f'is {show(find(d, nm))[:200]}, expected {w.__doc__[:200]}')
        elif None in rs:
            ctx.undecided('own place', f'{con}: {nm}', 'not recognised')
        else:
            ctx.ok('own place', f'{con}: {nm}')
    for o in rets:
        e = o.val.args[1]
        for x in sorted({show(x).strip("'") for x in e.args} if e is not NONE else ()):
            ctx.viol('complete', x, f'the text of this element is read when it starts ({con})')
    ctx.ok('complete', con)


def find(d, nm):
    k = nm.split('/')
    if k[0] == 'version':
        return d[2]
    if k[0] == 'dielectrics':
        return kvget(d[1], k[1]) or d[1]
    return kvget(d[0], *k) or NONE
