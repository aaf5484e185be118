"""C28: POTCAR metadata are typed and the functional is identified."""
from .poscardoc import T, f
from ..docrun import *

# functional behind every LEXCH code of VASP: class and what the name has to contain
CODES = {'pe': ('GGA', ('pbe',)), '91': ('GGA', ('91',)), 'rp': ('GGA', ('pbe',)), 'am': ('GGA', ('am05',)), 'ps': ('GGA', ('pbesol',)), 'pw': ('GGA', ('86',)),
         'lm': ('GGA', ('langreth',)), 'pb': ('GGA', ('perdew', 'becke')), 'ca': ('LDA', ('perdew', 'ceperley')), 'hl': ('LDA', ('hedin',)), 'wi': ('LDA', ('wigner',))}
TEXT = {'RPACOR': 'partial core radius', 'POMASS': '', 'ZVAL': 'mass and valenz', 'RCORE': 'outmost cutoff radius', 'RCLOC': '', 'RMAX': 'core radius for proj-oper',
        'RAUG': 'factor for augmentation sphere', 'RDEP': 'radius for radial grids', 'RDEPT': 'core radius for aug-charge'}
SINGLE = ['RPACOR', 'RCORE', 'RCLOC', 'EAUG', 'DEXC', 'RMAX', 'RAUG', 'RDEP', 'RDEPT']
LOGICAL = {'LULTRA': 'use ultrasoft PP ?', 'LCOR': 'correct aug charges', 'LPAW': 'paw PP'}
COUNTS = {'IUNSCR': 'unscreen: 0-lin 1-nonlin 2-no', 'ICORE': 'local potential'}


class PotDoc:
    def __init__(self, kind='ufix', lexch='PE', logical=('F', 'T', 'T'), titel=None, comments=True, step=None, element='Si', skip=(), more=(), ints='nat', second=False, pad=''):
        self.want = {}
        n = lambda k, name=None: T(kind, name or k)
        L = [[' PAW_PBE Si 05Jan2001'], ['   ', T('dec', 'zval0')], [' parameters from PSCTR are:']]
        w = self.want
        w['VRHFIN'] = text(element, ': s2p2')
        L.append(['   VRHFIN =', element, ': s2p2' + pad])
        w['LEXCH'] = text(lexch)
        L.append(['   LEXCH  = ', lexch, pad])
        if 'EATOM' not in skip:
            w['EATOM'] = FLT(n('EATOM'))
            L.append(['   EATOM  =   ', n('EATOM'), ' eV,    ', T(kind, 'ry'), ' Ry'])
        L.append([''])
        titel = titel or ['PAW_PBE', ' ', T('word', 'symbol'), ' ', '05Jan2001']
        w['TITEL'] = text(*titel)
        L.append(['   TITEL  = '] + list(titel) + [pad])
        c = lambda t: ['    ' + t] if comments and t else []
        for (k, t), v in zip(LOGICAL.items(), logical):
            if k not in skip:
                w[k] = const(v.strip('.')[0] in 'Tt')
                L.append([f'   {k} =        {v}'] + c(t))
        for k, t in COUNTS.items():
            if k not in skip:
                w[k] = INT(T(ints, k))
                L.append([f'   {k}  =        ', T(ints, k)] + c(t))
        for a, b in (('POMASS', 'ZVAL'), ('RWIGS', 'RWIGS'), ('ENMAX', 'ENMIN')):
            x, y = n(a, a + '1'), n(b, b + '2')
            w[a], w[b] = FLT(x), FLT(y)
            w[b] = FLT(y)
            L.append([f'   {a} =   ', x, f'; {b}   =    ', y] + c({'POMASS': 'mass and valenz', 'RWIGS': 'wigner-seitz radius (au A)', 'ENMAX': 'eV'}[a]))
        for k in SINGLE:
            if k not in skip:
                w[k] = FLT(n(k))
                L.append([f'   {k}   =    ', n(k)] + c(TEXT.get(k, '')))
        for k, v in more:
            L.append([f'   {k} = ', v])
        L += [[''], ['   Atomic configuration'], ['    2 entries'], ['     n  l   j            E        occ.'], ['     1  0  0.50     ', f('cfg1'), '   2.0000'], ['   Description'],
              ['     l       E           TYP  RCUT    TYP  RCUT'], ['     0   ', f('cfg2'), '     23  1.900'], ['   Error from kinetic energy argument (eV)']]
        if 'NDATA' not in skip:
            w['NDATA'] = INT(T('pos', 'NDATA'))
            L.append(['   NDATA  =      ', T('pos', 'NDATA')])
        step = step or [n('st1'), '   ', n('st2')]
        w['STEP'] = mk('list', *(FLT(x) for x in step if isinstance(x, Term)))
        L.append(['   STEP   =   '] + list(step))
        L += [['  ', f('kin1'), '   ', f('kin2')], ['END of PSCTR-controll parameters'], [' local part'], ['   ', f('loc')], ['   ENMAX  =  ', f('outside')]]
        if second:
            L += [[' PAW_PBE C 08Apr2002'], [' parameters from PSCTR are:'], ['   TITEL  = PAW_PBE C 08Apr2002'], ['   LEXCH  = CA'], ['   ENMAX  =  ', f('other')], ['END of PSCTR-controll parameters']]
        self.lines = lines_of(*L)


def check(ctx):
    A = ctx.A
    ctx.rule('typed', 'every known parameter is stored with its own type and value')
    ctx.rule('unknown', 'unknown parameters are ignored')
    ctx.rule('symbol', 'symbol and element come from the TITEL entry')
    ctx.rule('functional', 'functional name and class are looked up together from the LEXCH code')
    ctx.rule('attributes', 'parameters are available as attributes')
    ctx.floor = 150
    docs_ = {}
    for kind in ('ufix', 'mfix', 'scip', 'scim', 'nat', 'neg', 'fix'):
        for comments in (True, False):
            docs_[f'numbers {kind}{", comments" if comments else ""}'] = dict(kind=kind, comments=comments)
    for v in ('F', 'T', '.FALSE.', '.TRUE.', 'f', 't', '.T.', '.F.', 'True', 'false', '.true.'):
        docs_[f'logical {v}'] = dict(logical=(v,) * 3)
    docs_['logical T F F'] = dict(logical=('T', 'F', 'F'))
    docs_['logical F F T'] = dict(logical=('F', 'F', 'T'))
    for k in LOGICAL | COUNTS | dict.fromkeys(SINGLE + ['NDATA', 'EATOM']):
        docs_[f'without {k}'] = dict(skip=(k,))
    for pad in ('  ', '\t', ' ; QUAD = 1'):
        docs_[f'text followed by {pad!r}'] = dict(pad=pad)
    docs_['several species'] = dict(second=True)
    docs_['one step'] = dict(step=[T('ufix', 'st1')])
    docs_['negative counts'] = dict(ints='neg')
    docs_['counts with and without sign'] = dict(ints='nint')
    docs_['unknown parameters'] = dict(more=[('QUAD', T('dec', 'quad')), ('SHA256', T('word', 'hash')), ('COPYR', '(c) Copyright'), ('xENMAX', T('dec', 'x')), ('enmin', T('dec', 'y'))])
    for nm, kw in docs_.items():
        for how in ('path', 'handle') if nm.startswith(('numbers ufix', 'several')) else ('path',):
            guard(ctx, 'typed', nm, lambda: typed(ctx, f'{nm}, {how}', PotDoc(**kw), how))
    for nm, titel, sym, el in (('PAW', ['PAW_PBE', ' ', T('word', 'symbol'), ' ', '05Jan2001'], T('word', 'symbol'), T('word', 'symbol')),
                               ('with suffix', ['PAW_PBE ', T('word', 'el'), '_pv 06Sep2000'], text(T('word', 'el'), '_pv'), T('word', 'el')),
                               ('two suffixes', ['PAW ', T('word', 'el'), '_sv_GW 05Dec2013'], text(T('word', 'el'), '_sv_GW'), T('word', 'el')),
                               ('ultrasoft', ['US ', T('word', 'el')], T('word', 'el'), T('word', 'el')), ('alone', [T('word', 'el')], T('word', 'el'), T('word', 'el')),
                               ('Si_GW', ['PAW_PBE Si_GW 04May2012'], const('Si_GW'), const('Si')),
                               *((f'words apart by {gap!r}', ['PAW_PBE', gap, T('word', 'el'), f'_pv{gap}06Sep2000'], text(T('word', 'el'), '_pv'), T('word', 'el'))
                                 for gap in ('  ', '\t', ' \t ')),
                               *((f'{fl}{x}', [fl, x, ' 08Apr2002' if fl != 'US ' else ''], const(x), const(x.split('_')[0])) for fl in ('PAW_PBE ', 'PAW ', 'US ')
                                 for x in ('H', 'C', 'W', 'C_s', 'O_h_GW', 'W_pv', 'Fe_pv', 'He_GW', 'Yb_2', 'H1.25', 'H.5', 'Ti_sv_GW', 'K_sv'))):
        for attr, want in (('symbol', sym), ('element', el)):
            guard(ctx, 'symbol', nm, lambda: expect_value(ctx, 'symbol', f'{nm}: {attr}', query(A, 'Potcar', PotDoc(titel=titel).lines, lambda st, o: A.getattr(st, o, attr)),
                                                          lambda v: same(v, want)))
    for code, (cls, parts) in CODES.items():
        for w in sorted({code, code.upper(), code.capitalize()}):
            guard(ctx, 'functional', w, lambda: functional(ctx, w, cls, parts))
    guard(ctx, 'functional', 'unknown', lambda: expect_value(ctx, 'functional', 'unknown code', query(A, 'Potcar', PotDoc(lexch=T('word', 'code')).lines, both(A)),
                                                             lambda v: same(v, mk('tuple', NONE, NONE))))
    guard(ctx, 'functional', 'table', lambda: table(ctx))
    d = PotDoc()
    for k, v in d.want.items():
        for name in (k.lower(), k):
            guard(ctx, 'attributes', name, lambda: expect_value(ctx, 'attributes', name, query(A, 'Potcar', d.lines, lambda st, o: A.freeze(st, A.getattr(st, o, name), True)),
                                                                lambda x: same(x, v)))
    for name in ('unknown', 'nelect'):
        outs = query(A, 'Potcar', d.lines, lambda st, o: A.getattr(st, o, name))
        E = verdict(outs)
        ctx.check('attributes', f'{name} is not an attribute', True if E == {('exc', 'AttributeError')} else False if E and all(k == 'ret' for k, _ in E) else None,
                  'an unknown parameter is available as attribute', '')


def both(A):
    return lambda st, o: mk('tuple', A.getattr(st, o, 'functional'), A.getattr(st, o, 'functional_class'))


def typed(ctx, nm, d, how):
    A = ctx.A
    outs = query(A, 'Potcar', d.lines, lambda st, o: A.freeze(st, A.getattr(st, o, 'metadata'), True), how=how)
    E = verdict(outs)
    if len(E) != 1 or not returned(outs):
        return expect_value(ctx, 'typed', nm, outs, lambda v: None)
    for o in returned(outs):
        if o.val.op != 'dict' or any(a.op != 'kv' for a in o.val.args):
            return ctx.undecided('typed', nm, show(o.val)[:200])
        got = {cval(a.args[0]): a.args[1] for a in o.val.args}
        extra = set(got) - set(d.want)
        ctx.check('unknown', nm, not extra, f'stores the unknown parameters {sorted(map(str, extra))}', '')
        for k, v in d.want.items():
            if k not in got:
                ctx.viol('typed', f'{nm}: {k}', 'is not stored')
            else:
                ctx.check('typed', f'{nm}: {k}', same(got[k], v), f'is {show(got[k])[:120]}, expected {show(v)[:120]}', '')


def functional(ctx, w, cls, parts):
    outs = query(ctx.A, 'Potcar', PotDoc(lexch=w).lines, both(ctx.A))

    def judge(v):
        n, c = v.args
        if not (is_const(n) and is_const(c)):
            return None
        return cval(c) == cls and isinstance(cval(n), str) and any(p in cval(n).lower() for p in parts)
    expect_value(ctx, 'functional', f'LEXCH {w}', outs, judge)


def table(ctx):
    """every code of the table has both entries and names are not shared"""
    A = ctx.A
    names = []
    for code in CODES:
        outs = query(A, 'Potcar', PotDoc(lexch=code).lines, both(A))
        for o in returned(outs):
            n, c = o.val.args
            if not is_const(n) or not is_const(c):
                return ctx.undecided('functional', 'table', show(o.val))
            names.append(cval(n))
    ctx.check('functional', 'names are not shared', len(set(names)) == len(CODES), f'two codes have the same name: {names}', '')
