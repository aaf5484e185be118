"""Shape-abstract vasprun.xml documents and what is expected from them."""
import re

from ..docrun import *
from ..xmldoc import el, XDoc
from .. import arrays, docs

SYM = {'Si': 14, 'O': 8, 'Ga': 31, 'H': 1}

# every accessor
ACC_ALL = [('get_forces', ('all',)), ('get_stress', ('all',)), ('get_unitcell', ('all',)), ('get_positions', ('all',)), ('get_energies', ('all',)), ('get_forces', ('last',)),
           ('get_unitcell', ('last',)), ('get_positions', ('initial',)), ('get_energies', ('last',))] + [(m, ()) for m in (
               'get_hessian', 'get_dynmat', 'get_dielectrics', 'get_epsilon', 'get_epsilon_ion', 'get_fermi_level', 'get_fermi_level_specific', 'get_born', 'get_kpoints',
               'get_kpointsw', 'get_dos', 'get_dos_specific', 'get_eigenvalues', 'get_occupancies', 'get_eigenvalues_specific', 'get_eigenvelocities', 'get_kpoints_specific',
               'get_kpointsw_specific', 'get_projectors', 'get_parameters')]


ALIAS = None


def T(kind, name):
    return tok(kind, re.sub(*ALIAS, name) if ALIAS else name)


class Rows:
    """named rows of unknown numbers"""

    def __init__(self, name, n, m, kind='dec'):
        self.t = [[T(kind, f'{name}_{i}_{j}') for j in range(m)] for i in range(n)]

    def els(self, tag='v'):
        return [row_el(tag, r) for r in self.t]

    def val(self):
        return ND([[FLT(x) for x in r] for r in self.t])


def row_el(tag, toks, **attrib):
    parts = ['  ']
    for x in toks:
        parts += [x, '    ']
    return el(tag, _=parts, **attrib)


def num(tag, kind, name_, **attrib):
    return el(tag, _=[' ', T(kind, name_), ' '], **attrib)


class V:
    """one layout of vasprun.xml; every number and text is an unknown field named after its place"""

    def __init__(self, species=('Si', 'Si', 'O'), nk=3, nb=2, spin=1, steps=(2,), cols=2, omit=(), with_=(), system='word', start='full', truncate=None, ndos=2,
                 break_=None, drop=None, alias=None):
        self.species, self.nk, self.nb, self.spin, self.steps, self.cols, self.ndos = species, nk, nb, spin, steps, cols, ndos
        self.omit, self.with_ = set(omit), set(with_)
        self.n = len(species)
        self.break_ = break_ or {}
        self.exp = {}
        # fields that are equal: a rule that gives them one name
        global ALIAS
        self.alias = ALIAS = alias
        try:
            self.root = self.build()
        finally:
            ALIAS = None
        if drop is not None:
            # leave out every element at this place
            for e in list(self.root.walk()):
                if e.parent is not None and e.path() == drop:
                    e.parent.kids.remove(e)

    def T(self, kind, name):
        return tok(kind, re.sub(*self.alias, name) if self.alias else name)

    def places(self):
        """places of the elements that are no rows, in document order"""
        return list(dict.fromkeys(e.path() for e in self.root.walk() if e.parent is not None and e.tag not in ('r', 'c', 'rc', 'field', 'dimension', 'time')
                                  and not (e.tag in ('v', 'set') and not e.attrib)))

    def fields(self):
        """the unknown fields of the document"""
        return set().union(*(toks(e.text) for e in self.root.walk()))

    def has(self, x):
        return x not in self.omit

    def fld(self, place, default):
        return self.break_.get(place, default)

    def kset(self, name, n=None):
        n = n or self.nk
        return Rows(name + '_k', n, 3), Rows(name + '_w', n, 1)

    def kvar(self, rows):
        pts, w = rows
        return [el('varray', *pts.els(), name='kpointlist'), el('varray', *w.els(), name='weights')]

    def build(self):
        top = []
        if self.has('generator'):
            g = [el('i', _='vasp ', name='program', type='string')]
            if self.has('version'):
                g.append(el('i', _=[T('nat', 'v1'), '.', T('nat', 'v2'), '.', T('nat', 'v3'), '  '], name='version', type='string'))
            g.append(el('i', _=[T('word', 'subv')], name='subversion', type='string'))
            top.append(el('generator', *g))
        if self.has('incar'):
            # the tags as given by the user: never the source of a result
            top.append(el('incar', num('i', 'word', 'incar_system', name='SYSTEM', type='string'), num('i', 'nat', 'incar_nbands', name='NBANDS', type='int'),
                          num('i', 'nat', 'incar_nsw', name='NSW', type='int'), num('i', 'nat', 'incar_nelm', name='NELM', type='int'),
                          num('i', 'dec', 'incar_sigma', name='SIGMA'), num('i', 'nat', 'incar_ispin', name='ISPIN', type='int'),
                          num('i', 'dec', 'incar_symprec', name='SYMPREC'), num('i', 'dec', 'incar_nelect', name='NELECT'), num('i', 'int', 'incar_ismear', name='ISMEAR', type='int')))
        if 'decoys' in self.with_:
            top.append(self.structure('prim', name='primitive_cell'))
            top.append(el('varray', *[row_el('v', [T('pos', f'pri{i}')], type='int') for i in range(self.n)], name='primitive_index'))
        if self.has('kpoints'):
            ks = []
            if self.has('divisions'):
                gen = [num('v', 'nat', 'x', name='dummy')][:0]
                gen.append(row_el('v', [T('nat', f'div{i}') for i in range(3)], type='int', name='divisions'))
                gen.append(row_el('v', [T('dec', f'ush{i}') for i in range(3)], name='usershift'))
                gen.append(row_el('v', [T('dec', f'gv{i}') for i in range(3)], name='genvec1'))
                ks.append(el('generation', *gen, param='Gamma'))
            self.k = self.kset('kp')
            if self.has('kpointlist'):
                ks += self.kvar(self.k)
            top.append(el('kpoints', *ks))
        if self.has('parameters'):
            top.append(self.parameters())
        if self.has('atominfo'):
            atoms = [el('rc', el('c', _=s.ljust(2)), num('c', 'pos', f'type{i}')) for i, s in enumerate(self.species)]
            kinds = [el('rc', num('c', 'pos', f'tn{i}'), el('c', _=s.ljust(2)), num('c', 'dec', f'mass{i}'), num('c', 'dec', f'valence{i}'),
                        el('c', _=[' PAW_PBE ', T('word', f'pp{i}')])) for i, s in enumerate(dict.fromkeys(self.species))]
            fld = lambda *ns: [el('field', _=x) for x in ns]
            top.append(el('atominfo', num('atoms', 'pos', 'natoms'), num('types', 'pos', 'ntypes'),
                          el('array', el('dimension', _='ion', dim='1'), *fld('element', 'atomtype'), el('set', *atoms), name='atoms'),
                          el('array', el('dimension', _='type', dim='1'), *fld('atomspertype', 'element', 'mass', 'valence', 'pseudopotential'), el('set', *kinds),
                             name='atomtypes')))
        if self.has('initialpos'):
            top.append(self.structure('ini', name='initialpos'))
        for i, m in enumerate(self.steps):
            top.append(self.calculation(i + 1, m))
        if self.has('finalpos'):
            top.append(self.structure('fin', name='finalpos'))
        return el('modeling', *top)

    def parameters(self):
        P_ = []

        def i(kind, name, sep, **kw):
            if not self.has(name):
                return []
            # the counts that size the data agree with it
            fixed = {'NBANDS': self.nb, 'ISPIN': self.spin}.get(name)
            return [el('i', _=[' ', self.fld(name, str(fixed) if fixed else T(kind, f'par_{name}')), ' '], name=name, **kw)]
        P_.append(el('separator', *i('word', 'SYSTEM', '', type='string'), el('i', _=' F ', type='logical', name='LCOMPAT'), name='general'))
        el_ = [el('i', _='normal', type='string', name='PREC'), num('i', 'dec', 'enmax', name='ENMAX'), num('i', 'dec', 'ediff', name='EDIFF'),
               *i('pos', 'NBANDS', '', type='int'), *i('dec', 'NELECT', ''), num('i', 'nat', 'turbo', type='int', name='TURBO'),
               el('separator', *i('int', 'ISMEAR', '', type='int'), *i('dec', 'SIGMA', ''), num('i', 'dec', 'kspacing', name='KSPACING'), name='electronic smearing'),
               el('separator', *i('pos', 'ISPIN', '', type='int'), row_el('v', [T('dec', 'mag0'), T('dec', 'mag1')], name='MAGMOM'), name='electronic spin'),
               el('separator', *i('pos', 'NELM', '', type='int'), num('i', 'int', 'nelmdl', type='int', name='NELMDL'), num('i', 'nat', 'nelmin', type='int', name='NELMIN'),
                  el('separator', el('i', _=' T ', type='logical', name='LDIAG'), num('i', 'dec', 'weimin', name='WEIMIN'),
                     *([num('i', 'pos', 'detail_NELM', type='int', name='NELM')] if 'decoys' in self.with_ else []), name='electronic convergence detail'),
                  name='electronic convergence'),
               el('separator', num('i', 'dec', 'amix', name='AMIX'), name='electronic mixer')]
        P_.append(el('separator', *el_, name='electronic'))
        P_.append(el('separator', *i('nat', 'NSW', '', type='int'), num('i', 'int', 'ibrion', type='int', name='IBRION'), num('i', 'dec', 'ediffg', name='EDIFFG'), name='ionic'))
        P_.append(el('separator', num('i', 'nat', 'isym', type='int', name='ISYM'), *i('dec', 'SYMPREC', ''), name='symmetry'))
        P_.append(el('separator', el('i', _=' T ', type='logical', name='LPEAD'), num('i', 'nat', 'dosnedos', type='int', name='NEDOS'), name='dos'))
        P_.append(el('separator', num('i', 'pos', 'resp_NELM', type='int', name='NELM'), num('i', 'nat', 'antires', type='int', name='ANTIRES'), name='response functions'))
        return el('parameters', *P_)

    def structure(self, tag, **attrib):
        b, r, p = Rows(tag + '_basis', 3, 3), Rows(tag + '_rec', 3, 3), Rows(tag + '_pos', self.n, 3)
        self.exp[tag, 'basis'], self.exp[tag, 'positions'] = b, p
        kids = [el('crystal', el('varray', *b.els(), name='basis'), num('i', 'posf', tag + '_vol', name='volume'), el('varray', *r.els(), name='rec_basis'))]
        kids.append(el('varray', *p.els(), name='positions'))
        if 'selective' in self.with_:
            kids.append(el('varray', *[el('v', _='  T  F  T ', type='logical') for _ in range(self.n)], name='selective', type='logical'))
        return el('structure', *kids, **attrib)

    def energy(self, tag, extra=False):
        kids = []
        if extra:
            kids += [num('i', 'dec', f'{tag}_alphaZ', name='alphaZ'), num('i', 'dec', f'{tag}_ewald', name='ewald')]
        for k in ('e_fr_energy', 'e_wo_entrp', 'e_0_energy'):
            if self.has(k):
                kids.append(el('i', _=[' ', self.fld(f'{tag}_{k}', T('dec', f'{tag}_{k}')), ' '], name=k))
        return el('energy', *kids)

    def spins(self, fmt_='spin %d'):
        return [fmt_ % (i + 1) for i in range(self.spin)]

    def bands(self, tag, cols, nk=None, fmt_='spin %d'):
        nk = nk or self.nk
        sets = []
        for s, c in enumerate(self.spins(fmt_)):
            rows = self.exp[tag, s] if (tag, s) in self.exp else Rows(f'{tag}_s{s}', nk * self.nb, cols)
            self.exp[tag, s] = rows
            es = rows.els('r')
            sets.append(el('set', *[el('set', *es[k * self.nb:(k + 1) * self.nb], comment=f'kpoint {k + 1}') for k in range(nk)], comment=c))
        return el('array', el('dimension', _='band', dim='1'), el('dimension', _='kpoint', dim='2'), el('dimension', _='spin', dim='3'), el('field', _='eigene'),
                  el('set', *sets))

    def dos(self, tag, **attrib):
        kids = []
        if self.has('efermi'):
            kids.append(el('i', _=[' ', self.fld(f'{tag}_efermi', T('dec', f'{tag}_efermi')), ' '], name='efermi'))
        tot = []
        for s, c in enumerate(self.spins()):
            rows = Rows(f'{tag}_tot_s{s}', self.ndos, 3)
            self.exp[tag, 'total', s] = rows
            tot.append(el('set', *rows.els('r'), comment=c))
        kids.append(el('total', el('array', el('dimension', _='gridpoints', dim='1'), el('field', _='energy'), el('set', *tot))))
        if 'partial' in self.with_:
            ions = []
            for a in range(self.n):
                ss = []
                for s, c in enumerate(self.spins()):
                    rows = Rows(f'{tag}_par_a{a}_s{s}', self.ndos, 10)
                    self.exp[tag, 'partial', a, s] = rows
                    ss.append(el('set', *rows.els('r'), comment=c))
                ions.append(el('set', *ss, comment=f'ion {a + 1}'))
            kids.append(el('partial', el('array', el('dimension', _='gridpoints', dim='1'), el('field', _='energy'), el('set', *ions))))
        return el('dos', *kids, **attrib)

    def calculation(self, c, m):
        last = c == len(self.steps)
        kids = []
        for j in range(m):
            kids.append(el('scstep', row_el('time', [T('dec', f'c{c}t{j}'), T('dec', f'c{c}u{j}')], name='diis'), self.energy(f'c{c}_sc{j}', j == 0)))
        if self.has('structure'):
            kids.append(self.structure(f'c{c}'))
        for nm, n in (('forces', self.n), ('stress', 3)):
            if self.has(nm):
                r = Rows(f'c{c}_{nm}', n, 3)
                self.exp[c, nm] = r
                kids.append(el('varray', *r.els(), name=nm))
        if 'epsilon' in self.with_ and last:
            self.exp['epsilon_rpa'] = Rows('epsrpa', 3, 3)
            kids.append(el('varray', *self.exp['epsilon_rpa'].els(), name='epsilon_rpa'))
            self.exp['epsilon'] = Rows('eps', 3, 3)
            kids.append(el('varray', *self.exp['epsilon'].els(), name='epsilon'))
        if 'epsilon_ion' in self.with_ and last:
            self.exp['epsilon_ion'] = Rows('epsion', 3, 3)
            kids.append(el('varray', *self.exp['epsilon_ion'].els(), name='epsilon_ion'))
        if 'born' in self.with_ and last:
            rows = [Rows(f'born_a{a}', 3, 3) for a in range(self.n)]
            self.exp['born'] = rows
            kids.append(el('array', el('dimension', _='ion', dim='1'), *[el('set', *r.els()) for r in rows], name='born_charges'))
        if 'decoys' in self.with_:
            kids.append(el('kpoints', el('generation', row_el('v', [T('nat', f'c{c}div{i}') for i in range(3)], type='int', name='divisions'),
                                         row_el('v', [T('dec', f'c{c}gv{i}') for i in range(3)], name='genvec1'), param='Gamma'), *self.kvar(self.kset(f'c{c}kp', self.nk + 1))))
        if self.has('energy'):
            kids.append(self.energy(f'c{c}_fin'))
        if last:
            kids += self.tail(c)
        kids.append(row_el('time', [T('dec', f'c{c}tt'), T('dec', f'c{c}tu')], name='totalsc'))
        return el('calculation', *kids)

    def tail(self, c):
        kids = []
        W = self.with_
        if 'dynmat' in W:
            h, ev = Rows('hess', 3 * self.n, 3 * self.n), Rows('dynvec', 3 * self.n, 3 * self.n)
            lam = [T('dec', f'dynval{i}') for i in range(3 * self.n)]
            self.exp['hessian'], self.exp['dynvec'], self.exp['dynval'] = h, ev, lam
            fc = []
            if 'decoys' in W:
                sets = [el('set', *[el('set', *Rows(f'fc{a}_{b}', 3, 3).els('r'), comment=f'ion {b + 1}') for b in range(self.n)], comment=f'ionprim {a + 1}') for a in range(self.n)]
                fc = [el('array', el('dimension', _='cart_super', dim='1'), el('field', _='f_cart_prim_1'), el('set', *sets), name='force_constants')]
            kids.append(el('dynmat', el('varray', *h.els(), name='hessian'), row_el('v', lam, name='eigenvalues'), el('varray', *ev.els(), name='eigenvectors'), *fc))
        special = []
        if 'velocities' in W:
            self.kv = self.kset('velk', 2)
            special.append(el('eigenvelocities', el('kpoints', *self.kvar(self.kv)), el('eigenvalues', self.bands('vel', 4, 2)), comment='interpolated'))
        if 'eig_specific' in W:
            self.ks = self.kset('spk', 2)
            special.append(el('eigenvalues', el('kpoints', *self.kvar(self.ks)), el('eigenvalues', self.bands('eigsp', 1, 2)), comment='interpolated'))
        if 'dos_specific' in W:
            special.append(self.dos('dossp', comment='interpolated'))
        if 'late_specific' not in W:
            kids += special
        if 'dielectric' in W:
            im, re_ = Rows('dim', self.ndos, 7), Rows('dre', self.ndos, 7)
            self.exp['imag'], self.exp['real'] = im, re_
            arr_ = lambda r: el('array', el('dimension', _='gridpoints', dim='1'), el('field', _='energy'), el('set', *r.els('r')))
            kids.append(el('dielectricfunction', el('imag', arr_(im)), el('real', arr_(re_))))
        if self.has('eigenvalues'):
            kids.append(el('eigenvalues', self.bands('eig', self.cols)))
        if 'decoys' in W:
            kids.append(el('separator', row_el('v', [T('dec', f'magdip{i}') for i in range(3)], name='MAGDIPOLOUT'), name='orbital magnetization'))
        if self.has('dos'):
            kids.append(self.dos('dos'))
        if 'late_specific' in W:
            kids += special
        if 'projected' in W:
            sets = []
            for s, cm in enumerate(self.spins('spin%d')):
                ks = []
                for k in range(self.nk):
                    bs = []
                    for b in range(self.nb):
                        r = Rows(f'prj_s{s}_k{k}_b{b}', self.n, 9)
                        self.exp['proj', s, k, b] = r
                        bs.append(el('set', *r.els('r'), comment=f'band {b + 1}'))
                    ks.append(el('set', *bs, comment=f'kpoint {k + 1}'))
                sets.append(el('set', *ks, comment=cm))
            kids.append(el('projected', el('eigenvalues', self.bands('eig', self.cols)),
                           el('array', el('dimension', _='ion', dim='1'), el('field', _='s'), el('field', _='py'), el('set', *sets))))
        return kids

    # ------------------------------------------------------------ expected values

    def calcs(self):
        return range(1, len(self.steps) + 1)

    def band_array(self, tag, col, s, k_first, nk=None):
        """[band][kpoint] (or [kpoint][band]) of column col (all columns when None) of spin s"""
        nk = nk or self.nk
        rows = self.exp[tag, s].t
        v = lambda k, b: FLT(rows[k * self.nb + b][col]) if col is not None else [FLT(x) for x in rows[k * self.nb + b]]
        if k_first:
            return ND([[v(k, b) for b in range(self.nb)] for k in range(nk)])
        return ND([[v(k, b) for k in range(nk)] for b in range(self.nb)])

    def projectors(self, s, k_first):
        v = lambda a, k, b: [FLT(x) for x in self.exp['proj', s, k, b].t[a]]
        if k_first:
            return ND([[[v(a, k, b) for b in range(self.nb)] for k in range(self.nk)] for a in range(self.n)])
        return ND([[[v(a, k, b) for k in range(self.nk)] for b in range(self.nb)] for a in range(self.n)])

    def channels(self, f):
        names = ['total'] if self.spin == 1 else ['up', 'down']
        return {n: f(s) for s, n in enumerate(names)}

    def dos_value(self, tag):
        """nested dict of expected values of a density of states"""
        col = lambda s, j: ND([FLT(r[j]) for r in self.exp[tag, 'total', s].t])
        part = (lambda s: ND([[[FLT(x) for x in r[1:]] for r in self.exp[tag, 'partial', a, s].t] for a in range(self.n)])) if 'partial' in self.with_ else (lambda s: NONE)
        fermi = FLT(T('dec', f'{tag}_efermi')) if self.has('efermi') else NONE
        one = lambda s: {'total': col(s, 1), 'integrated': col(s, 2), 'partial': part(s)}
        if self.spin == 1:
            return {'total': {**one(0), 'energy': col(0, 0), 'fermi_level': fermi}}
        return {'up': one(0), 'down': one(1), 'total': {'energy': col(0, 0), 'fermi_level': fermi}}

    def doc(self, **kw):
        return XDoc(self.root, **kw)


def toks(t):
    """the unknown fields in a term"""
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if x.op == 'tok':
            out.add(x)
        todo += [y for y in x.args if isinstance(y, Term)]
        if x.op == 'const' and isinstance(x.args[1], str):
            todo.append(docs.dec(x.args[1]))
    return out


def xquery(A, doc, fn, how='path', **kw):
    """construct Xml from the document and read fn from it"""
    return query(A, 'Xml', doc, fn, how=how, **kw)


def as_dict(t):
    """term -> nested python dict of terms (None when not a known dict)"""
    if t.op == 'dict':
        r = {}
        for x in t.args:
            if x.op != 'kv' or not is_const(x.args[0]):
                return None
            r[cval(x.args[0])] = as_dict(x.args[1]) if x.args[1].op == 'dict' else x.args[1]
        return r
    return None


def compare(v, want):
    """True / False / None: value term against nested dict / term"""
    if isinstance(want, dict):
        d = as_dict(v) if isinstance(v, Term) else v
        if d is None:
            return None if isinstance(v, Term) and not known(v) else False
        if set(d) != set(want):
            return False
        rs = [compare(d[k], want[k]) for k in want]
        return False if False in rs else None if None in rs else True
    if isinstance(v, dict):
        return False
    return same(arrays.norm(v), arrays.norm(want))


def xitems(A, doc, calls, how='path', **kw):
    """construct Xml and evaluate several accessor calls on it: value is the list of their results"""
    def fn(st, o):
        return mk('list', *[A.call_method(st, o, m, [a if isinstance(a, Term) else const(a) for a in args],
                                          {k: (v if isinstance(v, Term) else A.newlist(st, [const(x) for x in v]) if isinstance(v, list) else const(v)) for k, v in ks.items()}, None)
                            for m, args, ks in calls])
    return xquery(A, doc, fn, how=how, **kw)


@percase
def expect_items(ctx, rule, construct, outs, names, wants):
    """the returned list holds the wanted values (nested dict / term / tuple of alternatives / callable judge)"""
    E = verdict(outs)
    rets = returned(outs)
    if len(E) != 1 or not rets:
        return expect_value(ctx, rule, construct, outs, lambda v: None)
    for i, (nm, w) in enumerate(zip(names, wants)):
        con = f'{construct}: {nm}'
        rs = []
        for o in rets:
            v = o.val.args[i] if o.val.op == 'list' and len(o.val.args) == len(wants) else None
            if v is None:
                rs.append((None, o.val))
                continue
            alts = w if isinstance(w, tuple) else (w,)
            r = [a(v) if callable(a) else compare(v, a) for a in alts]
            rs.append((True if True in r else None if None in r else False, v))
        bad = [v for r, v in rs if r is False]
        und = [v for r, v in rs if r is None]
        if bad:
            ctx.viol(rule, con, f'is {show(bad[0])[:260]}, expected {brief(w)[:260]}')
        elif und:
            ctx.undecided(rule, con, 'not recognised: ' + show(und[0])[:160])
        else:
            ctx.ok(rule, con)


def brief(w):
    if isinstance(w, tuple):
        return ' or '.join(brief(x) for x in w)
    if isinstance(w, dict):
        return '{' + ', '.join(f'{k}: {brief(x)}' for k, x in w.items()) + '}'
    if callable(w):
        return getattr(w, '__doc__', None) or 'something else'
    return show(w)
