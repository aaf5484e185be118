"""C27: EIGENVAL and CHGCAR values land at their own index."""
import re

from .poscardoc import T, f
from ..docrun import *
from .. import ops


class EigDoc:
    def __init__(self, nk, nb, ns, occ=True, order=None, coord='CAR', name=None, first=' ', sep='', ions=3, alias=None):
        f = lambda n: T('dec', re.sub(*alias, n) if alias else n)   # noqa
        self.name = name or T('word', 'system')
        self.h = [str(ions), T('nat', 'atoms'), T('nat', 'p00'), str(ns)]
        self.l1 = [f(f'v{i}') for i in range(5)]
        self.l2 = f('temp')
        self.some = T('nat', 'some')
        sp = lambda xs: sum(([x, '   '] for x in xs), [])[:-1]
        L = [['   '] + sp(self.h), ['  '] + sp(self.l1), ['  ', self.l2], ['  ', coord], [' '] + (list(self.name) if isinstance(self.name, list) else [self.name]),
             ['   ', self.some, '   ', str(nk), '   ', str(nb)]]
        order = order or list(range(nb))
        self.kp = [[f(f'k{k}_{c}') for c in range(3)] + [T('posf', f'w{k}')] for k in range(nk)]
        self.e = [[[f(f'e{s}_{k}_{b}') for b in range(nb)] for k in range(nk)] for s in range(ns)]
        for k in range(nk):
            L.append([first if k == 0 else sep])
            L.append(['  '] + sp(self.kp[k]))
            for b in order:
                row = [str(b + 1)] + [self.e[s][k][b] for s in range(ns)]
                if occ:
                    row += [T('posf', f'o{s}_{k}_{b}') for s in range(ns)]
                L.append(['    '] + sp(row))
        self.lines = lines_of(*L)


def check(ctx):
    A = ctx.A
    ctx.rule('eigenvalues', 'EIGENVAL eigenvalues are stored at [spin, k-point, band]')
    ctx.rule('kpoints', 'EIGENVAL k-points are stored in order with their weight')
    ctx.rule('metadata', 'EIGENVAL metadata come from their own header positions')
    ctx.rule('densities', 'every CHGCAR data set is reshaped with the reversed grid and divided by the volume')
    ctx.rule('datasets', 'the number of CHGCAR data sets decides which densities are there')
    ctx.floor = 150
    full = ctx.tier != 'quick'
    sizes = [(1, 1), (1, 3), (2, 1), (3, 2)] + ([(2, 4), (4, 3), (1, 10), (10, 1)] if full else [])
    for nk, nb in sizes:
        for ns in (1, 2):
            for occ in (True, False):
                for perm in (None, list(reversed(range(nb)))):
                    for first, sep in ((' ', ' '), ('', ''), (' ', '')):
                        for how in ('path', 'handle') if nk == 3 else ('path',):
                            d = EigDoc(nk, nb, ns, occ, perm, first=first, sep=sep)
                            nm = f'{nk} k-points, {nb} bands, {ns} spins{", occupancies" if occ else ""}{", reversed" if perm else ""}, blank {(first, sep)}, {how}'
                            guard(ctx, 'eigenvalues', nm, lambda: eig(ctx, nm, d, how))
    # values that occur more than once
    for what, alias in (('k-points', (r'^k\d_', 'k_')), ('bands', (r'^(e\d_\d)_\d', r'\1_')), ('energies', (r'^e.*', 'e')), ('spins', (r'^e\d', 'e')), ('coordinates', (r'^(k\d)_\d', r'\1_'))):
        for nk, nb, ns in ((3, 2, 1), (2, 3, 2)):
            for perm in (None, list(reversed(range(nb)))):
                d = EigDoc(nk, nb, ns, True, perm, alias=alias)
                nm = f'{nk} k-points, {nb} bands, {ns} spins, {what} that are equal{", reversed" if perm else ""}'
                guard(ctx, 'eigenvalues', nm, lambda: eig(ctx, nm, d, 'path'))
    for coord, cart in (('CAR', True), ('car', True), ('DIR', False), ('Cartesian', True), ('direct', False)):
        for name in (None, [T('word', 'n1'), '  ', T('word', 'n2')], ['unknown system']):
            for nk, nb, ns, ions in ((2, 3, 1, 3), (3, 2, 2, 11)):
                d = EigDoc(nk, nb, ns, coord=coord, name=name, ions=ions)
                nm = f'{coord}, name of {1 if name is None else len(name)} parts, {ns} spins'
                sysname = d.name if isinstance(d.name, Term) else text(*d.name)
                l0 = [const(ions), INT(d.h[1]), INT(d.h[2]), const(ns)]
                e = {'n_ions': l0[0], 'n_atoms': l0[1], 'p00': l0[2], 'nspin': l0[3], 'cartesian': const(cart), 'name': sysname, 'some_num': INT(d.some), 'n_bands': const(nb),
                     'n_kp': const(nk), 0: mk('list', *l0), 1: mk('list', *map(FLT, d.l1)), 2: FLT(d.l2)}
                guard(ctx, 'metadata', nm, lambda: expect_fields(ctx, 'metadata', nm, query(A, 'Eigenval', d.lines, meth(A, 'get_metadata')), {(k,): v for k, v in e.items()}))
    grids = [(1, 1, 1), (1, 2, 3), (2, 1, 1), (3, 1, 2), (2, 3, 1)] + ([(2, 3, 4), (4, 2, 3), (5, 1, 2), (3, 4, 5)] if full else [])
    for g in grids:
        for sets in (1, 2, 4):
            for aug in (False, True):
                for width in (5, 3):
                    for how in ('path', 'handle') if g == (1, 2, 3) else ('path',):
                        nm = f'grid {g}, {sets} data sets{", augmentation occupancies" if aug else ""}, {width} per line, {how}'
                        guard(ctx, 'densities', nm, lambda: chg(ctx, nm, ChgDoc(g, sets, aug, width), how))

    for what, alias in (('sets', (r'^d\d_', 'd_')), ('values', (r'^d.*', 'd')), ('lattice vectors', (r'^l(01|02|10|12|20|21)', 'l')), ('lattice parameters', (r'^l..', 'l'))):
        for sets in (1, 2, 4):
            for aug in (False, True):
                nm = f'grid (3, 1, 2), {sets} data sets{", augmentation occupancies" if aug else ""}, {what} that are equal'
                guard(ctx, 'densities', nm, lambda: chg(ctx, nm, ChgDoc((3, 1, 2), sets, aug, 5, alias=alias), 'path'))


def eig(ctx, nm, d, how):
    A = ctx.A
    want = nd(*(nd(*(nd(*map(FLT, b)) for b in s)) for s in d.e))
    def fn(st, o):
        return mk('tuple', A.freeze(st, A.call_value(st, A.getattr(st, o, 'get_eigenvalues'), [], {}, None), True), A.freeze(st, A.call_value(st, A.getattr(st, o, 'get_kpoints'), [], {}, None), True))
    outs = query(A, 'Eigenval', d.lines, fn, how=how)
    expect_value(ctx, 'eigenvalues', nm, outs, lambda v: same(v.args[0], want))
    expect_value(ctx, 'kpoints', nm, outs, lambda v: same(v.args[1], nd(*(nd(*map(FLT, k)) for k in d.kp))))


class ChgDoc:
    def __init__(self, grid, sets, aug, width, species=2, alias=None):
        f = lambda n: T('dec', re.sub(*alias, n) if alias else n)   # noqa
        nx, ny, nz = grid
        self.grid = grid
        self.scale = T('posf', 'scale')
        self.lat = [[f(f'l{i}{j}') for j in range(3)] for i in range(3)]
        sp = lambda xs: sum(([x, '   '] for x in xs), [])[:-1]
        s1 = lambda xs: sum(([x, ' '] for x in xs), [])[:-1]
        L = [[T('word', 'comment')], ['   ', self.scale]] + [['   '] + sp(r) for r in self.lat] + [['   Si   C'], ['     2     1'], ['Direct']]
        L += [['  '] + sp([f(f'p{a}{c}') for c in range(3)]) for a in range(3)]
        L.append([''])
        n = nx * ny * nz
        self.data = []
        for s in range(sets):
            L.append([f'   {nx}   {ny}   {nz}'])
            self.data.append([f(f'd{s}_{i}') for i in range(n)])
            for i in range(0, n, width):
                L.append([' '] + s1(self.data[-1][i:i + width]))
            if aug:
                for a in range(2):
                    L.append([f'augmentation occupancies   {a + 1}  3'])
                    L.append(['  '] + s1([f(f'a{s}_{a}_{i}') for i in range(3)]))
                if s < sets - 1:
                    L.append(['  '] + s1([f(f'm{s}_{i}') for i in range(3)]))
        self.lines = lines_of(*L)

    def rows(self, s):
        """[z][y][x] of the data printed with x fastest"""
        nx, ny, nz = self.grid
        return [[[self.data[s][x + nx * (y + ny * z)] for x in range(nx)] for y in range(ny)] for z in range(nz)]


def chg(ctx, nm, d, how):
    A = ctx.A
    sets = len(d.data)
    def fn(st, o):
        return mk('tuple', *(A.freeze(st, A.getattr(st, o, x), True) for x in ('charge_density', 'magnetization_density')))
    outs = query(A, 'Chgcar', d.lines, fn, how=how)
    def judge(v):
        tot, mag = v.args
        parts = [(tot, 0)]
        if sets == 1:
            if mag is not NONE:
                return False if known(mag) else None
        elif sets == 2:
            parts.append((mag, 1))
        else:
            if mag.op != 'dict' or any(a.op != 'kv' for a in mag.args):
                return None
            kv = {cval(a.args[0]): a.args[1] for a in mag.args}
            if set(kv) != {'x', 'y', 'z'}:
                return False
            parts += [(kv[c], i + 1) for i, c in enumerate('xyz')]
        r = True
        for t, s in parts:
            q = density(t, d, s)
            if q is False:
                return False
            if q is None:
                r = None
        return r
    expect_value(ctx, 'densities', nm, outs, judge)
    expect_value(ctx, 'datasets', nm, outs, lambda v: {1: v.args[1] is NONE, 2: arrays.is_array(v.args[1]), 4: v.args[1].op == 'dict'}[sets])


class Poly:
    """rational functions of the fields: equality of formulas independent of how they are written"""

    def __init__(self, det=None):
        self.memo, self.det = {}, det

    def of(self, t):
        """(numerator, denominator) as {monomial: coefficient}; None if not a formula of the fields"""
        if t not in self.memo:
            self.memo[t] = self._of(t)
        return self.memo[t]

    def _of(self, t):
        if is_const(t) and isinstance(cval(t), (int, float)):
            return ({(): cval(t)} if cval(t) else {}), {(): 1}
        if t.op in ('nd', 'list', 'tuple'):
            return None
        n = t.args[0].args[0] if t.op == 'call' and t.args[0].op in ('ext', 'method') else None
        if n == 'float' and t.args[1].op == 'tok':
            return {(show(t.args[1]),): 1}, {(): 1}
        if t.op == 'mul':
            r = ({(): 1}, {(): 1})
            for x in t.args:
                r = self.times(r, self.of(x))
            return r
        if t.op == 'div':
            b = self.of(t.args[1])
            return self.times(self.of(t.args[0]), b and (b[1], b[0]))
        if t.op == 'lin':
            r = ({(): t.args[0]} if t.args[0] else {}, {(): 1})
            for k, x in t.args[1]:
                r = self.plus(r, self.times(({(): k}, {(): 1}), self.of(x)))
            return r
        if t.op == 'pow' and is_const(t.args[1]) and isinstance(cval(t.args[1]), int) and 0 <= cval(t.args[1]) < 6:
            r = ({(): 1}, {(): 1})
            for _ in range(cval(t.args[1])):
                r = self.times(r, self.of(t.args[0]))
            return r
        if t.op == 'dot' or n in ('numpy.dot', 'numpy.vdot', 'numpy.inner'):
            a, b = (self.vec(x) for x in t.args[-2:])
            return self.inner(a, b) if a and b else None
        if n == 'numpy.linalg.det':
            m = t.args[1]
            v = [self.vec(x) for x in m.args] if m.op in ('nd', 'list') else []
            return self.inner(v[0], self.cross(v[1], v[2])) if len(v) == 3 and all(v) else None
        if n in ('abs', 'numpy.abs', 'numpy.absolute', 'numpy.fabs'):
            r = self.of(t.args[1])
            if r and self.det and (self.equal(r, self.det) or self.equal(self.times(({(): -1}, {(): 1}), r), self.det)):
                return self.det
        return None

    def vec(self, t):
        if t.op in ('nd', 'list', 'tuple') and len(t.args) == 3:
            r = [self.of(x) for x in t.args]
            return r if all(r) else None
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'numpy.cross' and len(t.args) == 3:
            a, b = self.vec(t.args[1]), self.vec(t.args[2])
            return self.cross(a, b) if a and b else None
        if t.op == 'mul':
            v = [self.vec(x) for x in t.args]
            if sum(x is not None for x in v) == 1:
                r = next(x for x in v if x is not None)
                for x, y in zip(t.args, v):
                    if y is None:
                        r = [self.times(z, self.of(x)) for z in r]
                return r if all(r) else None
        return None

    def cross(self, a, b):
        m = lambda i, j: self.plus(self.times(a[i], b[j]), self.times(({(): -1}, {(): 1}), self.times(a[j], b[i])))
        return [m(1, 2), m(2, 0), m(0, 1)]

    def inner(self, a, b):
        r = ({}, {(): 1})
        for x, y in zip(a, b):
            r = self.plus(r, self.times(x, y))
        return r

    @staticmethod
    def pm(a, b):
        out = {}
        for x, k in a.items():
            for y, l in b.items():
                m = tuple(sorted(x + y))
                out[m] = out.get(m, 0) + k * l
        return {m: k for m, k in out.items() if k}

    @staticmethod
    def pa(a, b):
        out = dict(a)
        for m, k in b.items():
            out[m] = out.get(m, 0) + k
        return {m: k for m, k in out.items() if k}

    def times(self, a, b):
        if a is None or b is None:
            return None
        return self.pm(a[0], b[0]), self.pm(a[1], b[1])

    def plus(self, a, b):
        if a is None or b is None:
            return None
        if a[1] == b[1]:
            return self.pa(a[0], b[0]), a[1]
        return self.pa(self.pm(a[0], b[1]), self.pm(b[0], a[1])), self.pm(a[1], b[1])

    def equal(self, a, b):
        return self.pm(a[0], b[1]) == self.pm(b[0], a[1])


def density(t, d, s, poly=None):
    """values [z][y][x] of data set s divided by the volume"""
    P_ = d.poly = getattr(d, 'poly', None) or Poly()
    if P_.det is None:
        lat = [[P_.times(P_.of(FLT(d.scale)), P_.of(FLT(x))) for x in r] for r in d.lat]
        P_.det = P_.inner(lat[0], P_.cross(lat[1], lat[2]))
    nx, ny, nz = d.grid
    if t.op != 'nd':
        return None
    sh = arrays.shape(t)
    if sh != (nz, ny, nx):
        return False if sh is not None else None
    r = True
    for got, want in zip(arrays.flatten(t), [v for z in d.rows(s) for y in z for v in y]):
        g = P_.of(got)
        if g is None:
            r = None
        elif not P_.equal(g, P_.times(P_.of(FLT(want)), (P_.det[1], P_.det[0]))):
            return False
    return r
