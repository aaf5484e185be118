"""POSCAR documents and the values they stand for."""
import re

from ..docrun import *

T = tok
f = lambda n: T('dec', n)   # noqa


def vec(p, kind='dec'):
    return [T(kind, f'{p}{i}') for i in '123']


def ln(v, *more):
    out = ['  ']
    for x in v:
        out += [x, '   ']
    for m in more:
        out += [m, ' ']
    return out[:-1]


class Doc:
    """one document: lines plus the meaning of its fields"""

    def __init__(self, frame='Direct', selective=None, flags=None, species=(('A', 2), ('B', 1)), scale='1.0', vel=None, pred=False, tail=(), comment=True, blank=0, kind='dec', alias=None):
        vec = lambda p, kind='dec': [T(kind, re.sub(*alias, p + i) if alias else p + i) for i in '123']   # noqa
        self.cell = [vec('a', kind), vec('b', kind), vec('c', kind)]
        self.species = [(T('word', s), n) for s, n in species]
        self.names = [s for s, n in self.species for _ in range(n)]
        k = len(self.names)
        self.pos = [vec(f'p{i}_', kind) for i in range(k)]
        self.vel = [vec(f'v{i}_', kind) for i in range(k)] if vel else None
        self.pred = [vec(f'r{i}_', kind) for i in range(k)] if pred else None
        self.frame, self.selective, self.velframe = frame, selective, vel
        self.scale = scale if isinstance(scale, str) else None
        self.stok = scale
        self.comment = T('word', 'title')
        L = [['# ' if comment == '#' else '', self.comment], [scale]] + [ln(v) for v in self.cell]
        L.append(['  '] + [x for s, n in self.species for x in (s, '  ')])
        L.append(['  ' + '  '.join(str(n) for s, n in self.species)])
        if selective:
            L.append([selective])
        L.append([frame])
        self.flags = flags
        for i, v in enumerate(self.pos):
            L.append(ln(v, *(flags[i] if selective else ())))
        if vel:
            L.append([vel])
            L += [ln(v) for v in self.vel]
        if pred:
            L.append([' ' * blank])
            L += [ln(v) for v in self.pred]
        for t in tail:
            L.append([t])
        self.lines = lines_of(*L)

    # meaning
    def s(self, x):
        return ops.mul(FLT(self.stok), x) if self.scale is None else ops.mul(const(float(self.scale)), x)

    def cellval(self):
        return ND([[self.s(FLT(x)) for x in v] for v in self.cell])

    def cart(self):
        return self.frame[0] in 'CcKk'

    def posval(self, i):
        if self.cart():
            return arrays.dot(ND([self.s(FLT(x)) for x in self.pos[i]]), arrays.inv(self.cellval()))
        return ND([FLT(x) for x in self.pos[i]])

    def velval(self, i):
        if self.vel is None:
            return NONE
        v = ND([FLT(x) for x in self.vel[i]])
        return arrays.dot(v, arrays.inv(self.cellval())) if self.velframe[0] in 'CcKk' else v

    def predval(self, i):
        return NONE if self.pred is None else ND([FLT(x) for x in self.pred[i]])

    def cartof(self, v):
        return v if v is NONE else arrays.dot(v, self.cellval())

    def want(self, direct=True, fields=('position', 'velocities', 'predictors', 'direct', 'specie', 'selective')):
        w = {('unitcell',): self.cellval()}
        for i in range(len(self.names)):
            p, v = self.posval(i), self.velval(i)
            if not direct:
                p, v = self.cartof(p), self.cartof(v)
            d = {'position': p, 'velocities': v, 'predictors': self.predval(i), 'direct': const(direct),
                 'selective': mk('list', *(const(x[0] in 'Tt' or x in ('.TRUE.', '.T.')) for x in (self.flags[i] if self.selective else 'TTT')))}
            for k in fields:
                if k in d:
                    w[('sites', i, k)] = d[k]
        return w


def cls_sites(A, st, sites):
    """Site instances from (specie, position, selective, velocities, predictors, direct)"""
    c = A.cls('Site')
    return [A.call_value(st, c, [], {'specie': s, 'position': p, 'selective': A.alloc(st, 'list', mk('list', *map(const, fl))), 'velocities': v, 'predictors': r,
                                     'direct': const(d)}, None) for s, p, fl, v, r, d in sites]


def plain_sites(A, st, sites):
    """Site instances of which only species and position are given"""
    return [A.call_value(st, A.cls('Site'), [s, p] if i % 2 else [], {} if i % 2 else {'specie': s, 'position': p}, None) for i, (s, p, *_) in enumerate(sites)]


def dict_sites(A, st, sites):
    out = []
    for s, p, fl, v, r, d in sites:
        out.append(A.alloc(st, 'dict', mk('dict', *(mk('kv', const(k), x) for k, x in (
            ('specie', s), ('position', p), ('selective', A.alloc(st, 'list', mk('list', *map(const, fl)))), ('velocities', v), ('predictors', r), ('direct', const(d)))))))
    return out


def poscar_dict(A, names, style, direct, vel=False, pred=False, flags=None, comment=True, cell=None, alias=None):
    """builder of a poscar_dict argument; values are opaque numbers"""
    F = lambda n: docs.val('float', re.sub(*alias, n) if alias else n)   # noqa
    V = lambda p: [F(p + i) for i in '123']   # noqa
    cellv = cell or [V('a'), V('b'), V('c')]
    n = len(names)
    direct = direct if isinstance(direct, (list, tuple)) else [direct] * n

    def build(st):
        sites = []
        for i, s in enumerate(names):
            sites.append((s, arr(A, st, V(f'p{i}_')), flags[i] if flags else [True] * 3, arr(A, st, V(f'v{i}_')) if vel else NONE,
                          arr(A, st, V(f'r{i}_')) if pred else NONE, direct[i]))
        objs = {'site': cls_sites, 'plain': plain_sites, 'dict': dict_sites}[style](A, st, sites)
        d = mk('dict', mk('kv', const('comment'), T('word', 'title') if comment else NONE), mk('kv', const('unitcell'), arr(A, st, cellv)),
               mk('kv', const('sites'), A.alloc(st, 'list', mk('list', *objs))))
        return {'poscar_dict': A.alloc(st, 'dict', d)}

    class M:
        pass
    m = M()
    m.build = build
    m.cell = ND(cellv)
    m.names = names
    m.comment = T('word', 'title') if comment else None

    def conv(v, i):
        return v if direct[i] else arrays.dot(v, arrays.inv(m.cell))
    m.pos = [conv(ND(V(f'p{i}_')), i) for i in range(n)]
    m.vel = [conv(ND(V(f'v{i}_')), i) if vel else NONE for i in range(n)]
    m.pred = [ND(V(f'r{i}_')) if pred else NONE for i in range(n)]
    m.cart = lambda v: v if v is NONE else arrays.dot(v, m.cell)
    return m
