"""KPOINTS documents and the values they stand for."""
import re

from .poscardoc import T, f, vec, ln
from ..docrun import *


def aliased(alias):
    """fields and vectors of which some are equal"""
    g = lambda n, kind='dec': T(kind, re.sub(*alias, n) if alias else n)   # noqa
    return g, lambda p, kind='dec': [g(f'{p}{i}', kind) for i in '123']


class KDoc:
    """explicit / automatic / line documents with the expected entries"""

    def __init__(self, mode, frame='Direct', n=2, weights=True, tetra=None, shifts=True, center='Gamma', tail=(), num=None, hash_=False, tetra_words=5, sep='', alias=None):
        f, vec = aliased(alias)
        self.comment = T('word', 'title')
        L = [['# ' if hash_ else '', self.comment]]
        e = {'comment': self.comment, 'divisions': NONE, 'generating_vectors': NONE, 'shifts': NONE, 'tetra': NONE, 'tetra_volume': NONE, 'centering': NONE, 'mode': const(mode)}
        self.mode = mode
        self.points = None
        if mode == 'explicit':
            L += [[str(n)], [frame]]
            self.points = [vec(f'k{i}_') for i in range(n)]
            self.weights = [f(f'w{i}') for i in range(n)] if weights else [None] * n
            for p, w in zip(self.points, self.weights):
                L.append(ln(p, *([w] if w is not None else [])))
            e['num_kpoints'] = const(n)
            if tetra is not None:
                vol = f('vol')
                L += [[tetra], ['  2  ', vol]]
                self.tetra = [[f(f't{i}{j}', 'nat') for j in range(tetra_words)] for i in range(2)]
                L += [ln(t) for t in self.tetra]
                e['tetra'] = mk('list', *(mk('list', *(INT(x) for x in t)) for t in self.tetra))
                e['tetra_volume'] = FLT(vol)
        elif mode == 'automatic':
            L += [[num or '0'], [center]]
            c = center[0].lower()
            e['num_kpoints'] = INT(num) if isinstance(num, Term) else const(int(num or 0))
            if c in 'gm':
                self.div = [f(f'd{i}', 'nat') for i in '123']
                L.append(ln(self.div))
                e['divisions'] = mk('list', *(INT(x) for x in self.div))
                e['centering'] = const('Gamma' if c == 'g' else 'Monkhorst-Pack')
            elif c == 'r':
                self.gen = [vec(f'g{i}_') for i in range(3)]
                L += [ln(v) for v in self.gen]
                e['generating_vectors'] = mk('list', *(mk('list', *(FLT(x) for x in v)) for v in self.gen))
                e['centering'] = const('Reciprocal')
            if shifts:
                self.sh = vec('s')
                L.append(ln(self.sh))
                e['shifts'] = mk('list', *(FLT(x) for x in self.sh))
        else:
            L += [[str(num or 20)], [center if center[0] in 'lL' else 'Line-mode'], [frame]]
            self.points = [vec(f'k{i}_') for i in range(n)]
            self.weights = [None] * n
            for i, p in enumerate(self.points):
                L.append(ln(p))
                if i % 2 and i < n - 1:
                    L.append([sep])
            e['num_kpoints'] = const(int(num or 20))
        for t in tail:
            L.append([t])
        self.lines = lines_of(*L)
        self.entries = e

    def want(self):
        w = {(k,): v for k, v in self.entries.items()}
        if self.points is None:
            w[('points',)] = NONE
        else:
            for i, p in enumerate(self.points):
                w[('points', i, 0)] = ND([FLT(x) for x in p])
                w[('points', i, 1)] = FLT(self.weights[i]) if self.weights[i] is not None else (const(1.0) if self.mode == 'line' else NONE)
        return w


def kpoints_dict(A, mode, n=2, weights=True, tetra=False, centering=None, shifts=False, gen=False, comment=True, num=None, alias=None):
    """builder of a kpoints_dict argument"""
    F = lambda x: docs.val('float', re.sub(*alias, x) if alias else x)   # noqa
    I = lambda x: docs.val('int', re.sub(*alias, x) if alias else x)   # noqa
    V = lambda p: [F(p + i) for i in '123']   # noqa
    m = type('M', (), {})()
    m.points = [V(f'k{i}_') for i in range(n)] if mode != 'automatic' else None
    m.weights = [F(f'w{i}') if weights else NONE for i in range(n)]
    m.tetra = [[I(f't{i}{j}') for j in range(5)] for i in range(tetra if tetra > 1 else 2)] if tetra else None
    m.div = [I(f'd{i}') for i in '123'] if mode == 'automatic' and not gen else None
    m.gen = [V(f'g{i}_') for i in range(3)] if gen else None
    m.shifts = V('s') if shifts else None
    m.num = num if num is not None else const(n) if mode == 'explicit' else const(0) if mode == 'automatic' else I('num')
    m.mode, m.centering, m.vol = mode, centering, F('vol')

    def build(st):
        def li(x):
            return NONE if x is None else A.alloc(st, 'list', mk('list', *(li(y) if isinstance(y, list) else y for y in x)))
        pts = NONE
        if m.points is not None:
            c = A.cls('Kpoint')
            pts = A.alloc(st, 'list', mk('list', *(A.call_value(st, c, [], {'point': arr(A, st, p), 'weight': w, 'direct': TRUE}, None) for p, w in zip(m.points, m.weights))))
        e = (('comment', T('word', 'title') if comment else NONE), ('divisions', li(m.div)), ('generating_vectors', li(m.gen)), ('shifts', li(m.shifts)), ('points', pts),
             ('tetra', li(m.tetra)), ('tetra_volume', m.vol if tetra else NONE), ('mode', const(mode)), ('centering', const(centering)), ('num_kpoints', m.num))
        return {'kpoints_dict': A.alloc(st, 'dict', mk('dict', *(mk('kv', const(k), v) for k, v in e)))}
    m.build = build
    return m


EQUAL = [('points', (r'^k\d+_', 'k_')), ('neighbouring points', (r'^k(1|2)_', 'k1_')), ('coordinates', (r'^(k\d+)_\d', r'\1_')), ('weights', (r'^w\d+', 'w')), ('tetrahedra', (r'^t\d+', 't')),
         ('shifts and divisions', (r'^[sdg]', 's')), ('shifts', (r'^s\d', 's')), ('divisions', (r'^d\d', 'd')), ('numbers', (r'^.*', 'x'))]
