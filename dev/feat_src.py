import re
import itertools
from collections import Counter, defaultdict, OrderedDict, namedtuple
import numpy as np
import functools
import operator

def t_index():
    l = ['a', 'b', 'c']
    return l.index('b'), l.count('c'), 'c' in l
def t_sort():
    l = [3, 1, 2]
    l.sort(reverse=True)
    return l
def t_sort2():
    l = [('b', 2), ('a', 3)]
    l.sort(key=lambda x: x[1])
    return l
def t_remove():
    l = [1, 2, 3, 2]
    l.remove(2)
    return l
def t_defaultdict():
    d = defaultdict(list)
    for i, x in enumerate('abab'):
        d[x].append(i)
    return dict(d)
def t_defaultint():
    d = defaultdict(int)
    for x in ['a', 'b', 'a']:
        d[x] += 1
    return list(d.items())
def t_counter():
    c = Counter()
    for x in ['a', 'b', 'a']:
        c[x] += 1
    return c['a'], c['z']
def t_mostcommon():
    return Counter(['a', 'b', 'a', 'c']).most_common()[-1]
def t_groupby():
    return [(k, len(list(g))) for k, g in itertools.groupby(['a', 'a', 'b', 'a'])]
def t_islice():
    return list(itertools.islice(iter([1, 2, 3, 4]), 1, 3))
def t_chain():
    return list(itertools.chain([1, 2], [3])), list(itertools.chain.from_iterable([[1], [2, 3]]))
def t_zip():
    return [a + b for a, b in zip([1, 2], [3, 4])], dict(zip('ab', [1, 2]))
def t_iternext():
    it = iter([1, 2, 3])
    a = next(it)
    rest = [x for x in it]
    return a, rest, next(it, None)
def t_while():
    i, out = 0, []
    while True:
        i += 1
        if i == 2:
            continue
        if i > 4:
            break
        out.append(i)
    return out
def t_gen():
    def g(n):
        for i in range(n):
            yield i * i
    return list(g(4)), sum(g(3))
def t_genexp():
    return max(x for x in [1, 5, 3]), min((2, 1)), any(x > 4 for x in [1, 5]), all([1, 0])
def t_walrus():
    if (n := len([1, 2])) > 1:
        return n
    return 0
def t_slice():
    l = [0, 1, 2, 3, 4, 5]
    return l[1:3], l[::2], l[-2:], l[::-1], 'abcdef'[2:4]
def t_star():
    a, *b = [1, 2, 3]
    c, *d, e = (1, 2, 3, 4)
    return a, b, c, d, e, [*b, *d], {**{'a': 1}, 'b': 2}
def t_str():
    return 'a b'.split(), ' x '.strip(), 'a-b'.partition('-'), 'x{}{:3d}'.format(1, 2), f'{3:5.2f}', '%5.1f|%d' % (2.0, 3), 'ab'.upper()
def t_join():
    return ' '.join(str(x) for x in [1, 2]), ', '.join(f'{x:2d}' for x in (1, 2))
def t_map():
    return list(map(int, ['1', '2'])), list(filter(None, [0, 1, 2])), list(map(lambda a, b: a * b, [1, 2], [3, 4]))
def t_re():
    m = re.match(r'(\w+)\s*=\s*(\d+)', 'abc = 12')
    return m.group(1), m.groups(), re.findall(r'\d', 'a1b2'), re.split(r'\s+', 'a  b'), re.sub('a', 'b', 'aXa')
def t_re2():
    p = re.compile('b+')
    m = p.search('abbc')
    return m.group(), m.start(), bool(p.match('abb')), m[0]
def t_np():
    a = np.array([[1, 2], [3, 4]])
    return a[:, 0].tolist(), a.T.tolist(), a.shape, a.reshape(4).tolist(), np.zeros((2, 2)).tolist()
def t_np2():
    a = np.zeros((2, 3))
    a[0, :] = [1, 2, 3]
    a[1] = a[0] * 2
    return a.tolist(), a.shape[0]
def t_np3():
    return np.array([1.0, 2.0]).sum(), np.concatenate(([1], [2])).tolist(), np.arange(3).tolist(), np.asarray([1, 2]).size
def t_try():
    out = []
    for x in ['1', 'a', '2']:
        try:
            out.append(int(x))
        except ValueError:
            continue
        else:
            out.append('ok')
        finally:
            out.append('f')
    return out
def t_dictcomp():
    d = {k: v for k, v in [('a', 1), ('b', 2)] if v > 1}
    return d, {x for x in [1, 1, 2]}, list(d), 'b' in d, d.get('z', 5), d.pop('b'), d
def t_sorted():
    return sorted({'b': 1, 'a': 2}), sorted([(2, 'a'), (1, 'b')]), sorted({'b': 1, 'a': 2}.items(), key=lambda kv: kv[1]), list(reversed([1, 2]))
def t_sorted2():
    d = {'b': 1, 'a': 2}
    return sorted(d, key=d.get), sorted(d, key=d.__getitem__), sorted([[2, 1], [1, 2]], key=operator.itemgetter(0)), max(d, key=d.get)
def t_reduce():
    return functools.reduce(lambda a, b: a + b, [1, 2, 3], 10), sum([[1], [2]], [])
def t_forelse():
    for x in [1, 2]:
        if x == 3:
            break
    else:
        return 'none'
    return x
def t_nested():
    def inner(k):
        nonlocal n
        n += k
        return n
    n = 1
    return inner(2), inner(3)
def t_match():
    x = 'a'
    match x:
        case 'b': return 0
        case 'a' | 'c': return 1
        case _: return 2
def t_cond():
    return 1 if [] else 2, None or 3, 0 and 4, not 1, 1 < 2 < 3
def t_int():
    return int('3'), float('2.5'), 7 // 2, 7 % 3, divmod(7, 2), abs(-1), round(2.567, 1), 2 ** 3
def t_enum():
    return [(i, x) for i, x in enumerate('ab', start=1)], list(range(3, 0, -1))
def t_isinst():
    return isinstance(1, int), isinstance('a', (int, str)), isinstance(1.0, int), type(1) is int, type('a') == str
def t_set():
    s = {1, 2}
    s.add(3)
    return s & {2, 3}, s | {9}, s - {1}, len(s), {1} <= s
def t_listmul():
    return [0] * 3, [1] + [2], 'a' * 2, (1,) + (2,), [[0.0] * 2 for _ in range(2)]
def t_setdefault():
    d = {}
    d.setdefault('a', []).append(1)
    d.setdefault('a', []).append(2)
    return d
def t_delslice():
    l = [1, 2, 3, 4]
    del l[0]
    del l[-1]
    l[0:1] = [9, 9]
    return l
def t_with():
    import io
    with io.StringIO() as f:
        f.write('a')
        print('b', file=f)
        return f.getvalue()
def t_writelines():
    import io
    f = io.StringIO()
    f.writelines(['a', 'b'])
    f.writelines(x + '\n' for x in 'cd')
    return f.getvalue()
def t_namedtuple():
    P = namedtuple('P', 'x y')
    p = P(1, y=2)
    return p.x, p.y, p[0]
def t_getattr():
    class C:
        a = 1
        def f(self):
            return 2
    return getattr(C(), 'a'), hasattr(C, 'b'), getattr(C(), 'f')(), getattr(C, 'zz', 3)
def t_tern():
    out = []
    for k, (a, b) in {'x': (1, 2)}.items():
        out += [k, a, b]
    return out
def t_strmeth():
    return 'abc'.startswith(('a', 'b')), 'a,b'.rsplit(',', 1), 'abc'.find('c'), 'x'.isdigit(), '12'.isnumeric(), 'a\nb\n'.splitlines(), 'a\nb\n'.splitlines(True)
def t_any():
    return any(f in 'abc' for f in ('z', 'c')), next((x for x in [1, 2, 3] if x > 1), None)
def t_zipstar():
    return [list(x) for x in zip(*[[1, 2], [3, 4]])], list(itertools.zip_longest([1, 2], [3]))
def t_accum():
    return list(itertools.accumulate([1, 2, 3])), np.cumsum([1, 2, 3]).tolist()
def t_product():
    return list(itertools.product([0, 1], repeat=2)), list(itertools.takewhile(lambda x: x < 2, [1, 2, 1]))
def t_dictupd():
    d = dict(a=1)
    d.update(b=2)
    d |= {'c': 3}
    return d, dict(d, z=1), list(d.values())
def t_closure():
    fs = [lambda i=i: i for i in range(3)]
    return [f() for f in fs]
def t_iterwhile():
    it = iter(['a', 'b', ''])
    out = []
    for line in it:
        if line == 'a':
            out.append(next(it))
    return out
def t_iter2():
    lines = ['1', '2', '3']
    pos = 0
    def take():
        nonlocal pos
        pos += 1
        return lines[pos - 1]
    return take(), take(), pos
def t_format():
    spec = '{:{w}.{p}f}'
    return spec.format(1.5, w=8, p=3), ('{:5d} ' * 2).format(1, 2), '{0} {1} {0}'.format('a', 'b'), '{a[0]}'.format(a=[1]), f"{'x':>4}", f'{1.5:{8}.{3}f}'
def t_partial():
    f = functools.partial(lambda a, b: a - b, 5)
    return f(3)
def t_m1():
    a, b = 0, []
    for i, (x, y) in enumerate(zip([1, 2, 3], 'abc')):
        if x == 2:
            continue
        b.append((i, y))
        a += x
    return a, b
def t_m2():
    class P:
        n = 0
        def __init__(self, x):
            self.x = x
        @property
        def dbl(self):
            return self.x * 2
        @staticmethod
        def s(a):
            return a + 1
        @classmethod
        def make(cls, v):
            return cls(v)
        def __eq__(self, o):
            return self.x == o.x
        def __len__(self):
            return 3
    p = P.make(4)
    return p.dbl, P.s(1), p == P(4), len(p), p.x
def t_m3():
    def f(*a, k=1, **kw):
        return a, k, sorted(kw.items())
    return f(1, 2, k=3, z=1), f(*[1, 2], **{'q': 2})
def t_m4():
    d = {}
    for w in 'a b a'.split():
        d[w] = d.get(w, 0) + 1
    return d, sum(d.values()), max(d.values())
def t_m5():
    try:
        {}['x']
    except KeyError as e:
        return 'key', e.args[0]
def t_m6():
    try:
        raise ValueError('bad')
    except (KeyError, ValueError) as e:
        return str(e)
def t_m7():
    x = [1, 2, 3, 4, 5, 6]
    return [x[i:i + 2] for i in range(0, len(x), 2)], x[-1], x[:-1][-1], list(zip(*[iter(x)] * 3))
def t_m8():
    lines = 'a=1 # c\n\nb = 2; c=3\n'.splitlines()
    out = {}
    for l in lines:
        l = l.split('#')[0].strip()
        if not l:
            continue
        for p in l.split(';'):
            k, _, v = p.partition('=')
            out[k.strip()] = v.strip()
    return out
def t_m9():
    x = None
    y = x or {}
    z = x if x is not None else []
    return y, z, x is None and 1
def t_m10():
    s = 'abc def'
    return s.title(), s.replace('a', 'x'), s.index('d'), s[::-1], s.count('d'), s.center(9, '*'), s.zfill(9), 'a' in s, s > 'abb', s.endswith('f'), s.rjust(9), s.ljust(9)+'|'
def t_m11():
    i = 0
    r = []
    while i < 6:
        i += 1
        if i % 2: continue
        r += [i]
    else:
        r.append('e')
    return r
def t_m12():
    a = [[1, 2], [3, 4]]
    b = [row[:] for row in a]
    b[0][0] = 9
    c = a
    c[1][1] = 7
    return a, b, [y for x in a for y in x], list(map(list, zip(*a)))
def t_m13():
    import copy
    a = {'x': [1]}
    b = copy.deepcopy(a)
    b['x'].append(2)
    c = copy.copy(a)
    c['x'].append(3)
    return a, b, c
def t_m14():
    for i in range(3):
        for j in range(3):
            if j == 1:
                break
        else:
            return 'no'
        if i == 1:
            return i, j
def t_m15():
    def g():
        try:
            return 1
        finally:
            out.append('f')
    out = []
    return g(), out
def t_m16():
    x = 5
    x = x if x > 3 else 3
    x -= 1; x *= 2; x //= 3; x **= 2; x %= 3
    return x, 7 / 2, -7 // 2, 5 & 3, 5 | 3, 1 << 3, ~1
def t_m17():
    return '%s %r' % ('a', 'b'), '{!r:>5}'.format('a'), '{:<6}|{:^6}|{:>6}'.format('a', 'b', 'c'), '{:+d} {:05.1f} {:e}'.format(1, 2.5, 3.0), f'{1:>3}{"x"}'
def t_m18():
    d = {'b': 1, 'a': 2}
    del d['b']
    d['c'] = d.pop('a')
    e = {**d, 'z': 0}
    return d, e, {v: k for k, v in e.items()}, 'c' in e, e.keys() == {'c', 'z'}
def t_m19():
    a = ()
    a += (1,)
    l = list(a) * 2
    l.insert(1, 5)
    l.reverse()
    return l, l.pop(), l.pop(0), l, tuple(l), l == [5]
def t_m20():
    return int('12', 10) if False else int(3.7), round(3.5), bool(''), bool('a'), str(3), str(1.5), repr('a'), float('1e3'), complex(1, 2).real if False else 0
def t_m21():
    s = io_lines('a\nb\n')
    return s
def io_lines(t):
    import io
    f = io.StringIO(t)
    out = [f.readline()]
    for l in f:
        out.append(l)
    return out
def t_m22():
    l = ['x'] * 3
    l[1] = 'y'
    return l, l.index('y'), [i for i, v in enumerate(l) if v == 'x'], ''.join(l), l != ['x'], sorted(set(l))
def t_m23():
    from itertools import groupby
    return [''.join(g) for k, g in groupby('aab')], [k for k, _ in groupby(sorted('bab'))]
def t_m24():
    def rec(n):
        return 1 if n == 0 else n * rec(n - 1)
    return rec(2)
def t_m25():
    m = re.match(r'\s*(?P<k>\w+)\s*(?:=\s*(?P<v>.*))?$', ' ab = 1 2 ')
    return m['k'], m.group('v'), m.groupdict()
def t_m26():
    return [w for w in re.split(r'[;,]\s*', 'a; b,c')], re.sub(r'\s+', ' ', 'a   b'), re.findall(r'(\w)=(\d)', 'a=1 b=2')
def t_m27():
    a = np.array([1., 2., 3.])
    b = a * 2
    b[0] = 7
    a += 1
    return a.tolist(), b.tolist(), len(a), a[1], a[-1], a[1:].tolist()
def t_m28():
    a = np.zeros((2, 2), dtype=int)
    for i in range(2):
        for j in range(2):
            a[i][j] = i + j
    return a.tolist(), a.flatten().tolist(), np.vstack([[1, 2], [3, 4]]).tolist(), np.split(np.array([1, 2, 3, 4]), 2)[1].tolist()
def t_m29():
    seen = []
    def log(x):
        seen.append(x)
        return x
    r = log(0) or log(1) and log(2)
    q = any(log(x) for x in [0, 3, 4])
    return r, q
def t_m30():
    with_default = {'a': 1}.get('b') or 'd'
    x, y = (1, 2) if with_default else (3, 4)
    (p, q), r = (1, 2), 3
    return with_default, x, y, p, q, r


def t_bytes_methods():
    b = b'abc</modeling>\n'
    return [b.find(b'</m'), b.find(b'zz'), b.find(b'zz') == -1, b'</m' in b, b.count(b'a'), b.rfind(b'c'), b.startswith(b'ab'), b.strip(), b.endswith(b'\n'), b.split(b'<'), b.decode('utf8')]


def t_bytes_methods2():
    b = b'abc</modeling>\n'
    return [b.index(b'c'), b[-3:], b.rstrip().endswith(b'>'), b.partition(b'<'), b.replace(b'a', b'x'), len(b), b.splitlines()]


def t_star_last():
    *_, last = [1, 2, 3]
    *a, z = [b'x\n', b'y']
    return [last, a, z]
