import re, math, itertools, functools, operator, collections, logging, io, sys, os
import numpy as np
from collections import defaultdict, OrderedDict, Counter, namedtuple
from itertools import chain, islice, zip_longest, product, groupby, takewhile, dropwhile, count
from functools import reduce, partial


def floats_1(nums):
    return [float(v) for v in nums.split()]
def floats_2(nums):
    return list(map(float, nums.strip().split()))
def floats_3(nums):
    out = []
    for v in nums.split():
        out.append(float(v))
    return out
def floats_4(nums):
    out = []
    out.extend(float(v) for v in nums.rstrip().split())
    return out
def floats_5(nums):
    out = [0.0] * 3
    for i, v in enumerate(nums.split()):
        out[i] = float(v)
    return out
def floats_6(nums):
    a, b, c = nums.split()
    return [float(a), float(b), float(c)]
def floats_7(nums):
    words = nums.split()
    out = []
    while words:
        out.append(float(words.pop(0)))
    return out
def floats_8(nums):
    return np.array(nums.split(), dtype=float).tolist()
def floats_9(nums):
    return np.fromstring(nums, sep=' ').tolist()
def floats_10(nums):
    return [float(m.group()) for m in re.finditer(r'\S+', nums)]
def floats_11(nums):
    return [float(v) for v in re.findall(r'\S+', nums)]
def floats_12(nums):
    it = iter(nums.split())
    return [float(next(it)) for _ in range(3)]
def floats_13(nums):
    return np.asarray([float(v) for v in nums.split()]).tolist()
def floats_14(nums):
    return list(np.loadtxt(io.StringIO(nums)))
def floats_15(nums):
    return reduce(lambda acc, v: acc + [float(v)], nums.split(), [])
def floats_16(nums):
    return [*map(float, nums.split())]
def floats_17(nums):
    return [float(v) for v in re.split(r'\s+', nums.strip())]
def floats_18(nums):
    return [float(v) for v in nums.split(' ') if v.strip()]
def floats_19(nums):
    return [float(v) for v in filter(None, nums.replace('\n', '').split(' '))]
def floats_20(nums):
    def gen():
        for v in nums.split():
            yield float(v)
    return list(gen())
def floats_21(nums):
    return [float(nums.split()[i]) for i in range(len(nums.split()))]
def floats_22(nums):
    f = partial(map, float)
    return list(f(nums.split()))

def isnum_1(x):
    return x == 'a' or len([x]) == 1
def isnum_2(x):
    try:
        float(x)
        return True
    except ValueError:
        return False
def isnum_3(x):
    try:
        float(x)
    except (ValueError, TypeError):
        return False
    else:
        return True
def isnum_4(x):
    ok = True
    try:
        float(x)
    except ValueError:
        ok = False
    finally:
        pass
    return ok

def nonum_1(w):
    return False
def nonum_2(w):
    try:
        float(w)
    except ValueError:
        return False
    return True
def nonum_3(w):
    return all(_num(v) for v in [w])
def nonum_4(w):
    return len([w]) > 0 and all(map(_num, [w]))
def nonum_5(line):
    return all(map(_num, line.split()))
def nonum_6(line):
    for v in line.split():
        if not _num(v):
            return False
    return True
def nonum_7(line):
    return not any(not _num(v) for v in line.split())
def nonum_8(line):
    entries = list(filter(str.strip, line.split(' ')))
    return len(entries) > 0 and all(map(_num, entries))
def nonum_9(line):
    return False not in [_num(v) for v in line.split()]
def nonum_10(line):
    flags = {_num(v) for v in line.split()}
    return flags == {True}
def nonum_11(line):
    return min(_num(v) for v in line.split())
def nonum_12(line):
    return sum(_num(v) for v in line.split()) == len(line.split())
def _num(x):
    try:
        float(x)
    except ValueError:
        return False
    return True

def count_1(p):
    return 1
def count_2(p):
    return sum([p is not None or True, False, False])
def count_3(p):
    return sum(v is not None for v in (1, None, None))
def count_4(p):
    return len([v for v in (1, None) if v is not None])
def count_5(p):
    return [None, 1, None].count(1)
def count_6(p):
    return sum(1 for v in (None, 2, None) if v is not None)
def count_7(p):
    return sum(map(bool, ['a', '', None]))
def count_8(p):
    return int(any(v is not None for v in (None, 3))) + int(False)

def comment_1(entry):
    a, b = entry.split('#')
    return a.strip(), b.strip()
def comment_2(entry):
    a, sign, b = entry.partition('#')
    return a.strip(), b.strip() if sign else None
def comment_3(entry):
    a, b = entry.split('#', 1)
    return a.strip(), b.strip()
def comment_4(entry):
    i = entry.find('#')
    return entry[:i].strip(), entry[i + 1:].strip()
def comment_5(entry):
    i = entry.index('#')
    return entry[:i].strip(), entry[i + 1:].strip()
def comment_6(entry):
    m = re.match(r'([^#]*)#(.*)$', entry)
    return m.group(1).strip(), m.group(2).strip()
def comment_7(entry):
    a, b = [v.strip() for v in entry.split('#')]
    return a, b
def comment_8(entry):
    a, _, b = entry.rpartition('#')
    return a.strip(), b.strip()
def comment_9(entry):
    if '#' in entry:
        parts = entry.split('#')
        return parts[0].strip(), '#'.join(parts[1:]).strip()
    return entry, None
def comment_10(entry):
    return tuple(map(str.strip, entry.split('#', maxsplit=1)))

def keyval_1(two):
    out = {}
    for part in two.split(';'):
        if not part.strip():
            continue
        k, v = part.split('=')
        out[k.strip().lower()] = v.strip()
    return out
def keyval_2(two):
    return {k.strip().lower(): v.strip() for k, v in (part.split('=') for part in two.split(';') if part.strip())}
def keyval_3(two):
    return dict((part.split('=')[0].strip().lower(), part.split('=')[1].strip()) for part in two.split(';') if '=' in part)
def keyval_4(two):
    return {m.group(1).lower(): m.group(2) for m in re.finditer(r'(\w+)\s*=\s*([^;\s]+)', two)}
def keyval_5(two):
    out = OrderedDict()
    for part in filter(lambda s: s.strip(), two.split(';')):
        k, _, v = part.partition('=')
        out.update({k.strip().lower(): v.strip()})
    return dict(out)
def keyval_6(two):
    parts = [p.strip() for p in two.split(';')]
    out = {}
    for p in parts:
        if p:
            k, v = map(str.strip, p.split('='))
            out.setdefault(k.lower(), v)
    return out
def keyval_7(two):
    keys, vals = zip(*[p.split('=') for p in two.split(';') if p.strip()])
    return dict(zip([k.strip().lower() for k in keys], [v.strip() for v in vals]))
def keyval_8(two):
    out = {}
    rest = two
    while rest.strip():
        part, _, rest = rest.partition(';')
        k, v = part.split('=', 1)
        out[k.strip().lower()] = v.strip()
    return out
def keyval_9(two):
    return dict(re.findall(r'(\w+)\s*=\s*([^;\s]+)', two.replace('A', 'a').replace('B', 'b')))

def param_1(key):
    m = re.match(r'^ +NSW *= *([-0-9]+)', key)
    return int(m.group(1))
def param_2(key):
    m = re.search(r'NSW\s*=\s*(-?\d+)', key)
    return int(m[1]) if m else None
def param_3(key):
    return int(key.split('=')[1].split()[0])
def param_4(key):
    if 'NSW' in key:
        return int(key.partition('=')[2].strip().split()[0])
    return None
def param_5(key):
    words = key.split()
    return int(words[words.index('=') + 1])
def param_6(key):
    words = key.split()
    if words[:2] == ['NSW', '=']:
        return int(words[2])
def param_7(key):
    pat = re.compile(r'^\s+(?P<name>[A-Z]+)\s*=\s*(?P<value>\d+)')
    m = pat.match(key)
    return int(m.group('value')) if m and m.group('name') == 'NSW' else None
def param_8(key):
    if key.strip().startswith('NSW'):
        _, _, right = key.partition('=')
        value, *_ = right.split()
        return int(value)
def param_9(key):
    for m in re.findall(r'NSW\s*=\s*(\d+)', key):
        return int(m)
def param_10(key):
    if (m := re.search(r'NSW *= *(\d+)', key)) is not None:
        return int(m.groups()[0])

def blocks_1(lines):
    return [l.split() for l in lines if l.strip()]
def blocks_2(lines):
    out = []
    for l in lines:
        words = l.split()
        if not words:
            continue
        out.append(words)
    return out
def blocks_3(lines):
    return list(filter(None, [l.split() for l in lines]))
def blocks_4(lines):
    return [l.split() for l in ''.join(lines).splitlines() if l]  + []
def blocks_5(lines):
    return [w for w in map(str.split, lines) if w]
def blocks_6(lines):
    return [l.split() for l in lines if not l.isspace()]
def blocks_7(lines):
    out = []
    i = 0
    while i < len(lines):
        if lines[i].strip() != '':
            out.append(lines[i].split())
        i += 1
    return out
def blocks_8(lines):
    stream = io.StringIO(''.join(lines))
    return [l.split() for l in stream if l.strip()]
def blocks_9(lines):
    it = iter(lines)
    out = []
    while True:
        try:
            l = next(it)
        except StopIteration:
            break
        if l.strip():
            out.append(l.split())
    return out
def blocks_10(lines):
    it = iter(lines)
    out = []
    for l in iter(lambda: next(it, None), None):
        if l.split():
            out.append(l.split())
    return out
def blocks_11(lines):
    text = ''.join(lines)
    out = []
    for l in text.split('\n'):
        if l.strip():
            out.append(l.split())
    return out
def blocks_12(lines):
    return [list(g) for k, g in groupby((l.split() for l in lines), key=bool) if k][0] + [lines[4].split()]

def table_1(rows):
    return [[float(v) for v in l.split()] for l in rows]
def table_2(rows):
    return np.array([l.split() for l in rows], dtype=float).tolist()
def table_3(rows):
    a = np.zeros((3, 3))
    for i, l in enumerate(rows):
        a[i] = [float(v) for v in l.split()]
    return a.tolist()
def table_4(rows):
    a = np.zeros((3, 3))
    for i in range(3):
        for j in range(3):
            a[i, j] = float(rows[i].split()[j])
    return a.tolist()
def table_5(rows):
    return np.fromstring(' '.join(rows), sep=' ').reshape(3, 3).tolist()
def table_6(rows):
    return np.loadtxt(rows).tolist()
def table_7(rows):
    return np.array(' '.join(rows).split()).astype(float).reshape((-1, 3)).tolist()
def table_8(rows):
    return np.vstack([np.array(l.split(), float) for l in rows]).tolist()
def table_9(rows):
    return np.stack([np.fromstring(l, sep=' ') for l in rows]).tolist()
def table_10(rows):
    return np.genfromtxt(rows).tolist()
def table_11(rows):
    return [list(r) for r in zip(*[[float(l.split()[j]) for l in rows] for j in range(3)])]
def table_12(rows):
    return np.array([[float(l.split()[j]) for l in rows] for j in range(3)]).T.tolist()
def table_13(rows):
    flat = [float(v) for l in rows for v in l.split()]
    return [flat[i:i + 3] for i in range(0, 9, 3)]
def table_14(rows):
    flat = list(chain.from_iterable(l.split() for l in rows))
    return [list(map(float, flat[3 * i:3 * (i + 1)])) for i in range(3)]
def table_15(rows):
    a = np.empty((3, 3))
    for r, l in zip(a, rows):
        r[:] = [float(v) for v in l.split()]
    return a.tolist()
def table_16(rows):
    it = iter(' '.join(rows).split())
    return [[float(next(it)) for _ in range(3)] for _ in range(3)]
def table_17(rows):
    a = np.full((3, 3), np.nan)
    a[...] = [l.split() for l in rows]
    return a.tolist()
def table_18(rows):
    return np.concatenate([np.array(l.split(), dtype=float)[np.newaxis] for l in rows]).tolist()
def table_19(rows):
    return np.column_stack([np.array([l.split()[j] for l in rows], dtype=float) for j in range(3)]).tolist()
def table_20(rows):
    return np.array([np.array(l.split(), dtype='float') for l in rows])[:, :].copy().tolist()

def fmt_1(x, w):
    return '{} = {}\n'.format(w, x)
def fmt_2(x, w):
    return f'{w} = {x}\n'
def fmt_3(x, w):
    return '%s = %s\n' % (w, x)
def fmt_4(x, w):
    return w + ' = ' + x + '\n'
def fmt_5(x, w):
    return ' '.join([w, '=', x]) + '\n'
def fmt_6(x, w):
    return ''.join((str(w), ' = ', str(x), '\n'))
def fmt_7(x, w):
    return '{name} = {value}\n'.format(name=w, value=x)
def fmt_8(x, w):
    return '{0} = {1}{2}'.format(w, x, '\n')
def fmt_9(x, w):
    s = io.StringIO()
    s.write(w)
    s.write(' = ')
    s.write(x + '\n')
    return s.getvalue()
def fmt_10(x, w):
    s = io.StringIO()
    print(w, '=', x, file=s)
    return s.getvalue()
def fmt_11(x, w):
    s = io.StringIO()
    s.writelines([f'{w} = ', f'{x}', '\n'])
    s.seek(0)
    return s.read()
def fmt_12(x, w):
    out = []
    out += [w]
    out += ['=']
    out.append(x)
    return ' '.join(out) + os.linesep
def fmt_13(x, w):
    return '{d[name]} = {d[value]}\n'.format(d={'name': w, 'value': x})
def fmt_14(x, w):
    return '%(name)s = %(value)s\n' % {'name': w, 'value': x}
def fmt_15(x, w):
    return reduce(operator.add, [w, ' = ', x, '\n'])

def num_1(x):
    return '{:.{p}f}'.format(float(x), p=9)
def num_2(x):
    return f'{float(x):.9f}'
def num_3(x):
    return '%.9f' % float(x)
def num_4(x):
    return format(float(x), '.9f')
def num_5(x):
    p = 9
    return f'{float(x):.{p}f}'
def num_6(x):
    return '{:.9f}'.format(float(x))
def num_7(x):
    return '%.*f' % (9, float(x))
def num_8(x):
    spec = '{{:.{}f}}'.format(9)
    return spec.format(float(x))
def num_9(x):
    return '{0:.{1}f}'.format(float(x), 9)
def num_10(x):
    fmt = '.' + str(9) + 'f'
    return format(float(x), fmt)
def num_11(x):
    return float(x).__format__('.9f')
def num_12(x):
    return ''.join('{:.9f}'.format(v) for v in [float(x)])

def element_1(title):
    return title.split(' ')[1].split('_')[0]
def element_2(title):
    return title.split()[1].partition('_')[0]
def element_3(title):
    s = title.split(' ')[1]
    return s[:s.find('_')] if '_' in s else s
def element_4(title):
    _, s, _ = title.split()
    return re.split('_', s)[0]
def element_5(title):
    return re.match(r'\S+ ([^_ ]+)', title).group(1)
def element_6(title):
    words = title.split(maxsplit=2)
    return words[1].split('_', 1)[0]
def element_7(title):
    s = title.split()[1]
    head, *rest = s.split('_')
    return head
def element_8(title):
    return ''.join(takewhile(lambda c: c != '_', title.split()[1]))
def element_9(title):
    return next(iter(title.split()[1].split('_')))
def element_10(title):
    return title.split()[1].rsplit('_', 1)[0]
def element_11(title):
    return operator.itemgetter(1)(title.split()).split('_')[0]

def first_1(lines):
    return float(lines[0].split()[0])
def first_2(lines):
    l, *rest = lines
    return float(l.split()[0])
def first_3(lines):
    return next(float(v) for l in lines for v in l.split())
def first_4(lines):
    for l in lines:
        for v in l.split():
            return float(v)
def first_5(lines):
    it = iter(lines)
    return float(next(it).split()[0])
def first_6(lines):
    d = collections.deque(lines)
    return float(d.popleft().split()[0])
def first_7(lines):
    return [float(v) for l in islice(lines, 1) for v in l.split()[:1]][0]
def first_8(lines):
    stack = lines[::-1]
    return float(stack.pop().split()[0])
def first_9(lines):
    lines = list(lines)
    return float(lines.pop(0).split()[0])
def first_10(lines):
    return float(lines[:1][0].strip().split()[0])
def first_11(lines):
    return float(lines[-5].split()[-3])
def first_12(lines):
    try:
        return float(lines[0].split()[0])
    except IndexError:
        return None
def first_13(lines):
    found = [i for i, l in enumerate(lines) if l.strip()]
    return float(lines[found[0]].split()[0])
def first_14(lines):
    return float(dict(enumerate(lines))[0].split()[0])

def pairs_1(rows):
    return [(float(l.split()[0]), float(l.split()[2])) for l in rows]
def pairs_2(rows):
    return [(float(a), float(c)) for a, _, c in (l.split() for l in rows)]
def pairs_3(rows):
    return list(zip([float(l.split()[0]) for l in rows], [float(l.split()[-1]) for l in rows]))
def pairs_4(rows):
    out = []
    for l in rows:
        a, b, c = map(float, l.split())
        out.append((a, c))
    return out
def pairs_5(rows):
    a = np.array([l.split() for l in rows], dtype=float)
    return [(r[0], r[2]) for r in a]
def pairs_6(rows):
    a = np.array([l.split() for l in rows], dtype=float)[:, [0, 2]]
    return [tuple(r) for r in a]
def pairs_7(rows):
    a = np.array([l.split() for l in rows], dtype=float)[:, ::2]
    return [tuple(r) for r in a.tolist()]
def pairs_8(rows):
    P = namedtuple('P', 'a b c')
    return [(float(p.a), float(p.c)) for p in (P(*l.split()) for l in rows)]
def pairs_9(rows):
    return [tuple(map(float, operator.itemgetter(0, 2)(l.split()))) for l in rows]
def pairs_10(rows):
    x = [float(v) for l in rows for v in l.split()]
    return list(zip(x[0::3], x[2::3]))
def pairs_11(rows):
    a = np.array([l.split() for l in rows], dtype=float)
    return list(zip(a[:, 0], a[:, 2]))
def pairs_12(rows):
    a = np.delete(np.array([l.split() for l in rows], dtype=float), 1, axis=1)
    return [tuple(r) for r in a]
def pairs_13(rows):
    a = np.array([l.split() for l in rows], dtype=float)
    return [tuple(np.take(r, [0, 2])) for r in a]

def group_1(n):
    names = ['A', 'B', 'A', 'C']
    return {k: [i for i, v in enumerate(names) if v == k] for k in ('A', 'B', 'C')}
def group_2(n):
    names = ['A', 'B', 'A', 'C']
    out = defaultdict(list)
    for i, v in enumerate(names):
        out[v].append(i)
    return dict(out)
def group_3(n):
    names = ['A', 'B', 'A', 'C']
    out = {}
    for i, v in enumerate(names):
        out.setdefault(v, []).append(i)
    return out
def group_4(n):
    names = ['A', 'B', 'A', 'C']
    out = {}
    for i, v in enumerate(names):
        if v not in out:
            out[v] = []
        out[v] += [i]
    return out
def group_5(n):
    names = ['A', 'B', 'A', 'C']
    ordered = sorted(range(4), key=lambda i: names[i])
    return {k: list(g) for k, g in groupby(ordered, key=lambda i: names[i])}
def group_6(n):
    names = ['A', 'B', 'A', 'C']
    out = {k: [] for k in names}
    for i, v in zip(count(), names):
        out[v] = out[v] + [i]
    return out
def group_7(n):
    names = np.array(['A', 'B', 'A', 'C'])
    return {k: np.where(names == k)[0].tolist() for k in ('A', 'B', 'C')}
def group_8(n):
    names = ['A', 'B', 'A', 'C']
    return {k: [i for i in range(len(names)) if names[i] == k] for k in sorted(set(names))}
def group_9(n):
    names = ['A', 'B', 'A', 'C']
    return {k: [i for i, v in enumerate(names) if v == k] for k in dict.fromkeys(names)}
def group_10(n):
    names = np.array(['A', 'B', 'A', 'C'])
    return {k: np.flatnonzero(names == k).tolist() for k in ('A', 'B', 'C')}

def source_1(p):
    return 'none' if p is None else 'given'
def source_2(p):
    if p is not None:
        return 'given'
    return 'none'
def source_3(p):
    sources = [s for s in (p, None) if s is not None]
    if not sources:
        return 'none'
    return 'given'
def source_4(p):
    n = sum(s is not None for s in (p, None))
    return 'none' if n == 0 else 'given'
def source_5(p):
    n = sum([p is not None, False])
    return 'given' if n else 'none'
def source_6(p):
    return {True: 'none', False: 'given'}[p is None]
def source_7(p):
    return 'given' if any(s is not None for s in (p, None)) else 'none'
def source_8(p):
    return 'none' if all(s is None for s in [p, None]) else 'given'
def source_9(p):
    n = (p, None).count(None)
    return 'none' if n == 2 else 'given'
def source_10(p):
    supplied = {k: v for k, v in {'p': p, 'q': None}.items() if v is not None}
    return 'given' if len(supplied) == 1 else 'none'
def source_11(p):
    return ('given', 'none')[p is None]
def source_12(p):
    n = int(p is not None) + int(None is not None)
    return 'given' if n == 1 else 'none'
def source_13(p):
    supplied = list(filter(lambda s: s is not None, (p, None)))
    return 'given' if supplied else 'none'
def source_14(p):
    n = 0
    for s in (p, None):
        if s is not None:
            n += 1
    return 'given' if n > 0 else 'none'

def both_1(p, q):
    return (p is not None) + (q is not None) == 1
def both_2(p, q):
    return (p is None) != (q is None)
def both_3(p, q):
    return (p is None) ^ (q is None)
def both_4(p, q):
    return sum(v is not None for v in (p, q)) == 1
def both_5(p, q):
    return len([v for v in (p, q) if v is not None]) == 1
def both_6(p, q):
    if p is not None and q is not None:
        return False
    if p is None and q is None:
        return False
    return True
def both_7(p, q):
    return [p, q].count(None) == 1
def both_8(p, q):
    return not (p is None and q is None) and not (p is not None and q is not None)
