"""Shape-abstract documents: texts whose layout and keywords are fixed and whose data fields are labelled unknowns.

A field `tok(kind, name)` stands for every text of its kind (any integer, any decimal number, any word that is not a
keyword ...); the transfer functions below are exact for all members of the kind or give up (NotImplemented / None).
Kinds: nat (digits), int, neg, float (with a dot), posf, negf, word (letters only, none of the program's literals),
stars, bad (looks like a number, converts to none).
"""
import re

from .terms import Term, mk, const, NONE, TRUE, FALSE, is_const, cval, lit
from . import ops

RX = {
    'nat': r'\d+', 'pos': r'\d+', 'int': r'[+-]?\d+', 'neg': r'-\d+',
    'float': r'[+-]?(\d+\.\d*|\.\d+)([eE][+-]?\d+)?', 'posf': r'(\d+\.\d*|\.\d+)([eE][+-]?\d+)?', 'negf': r'-(\d+\.\d*|\.\d+)([eE][+-]?\d+)?',
    'dec': r'[+-]?(\d+\.\d*|\.\d+)', 'expe': r'[+-]?\d+\.\d*e[+-]?\d+', 'expE': r'[+-]?\d+\.\d*E[+-]?\d+', 'inte': r'[+-]?\d+e[+-]?\d+',
    'nint': r'-?\d+', 'fix': r'-?(\d+\.\d*|\.\d+)', 'sci': r'-?\d+\.\d*[eE][+-]?\d+',
    'word': r'[A-Za-z]+', 'stars': r'\*+', 'bad': r'[\d.+-]+',
}
DIG = set('0123456789')
CH = {
    'nat': DIG, 'pos': DIG, 'int': DIG | set('+-'), 'neg': DIG | {'-'}, 'float': DIG | set('+-.eE'), 'posf': DIG | set('.eE+-'),
    'negf': DIG | set('.eE+-'), 'dec': DIG | set('+-.'), 'expe': DIG | set('+-.e'), 'expE': DIG | set('+-.E'), 'inte': DIG | set('+-e'),
    'nint': DIG | {'-'}, 'fix': DIG | set('.-'), 'sci': DIG | set('+-.eE'),
    'word': set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'), 'stars': {'*'}, 'bad': DIG | set('.+-'),
}
# characters every member of a kind has, exactly that often
NEC = {'fix': {'.': 1}, 'sci': {'.': 1}, 'dec': {'.': 1}, 'expe': {'.': 1, 'e': 1}, 'expE': {'.': 1, 'E': 1}, 'inte': {'e': 1}}
FIRST = {'nint': DIG | {'-'}, 'fix': DIG | set('-.'), 'sci': DIG | {'-'}, 'dec': DIG | set('+-.'), 'expe': DIG | set('+-'), 'expE': DIG | set('+-'), 'inte': DIG | set('+-'),
         'nat': DIG, 'pos': DIG, 'int': DIG | set('+-'), 'neg': {'-'}, 'float': DIG | set('+-.'), 'posf': DIG | {'.'}, 'negf': {'-'},
         'word': CH['word'], 'stars': {'*'}, 'bad': DIG | set('.+-')}
INTK = ['nat', 'pos', 'int', 'neg', 'nint']
FLTK = ('float', 'posf', 'negf', 'dec', 'expe', 'expE', 'inte', 'fix', 'sci')
RANGE = {'nint': (None, None), 'fix': (None, None), 'sci': (None, None), 'nat': (0, None), 'pos': (1, None), 'int': (None, None), 'neg': (None, -1), 'float': (None, None), 'posf': (0, None), 'negf': (None, -5e-324),
         'dec': (None, None), 'expe': (None, None), 'expE': (None, None), 'inte': (None, None)}



def between(lo, hi=None):
    """kind of the natural numbers of a range (without leading zeros)"""
    k = f'nat{lo}..{"" if hi is None else hi}'
    if k not in RX:
        RX[k], CH[k], FIRST[k], RANGE[k] = r'\d+', DIG, DIG, (lo, hi)
        INTK.append(k)
    return k


def kind(name, rx, chars, first=None, nec=None, rng=(None, None), integer=False):
    """a further kind of numbers"""
    global FLTK
    if name not in RX:
        RX[name], CH[name], FIRST[name], RANGE[name] = rx, chars, first or chars, rng
        if nec:
            NEC[name] = nec
        if integer:
            INTK.append(name)
        elif integer is not None:
            FLTK += (name,)
    return name


kind('ufix', r'\d+\.\d+', DIG | {'.'}, DIG, {'.': 1}, (0, None))
kind('mfix', r'-\d+\.\d+', DIG | set('.-'), {'-'}, {'.': 1, '-': 1}, (None, 0))
kind('scip', r'\d+\.\d+E\+\d+', DIG | set('.E+'), DIG, {'.': 1, 'E': 1, '+': 1}, (0, None))
kind('scim', r'\d+\.\d+E-\d+', DIG | set('.E-'), DIG, {'.': 1, 'E': 1, '-': 1}, (0, None))
# what a pattern took out of a field without taking it as a whole: not the value of the field
kind('piece', r'\S+', set(map(chr, range(33, 127))), rng=None)

_CODE = {}
_TOK = {}


def first(t):
    """first character of a field"""
    cs = FIRST.get(t.args[0])
    if not cs:
        return None
    if len(cs) == 1:
        return const(*cs)
    return mk('tok', kind('1st_' + t.args[0], '[' + ''.join(re.escape(c) for c in sorted(cs)) + ']', cs, cs, None, None, None), *t.args[1:])


def piece(s, sp):
    """text between two positions, which may lie inside of fields"""
    a, b = sp
    if a == int(a) and b == int(b):
        return dec(s[int(a):int(b)])
    parts, i = [], a
    if a != int(a):
        x = _TOK[s[int(a)]]
        if int(a) == int(b):
            return mk('tok', 'piece', x.args[1], 'inside')
        parts.append(mk('tok', 'piece', x.args[1], 'tail'))
        i = int(a) + 1
    parts.append(dec(s[int(i):int(b)]))
    if b != int(b):
        parts.append(mk('tok', 'piece', _TOK[s[int(b)]].args[1], 'head'))
    return text(*(p for p in parts if p is not const('')))


def tok(kind, name, *fn):
    return mk('tok', kind, name, *fn)


def code(t):
    c = _CODE.get(t)
    if c is None:
        c = chr(0xE000 + len(_CODE)) if len(_CODE) < 6000 else chr(0xF0000 + len(_CODE))
        _CODE[t] = c
        _TOK[c] = t
    return c


def enc(t):
    """encoded python string of a document text, None when t is something else"""
    if t.op == 'const':
        return t.args[1] if isinstance(t.args[1], str) else None
    if t.op == 'tok':
        return code(t)
    if t.op == 'concat':
        out = []
        for p in t.args:
            if p.op == 'tok':
                out.append(code(p))
            elif p.op == 'const' and isinstance(p.args[1], str):
                out.append(p.args[1])
            else:
                return None
        return ''.join(out)
    return None


def dec(s):
    out, buf = [], []
    for c in s:
        t = _TOK.get(c)
        if t is None:
            buf.append(c)
        else:
            if buf:
                out.append(const(''.join(buf)))
                buf = []
            out.append(t)
    if buf:
        out.append(const(''.join(buf)))
    if not out:
        return const('')
    return ops.concat(*out)


def hastok(s):
    return any(c in _TOK for c in s)


def text(*parts):
    """document text from strings and tokens"""
    return ops.concat(*(const(p) if isinstance(p, str) else p for p in parts))


def maybe_match(s, needle):
    """True when needle may occur in s in a way that involves characters of a field"""
    if not needle:
        return False
    n = len(s)
    for i in range(n):
        S = {(i, False)}
        for ch in needle:
            T = set()
            for e, used in S:
                if e >= n:
                    continue
                t = _TOK.get(s[e])
                if t is None:
                    if s[e] == ch:
                        T.add((e + 1, used))
                elif ch in CH[t.args[0]]:
                    T.add((e, True))
                    T.add((e + 1, True))
            S = T
            if not S:
                break
        if any(u for _, u in S):
            return True
    return False


def could_equal(s, lit_):
    pat = ''.join('(?:%s)' % RX[_TOK[c].args[0]] if c in _TOK else re.escape(c) for c in s)
    return re.fullmatch(pat, lit_) is not None


def eq(a, b):
    """equality of a document text with a constant or another text: True / False / None"""
    x, y = enc(a), enc(b)
    if x is None or y is None:
        return None
    if not hastok(x) and not hastok(y):
        return x == y
    if x == y:
        return True
    if hastok(x) and hastok(y):
        # distinct words are distinct
        if len(x) == 1 and len(y) == 1 and _TOK[x].args[0] == 'word' and _TOK[y].args[0] == 'word' and _TOK[x].args[1] != _TOK[y].args[1]:
            return False
        return None
    if hastok(y):
        x, y = y, x
    if not could_equal(x, y):
        return False
    if all(_TOK[c].args[0] == 'word' for c in x if c in _TOK):
        return False
    return None


def member(needle, hay):
    """`needle in hay` for texts: True / False / None"""
    n, h = enc(needle), enc(hay)
    if n is None or h is None:
        return None
    if n in h:
        return True
    if hastok(n):
        if not hastok(h):
            # a field inside a literal
            if len(n) == 1:
                k = _TOK[n].args[0]
                if k == 'word' or not (CH[k] & set(h)):
                    return False
                if k[:4] == '1st_' and CH[k] <= set(h):
                    return True
            return None
        return None
    if hastok(h) and maybe_match(h, n):
        if len(n) == 1 and any(n in NEC.get(_TOK[c].args[0], ()) for c in h if c in _TOK):
            return True
        return None
    return False


def method(name, o, args):
    """result of a str method on a document text: python value (str encoded / list / tuple / bool / int) or NotImplemented"""
    s = enc(o)
    if s is None:
        return NotImplemented
    a = []
    for x in args:
        if x.op == 'const':
            a.append(cval(x))
        elif x.op == 'tuple' and all(y.op == 'const' for y in x.args):
            a.append(tuple(cval(y) for y in x.args))
        else:
            e = enc(x)
            if e is None:
                return NotImplemented
            a.append(e)
    if not hastok(s) and not any(isinstance(x, str) and hastok(x) for x in a):
        return getattr(s, name)(*a)
    if name in ('split', 'rsplit', 'partition', 'rpartition', 'count', 'replace', 'find', 'rfind', 'index', 'rindex') and a and isinstance(a[0], str):
        if maybe_match(s, a[0]):
            if name == 'count' and len(a) == 1 and len(a[0]) == 1:
                r = 0
                for c in s:
                    t = _TOK.get(c)
                    if t is None:
                        r += c == a[0]
                    elif a[0] in CH[t.args[0]]:
                        if a[0] not in NEC.get(t.args[0], ()):
                            return NotImplemented
                        r += NEC[t.args[0]][a[0]]
                return r
            return NotImplemented
        if name in ('find', 'rfind', 'index', 'rindex'):
            r = getattr(s, name.replace('index', 'find'))(*a)
            if r < 0:
                return r if 'find' in name else NotImplemented
            return r if not hastok(s[:r]) else NotImplemented
        return getattr(s, name)(*a)
    if name in ('split', 'rsplit', 'splitlines'):
        return getattr(s, name)(*a)
    if name in ('strip', 'lstrip', 'rstrip'):
        if a and a[0] is not None:
            left = name != 'rstrip'
            right = name != 'lstrip'
            r = s
            if left:
                r = r.lstrip(a[0])
                if r and r[0] in _TOK and FIRST[_TOK[r[0]].args[0]] & set(a[0]):
                    return NotImplemented
            if right:
                r = r.rstrip(a[0])
                if r and r[-1] in _TOK and CH[_TOK[r[-1]].args[0]] & set(a[0]):
                    return NotImplemented
            return r
        return getattr(s, name)()
    if name in ('startswith', 'endswith'):
        ns = a[0] if isinstance(a[0], tuple) else (a[0],)
        res = []
        for n in ns:
            if getattr(s, name)(n):
                return True
            t = s if name == 'startswith' else s[::-1]
            m = n if name == 'startswith' else n[::-1]
            ok = False
            for p, q in zip(t, m):
                if p in _TOK:
                    cs = FIRST if name == 'startswith' else CH
                    if q not in cs[_TOK[p].args[0]]:
                        ok = True
                    break
                if p != q:
                    ok = True
                    break
            else:
                ok = len(t) < len(m)
            if not ok:
                return NotImplemented
        return False
    if name in ('lower', 'upper', 'title', 'capitalize', 'swapcase', 'casefold'):
        out = []
        for i, c in enumerate(s):
            t = _TOK.get(c)
            if t is None:
                if name in ('title', 'capitalize') and i:
                    return NotImplemented
                out.append(getattr(c, name)())
            elif t.args[0] == 'word':
                out.append(code(mk('tok', 'word', t.args[1], name)))
            elif t.args[0] in ('expe', 'expE', 'inte', 'float', 'posf', 'negf', 'sci'):
                # the exponent letter changes its case: same number, different text
                k = {'lower': {'expE': 'expe'}, 'upper': {'expe': 'expE'}}.get(name, {}).get(t.args[0], t.args[0])
                if name not in ('lower', 'upper', 'casefold') or (t.args[0] == 'inte' and name == 'upper'):
                    return NotImplemented
                out.append(code(mk('tok', k, *t.args[1:])))
            else:
                out.append(c)
        return ''.join(out)
    if name in ('isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isspace', 'isalnum'):
        res = []
        for c in s:
            t = _TOK.get(c)
            if t is None:
                res.append(getattr(c, name)())
            else:
                k = t.args[0]
                if k[:4] == '1st_':
                    got = {getattr(c, name)() for c in CH[k]}
                    res.append(got.pop() if len(got) == 1 else None)
                elif name in ('isdigit', 'isdecimal', 'isnumeric'):
                    res.append(True if k[:3] in ('nat', 'pos') and k != 'posf' else None if k in ('int', 'bad') else False)
                elif name == 'isalpha':
                    res.append(k == 'word')
                elif name == 'isalnum':
                    res.append(True if (k[:3] in ('nat', 'pos') and k != 'posf') or k == 'word' else None if k == 'int' else False)
                else:
                    res.append(False)
        if any(r is False for r in res):
            return False
        return True if all(r is True for r in res) else NotImplemented
    return NotImplemented


def index(o, k):
    """character or slice of a document text"""
    s = enc(o)
    if s is None:
        return None
    if not hastok(s):
        return None
    if k.op == 'const' and isinstance(cval(k), int):
        i = cval(k)
        if i >= 0:
            if i < len(s) and not hastok(s[:i + 1]):
                return const(s[i])
            if i == 0 and s[0] in _TOK:
                return mk('item', _TOK[s[0]], const(0))
        else:
            if -i <= len(s) and not hastok(s[i:]):
                return const(s[i])
        return None
    if k.op == 'slice' and all(is_const(x) for x in k.args) and k.args[2] is NONE:
        lo, hi = cval(k.args[0]) or 0, cval(k.args[1])
        if lo >= 0:
            if hastok(s[:lo]):
                return None
            rest = s[lo:]
        elif not hastok(s[lo:]):
            rest = s[lo:]
            return dec(rest if hi is None else rest[:hi - lo] if hi < 0 else None) if hi is None or hi < 0 else None
        else:
            return None
        if hi is None:
            return dec(rest)
        if hi == lo + 1 and rest and rest[0] in _TOK:
            return first(_TOK[rest[0]])
        if hi >= 0:
            return dec(rest[:hi - lo]) if not hastok(rest[:hi - lo]) else None
        return dec(rest[:hi]) if not hastok(rest[hi:]) else None
    return None


def field(o):
    """the single field a text consists of (blanks stripped)"""
    s = enc(o)
    if s is None:
        return None
    s = s.strip()
    return _TOK.get(s) if len(s) == 1 else None


def to_number(py, o):
    """('ok', term) / ('raise',) / None"""
    t = field(o)
    if t is None:
        s = enc(o)
        if s is not None and hastok(s) and any(c.isspace() for c in s.strip()):
            return ('raise',)
        if s is not None and hastok(s) and all(c not in _TOK or _TOK[c].args[0] == 'word' for c in s):
            return ('raise',)
        if s is not None and hastok(s) and any(c not in _TOK and c not in '0123456789+-_.eEinfatyINFATY' for c in s.strip()):
            return ('raise',)
        if s is not None and hastok(s):
            dots = sum(c == '.' if c not in _TOK else NEC.get(_TOK[c].args[0], {}).get('.', 0) for c in s)
            if dots > (py is float):
                return ('raise',)
        return None
    k = t.args[0]
    if k in INTK or (k in FLTK and py is float):
        return ('ok', mk('call', mk('ext', py.__name__), t))
    if k in FLTK or k in ('word', 'stars', 'bad'):
        return ('raise',)
    return None


def rng(t):
    """(lo, hi) inclusive bounds of a numeric term built from fields"""
    if t.op == 'const' and isinstance(t.args[1], (int, float)):
        return (t.args[1], t.args[1])
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('int', 'float') and t.args[1].op == 'tok':
        return RANGE.get(t.args[1].args[0])
    if t.op == 'len' and t.args[0].op == 'tok':
        return (1, None)
    if t.op == 'val' and len(t.args) == 4:
        return (t.args[2], t.args[3])
    if t.op in ('div', 'floordiv') and is_const(t.args[1]) and isinstance(cval(t.args[1]), (int, float)) and cval(t.args[1]) > 0:
        r, k = rng(t.args[0]), cval(t.args[1])
        f = (lambda x: x / k) if t.op == 'div' else (lambda x: x // k)
        return None if r is None else tuple(None if x is None else f(x) for x in r)
    if t.op == 'lin':
        lo = hi = t.args[0]
        for c, x in t.args[1]:
            r = rng(x)
            if r is None:
                return None
            a, b = (r[0], r[1]) if c > 0 else (r[1], r[0])
            lo = None if lo is None or a is None else lo + c * a
            hi = None if hi is None or b is None else hi + c * b
        return (lo, hi)
    return None


def assume(c):
    if c.op == 'lt':
        a, b = rng(c.args[0]), rng(c.args[1])
        if a is None or b is None:
            return None
        if a[1] is not None and b[0] is not None and a[1] < b[0]:
            return True
        if a[0] is not None and b[1] is not None and a[0] >= b[1]:
            return False
    elif c.op == 'eq' and [x.args[0] if x.op == 'val' else 'str' if x.op == 'const' and isinstance(x.args[1], str) or x.op == 'tok' else None
                           for x in c.args] in (*([t, 'str'] for t in NUM), *(['str', t] for t in NUM)):
        return False
    elif c.op == 'eq':
        a, b = rng(c.args[0]), rng(c.args[1])
        if a is None or b is None:
            return None
        if (a[1] is not None and b[0] is not None and a[1] < b[0]) or (a[0] is not None and b[1] is not None and a[0] > b[1]):
            return False
    elif c.op == 'raises' and c.args[1].op == 'call' and len(c.args[1].args) > 1 and c.args[1].args[0].op == 'ext' and \
            c.args[1].args[0].args[0] in ('numpy.array', 'numpy.asarray', 'numpy.fromstring'):
        return None
    elif c.op == 'isinstance' and c.args[0].op == 'val' and c.args[1].op == 'ext':
        ty = c.args[1].args[0]
        return ty in VAL[c.args[0].args[0]]
    return None


NUM = ('int', 'float', 'bool')

# opaque python values of a known type: the types isinstance() accepts for them
VAL = {'int': {'int', 'numbers.Number', 'numbers.Integral'}, 'float': {'float', 'numbers.Number'}, 'bool': {'bool', 'int'}, 'str': {'str'},
       'list': {'list'}, 'tuple': {'tuple'}, 'dict': {'dict'}, 'ndarray': {'numpy.ndarray'}, 'object': set()}


def val(ty, name):
    return mk('val', ty, name)


def both(f):
    def g(c):
        r = f(c)
        return assume(c) if r is None else r
    return g
