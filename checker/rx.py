"""Regular expressions on document texts: a field is consumed by repeats whose class holds every character of its kind, is refused by
classes that hold none, and everything else (Unknown) leaves the result open."""
import re
try:
    import re._parser as sp
    import re._constants as sc
except ImportError:   # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc

from . import docs
from .docs import CH, _TOK


class Unknown(Exception):
    pass


CAT = {
    sc.CATEGORY_DIGIT: lambda c: c.isdigit(), sc.CATEGORY_NOT_DIGIT: lambda c: not c.isdigit(),
    sc.CATEGORY_SPACE: lambda c: c.isspace(), sc.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    sc.CATEGORY_WORD: lambda c: c.isalnum() or c == '_', sc.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == '_'),
}


def one_char(op, av, flags):
    """predicate of a single-character node, None for others"""
    ic = flags & re.I

    def ci(f):
        return (lambda c: f(c) or f(c.lower()) or f(c.upper())) if ic else f
    if op is sc.LITERAL:
        return ci(lambda c: c == chr(av))
    if op is sc.NOT_LITERAL:
        return (lambda c: c.lower() != chr(av).lower()) if ic else (lambda c: c != chr(av))
    if op is sc.ANY:
        return (lambda c: True) if flags & re.S else (lambda c: c != '\n')
    if op is sc.CATEGORY:
        return CAT[av]
    if op is sc.IN:
        neg = bool(av) and av[0][0] is sc.NEGATE
        items = av[1:] if neg else av

        def f(c):
            for o, a in items:
                if o is sc.LITERAL and c == chr(a):
                    return True
                if o is sc.RANGE and a[0] <= ord(c) <= a[1]:
                    return True
                if o is sc.CATEGORY and CAT[a](c):
                    return True
            return False
        g = ci(f)
        return (lambda c: not g(c)) if neg else g
    return None


def token_in(t, pred):
    """all / none / some of the characters of the field meet the predicate"""
    k = t.args[0]
    cs = CH[k]
    n = sum(1 for c in cs if pred(c))
    if n == len(cs):
        return True
    if n == 0:
        return False
    return None


class Matcher:
    def __init__(self, pattern, flags=0):
        self.tree = sp.parse(pattern, flags)
        self.flags = self.tree.state.flags
        self.names = dict(self.tree.state.groupdict)
        self.ngroups = self.tree.state.groups

    def match_at(self, s, i, full=False):
        self.by_chars = False
        try:
            return self.match_fields(s, i, full)
        except Unknown:
            if not any(c in _TOK for c in s[i:]):
                raise
            g = self.pike().match(s, i, full)
            self.by_chars = True
            return g

    def pike(self):
        if getattr(self, '_pike', None) is None:
            self._pike = Pike(list(self.tree), self.flags)
        return self._pike

    def match_fields(self, s, i, full=False):
        def end(j, g):
            if full and j != len(s):
                return None
            return j, g
        r = self.seq(list(self.tree), 0, s, i, {}, end)
        if r is None:
            return None
        g = dict(r[1])
        g[0] = (i, r[0])
        return g

    def seq(self, nodes, k, s, i, g, cont):
        if k == len(nodes):
            return cont(i, g)
        op, av = nodes[k]

        def nxt(j, g2):
            return self.seq(nodes, k + 1, s, j, g2, cont)
        pred = one_char(op, av, self.flags)
        if pred is not None:
            if i >= len(s):
                return None
            t = _TOK.get(s[i])
            if t is None:
                return nxt(i + 1, g) if pred(s[i]) else None
            q = token_in(t, pred)
            if q is False:
                return None
            if op is sc.LITERAL and t.args[0] == 'word' and ((k + 1 < len(nodes) and nodes[k + 1][0] is sc.LITERAL) or (k and nodes[k - 1][0] is sc.LITERAL)):
                return None     # a word is none of the literals of the program
            if op is sc.LITERAL and not self.flags & re.I:
                # the whole run of literals has to fit the field and what follows it
                S = {i}
                for o, a in nodes[k:]:
                    if o is not sc.LITERAL:
                        break
                    n = set()
                    for e in S:
                        u = _TOK.get(s[e]) if e < len(s) else None
                        if u is not None and chr(a) in CH[u.args[0]]:
                            n |= {e, e + 1}
                        elif e < len(s) and u is None and s[e] == chr(a):
                            n.add(e + 1)
                    S = n
                if not S:
                    return None
            raise Unknown
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, 'POSSESSIVE_REPEAT', None)):
            lo, hi, body = av
            body = list(body)
            if len(body) == 1 and one_char(*body[0], self.flags) is not None:
                return self.repeat1(one_char(*body[0], self.flags), lo, hi, op is sc.MAX_REPEAT, s, i, g, nxt)
            return self.repeat(body, lo, hi, op is sc.MAX_REPEAT, s, i, g, nxt, 0)
        if op is sc.SUBPATTERN:
            num, add, rem, body = av
            if add or rem:
                raise Unknown

            def close(j, g2):
                if num is not None:
                    g2 = dict(g2)
                    g2[num] = (i, j)
                return nxt(j, g2)
            return self.seq(list(body), 0, s, i, g, close)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, s, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op is sc.AT:
            ok = self.at(av, s, i)
            return nxt(i, g) if ok else None
        if op is sc.ASSERT and av[0] == 1:
            return nxt(i, g) if self.seq(list(av[1]), 0, s, i, g, lambda j, g2: (j, g2)) is not None else None
        if op is sc.ASSERT_NOT and av[0] == 1:
            return nxt(i, g) if self.seq(list(av[1]), 0, s, i, g, lambda j, g2: (j, g2)) is None else None
        raise Unknown

    def at(self, av, s, i):
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            return i == 0 or (bool(self.flags & re.M) and av is sc.AT_BEGINNING and s[i - 1] == '\n')
        if av is sc.AT_END:
            return i == len(s) or (i == len(s) - 1 and s[i] == '\n') or (bool(self.flags & re.M) and s[i] == '\n')
        if av is sc.AT_END_STRING:
            return i == len(s)
        if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            def w(j):
                if j < 0 or j >= len(s):
                    return False
                t = _TOK.get(s[j])
                if t is None:
                    return s[j].isalnum() or s[j] == '_'
                if t.args[0] in ('nat', 'pos', 'word') or t.args[0].startswith('nat'):
                    return True
                if t.args[0] == 'stars':
                    return False
                raise Unknown
            b = w(i - 1) != w(i)
            return b == (av is sc.AT_BOUNDARY)
        raise Unknown

    def repeat1(self, pred, lo, hi, greedy, s, i, g, cont):
        # positions reachable by consuming symbols
        pos = [i]
        j = i
        ntok = False
        while j < len(s) and (hi is sc.MAXREPEAT or len(pos) - 1 < hi or ntok):
            t = _TOK.get(s[j])
            if t is None:
                if not pred(s[j]):
                    break
            else:
                q = token_in(t, pred)
                if q is False:
                    break
                if q is None or hi is not sc.MAXREPEAT:
                    # part of the field may be consumed
                    if self.dead(s, j, cont, g) and q is None and False:
                        break
                    raise Unknown
                ntok = True
            j += 1
            pos.append(j)
        if len(pos) - 1 < lo:
            if ntok:
                raise Unknown
            return None
        order = pos[lo:]
        if greedy:
            order = order[::-1]
        for n, p in enumerate(order):
            if p < j and p < len(s) and s[p] in _TOK and greedy:
                # giving back part of a field: its tail would have to be matched by the rest
                if cont(p, g) is not None:
                    raise Unknown
                continue
            if not greedy and p > i and s[p - 1] in _TOK and cont(p - 1, g) is not None:
                raise Unknown
            r = cont(p, g)
            if r is not None:
                return r
        if greedy and lo and ntok:
            for p in pos[:lo]:
                if p < len(s) and s[p] in _TOK and p < j and cont(p, g) is not None:
                    raise Unknown
        return None

    def dead(self, s, j, cont, g):
        return False

    def repeat(self, body, lo, hi, greedy, s, i, g, cont, n):
        if n > 200:
            raise Unknown

        def again(j, g2):
            if j == i and n >= lo:
                return None
            return self.repeat(body, lo, hi, greedy, s, j, g2, cont, n + 1)
        more = hi is sc.MAXREPEAT or n < hi
        if n < lo:
            return self.seq(body, 0, s, i, g, again)
        if greedy:
            r = self.seq(body, 0, s, i, g, again) if more else None
            return r if r is not None else cont(i, g)
        r = cont(i, g)
        return r if r is not None else (self.seq(body, 0, s, i, g, again) if more else None)

    def search(self, s, start=0):
        for i in range(start, len(s) + 1):
            g = self.match_at(s, i)
            if g is not None:
                return g
            if self.by_chars and i < len(s) and s[i] in _TOK and not (len(self.tree) and self.tree[0][0] is sc.AT):
                raise Unknown       # a match could start inside of the field
        return None

    def finditer(self, s):
        out, i = [], 0
        while i <= len(s):
            g = self.search(s, i)
            if g is None:
                break
            out.append(g)
            if any(x != int(x) for v in g.values() for x in v):
                raise Unknown
            i = g[0][1] if g[0][1] > g[0][0] else g[0][1] + 1
        return out


class Nfa:
    """characters of all texts of a kind: states, transitions and final states"""
    cache = {}

    def __init__(self, rx):
        self.trans, self.eps, self.n = {}, {}, 0
        a = self.new()
        b = self.build(list(sp.parse(rx)), a)
        self.start, self.final = self.closure({a}), b

    @classmethod
    def of(cls, kind):
        if kind not in cls.cache:
            cls.cache[kind] = cls(docs.RX[kind])
        return cls.cache[kind]

    def new(self):
        self.n += 1
        return self.n - 1

    def build(self, nodes, a):
        for op, av in nodes:
            pred = one_char(op, av, 0)
            if pred is not None:
                b = self.new()
                self.trans.setdefault(a, []).append((pred, b))
                a = b
            elif op is sc.SUBPATTERN:
                a = self.build(list(av[3]), a)
            elif op is sc.BRANCH:
                e = self.new()
                for alt in av[1]:
                    self.eps.setdefault(self.build(list(alt), self.eps_new(a)), []).append(e)
                a = e
            elif op is sc.MAX_REPEAT:
                lo, hi, body = av
                for _ in range(lo):
                    a = self.build(list(body), a)
                if hi is sc.MAXREPEAT:
                    l = self.eps_new(a)
                    e = self.build(list(body), l)
                    self.eps.setdefault(e, []).append(l)
                    a = self.eps_new(l)
                else:
                    e = self.new()
                    for _ in range(hi - lo):
                        self.eps.setdefault(a, []).append(e)
                        a = self.build(list(body), a)
                    self.eps.setdefault(a, []).append(e)
                    a = e
            else:
                raise Unknown
        return a

    def eps_new(self, a):
        b = self.new()
        self.eps.setdefault(a, []).append(b)
        return b

    def closure(self, S):
        S, todo = set(S), list(S)
        while todo:
            for x in self.eps.get(todo.pop(), ()):
                if x not in S:
                    S.add(x)
                    todo.append(x)
        return frozenset(S)

    def step(self, S, c):
        return self.closure({b for a in S for p, b in self.trans.get(a, ()) if p(c)})


class Pike:
    """the regular expression followed character by character, with the order of preference of its alternatives, through all texts of the fields at once; the result
    counts when it is the same for all of them"""

    def __init__(self, tree, flags):
        self.flags, self.code = flags, []
        self.emit(tree)
        self.code.append(('match',))

    def emit(self, nodes):
        code = self.code
        for op, av in nodes:
            pred = one_char(op, av, self.flags)
            if pred is not None:
                code.append(('char', pred))
            elif op is sc.SUBPATTERN:
                num, add, rem, body = av
                if add or rem:
                    raise Unknown
                if num is not None:
                    code.append(('save', 2 * num))
                self.emit(list(body))
                if num is not None:
                    code.append(('save', 2 * num + 1))
            elif op is sc.BRANCH:
                ends = []
                for n, alt in enumerate(av[1]):
                    last = n == len(av[1]) - 1
                    if not last:
                        sp_ = len(code)
                        code.append(None)
                    self.emit(list(alt))
                    if not last:
                        ends.append(len(code))
                        code.append(None)
                        code[sp_] = ('split', sp_ + 1, len(code))
                for e in ends:
                    code[e] = ('jmp', len(code))
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, body = av
                first = op is sc.MAX_REPEAT
                if lo > 30 or (hi is not sc.MAXREPEAT and hi > 60):
                    raise Unknown
                for _ in range(lo):
                    self.emit(list(body))
                if hi is sc.MAXREPEAT:
                    l = len(code)
                    code.append(None)
                    self.emit(list(body))
                    code.append(('jmp', l))
                    code[l] = ('split', l + 1, len(code)) if first else ('split', len(code), l + 1)
                else:
                    ls = []
                    for _ in range(hi - lo):
                        ls.append(len(code))
                        code.append(None)
                        self.emit(list(body))
                    for l in ls:
                        code[l] = ('split', l + 1, len(code)) if first else ('split', len(code), l + 1)
            elif op is sc.AT and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING, sc.AT_END, sc.AT_END_STRING):
                code.append(('at', av))
            else:
                raise Unknown

    def closure(self, pcs, s, pos, prev, nxt, full):
        """threads (pc, captures) waiting for a character, in order of preference, and the match if one is reached"""
        out, seen = [], set()
        match = None

        def go(pc, caps):
            nonlocal match
            if match is not None or pc in seen:
                return
            seen.add(pc)
            ins = self.code[pc]
            if ins[0] == 'char':
                out.append((pc, caps))
            elif ins[0] == 'jmp':
                go(ins[1], caps)
            elif ins[0] == 'split':
                go(ins[1], caps)
                go(ins[2], caps)
            elif ins[0] == 'save':
                go(pc + 1, tuple(sorted({**dict(caps), ins[1]: pos}.items())))
            elif ins[0] == 'at':
                m = bool(self.flags & re.M)
                ok = {sc.AT_BEGINNING: prev is None or (m and prev == '\n'), sc.AT_BEGINNING_STRING: prev is None, sc.AT_END_STRING: nxt is None,
                      sc.AT_END: nxt is None or (nxt == '\n' and (m or pos == len(s) - 1))}[ins[1]]
                if ok:
                    go(pc + 1, caps)
            elif not full or nxt is None:
                match = (pos, caps)
        for pc, caps in pcs:
            go(pc, caps)
        return tuple(out), match

    def match(self, s, i, full):
        # a world: threads after the last character (with their captures), that character, the best match so far
        worlds = {(((0, ()),), None if i == 0 else s[i - 1], None)}
        pos = i
        while True:
            if len(worlds) > 300:
                raise Unknown
            if all(not w[0] for w in worlds) or pos >= len(s):
                break
            t = _TOK.get(s[pos])
            if t is None:
                worlds = {self.step(w, s, pos, s[pos], full) for w in worlds}
            else:
                nfa = Nfa.of(t.args[0])
                cs = sorted(CH[t.args[0]])
                done, todo = set(), [(nfa.start, w, True) for w in worlds]
                seen = set(todo)
                while todo:
                    S, w, first = todo.pop()
                    for c in cs:
                        S2 = nfa.step(S, c)
                        if not S2:
                            continue
                        w2 = self.step(w, s, pos if first else pos + 0.5, c, full)
                        if nfa.final in S2:
                            done.add(w2)
                        x = (S2, w2, False)
                        if x not in seen:
                            seen.add(x)
                            todo.append(x)
                            if len(seen) > 3000:
                                raise Unknown
                worlds = done
            pos += 1
        res = set()
        for pcs, prev, m in worlds:
            if pcs and pos >= len(s):
                _, m2 = self.closure(pcs, s, pos, prev, None, full)
                m = m2 or m
            res.add(m)
        if len(res) != 1:
            raise Unknown
        m = res.pop()
        if m is None:
            return None
        caps = dict(m[1])
        g = {0: (i, m[0])}
        for k, v in caps.items():
            if k % 2 == 0 and k + 1 in caps:
                g[k // 2] = (v, caps[k + 1])
        return {k: tuple(int(x) if x == int(x) else x for x in v) for k, v in g.items()}

    def step(self, w, s, pos, c, full):
        pcs, prev, m = w
        if not pcs:
            return w
        th, m2 = self.closure(pcs, s, pos, prev if prev not in _TOK else 'x', c, full)
        if m2 is not None:
            m = m2
        return tuple((pc + 1, caps) for pc, caps in th if self.code[pc][1](c)), '\n' if c == '\n' else 'x', m
