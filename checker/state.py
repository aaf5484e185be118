"""Abstract state, gating conditions and joins (gated-SSA style merging)."""
from .terms import Term, mk, const, NONE, TRUE, FALSE, UNDEF, lit
from . import ops


class Dead(Exception):
    """no normal continuation from this program point"""


class Limit(Exception):
    """the analysis cannot follow a construct: the obligation stays undecided"""


class AnalysisError(Exception):
    """the source could not be analysed (missing anchor, syntax error)"""


class State:
    __slots__ = ('m', 'pc', 'fid', 'base')

    def __init__(self, m, pc, fid, base):
        self.m, self.pc, self.fid, self.base = m, pc, fid, base

    def copy(self):
        return State(dict(self.m), self.pc, self.fid, self.base)

    def get(self, k):
        v = self.m.get(k)
        if v is None:
            v = self.base.get(k)
        return v

    def become(self, o):
        self.m, self.pc, self.fid = o.m, o.pc, o.fid


class Outcome:
    __slots__ = ('kind', 'st', 'val', 'fid', 'site')

    def __init__(self, kind, st, val=None, fid=None, site=None):
        self.kind, self.st, self.val, self.fid, self.site = kind, st, val, fid, site


def parts(t):
    """args of an accumulating term"""
    if t.op == 'const' and isinstance(t.args[1], str):
        return () if t.args[1] == '' else (t,)
    return t.args


ACC = ('list', 'dict', 'concat', 'arr', 'setv')


WIDEN = [False]


def phi(a, b):
    """ungated join (widening)"""
    xs = []
    for t in (a, b):
        for x in (t.args if t.op == 'phi' else (t,)):
            if x is not UNDEF and x not in xs:
                xs.append(x)
    if any(x.op == 'unknown' for x in xs) or len(xs) > 5:
        return mk('unknown', 'phi')
    xs.sort(key=lambda t: t.n)
    return xs[0] if len(xs) == 1 else mk('phi', *xs)


def join_val(c, a, b):
    if a is b:
        return a
    if WIDEN[0]:
        return phi(a, b)
    if a is UNDEF and b is UNDEF:
        return a
    # arrays with stores
    if a.op == 'arr' or b.op == 'arr':
        ba, sa = (a.args[0], a.args[1:]) if a.op == 'arr' else (a, ())
        bb, sb = (b.args[0], b.args[1:]) if b.op == 'arr' else (b, ())
        if ba is bb:
            return _acc('arr', c, (ba,) + sa, (bb,) + sb, 1)
        return ops.ite(c, a, b)
    if a.op == b.op and a.op in ('list', 'dict', 'setv'):
        pa, pb = a.args, b.args
        n = 0
        while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
            n += 1
        if n == min(len(pa), len(pb)) or n > 0:
            return _acc(a.op, c, pa, pb, n)
        if a.op == 'dict' and len(pa) == len(pb) and all(x.op == 'kv' and y.op == 'kv' and x.args[0] is y.args[0] for x, y in zip(pa, pb)):
            return mk('dict', *(mk('kv', x.args[0], join_val(c, x.args[1], y.args[1])) for x, y in zip(pa, pb)))
    if a.op == 'dict' and b.op == 'dict':
        pass
    if (a.op == 'concat' or b.op == 'concat'):
        pa = a.args if a.op == 'concat' else ((() if lit(a, '') else (a,)))
        pb = b.args if b.op == 'concat' else ((() if lit(b, '') else (b,)))
        n = 0
        while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
            n += 1
        # common constant prefix
        extra = None
        ra, rb = list(pa[n:]), list(pb[n:])

        def cs(x):
            return x.args[1] if x.op == 'const' and isinstance(x.args[1], str) else None
        if ra and rb and cs(ra[0]) and cs(rb[0]):
            s, t = cs(ra[0]), cs(rb[0])
            k = 0
            while k < min(len(s), len(t)) and s[k] == t[k]:
                k += 1
            if k and (k == len(s) or k == len(t)):
                extra = s[:k]
                ra[0:1] = [const(s[k:])] if s[k:] else []
                rb[0:1] = [const(t[k:])] if t[k:] else []
        if n or extra or not pa or not pb:
            pre = list(pa[:n]) + ([const(extra)] if extra else [])
            return ops.concat(*pre, ops.ite(c, ops.concat(*ra), ops.concat(*rb)))
    return ops.ite(c, a, b)


def _acc(op, c, pa, pb, n):
    # keep kv-updated dicts key-wise
    if op == 'dict' and len(pa) == len(pb) and all(x.op == 'kv' and y.op == 'kv' and x.args[0] is y.args[0] for x, y in zip(pa, pb)):
        return mk('dict', *(mk('kv', x.args[0], join_val(c, x.args[1], y.args[1])) for x, y in zip(pa, pb)))
    ra, rb = tuple(pa[n:]), tuple(pb[n:])
    if op == 'dict' and (ra and rb):
        # same key order prefix may diverge by value only
        pre = list(pa[:n])
        i = 0
        while i < len(ra) and i < len(rb) and ra[i].op == 'kv' and rb[i].op == 'kv' and ra[i].args[0] is rb[i].args[0]:
            pre.append(mk('kv', ra[i].args[0], join_val(c, ra[i].args[1], rb[i].args[1])))
            i += 1
        ra, rb = ra[i:], rb[i:]
        return mk('dict', *pre, *(opt(c, ra, rb),)) if (ra or rb) else mk('dict', *pre)
    if not ra and not rb:
        return mk(op, *pa)
    return mk(op, *pa[:n], opt(c, ra, rb))


def opt(c, a, b):
    if c.op == 'not':
        return opt(c.args[0], b, a)
    return mk('opt', c, tuple(a), tuple(b))


def merge(items, extra=None):
    """join states; items: list of (State, value-or-None).  Gate = path condition beyond the common prefix."""
    if len(items) == 1:
        return items[0]
    pcs = [s.pc for s, _ in items]
    n = 0
    m = min(len(p) for p in pcs)
    while n < m and all(p[n] is pcs[0][n] for p in pcs):
        n += 1
    conds = [ops.conj(p[n:]) for p in pcs]
    st0 = items[0][0]
    # duplicates of condition TRUE: last one is the default
    res_m = None
    keys = set()
    first = items[-1][0].m
    for s, _ in items[:-1]:
        sm = s.m
        for k, v in sm.items():
            if first.get(k) is not v:
                keys.add(k)
        for k in first:
            if k not in sm:
                keys.add(k)
    res_m = dict(first)
    base = st0.base
    for k in keys:
        v = first.get(k)
        if v is None:
            v = base.get(k, UNDEF)
        for (s, _), c in zip(reversed(items[:-1]), reversed(conds[:-1])):
            w = s.m.get(k)
            if w is None:
                w = base.get(k, UNDEF)
            v = join_val(c, w, v)
        if v is UNDEF:
            res_m.pop(k, None)
        else:
            res_m[k] = v
    val = items[-1][1]
    if val is not None:
        for (s, w), c in zip(reversed(items[:-1]), reversed(conds[:-1])):
            val = join_val(c, w, val)
    d = ops.disj(conds)
    pc = pcs[0][:n] + ((d,) if d is not TRUE else ())
    return State(res_m, pc, st0.fid, base), val


# ------------------------------------------------------------------ deciding conditions


class Facts:
    __slots__ = ('lits', 'eqs', 'neqs', 'lo', 'hi', 'ors')

    def __init__(self, pc):
        self.lits = set()
        self.eqs = {}
        self.neqs = {}
        self.lo, self.hi = {}, {}
        self.ors = []
        for c in pc:
            self.add(c)
        for o in self.ors:
            rest = [x for x in o.args if self.known(x) is not False]
            if len(rest) == 1:
                self.add(rest[0])

    def add(self, c):
        if c.op == 'and':
            for x in c.args:
                self.add(x)
            return
        if c.op == 'or':
            self.ors.append(c)
        self.lits.add(c)
        if c.op == 'eq' and c.args[1].op == 'const':
            self.eqs[c.args[0]] = c.args[1]
            v = c.args[1].args[1]
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.lo[c.args[0]] = (v, False)
                self.hi[c.args[0]] = (v, False)
        elif c.op == 'isnone':
            self.eqs[c.args[0]] = NONE
        elif c.op == 'lt':
            self._lt(c, True)
        elif c.op == 'not':
            d = c.args[0]
            if d.op == 'lt':
                self._lt(d, False)
            elif d.op == 'eq' and d.args[1].op == 'const':
                self.neqs.setdefault(d.args[0], set()).add(d.args[1])

    def _lt(self, c, pos):
        a, b = c.args
        if b.op == 'const' and isinstance(b.args[1], (int, float)):
            v = b.args[1]
            if pos:
                self._hi(a, v, True)
            else:
                self._lo(a, v, False)
        elif a.op == 'const' and isinstance(a.args[1], (int, float)):
            v = a.args[1]
            if pos:
                self._lo(b, v, True)
            else:
                self._hi(b, v, False)

    def _hi(self, x, v, strict):
        o = self.hi.get(x)
        if o is None or v < o[0] or (v == o[0] and strict):
            self.hi[x] = (v, strict)

    def _lo(self, x, v, strict):
        o = self.lo.get(x)
        if o is None or v > o[0] or (v == o[0] and strict):
            self.lo[x] = (v, strict)

    def known(self, c):
        """literal-level decision"""
        if c.op == 'const':
            return bool(c.args[1])
        if c in self.lits:
            return True
        if ops.neg(c) in self.lits:
            return False
        if c.op == 'eq':
            a, b = c.args
            if b.op == 'const':
                e = self.eqs.get(a)
                if e is not None:
                    r = ops.eq(e, b)
                    if r.op == 'const':
                        return r.args[1]
                v = b.args[1]
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    lo, hi = self.lo.get(a), self.hi.get(a)
                    if lo and (v < lo[0] or (v == lo[0] and lo[1])):
                        return False
                    if hi and (v > hi[0] or (v == hi[0] and hi[1])):
                        return False
        elif c.op == 'isnone':
            e = self.eqs.get(c.args[0])
            if e is not None:
                return e is NONE
            if mk('nonempty', c.args[0]) in self.lits or c.args[0] in self.lits:
                return False
        elif c.op == 'nonempty':
            e = self.eqs.get(c.args[0])
            if e is not None:
                return bool(e.args[1])
        elif c.op == 'lt':
            a, b = c.args
            if b.op == 'const' and isinstance(b.args[1], (int, float)):
                v = b.args[1]
                lo, hi = self.lo.get(a), self.hi.get(a)
                if hi and (hi[0] < v or (hi[0] == v and hi[1])):
                    return True
                if lo and lo[0] >= v:
                    return False
            elif a.op == 'const' and isinstance(a.args[1], (int, float)):
                v = a.args[1]
                lo, hi = self.lo.get(b), self.hi.get(b)
                if lo and (lo[0] > v or (lo[0] == v and lo[1])):
                    return True
                if hi and hi[0] <= v:
                    return False
        elif c.op == 'isinstance':
            e = self.eqs.get(c.args[0])
            if e is NONE:
                return False
        elif c.op == 'not':
            r = self.known(c.args[0])
            return None if r is None else not r
        elif c.op == 'in':
            if self.eqs.get(c.args[1]) is NONE:
                return None
        return None


_FACTS = {}


def facts_of(pc):
    f = _FACTS.get(pc)
    if f is None:
        if len(_FACTS) > 20000:
            _FACTS.clear()
        f = _FACTS[pc] = Facts(pc)
    return f


_DM = {}


def decide(c, pc, assume=None, depth=0):
    if c.op == 'const':
        return bool(c.args[1])
    if c.op in ('and', 'or', 'ite', 'not'):
        k = (c, pc, assume, depth)
        r = _DM.get(k, 0)
        if r == 0:
            if len(_DM) > 300000:
                _DM.clear()
            r = _DM[k] = _decide(c, pc, assume, depth)
        return r
    return _decide(c, pc, assume, depth)


def _decide(c, pc, assume, depth):
    f = facts_of(pc)
    r = f.known(c)
    if r is not None:
        return r
    if assume is not None:
        r = assume(c)
        if r is not None:
            return r
    if depth > 6:
        return None
    if c.op == 'not':
        r = decide(c.args[0], pc, assume, depth + 1)
        return None if r is None else not r
    if c.op == 'and':
        rs = [decide(x, pc, assume, depth + 1) for x in c.args]
        if any(r is False for r in rs):
            return False
        return True if all(r is True for r in rs) else None
    if c.op == 'or':
        rs = [decide(x, pc, assume, depth + 1) for x in c.args]
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None
    if c.op == 'ite':
        r = decide(c.args[0], pc, assume, depth + 1)
        if r is True:
            return decide(c.args[1], pc, assume, depth + 1)
        if r is False:
            return decide(c.args[2], pc, assume, depth + 1)
        a = decide(c.args[1], pc, assume, depth + 1)
        b = decide(c.args[2], pc, assume, depth + 1)
        return a if a is not None and a == b else None
    return None


def resolve(t, pc, assume=None):
    while t.op == 'ite':
        r = decide(t.args[0], pc, assume)
        if r is None:
            if t.args[1] is UNDEF:
                t = t.args[2]
                continue
            if t.args[2] is UNDEF:
                t = t.args[1]
                continue
            return t
        t = t.args[1] if r else t.args[2]
    return t
