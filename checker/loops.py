"""Loops and comprehensions: finite iterables are expanded, others summarised by a fixpoint over changed slots."""
import ast

from .terms import Term, mk, const, NONE, TRUE, FALSE, UNDEF, is_const, cval, lit, subst, contains
from . import ops
from .state import State, Dead, Outcome, merge, join_val, opt, ACC


class LoopMixin:
    UNROLL = 260

    # plan: list of ('one', v) | ('sym', n, fn) | ('opt', c, planA, planB)
    def plan(self, st, v):
        v = self.res(st, v)
        k = self.known_seq(st, v)
        if k is not None and len(k) <= self.UNROLL:
            return [('one', x) for x in k]
        c = self.content(st, v)
        if c is not None and c.op in ('list', 'setv', 'tuple'):
            return self.entries_plan(st, c.args)
        if c is not None and c.op == 'dict':
            return self.entries_plan(st, c.args, 'keys')
        if v.op in ('list', 'tuple', 'setv'):
            return self.entries_plan(st, v.args)
        if v.op in ('keys', 'items', 'values'):
            c = self.content(st, v.args[0])
            if c is None and v.args[0].op == 'dict':
                c = v.args[0]
            if c is not None and c.op == 'dict':
                return self.entries_plan(st, c.args, v.op)
            x = self.freeze1(st, v.args[0])
            nn = mk('len', x)

            def f(s, L, op=v.op, x=x):
                e = mk('elem', x, L)
                return {'keys': e, 'items': mk('tuple', e, mk('item', x, e)), 'values': mk('item', x, e)}[op]
            return [('sym', nn, f)]
        if v.op == 'enumerate':
            inner = self.plan(st, v.args[0])
            if len(inner) == 1 and inner[0][0] == 'sym':
                _, nn, f = inner[0]
                return [('sym', nn, lambda s, L: mk('tuple', ops.add(mk('idx', L), v.args[1]), f(s, L)))]
            if all(p[0] == 'one' for p in inner):
                return [('one', mk('tuple', ops.add(const(i), v.args[1]), p[1])) for i, p in enumerate(inner)]
            x = self.freeze1(st, v.args[0])
            return [('sym', self.length(x), lambda s, L: mk('tuple', ops.add(mk('idx', L), v.args[1]), self.getitem(s, v.args[0], mk('idx', L))))]
        if v.op == 'zip':
            inner = [self.plan(st, a) for a in v.args]
            syms = [p[0] for p in inner if len(p) == 1 and p[0][0] == 'sym']
            if syms:
                nn = syms[0][1]
                return [('sym', nn, lambda s, L: mk('tuple', *(p[0][2](s, L) if len(p) == 1 and p[0][0] == 'sym' else self.getitem(s, a, mk('idx', L))
                                                                for p, a in zip(inner, v.args))))]
            return [('sym', self.length(self.freeze1(st, v.args[0])), lambda s, L: mk('tuple', *(self.getitem(s, a, mk('idx', L)) for a in v.args)))]
        if v.op == 'range':
            a = v.args
            lo = a[0] if len(a) > 1 else const(0)
            step = a[2] if len(a) > 2 else const(1)
            nn = self.range_len(v)

            def f(s, L):
                return ops.add(lo, ops.mul(mk('idx', L), step))
            return [('sym', nn, f)]
        if v.op == 'reversed':
            x = self.freeze1(st, v.args[0])
            return [('sym', self.length(x), lambda s, L: mk('elem', mk('reversed', x), L))]
        if v is NONE or self.pytype(st, v) in ('int', 'float', 'bool') or self.plain_inst(st, v, '__iter__') and self.plain_inst(st, v, '__getitem__'):
            self.do_raise(st, self.exc('TypeError'))
        if v.op == 'ref' and v.args[1] in ('file', 'strio') or (v in self.docs):
            v = self.call_method(st, v, 'readlines', [], {}, None)
            k = self.known_seq(st, v)
            if k is not None and len(k) <= self.UNROLL:
                return [('one', x) for x in k]
        if v.op == 'ref' and v.args[1] == 'inst':
            it = self.class_lookup(st, v.args[2], '__iter__')
            if it is not None:
                return self.plan(st, self.call_value(st, mk('bound', it, v), [], {}, None))
        if v.op in ('attr', 'item', 'param', 'elem', 'get') and self.catchable('TypeError'):
            self.maybe_raise(st, 'TypeError', self.isnone(v))
        x = self.freeze1(st, v)
        if x.op == 'list':
            return self.entries_plan(st, x.args)
        nn = self.length(x)
        return [('sym', nn, lambda s, L: self.mkitem(x, mk('idx', L)))]

    def entries_plan(self, st, entries, mode=None):
        out = []

        def conv(e):
            if e.op == 'kv':
                k, v = e.args
                return {'keys': k, 'items': mk('tuple', k, v), 'values': v}[mode or 'keys']
            return e
        for e in entries:
            if e.op == 'each':
                L0, sub = e.args
                inner = self.entries_plan(st, sub, mode)
                if len(inner) == 1 and inner[0][0] == 'one':
                    x = inner[0][1]
                    out.append(('sym', L0.args[0], lambda s, L, L0=L0, x=x: subst(x, {L0: L})))
                else:
                    out.append(('nest', L0.args[0], L0, inner))
            elif e.op == 'opt':
                out.append(('opt', e.args[0], self.entries_plan(st, e.args[1], mode), self.entries_plan(st, e.args[2], mode)))
            elif e.op == 'splice':
                x = e.args[0]
                if x.op == 'reversed' or mode in (None, 'keys'):
                    out.append(('sym', self.length(x), lambda s, L, x=x: self.mkitem(x, mk('idx', L)) if mode is None else mk('elem', x, L)))
                else:
                    out.append(('sym', mk('len', x), lambda s, L, x=x: mk('tuple', mk('elem', x, L), mk('item', x, mk('elem', x, L))) if mode == 'items' else mk('item', x, mk('elem', x, L))))
            elif e.op == 'del':
                self.note('iterating after symbolic deletion')
            else:
                out.append(('one', conv(e)))
        return out

    # ------------------------------------------------------------ for

    def x_For(self, s, st):
        it = self.eval(s.iter, st)
        plan = self.plan(st, it)

        def body(x):
            return self.exec_block(s.body, x)

        def bind(x, v):
            self.assign(s.target, v, x)
        brk = self.run_plan(st, plan, bind, body, s)
        self.finish_loop(st, brk, s.orelse)

    def finish_loop(self, st, brk, orelse):
        """st: state after normal exhaustion (or pc False when dead)"""
        alive = st.pc is not None
        if alive and orelse:
            r = self.exec_block(orelse, st)
            if r is None:
                alive = False
        live = ([(st.copy(), None)] if alive else []) + [(b, None) for b in brk]
        if not live:
            raise Dead()
        fid = st.fid
        ns, _ = merge(live)
        st.become(ns)
        st.fid = fid

    def run_plan(self, st, plan, bind, body, node):
        """executes; returns list of break states; st becomes the exhaustion state (st.pc None if unreachable)"""
        brk = []
        fid = st.fid
        todo = list(plan)[::-1]
        count = 0
        while todo:
            p = todo.pop()
            if st.pc is None:
                break
            if p[0] == 'lazy':
                v = p[1](st)
                if v is None:
                    continue
                count += 1
                if count > 1500:
                    from .state import Limit
                    raise Limit('endless iteration')
                todo += [p, ('one', v)]
                continue
            if p[0] == 'one':
                self.coll.append([])
                end = None
                try:
                    bind(st, p[1])
                    end = body(st)
                except Dead:
                    end = None
                outs = self.coll.pop()
                live = [(end, None)] if end is not None else []
                for o in outs:
                    if o.kind == 'continue' and o.fid == fid:
                        live.append((o.st, None))
                    elif o.kind == 'break' and o.fid == fid:
                        brk.append(o.st)
                    else:
                        self.coll[-1].append(o)
                if not live:
                    st.pc = None
                    break
                ns, _ = merge(live)
                st.become(ns)
                st.fid = fid
            elif p[0] == 'opt':
                d = self.dec(st, p[1])
                if d is not None:
                    brk += self.run_plan(st, p[2] if d else p[3], bind, body, node)
                    continue
                sa, sb = st.copy(), st.copy()
                sa.pc = st.pc + (p[1],)
                sb.pc = st.pc + (ops.neg(p[1]),)
                brk += self.run_plan(sa, p[2], bind, body, node)
                brk += self.run_plan(sb, p[3], bind, body, node)
                live = [(x, None) for x in (sa, sb) if x.pc is not None]
                if not live:
                    st.pc = None
                    break
                ns, _ = merge(live)
                st.become(ns)
            elif p[0] == 'nest':
                inner = p[3]

                def nbind(x, L):
                    x.m[('nestL',)] = L

                def nbody(x, L0=p[2], inner=inner):
                    L = x.m[('nestL',)]
                    sub = self.subst_plan(inner, L0, L)
                    b = self.run_plan(x, sub, bind, body, node)
                    if b:
                        self.note('break in nested plan')
                    return x if x.pc is not None else None
                brk += self.sym_loop(st, p[1], lambda x, L: nbind(x, L), nbody, node)
            else:
                brk += self.sym_loop(st, p[1], lambda x, L, f=p[2]: bind(x, f(x, L)), body, node)
        return brk

    def subst_plan(self, plan, L0, L):
        out = []
        for p in plan:
            if p[0] == 'one':
                out.append(('one', subst(p[1], {L0: L})))
            elif p[0] == 'opt':
                out.append(('opt', subst(p[1], {L0: L}), self.subst_plan(p[2], L0, L), self.subst_plan(p[3], L0, L)))
            elif p[0] == 'sym':
                out.append(('sym', subst(p[1], {L0: L}), lambda s, LL, f=p[2]: subst(f(s, LL), {L0: L})))
            else:
                out.append(('nest', subst(p[1], {L0: L}), p[2], p[3]))
        return out

    # ------------------------------------------------------------ symbolic loops

    def slot_label(self, k):
        if k[0] == 'v':
            return f'v{k[1][1] if k[1][0] == "v" else k[1][1]}.{k[2]}'
        if k[0] == 'f':
            return f'f{k[1].n}.{k[2]}'
        return f"{k[0]}{getattr(k[1], "n", k[1]) if len(k) > 1 else ""}"

    def invalue(self, L, key, init, subs, ind):
        lab = self.slot_label(key)
        if init.op == 'dict' and all(e.op == 'kv' and is_const(e.args[0]) for e in init.args) and subs is not None:
            ent = []
            for e in init.args:
                if e.args[0] in subs:
                    ik = (key, e.args[0])
                    if ik in ind:
                        ent.append(mk('kv', e.args[0], ops.add(e.args[1], ops.scale(mk('idx', L), ind[ik]))))
                    else:
                        ent.append(mk('kv', e.args[0], mk('lv', L, lab + '/' + str(cval(e.args[0])), e.args[1])))
                else:
                    ent.append(e)
            return mk('dict', *ent)
        if (key, None) in ind:
            return ops.add(init, ops.scale(mk('idx', L), ind[(key, None)]))
        lv = mk('lv', L, lab, init)
        if key[0] == 'c' and init.op in ('list', 'dict', 'setv'):
            return mk(init.op, mk('splice', lv))
        return lv

    def sym_loop(self, st, n, bind, body, node, cond=None):
        L = mk('loop', n, len(self.loops))
        if is_const(n) and cval(n) == 0:
            return []
        fid = st.fid
        pre = st.copy()
        hk = (id(node), tuple(self.cstack), len(self.loops))
        changed = {}          # key -> set(subkeys) or None (whole)
        for k, v in self.hints.get(hk, {}).items():
            if pre.get(k) is not None or k[0] == 'v':
                changed[k] = v
        ind, tried = {}, set()
        mark = (self.oid, self.fidc, len(self.events), dict(self.notes))
        for rnd in range(12):
            self.oid, self.fidc = mark[0], mark[1]
            del self.events[mark[2]:]
            cur = pre.copy()
            ins = {}
            for k, subs in changed.items():
                init = pre.get(k)
                if init is None:
                    init = UNDEF
                ins[k] = self.invalue(L, k, init, subs, ind)
                cur.m[k] = ins[k]
            self.loops.append(L)
            self.coll.append([])
            end = None
            exitst = []
            try:
                if cond is not None:
                    c = cond(cur)
                    d = self.dec(cur, c)
                    if d is False:
                        raise Dead()
                    if d is None:
                        ex = cur.copy()
                        ex.pc = ex.pc + (ops.neg(c),)
                        exitst.append(ex)
                        cur.pc = cur.pc + (c,)
                bind(cur, L)
                end = body(cur)
            except Dead:
                end = None
            outs = self.coll.pop()
            self.loops.pop()
            conts = [(end, None)] if end is not None else []
            brk, esc = [], []
            for o in outs:
                if o.kind == 'continue' and o.fid == fid:
                    conts.append((o.st, None))
                elif o.kind == 'break' and o.fid == fid:
                    brk.append((o.st, None))
                else:
                    esc.append(o)
            for x, _ in conts + brk:
                x.fid = fid
            endst = merge(conts)[0] if conts else None
            brkst = merge(brk)[0] if brk else None
            grew = False
            for x in (endst, brkst):
                if x is None:
                    continue
                for k, v in x.m.items():
                    if k[0] in ('nestL', 'curexc'):
                        continue
                    p = pre.get(k)
                    if p is None:
                        if not (k[0] == 'v' and self.preexisting(k, mark)):
                            if not (k[0] in ('f', 'c', 'h', 'o') and self.preexisting(k, mark)):
                                continue
                        if k not in changed:
                            changed[k] = None
                            grew = True
                        continue
                    if k in changed:
                        subs = changed[k]
                        if subs is not None:
                            i = pre.get(k)
                            e = ins[k]
                            if v.op == 'dict' and len(v.args) == len(i.args) and all(a.op == 'kv' and a.args[0] is b.args[0] for a, b in zip(v.args, i.args)):
                                ns = {a.args[0] for a, b in zip(v.args, e.args) if a.args[1] is not b.args[1]} - subs
                                if ns:
                                    changed[k] = subs | ns
                                    grew = True
                            else:
                                changed[k] = None
                                grew = True
                        continue
                    if v is not p:
                        if k[0] in ('c',) and p.op == 'dict' and p.args and all(e.op == 'kv' and is_const(e.args[0]) for e in p.args):
                            if v.op == 'dict' and len(v.args) == len(p.args) and all(a.op == 'kv' and a.args[0] is b.args[0] for a, b in zip(v.args, p.args)):
                                changed[k] = frozenset(a.args[0] for a, b in zip(v.args, p.args) if a.args[1] is not b.args[1])
                            else:
                                changed[k] = None
                        else:
                            changed[k] = None
                        grew = True
            if grew:
                continue
            # induction variables
            if endst is not None:
                newind = False
                for k, subs in changed.items():
                    init = pre.get(k)
                    if init is None or k[0] == 'c' and subs is None:
                        continue
                    for sk in (subs if subs is not None else (None,)):
                        if (k, sk) in tried:
                            continue
                        u, iv, i0 = endst.m.get(k), ins[k], init
                        if u is None:
                            continue
                        if sk is not None:
                            u, iv, i0 = self._kv(u, sk), self._kv(iv, sk), self._kv(init, sk)
                        if u is None or iv is None or u.op != 'lin':
                            continue
                        dlt = ops.sub(u, iv)
                        if is_const(dlt) and isinstance(cval(dlt), int) and (ops.typ(i0) == 'num' or i0.op in ('lin', 'lv', 'lout')) and \
                                (brkst is None or True):
                            ind[(k, sk)] = cval(dlt)
                            tried.add((k, sk))
                            newind = True
                if newind:
                    continue
            break
        self.hints[hk] = {k: v for k, v in changed.items()}
        # results
        npc = len(pre.pc)
        escconds = []
        for o in esc:
            suf = ops.conj(o.st.pc[npc:])
            a = self.mk_any(L, suf)
            o.st.pc = pre.pc + (a,)
            escconds.append(a)
            for k in list(o.st.m):
                if k == ('nestL',):
                    del o.st.m[k]
            self.coll[-1].append(o)
        res = pre.copy()
        bc = None
        if brkst is not None:
            bc = ops.conj(brkst.pc[npc:])
        if endst is None and brkst is None:
            # every iteration leaves: loop runs at most to its first iteration
            ne = self.trip_nonempty(L)
            if self.dec(pre, ne) is True or esc and False:
                st.become(pre)
                st.pc = None
                return []
            st.become(pre)
            st.pc = pre.pc + tuple(ops.neg(a) for a in escconds)
            return []
        final = {}
        for k, subs in changed.items():
            init = pre.get(k)
            if init is None:
                init = UNDEF
            u = endst.m.get(k, endst.base.get(k, UNDEF)) if endst is not None else None
            b = brkst.m.get(k, UNDEF) if brkst is not None else None
            lab = self.slot_label(k)
            if subs is not None:
                ent = []
                for e in init.args:
                    q = e.args[0]
                    if q in subs:
                        ent.append(mk('kv', q, self.closed(L, n, lab + '/' + str(cval(q)), e.args[1], self._kv(u, q) if u is not None else None,
                                                           self._kv(b, q) if b is not None else None, bc, ind.get((k, q)), False)))
                    else:
                        ent.append(e)
                final[k] = mk('dict', *ent)
            else:
                final[k] = self.closed(L, n, lab, init, u, b, bc, ind.get((k, None)), k[0] == 'c')
        for k, v in final.items():
            if v is UNDEF:
                res.m.pop(k, None)
            else:
                res.m[k] = v
        # fields/contents of objects allocated by the last pass stay visible
        for x in (brkst, endst):
            if x is None:
                continue
            for k, v in x.m.items():
                if k not in final and k not in pre.m and k[0] in ('f', 'c', 'o', 'h', 'path', 'bases', 'parent') and k != ('nestL',):
                    res.m[k] = v
        res.pc = pre.pc + tuple(ops.neg(a) for a in escconds)
        res.m.pop(('nestL',), None)
        st.become(res)
        st.fid = fid
        return []

    def mk_any(self, L, c):
        if c is FALSE:
            return FALSE
        if c is TRUE:
            return self.trip_nonempty(L)
        return mk('anyiter', L, c)

    def preexisting(self, k, mark):
        o = k[1]
        if k[0] == 'v':
            f = o
            return f is None or f[0] != 'v' or not isinstance(f[1], int) or f[1] <= mark[1]
        if isinstance(o, Term):
            if o.op == 'ref':
                return o.args[0] <= mark[0]
            return True
        return False

    def _kv(self, d, k):
        if d.op != 'dict':
            return None
        for e in d.args:
            if e.op == 'kv' and e.args[0] is k:
                return e.args[1]
        return None

    def closed(self, L, n, lab, init, u, b, bc, ind, iscontent):
        lv = mk('lv', L, lab, init)
        if b is None and u is not None:
            if u is lv:
                return init
            if ind is not None and u.op == 'lin':
                return ops.add(init, ops.scale(n, ind)) if n.op not in ('while',) else mk('lout', L, lab, init, u)
            if u.op in ('list', 'setv', 'dict') and u.args and u.args[0] is mk('splice', lv):
                rest = u.args[1:]
                if not rest:
                    return init
                if not contains(mk('tuple', *rest), lambda x: x is lv):
                    base = init.args if init.op == u.op else (mk('splice', init),)
                    return mk(u.op, *base, mk('each', L, rest))
            if u.op == 'concat' and u.args and u.args[0] is lv:
                rest = u.args[1:]
                if not contains(mk('tuple', *rest), lambda x: x is lv):
                    return ops.concat(init, mk('each', L, (ops.concat(*rest),)))
            if u.op == 'arr' and u.args[0] is lv:
                rest = u.args[1:]
                if not contains(mk('tuple', *rest), lambda x: x is lv):
                    base = init.args if init.op == 'arr' else (init,)
                    return mk('arr', *base, mk('each', L, rest))
        if u is None:
            u = lv
        if b is not None:
            return mk('lout', L, lab, init, ops.ite(bc, b, u), bc)
        return mk('lout', L, lab, init, u)

    def x_While(self, s, st):
        n = mk('while', self.cur[0], s.lineno)
        if self.peel:
            brk = self.peel_while(s, st)
            if brk is not None:
                self.finish_loop(st, brk, s.orelse)
                return

        def cond(x):
            return self.truth(x, self.eval(s.test, x))
        brk = self.sym_loop(st, n, lambda x, L: None, lambda x: self.exec_block(s.body, x), s, cond=cond)
        self.finish_loop(st, brk, s.orelse)

    def peel_while(self, s, st, bound=600):
        """iterate while the loop condition is decided by the document; None (state untouched) when it is not"""
        cur = st.copy()
        mark = len(self.events)
        nout = len(self.coll[-1])
        brk = []
        fid = st.fid
        for _ in range(bound):
            c = self.truth(cur, self.eval(s.test, cur))
            d = self.dec(cur, c)
            if d is None:
                break
            if d is False:
                st.become(cur)
                return brk
            self.coll.append([])
            end = self.exec_block(s.body, cur)
            outs = self.coll.pop()
            live = [(end, None)] if end is not None else []
            for o in outs:
                if o.kind == 'continue' and o.fid == fid:
                    live.append((o.st, None))
                elif o.kind == 'break' and o.fid == fid:
                    brk.append(o.st)
                else:
                    self.coll[-1].append(o)
            if not live:
                st.become(cur)
                st.pc = None
                return brk
            if brk:
                break
            cur, _ = merge(live)
            cur.fid = fid
        del self.events[mark:]
        del self.coll[-1][nout:]
        return None

    # ------------------------------------------------------------ comprehensions

    def e_ListComp(self, n, st):
        return self.comp_ast(n, st, 'list', lambda s: self.eval(n.elt, s))

    def e_GeneratorExp(self, n, st):
        return self.comp_ast(n, st, 'list', lambda s: self.eval(n.elt, s))

    def e_SetComp(self, n, st):
        return self.comp_ast(n, st, 'set', lambda s: self.eval(n.elt, s))

    def e_DictComp(self, n, st):
        return self.comp_ast(n, st, 'dict', lambda s: mk('kv', self.eval(n.key, s), self.eval(n.value, s)))

    def comp_ast(self, n, st, kind, elt, stop=None):
        """stop(state, element): no further element is asked for"""
        pc0 = st.pc
        done = []

        names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        saved = {k: st.m.get(('v', st.fid, k)) for k in names}
        fid = st.fid
        r = self.alloc(st, kind, mk({'list': 'list', 'set': 'setv', 'dict': 'dict'}[kind]))

        def put(s):
            v = elt(s)
            c = self.content(s, r)
            if kind == 'dict':
                s.m[('c', r)] = self.dict_put(c, v.args[0], v.args[1])
            else:
                s.m[('c', r)] = mk(c.op, *c.args, v)
            if stop is not None and not self.loops and s.pc is pc0 and stop(s, v):
                done.append(v)

        def gen(i, s):
            if i == len(n.generators):
                put(s)
                return
            g = n.generators[i]

            def body(x):
                if done:
                    return x
                try:
                    cs = [self.truth(x, self.eval(c, x)) for c in g.ifs[:1]]
                    for c in g.ifs[1:]:
                        cs.append(self.truth(x, self.eval(c, x)))
                    if cs:
                        self.fork(x, ops.conj(cs), lambda y: (gen(i + 1, y), NONE)[1], lambda y: NONE)
                    else:
                        gen(i + 1, x)
                    return x
                except Dead:
                    return None
            it = self.eval(g.iter, s)
            self.run_plan(s, self.plan(s, it), lambda x, v: self.assign(g.target, v, x), body, g)
            if s.pc is None:
                raise Dead()
        gen(0, st)
        for k, v in saved.items():
            if v is None:
                st.m.pop(('v', fid, k), None)
            else:
                st.m[('v', fid, k)] = v
        return r

    def comp(self, st, gens, conds, elt, kind):
        """programmatic comprehension over one iterable"""
        r = self.alloc(st, kind, mk('list' if kind == 'list' else 'dict'))
        (it, bind), = gens

        def body(x):
            try:
                def add(y):
                    v = elt(y)
                    c = self.content(y, r)
                    if kind == 'dict':
                        y.m[('c', r)] = self.dict_put(c, v.args[0], v.args[1])
                    else:
                        y.m[('c', r)] = mk(c.op, *c.args, v)
                    return NONE
                if conds:
                    self.fork(x, ops.conj([c(x) for c in conds]), add, lambda y: NONE)
                else:
                    add(x)
                return x
            except Dead:
                return None
        self.run_plan(st, self.plan(st, it), bind, body, r)
        if st.pc is None:
            raise Dead()
        return r
