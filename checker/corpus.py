"""Entry points analysed by the effect rules: every constructor with every content source, every method of every class
on an instance with unknown fields, every module-level function."""
import ast
import itertools

from .common import *
from .state import WIDEN

SRC = ('file_path', 'file_handler')


def sources(A, cname):
    ps = params_of(A, cname)
    return [p for p in ps if p in SRC or p.endswith('_string') or p.endswith('_dict')]


def ctor_runs(A, faults=None, classes=None, logger=True):
    """yields (label, outcomes, events, source, instance-or-None)"""
    for cname in classes or [c for c in PARSERS]:
        ps = params_of(A, cname)
        for src in sources(A, cname):
            kw = {}
            for p in ps:
                if p == src:
                    kw[p] = P(p)
                elif p == 'logger':
                    if logger:
                        kw[p] = P(p)
                elif p in SRC or p.endswith('_string') or p.endswith('_dict'):
                    continue
                else:
                    kw[p] = P(p)
            pc = given(*(kw[p] for p in (src, 'logger') if p in kw))
            outs, ev = construct(A, cname, kw, pc=pc, faults=faults, stubs={'_parsee': widened})
            yield f'{cname}({src}=...)', outs, ev, src, cname


def wrong_ctor_runs(A):
    """constructors without a source and with every pair of sources"""
    for cname in PARSERS:
        ps, srcs = params_of(A, cname), sources(A, cname)
        for g in [()] + list(itertools.combinations(srcs, 2)):
            kw = {p: P(p) if p in g or p not in srcs else NONE for p in ps}
            outs, ev = construct(A, cname, kw, pc=given(*(kw[p] for p in g + ('logger',))), stubs={'_parsee': widened})
            yield f'{cname}({", ".join(g) or "no source"})', outs, ev, g, cname


def methods(A, cname):
    """(name, funcinfo) of the methods an instance of cname has, from the class and its package bases"""
    c = A.cls(cname)
    st = A.fresh_state()
    seen = {}
    for k in A.mro(st, c):
        if k.op != 'class':
            continue
        for key, v in A.base.items():
            if key[0] == 'f' and key[1] is k and key[2] not in seen:
                seen[key[2]] = v
    return seen


def method_call(A, cname, name, v, selft=None, argmap=None, faults=None, pc=(), assume=None, stubs=None):
    selft = selft or A.sym_instance(cname)

    def thunk(st):
        if v.op == 'prop':
            return A.call_value(st, v.args[0], [selft], {}, None)
        f = v
        fi = A.funcs[f.args[0]]
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args][1:]
        args = [(argmap or {}).get(n, P(n)) for n in names]
        kw = {x.arg: (argmap or {}).get(x.arg, P(x.arg)) for x in a.kwonlyargs}
        if a.kwarg and argmap and '**' in argmap:
            kw.update(argmap['**'])
        return A.call_value(st, f, [selft] + args, kw, None)
    return A.run(thunk, faults=faults, pc=pc, assume=assume, stubs=stubs if stubs is not None else {'_parsee': widened})


def method_runs(A, classes=None, faults=None, select=None, pc=()):
    for q in sorted(A.classes):
        cname = q.split('.')[-1]
        if classes and cname not in classes:
            continue
        for name, v in sorted(methods(A, cname).items()):
            if v.op not in ('func', 'prop') or (name.startswith('__') and name not in ('__str__', '__repr__')):
                continue
            if v.op == 'prop' and v.args[0] is NONE:
                continue
            if select and not select(cname, name, v):
                continue
            outs, ev = method_call(A, cname, name, v, faults=faults, pc=pc)
            yield f'{cname}.{name}', outs, ev, cname, name


def default_runs(A):
    """every function and method with a mutable default argument, called without that argument"""
    for q, fi in sorted(A.funcs.items()):
        if fi.is_lambda or fi.node is None or fi.closure[0] not in ('g', 'cls'):
            continue
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        dd = dict(zip(pos[len(pos) - len(fi.defaults):], fi.defaults)) if fi.defaults else {}
        dd.update(fi.kwdefaults)
        mut = {n: d for n, d in dd.items() if d.op in ('ref', 'call', 'inst', 'unknown')}
        if not mut:
            continue
        f = mk('func', q)

        def thunk(st, f=f, pos=pos, mut=mut, a=a):
            return A.call_value(st, f, [mut.get(n, P(n)) for n in pos], {x.arg: mut.get(x.arg, P(x.arg)) for x in a.kwonlyargs}, None)
        outs, ev = A.run(thunk, stubs={'_parsee': widened})
        yield f'{q}(default {", ".join(sorted(mut))})', outs, ev


def function_runs(A, faults=None, mods=('base', 'utils')):
    for (k, v) in sorted(A.base.items(), key=lambda kv: str(kv[0])):
        if k[0] == 'v' and k[1][0] == 'g' and v.op == 'func' and v.args[0] == f'{k[1][1]}.{k[2]}':
            fi = A.funcs[v.args[0]]
            a = fi.node.args
            names = [x.arg for x in a.posonlyargs + a.args]

            def thunk(st, v=v, names=names):
                return A.call_value(st, v, [P(n) for n in names], {}, None)
            outs, ev = A.run(thunk, faults=faults, pc=given(P('logger')))
            yield v.args[0], outs, ev, names
