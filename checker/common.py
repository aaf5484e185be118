"""Scenario helpers shared by the rules."""
from .terms import Term, mk, const, NONE, TRUE, FALSE, UNDEF, is_const, cval, lit, show, subterms, contains, subst
from . import ops
from .state import decide, resolve, AnalysisError

PARSERS = ['Incar', 'Kpoints', 'Poscar', 'Outcar', 'Doscar', 'Eigenval', 'Chgcar', 'Potcar', 'Stream', 'Xml']


def P(n):
    return mk('param', n)


def given(*ps):
    return tuple(ops.neg(ops.isnone(p)) for p in ps)


def stub_parsee(A, st, a, k):
    return NONE


def widened(A, st, a, k):
    """analyse a large dispatch function with ungated joins (effects only)"""
    from . import state
    if state.WIDEN[0]:
        return NotImplemented
    stubs, A.stubs = A.stubs, {}
    state.WIDEN[0] = True
    try:
        m = A.class_lookup(st, A.clsof(a[0]), '_parsee')
        return A.call_value(st, m, a, k, None)
    finally:
        state.WIDEN[0] = False
        A.stubs = stubs


def construct(A, cname, kwargs, pc=(), assume=None, faults=None, stubs=None):
    c = A.cls(cname)
    return A.run(lambda st: A.call_value(st, c, [], dict(kwargs), None), pc=pc, assume=assume, faults=faults, stubs=stubs)


def params_of(A, cname):
    """constructor parameter names"""
    c = A.cls(cname)
    init = A.class_attr(c, '__init__')
    if init is None:
        raise AnalysisError(f'{cname}.__init__ not found')
    a = A.funcs[init.args[0]].node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]


def shortw(site):
    (mod, line), stack = site
    return f'{mod.replace(".", "/")}.py:{line} in {stack[-1].split(".", 1)[-1] if stack else "?"}'


def owner(stack):
    return stack[-1].replace('parsevasp.', '') if stack else '<module>'


def deep(t, pc, assume=None):
    """resolve every gate decidable under pc"""
    def f(x):
        if x.op == 'ite':
            r = resolve(x, pc, assume)
            if r is not x:
                return deep(r, pc, assume)
        return None
    return subst(t, f)


def all_ifs_none(d):
    return d
