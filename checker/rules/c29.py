"""C29: the shipped tables are consistent."""
import os
import re
import warnings

import yaml

from ..docrun import *
from ..engine import Analyzer
from ..harness import REPO
from .poscardoc import T
from .vaspxml import V, xquery

SYMBOLS = '''H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe
Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn'''.split()
LATE = {113: ('nh', 'uut'), 114: ('fl', 'uuq'), 115: ('mc', 'uup'), 116: ('lv', 'uuh'), 117: ('ts', 'uus'), 118: ('og', 'uuo')}
# tags every release of VASP knows
CORE = '''addgrid aexx algo amix bmix ediff ediffg encut encutgw gga ibrion icharg images iniwav ismear ispin istart isif isym ivdw kpar kpuse kspacing laechg lasph lcalceps lcharg
ldau ldauj ldaul ldauprint ldautype ldauu lelf lepsilon lhfcalc lmaxmix lnoncollinear loptics lorbit lpard lplane lreal lscalapack lsorbit luse_vdw lvhar lvtot lwannier90 lwave magmom
mdalgo metagga nbands nblock ncore nedos nelect nelm nelmdl nelmin nfree npar nsim nsw nupdown omegamax potim prec precfock pstress rwigs saxis sigma smass symprec system
tebeg teend time langevin_gamma langevin_gamma_l m_constr lambda ngx ngy ngz ngxf ngyf ngzf nwrite emin emax efield dipol idipol ldipol hfscreen ialgo ferwe ferdo maxmix'''.split()
KEYS = {'kind', 'location', 'message', 'recover', 'regex', 'suggestion', 'inverse'}


class Unique(yaml.SafeLoader):
    pass


def _mapping(loader, node):
    loader.flatten_mapping(node)
    seen = {}
    for k, v in node.value:
        key = loader.construct_object(k, deep=True)
        if key in seen:
            loader.dups.append((key, k.start_mark.line + 1))
        seen[key] = loader.construct_object(v, deep=True)
    return seen


Unique.add_constructor(yaml.resolver.BaseResolver.DEFAULT_MAPPING_TAG, _mapping)


def load(ctx, rule, name):
    path = os.path.join(REPO, 'parsevasp', name)
    if not os.path.exists(path):
        raise AnalysisError(f'anchor {name} not found')
    with open(path, encoding='utf8') as f:
        l = Unique(f)
        l.dups = []
        try:
            data = l.get_single_data()
        except yaml.YAMLError as e:
            ctx.viol(rule, f'{name} is readable', f'is not valid YAML: {e}'[:200])
            return None
    ctx.ok(rule, f'{name} is readable')
    ctx.check(rule, f'{name} names every entry once', not l.dups, f'repeated keys (the later one replaces the earlier one): {l.dups}', name)
    return data


def check(ctx):
    A = ctx.A
    ctx.rule('elements', 'the element table maps every chemical symbol to its atomic number and nothing else')
    ctx.rule('species', 'the species of a calculation are the atomic numbers of its symbols')
    ctx.rule('stream', 'every entry of the standard stream definition is complete, of supported kind and location and has a compilable pattern')
    ctx.rule('loaded', 'every entry of the standard stream definition becomes a trigger')
    ctx.rule('tags', 'every tag of the INCAR table is lower case and accepted')
    ctx.floor = 900
    elements(ctx)
    for ev in (True, False):
        for i in range(0, len(SYMBOLS), 28):
            guard(ctx, 'species', str((ev, i)), lambda: species(ctx, ev, i))
    stream(ctx)
    tags(ctx)


def elements(ctx):
    A = ctx.A
    st = A.fresh_state()
    t = A.freeze(st, A.glob('constants', 'elements'), True)
    if t.op != 'dict' or any(a.op != 'kv' or not is_const(a.args[0]) or not is_const(a.args[1]) for a in t.args):
        return ctx.undecided('elements', 'table', show(t)[:200])
    tab = {cval(a.args[0]): cval(a.args[1]) for a in t.args}
    for z, s in enumerate(SYMBOLS, 1):
        s = s.lower()
        ctx.check('elements', s, type(tab.get(s)) is int and tab[s] == z, f'{s} has the number {tab.get(s)!r}, expected {z}', 'constants.elements')
    for z, names in LATE.items():
        ctx.check('elements', f'number {z}', any(tab.get(n) == z for n in names), f'no symbol of {names} has the number {z}', 'constants.elements')
    allowed = {s.lower(): z for z, s in enumerate(SYMBOLS, 1)} | {n: z for z, ns in LATE.items() for n in ns} | {'x': 0}
    for s, z in tab.items():
        ctx.check('elements', f'{s} is a symbol', s in allowed and z == allowed[s], f'{s}: {z} is no element' if s not in allowed else f'{s} has the number {z}', 'constants.elements')


def species(ctx, ev, lo):
    A = ctx.A
    syms = tuple(SYMBOLS[lo:lo + 28])
    d = V(species=syms, nk=1, nb=1).doc()
    outs = xquery(A, d, lambda st, o: A.call_method(st, o, 'get_species', [], {}, None), event=ev)
    want = nd(*(const(z) for z in range(lo + 1, lo + len(syms) + 1)))
    expect_value(ctx, 'species', f'{syms[0]} to {syms[-1]}, {"event" if ev else "regular"} parser', outs,
                 lambda v: same(unlist(v), unlist(want)))


def stream(ctx):
    A = ctx.A
    data = load(ctx, 'stream', 'stream.yml')
    if not isinstance(data, dict):
        return ctx.viol('stream', 'table', 'is no mapping of entries') if data is not None else None
    ctx.count('stream entries', len(data))
    for name, d in data.items():
        def c(what, ok, msg):
            ctx.check('stream', f'{name}: {what}', bool(ok), f'{name}: {msg}', 'stream.yml')
        c('name', isinstance(name, str) and name, 'the short name is no text')
        if not isinstance(d, dict):
            c('entry', False, 'is no mapping')
            continue
        c('keys', set(d) <= KEYS, f'unsupported keys {sorted(map(str, set(d) - KEYS))}')
        c('kind', isinstance(d.get('kind'), str) and d['kind'].upper() in ('ERROR', 'WARNING'), f'kind {d.get("kind")!r}')
        c('location', isinstance(d.get('location', 'STDOUT'), str) and d.get('location', 'STDOUT').upper() in ('STDOUT', 'STDERR'), f'location {d.get("location")!r}')
        c('message', isinstance(d.get('message'), str) and d['message'].strip(), f'message {d.get("message")!r}')
        c('suggestion', d.get('suggestion') is None or isinstance(d['suggestion'], str), f'suggestion {d.get("suggestion")!r}')
        for k in ('recover', 'inverse'):
            c(k, isinstance(d.get(k, False), bool), f'{k} {d.get(k)!r} is no boolean')
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                p = re.compile(d.get('regex')) if isinstance(d.get('regex'), str) else None
            c('regex', p is not None, f'pattern {d.get("regex")!r}')
            if p is not None:
                c('regex asks for text', not p.search(''), f'the pattern {d["regex"]!r} is found in every line')
        except re.error as e:
            c('regex', False, f'the pattern does not compile: {e}')

    def loaded(st, o):
        cs = A.getattr(st, o, 'configured_streams', None)
        c = A.content(st, A.res(st, cs))
        names = []
        if c is None or c.op != 'dict':
            return mk('unknown')
        for kv in c.args:
            xs = A.known_seq(st, kv.args[1]) if kv.op == 'kv' else None
            if xs is None:
                return mk('unknown')
            names += [A.getattr(st, x, 'shortname', None) for x in xs]
        return mk('list', *names)
    want = {n for n, d in data.items() if isinstance(d, dict) and not d.get('inverse', False)}

    def judge(v):
        if v.op != 'list' or not all(is_const(x) for x in v.args):
            return None
        got = [cval(x) for x in v.args]
        return want <= set(got) <= set(data)
    guard(ctx, 'loaded', 'configured', lambda: expect_value(ctx, 'loaded', 'configured streams', query(A, 'Stream', lines_of(['  ', T('word', 'text')]), loaded, _tables={'stream.yml': data}),
                                                            judge))


def tags(ctx):
    data = load(ctx, 'tags', 'incar.yml')
    if not isinstance(data, dict):
        return ctx.viol('tags', 'table', 'is no mapping of tags') if data is not None else None
    ctx.count('tags', len(data))
    for t in data:
        ctx.check('tags', str(t), isinstance(t, str) and t == t.lower() and re.fullmatch(r'\w+', t) is not None, f'{t!r} is not a lower case tag and can never match', 'incar.yml')
    for t in CORE:
        ctx.check('tags', f'{t} is there', t in data, f'the tag {t.upper()} of VASP is not in the table and would be refused', 'incar.yml')
    # the table as the program loads it accepts every tag, in either case
    A = Analyzer(REPO, tables={'incar.yml': {k: True for k in data}})
    names = [t for t in data if isinstance(t, str) and t == t.lower()]
    step = 40
    for i in range(0, len(names), step):
        part = names[i:i + step]
        for how, f in (('lower', str.lower), ('upper', str.upper)):
            con = f'accepted, {how} case: {part[0]} to {part[-1]}'
            d = lines_of(*([f'{f(t)} = ', T('dec', t)] for t in part))
            guard(ctx, 'tags', con, lambda: expect_end(ctx, 'tags', con, ctor(A, 'Incar', d, 'string', validate_tags=True)[0], ('ret', None)))
    for t in ('notatag', 'ENCUTX', 'encu', 'x'):
        guard(ctx, 'tags', t, lambda: expect_end(ctx, 'tags', f'{t} is refused', ctor(A, 'Incar', lines_of([f'{t} = ', T('dec', 'v')]), 'string', validate_tags=True)[0], ('exit', 100)))
    guard(ctx, 'tags', 'word', lambda: expect_end(ctx, 'tags', 'any other word is refused', ctor(A, 'Incar', lines_of([T('word', 't'), ' = ', T('dec', 'v')]), 'string', validate_tags=True)[0],
                                                  ('exit', 100)))
