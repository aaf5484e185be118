"""C15: POSCAR and KPOINTS refuse invalid entries and leave the object as it was; everything is validated at construction and before writing.

Each class of invalid name, value or index is passed to modify, delete, the constructor and (placed in the entries) to the
writers; the ending must be the documented code, the stored entries must be the very terms they were before, and a handler given
to write() must not have received anything."""
from .poscardoc import *
from .kpointsdoc import kpoints_dict
from itertools import product

V = docs.val
TYPE, NOKEY = 13, 12


def containers(A):
    """value classes by name -> builder(st)"""
    li = lambda st, *x: A.alloc(st, 'list', mk('list', *x))   # noqa
    return {
        'an int': lambda st: V('int', 'q'), 'a float': lambda st: V('float', 'q'), 'a bool': lambda st: V('bool', 'q'), 'a string': lambda st: T('word', 'q'),
        'None': lambda st: NONE, 'a tuple': lambda st: mk('tuple', V('float', 'q1'), V('float', 'q2'), V('float', 'q3')), 'a dict': lambda st: A.alloc(st, 'dict', mk('dict')),
        'an empty list': lambda st: li(st), 'a list of ints': lambda st: li(st, *(V('int', f'q{i}') for i in range(3))),
        'a list of floats': lambda st: li(st, *(V('float', f'q{i}') for i in range(3))), 'a list of strings': lambda st: li(st, T('word', 'a'), T('word', 'b')),
        'a list of None': lambda st: li(st, NONE, NONE), 'a list, last one a float': lambda st: li(st, V('int', 'a'), V('int', 'b'), V('float', 'c')),
        'a list, first one a string': lambda st: li(st, T('word', 'a'), V('int', 'b'), V('int', 'c')), 'a list, last one an int': lambda st: li(st, V('float', 'a'), V('float', 'b'), V('int', 'c')),
        'a list of lists of floats': lambda st: li(st, *(li(st, *(V('float', f'q{i}{j}') for j in range(3))) for i in range(3))),
        'a list of lists of ints': lambda st: li(st, *(li(st, *(V('int', f'q{i}{j}') for j in range(3))) for i in range(3))),
        'a list of lists, last element an int': lambda st: li(st, *(li(st, *(V('float' if i + j < 4 else 'int', f'q{i}{j}') for j in range(3))) for i in range(3))),
        'a list, last one a tuple': lambda st: li(st, *(li(st, *(V('float', f'q{i}{j}') for j in range(3))) for i in range(2)), mk('tuple', *(V('float', f'z{j}') for j in range(3)))),
        'a list of five-element lists': lambda st: li(st, *(li(st, *(V('int', f'q{i}{j}') for j in range(5))) for i in range(2))),
        'five-element lists, last element a float': lambda st: li(st, *(li(st, *(V('int' if i + j < 5 else 'float', f'q{i}{j}') for j in range(5))) for i in range(2))),
        'five-element lists, last one with four': lambda st: li(st, *(li(st, *(V('int', f'q{i}{j}') for j in range(5 - i))) for i in range(2))),
        'five-element lists, last one with six': lambda st: li(st, *(li(st, *(V('int', f'q{i}{j}') for j in range(5 + i))) for i in range(2))),
        'a 3x3 array': lambda st: arr(A, st, [[V('float', f'q{i}{j}') for j in range(3)] for i in range(3)]),
        'a 2x3 array': lambda st: arr(A, st, [[V('float', f'q{i}{j}') for j in range(3)] for i in range(2)]),
        'a 3x2 array': lambda st: arr(A, st, [[V('float', f'q{i}{j}') for j in range(2)] for i in range(3)]),
        'a 4x3 array': lambda st: arr(A, st, [[V('float', f'q{i}{j}') for j in range(3)] for i in range(4)]),
        'a vector': lambda st: arr(A, st, [V('float', f'q{i}') for i in range(3)]), 'a vector of nine': lambda st: arr(A, st, [V('float', f'q{i}') for i in range(9)]),
        'a Site': lambda st: site_(A, st), 'a Kpoint': lambda st: kpoint(A, st), 'a list of Sites': lambda st: li(st, site_(A, st), site_(A, st)),
        'a list of Kpoints': lambda st: li(st, kpoint(A, st), kpoint(A, st)), 'a tuple of Sites': lambda st: mk('tuple', site_(A, st)), 'a tuple of Kpoints': lambda st: mk('tuple', kpoint(A, st)),
        'Sites and an int': lambda st: li(st, site_(A, st), V('int', 'q')), 'Kpoints and an int': lambda st: li(st, kpoint(A, st), V('int', 'q')),
        'an int and Kpoints': lambda st: li(st, V('int', 'q'), kpoint(A, st)), 'an int and Sites': lambda st: li(st, V('int', 'q'), site_(A, st)),
        'Kpoints, last one Cartesian': lambda st: li(st, kpoint(A, st), kpoint(A, st, FALSE)),
        "'Gamma'": lambda st: const('Gamma'), "'gamma'": lambda st: const('gamma'), "'Monkhorst-Pack'": lambda st: const('Monkhorst-Pack'), "'Monkhorst'": lambda st: const('Monkhorst'),
        "'Reciprocal'": lambda st: const('Reciprocal'), "'explicit'": lambda st: const('explicit'), "'automatic'": lambda st: const('automatic'), "'line'": lambda st: const('line'),
        "'Line'": lambda st: const('Line'), "'auto'": lambda st: const('auto'), 'an empty string': lambda st: const(''),
    }


def site_(A, st):
    return A.call_value(st, A.cls('Site'), [], {'specie': T('word', 'X'), 'position': arr(A, st, [V('float', f'x{i}') for i in '123'])}, None)


def kpoint(A, st, direct=TRUE):
    return A.call_value(st, A.cls('Kpoint'), [], {'point': arr(A, st, [V('float', f'x{i}') for i in '123']), 'weight': V('float', 'w'), 'direct': direct}, None)


STR = {'a string', 'an empty string', "'Gamma'", "'gamma'", "'Monkhorst-Pack'", "'Monkhorst'", "'Reciprocal'", "'explicit'", "'automatic'", "'line'", "'Line'", "'auto'"}
# entry -> value class -> accepted (absent: refused with the code)
POSCAR_OK = {'comment': STR | {'None'}, 'unitcell': {'a 3x3 array'}, 'sites': {'an empty list', 'a list of Sites'}}
KPOINTS_OK = {
    'comment': STR | {'None'}, 'points': {'None', 'an empty list', 'a list of Kpoints'}, 'tetra': {'None', 'an empty list', 'a list of five-element lists'},
    'tetra_volume': {'None', 'a float'}, 'divisions': {'None', 'an empty list', 'a list of ints'}, 'generating_vectors': {'None', 'an empty list', 'a list of lists of floats'},
    'mode': {'None', "'explicit'", "'automatic'", "'line'"}, 'num_kpoints': {'an int', 'a bool'}, 'shifts': {'None', 'an empty list', 'a list of floats'},
    'centering': {'None', "'Gamma'", "'Monkhorst-Pack'", "'Reciprocal'"}}
OPEN = {('divisions', 'a list of lists of ints'), ('comment', 'a bool')} | {
    (e, v) for e in ('mode', 'centering') for v in ('a 3x3 array', 'a 2x3 array', 'a 3x2 array', 'a 4x3 array', 'a vector', 'a vector of nine')}
CODES = {('points', 'Kpoints and an int'): 210, ('points', 'an int and Kpoints'): 210, ('points', 'Kpoints, last one Cartesian'): 205, ('mode', None): 213, ('centering', None): 212,
         ('tetra', 'five-element lists, last one with four'): 201, ('tetra', 'five-element lists, last one with six'): 201, ('tetra', 'a list of lists of ints'): 201,
         ('tetra', 'a list of lists of floats'): (201, 13), ('tetra', 'a list of lists, last element an int'): (201, 13), ('tetra', 'a list, last one a tuple'): (201, 13)}
for c in ('a list of ints', 'a list of floats', 'a list of strings', 'a list of None', 'a list, last one a float', 'a list, first one a string', 'a list, last one an int',
          'a list of lists of floats', 'a list of lists of ints', 'a list of lists, last element an int', 'a list, last one a tuple', 'a list of five-element lists',
          'five-element lists, last element a float', 'five-element lists, last one with four', 'five-element lists, last one with six', 'a list of Sites', 'Sites and an int',
          'an int and Sites'):
    CODES[('points', c)] = 210


def check(ctx):
    A = ctx.A
    ctx.rule('modify', 'modify() with an unsupported name, a value of the wrong type or a bad index ends with the code of that fault')
    ctx.rule('delete', 'deleting checks the index like modify()')
    ctx.rule('unchanged', 'a refused call leaves every stored entry as it was')
    ctx.rule('stored', 'an accepted call stores the value under its entry and leaves the others')
    ctx.rule('construction', 'content with an invalid entry is refused at construction')
    ctx.rule('written', 'content with an invalid entry is refused before anything is written')
    cv = containers(A)
    for cname, ok, badname, nsite, number, idxcode in (('Poscar', POSCAR_OK, 305, 'sites', 'site_number', 304), ('Kpoints', KPOINTS_OK, 207, 'points', 'point_number', 211)):
        pre = (cname.lower(), 'delete_site' if cname == 'Poscar' else 'delete_point')

        def bases():
            if cname == 'Poscar':
                yield 'two sites', poscar_dict(A, [T('word', s) for s in 'AB'], 'site', True, True, True).build, 2
                yield 'one site', poscar_dict(A, [T('word', s) for s in 'A'], 'site', True).build, 1
            else:
                yield 'explicit', kpoints_dict(A, 'explicit', 2, True, True).build, 2
                yield 'line', kpoints_dict(A, 'line', 2, False).build, 2
                yield 'automatic', kpoints_dict(A, 'automatic', 0, centering='Gamma', shifts=True).build, 0
                yield 'one point', kpoints_dict(A, 'explicit', 1).build, 1

        def run(build, act):
            """outcomes plus the entries before and after on every path"""
            rec = {}

            def thunk(st):
                o = A.call_value(st, A.cls(cname), [], {'logger': P('logger'), **build(st)}, None)
                rec['o'] = o
                rec['before'] = A.freeze(st, A.getattr(st, o, 'entries'), deep=True)
                return act(st, o)
            outs = run_doc(A, thunk, given(P("logger")), doc_assume(), {})
            return outs, rec

        def after(o, rec):
            return A.freeze(o.st, A.getattr(o.st, rec['o'], 'entries'), deep=True)

        def refused(rule, con, build, act, code):
            def go():
                outs, rec = run(build, act)
                if expect_end(ctx, rule, con, outs, ('exit', code)) is True:
                    bad = [o for o in outs if after(o, rec) is not rec['before']]
                    if bad:
                        ctx.viol('unchanged', con, f'the entries are changed to {show(after(bad[0], rec))[:200]}')
                    else:
                        ctx.ok('unchanged', con)
                ctx.count('refused calls')
            guard(ctx, rule, con, go)

        def accepted(con, build, act, want):
            def go():
                outs, rec = run(build, act)
                if expect_end(ctx, 'modify', con, outs, ('ret', None)) is True:
                    for o in outs:
                        a, e = after(o, rec), want(rec['before'])
                        if a is not e:
                            ctx.viol('stored', con, f'stored is {show(a)[:220]}, expected {show(e)[:220]}') if known_dict(a) else ctx.undecided('stored', con, show(a)[:100])
                            break
                    else:
                        ctx.ok('stored', con)
                ctx.count('accepted calls')
            guard(ctx, 'modify', con, go)

        def mod(*a, **kw):
            return lambda st, o: A.call_method(st, o, 'modify', [x(st) if callable(x) else x for x in a], {k: x(st) if callable(x) else x for k, x in kw.items()}, None)
        for bn, build, n in bases():
            # names
            good = {'comment': 'a string', 'unitcell': 'a 3x3 array', 'sites': 'a list of Sites', 'points': 'a list of Kpoints'}
            for nm in [T('word', 'z'), const(''), const('comments'), const('site'), const('point'), const('unit'), const('cell'), const('it'), const('t'), const(' comment'), const('Comment'),
                       const('mod'), const('shift'), const('tetra_vol'), const('kpoints'), const('comment,unitcell')]:
                for vc in ('a string', 'a 3x3 array', 'a list of Sites', 'None'):
                    refused('modify', f'{cname}.modify: {bn}, entry {show(nm)}, value {vc}', build, mod(nm, cv[vc]), badname)
                if n:
                    refused('modify', f'{cname}.modify: {bn}, entry {show(nm)} with an index', build, mod(nm, cv['a Site' if cname == 'Poscar' else 'a Kpoint'], **{number: const(0)}), badname)
            # values
            for entry in ok:
                for vc, b in cv.items():
                    if (entry, vc) in OPEN:
                        continue
                    con = f'{cname}.modify: {bn}, {entry} set to {vc}'
                    if vc in ok[entry]:
                        accepted(con, build, mod(const(entry), b), lambda before: mk('dict', *(
                            mk('kv', x.args[0], A.freeze(A.fresh_state(), NONE) if vc == 'None' else x.args[1]) if lit(x.args[0], entry) else x for x in before.args))
                            if vc == 'None' else mk('dict', *(x if not lit(x.args[0], entry) else mk('kv', x.args[0], frozen(A, b)) for x in before.args)))
                    else:
                        refused('modify', con, build, mod(const(entry), b), CODES.get((entry, vc), CODES.get((entry, None), TYPE)))
            # indices
            item = 'a Site' if cname == 'Poscar' else 'a Kpoint'
            wrong = 13 if cname == 'Poscar' else 210
            for i in range(-3, n + 3):
                con = f'{cname}.modify: {bn}, index {i}'
                if 0 <= i < n:
                    accepted(con, build, mod(const(nsite), cv[item], **{number: const(i)}), lambda before: mk('dict', *(
                        x if not lit(x.args[0], nsite) else mk('kv', x.args[0], mk('list', *(frozen(A, cv[item]) if j == i else y for j, y in enumerate(x.args[1].args)))) for x in before.args)))
                    for vc in ('None', 'an int', 'a dict', 'a string', 'a list of Sites', 'a Kpoint' if cname == 'Poscar' else 'a Site'):
                        refused('modify', f'{con}, value {vc}', build, mod(const(nsite), cv[vc], **{number: const(i)}), wrong)
                    accepted(f'{cname}.{pre[1]}: {bn}, index {i}', build, lambda st, o: A.call_method(st, o, pre[1], [const(i)], {}, None), lambda before: mk('dict', *(
                        x if not lit(x.args[0], nsite) else mk('kv', x.args[0], mk('list', *(y for j, y in enumerate(x.args[1].args) if j != i))) for x in before.args)))
                else:
                    refused('modify', con, build, mod(const(nsite), cv[item], **{number: const(i)}), idxcode)
                    refused('delete', f'{cname}.{pre[1]}: {bn}, index {i}', build, lambda st, o: A.call_method(st, o, pre[1], [const(i)], {}, None), idxcode)
            for vc, b in (('0.0', lambda st: const(0.0)), ("'0'", lambda st: const('0')), ('a float', cv['a float']), ('a string', cv['a string']), ('a list of ints', cv['a list of ints']),
                          ('a tuple', cv['a tuple']), ('1.5', lambda st: const(1.5))):
                refused('modify', f'{cname}.modify: {bn}, index {vc}', build, mod(const(nsite), cv[item], **{number: b}), TYPE)
                refused('delete', f'{cname}.{pre[1]}: {bn}, index {vc}', build, lambda st, o: A.call_method(st, o, pre[1], [b(st)], {}, None), TYPE)
            # invalid content at construction and before writing
            for entry in ok:
                for vc, b in cv.items():
                    if vc in ok[entry] or (entry, vc) in OPEN or vc.startswith('Kpoints, last one Cart') or (cname == 'Poscar' and entry == 'sites' and False):
                        continue
                    code = CODES.get((entry, vc), CODES.get((entry, None), TYPE))

                    def put(st, o):
                        A.setitem(st, A.getattr(st, o, 'entries'), const(entry), b(st))

                    def wr(st, o):
                        put(st, o)
                        h = A.alloc(st, 'strio', const(''))
                        rec2['h'] = h
                        return A.call_method(st, o, 'write', [], {'file_handler': h}, None)
                    rec2 = {}
                    if vc == 'None' and (cname, entry) in (('Poscar', 'unitcell'), ('Poscar', 'sites')):
                        code = TYPE
                    con = f'{cname}: {bn}, {entry} replaced by {vc}'

                    def gow():
                        outs, rec = run(build, wr)
                        if expect_end(ctx, 'written', con + ', write', outs, ('exit', code)) is True:
                            if any((o.st.m.get(('c', rec2['h'])) or const('')) is not const('') for o in outs):
                                ctx.viol('written', con + ', write', 'text is written before the content is refused')
                        outs, rec = run(build, lambda st, o: (put(st, o), A.call_method(st, o, 'get_string', [], {}, None))[1])
                        expect_end(ctx, 'written', con + ', get_string', outs, ('exit', code))
                        ctx.count('invalid contents')
                    guard(ctx, 'written', con, gow)

                    def goc():
                        def thunk(st):
                            k = build(st)
                            A.setitem(st, k[cname.lower() + '_dict'], const(entry), b(st))
                            return A.call_value(st, A.cls(cname), [], {'logger': P('logger'), **k}, None)
                        outs = run_doc(A, thunk, given(P("logger")), doc_assume(), {})
                        if cname == 'Poscar' and entry == 'sites':
                            E = verdict(outs)
                            if E and not any(e == ('ret', None) for e in E):
                                ctx.ok('construction', con)
                            elif E == {('ret', None)}:
                                ctx.viol('construction', con, 'is accepted')
                            else:
                                ctx.undecided('construction', con, str(sorted(map(str, E))))
                        else:
                            expect_end(ctx, 'construction', con, outs, ('exit', code))
                    if not (cname == 'Poscar' and entry == 'sites' and (vc in STR or vc in ('a dict', 'a tuple of Sites'))):
                        guard(ctx, 'construction', con, goc)
            # entries that are missing
            for entry in ok:
                def without(st, d):
                    c = A.content(st, d)
                    st.m[('c', d)] = mk('dict', *(x for x in c.args if not lit(x.args[0], entry)))

                code = (NOKEY, 206) if cname == 'Kpoints' and entry in ('divisions', 'points', 'generating_vectors') else NOKEY

                def gon(code=code):
                    def thunk(st):
                        k = build(st)
                        without(st, k[cname.lower() + '_dict'])
                        return A.call_value(st, A.cls(cname), [], {'logger': P('logger'), **k}, None)
                    expect_end(ctx, 'construction', f'{cname}: {bn}, {entry} missing', run_doc(A, thunk, given(P("logger")), doc_assume(), {}), ('exit', code))

                    def wr(st, o):
                        without(st, A.getattr(st, o, 'entries'))
                        h = A.alloc(st, 'strio', const(''))
                        rec2['h'] = h
                        return A.call_method(st, o, 'write', [], {'file_handler': h}, None)
                    rec2 = {}
                    outs, rec = run(build, wr)
                    if expect_end(ctx, 'written', f'{cname}: {bn}, {entry} missing, write', outs, ('exit', code)) is True:
                        if any((o.st.m.get(('c', rec2['h'])) or const('')) is not const('') for o in outs):
                            ctx.viol('written', f'{cname}: {bn}, {entry} missing, write', 'text is written before the content is refused')
                    ctx.count('missing entries')
                guard(ctx, 'construction', f'{cname}: {bn}, {entry} missing', gon)
            if cname == 'Kpoints':
                def gom():
                    def thunk(st):
                        k = build(st)
                        for e in ('divisions', 'points', 'generating_vectors'):
                            A.setitem(st, k['kpoints_dict'], const(e), NONE)
                        return A.call_value(st, A.cls(cname), [], {'logger': P('logger'), **k}, None)
                    expect_end(ctx, 'construction', f'Kpoints: {bn}, neither divisions nor points nor generating vectors', run_doc(A, thunk, given(P("logger")), doc_assume(), {}), ('exit', 206))
                guard(ctx, 'construction', f'{bn}: no content', gom)
                for entry in ok:
                    def got():
                        vals = []

                        def act(st, o):
                            vals.append((A.freeze(st, A.call_method(st, o, 'get', [const(entry)], {}, None), deep=True), kvget(A.freeze(st, A.getattr(st, o, 'entries'), deep=True), entry)))
                            return NONE
                        outs, rec = run(build, act)
                        con = f'Kpoints.get: {bn}, {entry}'
                        if expect_end(ctx, 'stored', con, outs, ('ret', None)) is True and vals:
                            ctx.check('stored', con, all(a is b for a, b in vals) or None if not all(known(a) for a, b in vals) else all(a is b for a, b in vals), f'returns {show(vals[0][0])[:160]}, stored is {show(vals[0][1])[:160]}')
                    guard(ctx, 'stored', f'get {entry}', got)
            if ctx.tier == 'quick' and bn in ('two sites', 'line'):
                break
    ctx.floor = 500
    ctx.assumptions = ['values of classes other than the listed ones, and objects changed behind the interface, are not decided']


def frozen(A, b):
    st = A.fresh_state()
    rec = {}

    def thunk(s):
        return A.freeze(s, b(s), deep=True)
    outs, _ = A.run(thunk, st, docs={})
    return outs[0].val


def known_dict(t):
    return t.op == 'dict' and all(x.op == 'kv' and (known(x.args[1]) or x.args[1].op in ('inst', 'list')) for x in t.args)
