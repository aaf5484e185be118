"""C10: INCAR values keep type, order, tags and comments, and are written in the documented spelling.

The constructor, the accessors and the writer are analysed over shape-abstract documents; the label and conversion of every
stored or written field is compared with the one the statement requires."""
from ..docrun import *

T = tok


def check(ctx):
    A = ctx.A
    ctx.rule('stored', 'A value text is stored as int()/float()/text/bool of its own fields in order, a single one as a scalar')
    ctx.rule('tag', 'Tags are stored in lower case without blanks')
    ctx.rule('written', 'The writer emits, sorted by tag, TAG = value with logicals as .TRUE./.FALSE., lists separated by blanks and comments only on request')
    ctx.rule('comment', 'The comment behind # is kept with its tag and returned on request')
    n, m, k = T('nat', 'n'), T('int', 'm'), T('neg', 'k')
    f, g, e, E2, ie = T('dec', 'f'), T('dec', 'g'), T('expe', 'e'), T('expE', 'E'), T('inte', 'i')
    w, v, u = T('word', 'w'), T('word', 'v'), T('word', 'u')
    ta = table_assume(yaml_keys('incar.yml'))
    L = lambda *x: mk('list', *x)   # noqa
    vals = [
        ('a natural number', [n], INT(n)), ('a signed number', [m], INT(m)), ('a negative number', [k], INT(k)),
        ('a decimal', [f], FLT(f)), ('an exponent', [e], FLT(e)), ('an upper case exponent', [E2], FLT(E2)), ('an exponent without a dot', [ie], FLT(ie)),
        ('a word', [w], w), ('several words', [w, ' ', v, ' ', u], L(w, v, u)), ('two numbers', [n, ' ', k], L(INT(n), INT(k))),
        ('four numbers', [n, ' ', m, '  ', k, ' ', n], L(INT(n), INT(m), INT(k), INT(n))), ('two decimals', [f, ' ', g], L(FLT(f), FLT(g))),
        ('decimals and exponents', [f, ' ', e, ' ', E2], L(FLT(f), FLT(e), FLT(E2))),
        ('three decimals in order', [g, '   ', f, '\t', e], L(FLT(g), FLT(f), FLT(e))),
        ('a multiplicity', [n, '*', f], text(n, '*', f)), ('a literal word', ['Normal'], const('Normal')), ('an upper case word', ['PBE'], const('PBE')),
        ('a literal number', ['500'], const(500)), ('a literal decimal', ['1.50'], const(1.5)), ('inf', ['inf'], None), ('nan', ['nan'], None),
    ]
    for sp in ('.TRUE.', '.True.', '.true.', '.T.', '.t.'):
        vals.append((f'the logical {sp}', [sp], TRUE))
    for sp in ('.FALSE.', '.False.', '.false.', '.F.', '.f.'):
        vals.append((f'the logical {sp}', [sp], FALSE))
    vals += [('two logicals', ['.FALSE. .TRUE.'], L(FALSE, TRUE)), ('three logicals', ['.T.  .F. .t.'], L(TRUE, FALSE, TRUE)),
             ('T', ['T'], const('T')), *((f'the word {x}', [x], const(x)) for x in ('F', 'TRUE', 'FALSE', '.FALSE', '.TRUE', 'true.', '.no.', 'FALSE.', '.False', 'f', 't')), ('a word with a dot', [w, '.', v], text(w, '.', v))]
    hows = ('path', 'string', 'dict', 'modify') if ctx.tier == 'quick' else ('path', 'handle', 'string', 'dict', 'modify')

    def dictsrc(pairs):
        def f(st):
            return {'incar_dict': A.alloc(st, 'dict', mk('dict', *(mk('kv', a, b(st) if callable(b) else b) for a, b in pairs)))}
        return f

    def get(o_val, tag):
        if o_val.op == 'dict':
            for x in o_val.args:
                if x.op == 'kv' and x.args[0] is const(tag):
                    return x.args[1]
        return None

    def judge_dict(want):
        def j(val):
            if val.op != 'dict' or any(x.op != 'kv' for x in val.args):
                return None
            got = {x.args[0]: x.args[1] for x in val.args}
            if set(got) != set(want) and all(is_const(x) or x.op == 'tok' for x in got):
                return False
            rs = [same(got[a], b) if b is not None else True for a, b in want.items() if a in got]
            return False if False in rs else None if None in rs or set(got) != set(want) else True
        return j

    def src(how, tag, parts, comment=None, pre='ENCUT'):
        body = [tag + ' = '] + list(parts) + ([' # '] + list(comment) if comment else [])
        if how in ('path', 'handle', 'string'):
            return dict(lines=lines_of([pre + ' = ', n], body, ['ISIF = ', m]), how=how)
        txt = text(*parts, *([' # '] + list(comment) if comment else []))
        return dict(lines=None, how='none', _dict=dictsrc([(const(pre), text(n)), (const(tag), txt), (const('ISIF'), text(m))]))

    base = {const('encut'): INT(n), const('isif'): INT(m)}
    for name, parts, want in vals:
        for how in hows:
            for cm in ((None, (w, ' ', v)) if how in ('path', 'dict') else (None,)):
                con = f'{how}: {name}{" with comment" if cm else ""}'

                def go():
                    if how == 'modify':
                        def fn(st, o):
                            A.call_method(st, o, 'modify', [const('LORBIT'), text(*parts)], {}, None)
                            return A.call_method(st, o, 'get_dict', [], {}, None)
                        outs = query(A, 'Incar', lines_of(['ENCUT = ', n], ['ISIF = ', m]), fn, extra=ta)
                    else:
                        s = src(how, 'LORBIT', parts, cm)
                        outs = query(A, 'Incar', s.pop('lines'), meth(A, 'get_dict'), s.pop('how'), extra=ta, **s)
                    expect_value(ctx, 'stored', con, outs, judge_dict({**base, const('lorbit'): want}))
                    ctx.count('stored value classes')
                guard(ctx, 'stored', con, go)
    # several entries: every order of value classes, entries per line and spelling of tags
    from itertools import permutations
    pool = [('ENCUT', lambda i: ([T('nat', f'n{i}')], INT(T('nat', f'n{i}')))), ('Sigma', lambda i: ([T('dec', f'f{i}')], FLT(T('dec', f'f{i}')))),
            ('ALGO', lambda i: ([T('word', f'w{i}')], T('word', f'w{i}'))), ('lwave', lambda i: (['.TRUE.'], TRUE)), ('LCHARG', lambda i: (['.F.'], FALSE)),
            ('LDAUL', lambda i: ([T('int', f'a{i}'), ' ', T('neg', f'b{i}'), ' ', T('nat', f'c{i}')], L(INT(T('int', f'a{i}')), INT(T('neg', f'b{i}')), INT(T('nat', f'c{i}'))))),
            ('MAGMOM', lambda i: ([T('nat', f'n{i}'), '*', T('dec', f'f{i}'), ' ', T('dec', f'g{i}')], text(T('nat', f'n{i}'), '*', T('dec', f'f{i}'), ' ', T('dec', f'g{i}')))),
            ('system', lambda i: ([T('word', f'w{i}'), ' ', T('int', f'm{i}')], text(T('word', f'w{i}'), ' ', T('int', f'm{i}'))))]
    lays = [('; ', 5), (';', 3), ('\n', 1), (' ;', 2), (';;', 4), (' ; ; ', 5), ('\n\n', 1)]
    combos = list(permutations(range(len(pool)), 4 if ctx.tier == 'quick' else 5))
    step = 9 if ctx.tier == 'quick' else 3
    for ci, order in enumerate(combos[::step]):
        sep, per = lays[ci % len(lays)]
        lines, want = [], {}
        for j, x in enumerate(order):
            tag, mkp = pool[x]
            parts, val = mkp(j)
            want[const(tag.lower())] = val
            if j % per == 0 or sep[0] == '\n':
                lines += [[]] * (len(sep) - 1 if sep[0] == '\n' else 0) + [[';' if ci % 5 == 4 else '', tag, ' = ', *parts]]
            else:
                lines[-1] += [sep, tag, '=', *parts]
        opt = {'prec': const(ci % 17)} if ci % 3 == 1 else {}
        con = 'entries ' + ' '.join(pool[x][0] for x in order) + f' joined by {sep!r}, {per} per line'
        guard(ctx, 'stored', con, lambda: (expect_value(
            ctx, 'stored', con, query(A, 'Incar', lines_of(*lines), meth(A, 'get_dict'), ('string', 'path')[ci % 2], extra=ta, validate_tags=False, **opt), judge_dict(want)),
            ctx.count('orders of entries')))
    # special tags keep their text
    for tag in ('SYSTEM', 'MAGMOM', 'M_CONSTR', 'System', 'magmom'):
        for parts, nm in (([w, '  ', n, ' ', f], 'mixed text'), ([f, ' ', g, ' ', f], 'decimals'), ([n, '*', f, ' ', m], 'multiplicities'), ([n], 'a number'), ([w], 'a word'),
                          (['.TRUE.'], 'a logical')):
            for how in ('path', 'dict') if ctx.tier == 'quick' else hows[:-1]:
                con = f'{how}: {tag} with {nm}'

                def go():
                    s = src(how, tag, parts)
                    outs = query(A, 'Incar', s.pop('lines'), meth(A, 'get_dict'), s.pop('how'), extra=ta, **s)
                    expect_value(ctx, 'stored', con, outs, judge_dict({**base, const(tag.lower()): text(*parts)}))
                guard(ctx, 'stored', con, go)
    # python values are stored as they are
    V = docs.val
    for nm, x in (('int', V('int', 'i')), ('float', V('float', 'x')), ('bool', V('bool', 'b')), ('True', TRUE), ('False', FALSE), ('zero', const(0)),
                  ('list of ints', lambda st: A.alloc(st, 'list', L(V('int', 'a'), V('int', 'b')))), ('empty list', lambda st: A.alloc(st, 'list', L()))):
        want = L(V('int', 'a'), V('int', 'b')) if nm == 'list of ints' else L() if nm == 'empty list' else x

        def go():
            outs = query(A, 'Incar', None, meth(A, 'get_dict'), 'none', extra=ta, _dict=dictsrc([(const('ENCUT'), const(1)), (const('LORBIT'), x)]))
            expect_value(ctx, 'stored', f'dict: python {nm}', outs, judge_dict({const('encut'): const(1), const('lorbit'): want}))
        guard(ctx, 'stored', f'dict: python {nm}', go)
    # tags
    for sp in ('ENCUT', 'encut', 'Encut', '  ENCUT  ', '\tencut '):
        for how in ('path', 'dict', 'modify'):
            con = f'{how}: tag spelled {sp!r}'

            def go():
                if how == 'path':
                    outs = query(A, 'Incar', lines_of([sp, '= ', n], ['ISIF=', m]), meth(A, 'get_dict'), extra=ta)
                elif how == 'dict':
                    outs = query(A, 'Incar', None, meth(A, 'get_dict'), 'none', extra=ta, _dict=dictsrc([(const(sp), text(n)), (const('ISIF'), text(m))]))
                else:
                    def fn(st, o):
                        A.call_method(st, o, 'modify', [const(sp), text(n)], {}, None)
                        return A.call_method(st, o, 'get_dict', [], {}, None)
                    outs = query(A, 'Incar', lines_of(['ISIF=', m], ['encut = ', f]), fn, extra=ta)
                expect_value(ctx, 'tag', con, outs, judge_dict({const('encut'): INT(n), const('isif'): INT(m)}))
            guard(ctx, 'tag', con, go)
    # single lookups, later duplicates win, deletion
    for con, lines, fn, want in (
            ('get returns the value of its tag', lines_of(['ENCUT = ', n], ['ISIF = ', m], ['ALGO = ', w]), meth(A, 'get', 'isif'), INT(m)),
            ('get of an absent tag is None', lines_of(['ENCUT = ', n]), meth(A, 'get', 'isif'), NONE),
            ('get with comment', lines_of(['ENCUT = ', n, ' # ', w], ['ISIF = ', m, ' # ', v]), meth(A, 'get', 'isif', comment=True), mk('tuple', INT(m), v)),
            ('get with comment, positional', lines_of(['ENCUT = ', n, ' # ', w], ['ISIF = ', m, ' # ', v]), meth(A, 'get', 'encut', True), mk('tuple', INT(n), w)),
            ('get with absent comment', lines_of(['ENCUT = ', n], ['ISIF = ', m, ' # ', v]), meth(A, 'get', 'encut', comment=True), mk('tuple', INT(n), NONE)),
            ('get without comment', lines_of(['ENCUT = ', n, ' # ', w]), meth(A, 'get', 'encut', comment=False), INT(n)),
            ('comment of SYSTEM', lines_of(['SYSTEM = ', n, ' # ', w]), meth(A, 'get', 'system', comment=True), mk('tuple', n, w)),
            ('comment of several words', lines_of(['ENCUT = ', n, '   #  ', w, ' ', f, '  ']), meth(A, 'get', 'encut', comment=True), mk('tuple', INT(n), text(w, ' ', f))),
            ('comment with signs', lines_of(['ENCUT = ', n, ' # ', w, ' # ', v]), meth(A, 'get', 'encut', comment=True), mk('tuple', INT(n), text(w, ' # ', v))),
            ('last duplicate wins', lines_of(['ENCUT = ', n], ['encut = ', f]), meth(A, 'get', 'encut'), FLT(f))):
        for how in ('path', 'string'):
            def go():
                outs = query(A, 'Incar', lines, fn, how, extra=ta)
                expect_value(ctx, 'comment' if 'comment' in con else 'stored', f'{how}: {con}', outs, lambda x: same(x, want))
            guard(ctx, 'comment', con, go)

    def deleted(st, o):
        A.call_method(st, o, 'delete', [const('isif')], {}, None)
        return A.call_method(st, o, 'get_dict', [], {}, None)
    guard(ctx, 'stored', 'delete', lambda: expect_value(
        ctx, 'stored', 'delete removes exactly its tag', query(A, 'Incar', lines_of(['ENCUT = ', n], ['ISIF = ', m], ['ALGO = ', w]), deleted, extra=ta),
        judge_dict({const('encut'): INT(n), const('algo'): w})))
    # written form
    wr = [
        ('sorted upper case tags', [['SIGMA = ', f], ['encut = ', n], ['ALGO = ', w]], ['ALGO = ', w, '\nENCUT = ', INT(n), '\nSIGMA = ', FLT(f), '\n']),
        ('sorted by the whole tag', [['ISTART = ', n], ['ISMEAR = ', m], ['ISIF = ', k]], ['ISIF = ', INT(k), '\nISMEAR = ', INT(m), '\nISTART = ', INT(n), '\n']),
        ('logicals', [['LWAVE = .T.'], ['LCHARG = .false.']], ['LCHARG = .FALSE.\nLWAVE = .TRUE.\n']),
        ('list of integers', [['LDAUL = ', n, ' ', m, ' ', k]], ['LDAUL = ', INT(n), ' ', INT(m), ' ', INT(k), '\n']),
        ('list of decimals', [['LDAUU = ', f, '   ', g]], ['LDAUU = ', FLT(f), ' ', FLT(g), '\n']),
        ('list of words', [['ALGO = ', w, ' ', v]], ['ALGO = ', w, ' ', v, '\n']),
        ('list of logicals', [['LATTICE_CONSTRAINTS = .F. .T.']], ['LATTICE_CONSTRAINTS = .FALSE. .TRUE.\n']),
        ('text of SYSTEM', [['SYSTEM = ', w, '  ', n, ' ', f]], ['SYSTEM = ', w, '  ', n, ' ', f, '\n']),
        ('no comment unless asked', [['ENCUT = ', n, ' # ', w], ['ALGO = ', v, ' # ', u]], ['ALGO = ', v, '\nENCUT = ', INT(n), '\n']),
    ]
    from itertools import product as prod
    for combo in prod((True, False), repeat=3):
        sp = [('.TRUE.', '.T.', '.t.') if b else ('.False.', '.f.', '.F.') for b in combo]
        wr.append((f'logicals {combo}', [['LWAVE = ', sp[0][0]], ['LCHARG = ', sp[1][1]], ['LATTICE_CONSTRAINTS = ', ' '.join(x[j] for j, x in enumerate(sp))]],
                   ['LATTICE_CONSTRAINTS = ' + ' '.join('.TRUE.' if b else '.FALSE.' for b in combo) + '\nLCHARG = ' + ('.TRUE.' if combo[1] else '.FALSE.')
                    + '\nLWAVE = ' + ('.TRUE.' if combo[0] else '.FALSE.') + '\n']))
    wt = [(tg, [tg, ' = ', x], [tg, ' = ', y, '\n']) for tg, x, y in (('ALGO', w, w), ('EDIFF', f, FLT(f)), ('ISIF', k, INT(k)), ('NELM', n, INT(n)))]
    for order in permutations(range(4)):
        wr.append((f'tags in the order {order}', [wt[i][1] for i in order], [x for t in wt for x in t[2]]))
    for cnt in range(1, 6):
        for kd, cv in (('int', INT), ('dec', FLT), ('word', lambda x: x)):
            xs = [T(kd, f'{kd}{i}') for i in range(cnt)]
            wr.append((f'{cnt} {kd} entries', [['LDAUL = '] + [p for x in xs for p in (x, ' ')]], ['LDAUL = '] + [p for i, x in enumerate(xs) for p in ([' '] if i else []) + [cv(x)]] + ['\n']))
    for nm, lines, want in wr:
        for how in ('path', 'string'):
            guard(ctx, 'written', nm, lambda: (expect_value(
                ctx, 'written', f'{how}: {nm}', query(A, 'Incar', lines_of(*lines), meth(A, 'get_string'), how, extra=ta, validate_tags=False), lambda x: same_text(x, want)),
                ctx.count('written documents')))
    # comments on request

    def with_comments(flag):
        def fn(st, o):
            h = A.alloc(st, 'strio', const(''))
            A.call_method(st, o, 'write', [], {'file_handler': h, **({'comments': const(flag)} if flag is not None else {})}, None)
            return st.m[('c', h)]
        return fn
    for flag, want in ((True, ['ALGO = ', v, '\nENCUT = ', INT(n), ' # ', w, '\n']), (False, ['ALGO = ', v, '\nENCUT = ', INT(n), '\n']), (None, ['ALGO = ', v, '\nENCUT = ', INT(n), '\n'])):
        guard(ctx, 'written', f'comments={flag}', lambda: expect_value(
            ctx, 'written', f'write(comments={flag})', query(A, 'Incar', lines_of(['ENCUT = ', n, ' # ', w], ['ALGO = ', v]), with_comments(flag), extra=ta),
            lambda x: same_text(x, want)))
    ctx.floor = 150
    ctx.assumptions = ['word fields stand for words that are none of the literals of the program', 'content outside the listed shape classes is not decided']
