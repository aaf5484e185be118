"""C34: the shared helpers of parsevasp.utils do what their documentation says."""
import math

from ..docrun import *
from .poscardoc import T

FILT = (('VOLUME', ('VOLUME',)), ('ion', ('ion',)), (('VOLUME', 'ion'), ('VOLUME', 'ion')), (('ion',), ('ion',)), (('VOLUME', 'of'), ('VOLUME', 'of')), ((), ()), (('absent',), ('absent',)), ('OLUM', ('OLUM',)), (('OLUM', 'umbe'), ('OLUM', 'umbe')), ('number of', ('number of',)),
        (('volume of', 'number of'), ('volume of', 'number of')), ('again', ('again',)), (('again', 'VOLUME'), ('again', 'VOLUME')), ('same', ('same',)))


def fn(A, name):
    return A.glob('utils', name)


def call(A, name, args=(), kw=None, d=None, extra=None, pc=(), handle=None):
    """outcomes of utils.name(*args): args are terms or python data"""
    def thunk(st):
        f = fn(A, name)
        v = A.call_value(st, f, [a if isinstance(a, Term) else A.from_data(st, a) for a in args],
                         {k: a if isinstance(a, Term) else A.from_data(st, a) for k, a in (kw or {}).items()}, None)
        return arrays.norm(A.freeze(st, v, deep=True))
    return run_doc(A, thunk, list(pc), doc_assume(extra), d or {})


def check(ctx):
    A = ctx.A
    ctx.rule('filter', 'reading with a filter returns exactly the lines that hold one of the words, in the order of the file, each once')
    ctx.rule('read', 'reading without a filter returns the lines of the file or its text as they are')
    ctx.rule('kinds', 'sequences, numbers, lines of numbers and the type of a text are recognised')
    ctx.rule('coordinates', 'direct, cartesian and reciprocal coordinates are converted with the lattice')
    ctx.rule('line', 'a line is converted entry by entry, a single entry is returned by itself')
    ctx.rule('parameter', 'an integer parameter of a line is stored under its lower case name, other lines change nothing')
    ctx.rule('exists', 'a path is reported as existing exactly if the system knows it')
    ctx.rule('newline', 'the written file loses its last newlines and nothing else')
    ctx.floor = 120
    for f in (filters, kinds, coordinates, line, parameter, exists, newline):
        f(ctx)


def both(ctx, lines):
    pf, ph = P('file_name'), P('input_file_handler')
    yield 'path', (pf, NONE), {pf: lines}, given(pf)
    yield 'handle', (NONE, ph), {ph: lines}, given(ph)
    yield 'both', (pf, ph), {pf: lines_of(['no ', T('int', 'other')]), ph: lines}, given(pf, ph)


def filters(ctx):
    A = ctx.A
    rows = [['VOLUME of the cell ', T('fix', 'a')], ['  ', T('int', 'b'), ' number of ions ion'], ['nothing ', T('fix', 'c')], [''], ['VOLUME ', T('fix', 'd'), ' ion'], ['volume ', T('int', 'e')],
            ['of VOLUME VOLUME ', T('int', 'g')], ['again the same line'], ['again the same line'], ['ion'], ['again the same line']]
    lines = lines_of(*rows)
    lits = [''.join(p for p in r if isinstance(p, str)) for r in rows]
    for how, args, d, pc in both(ctx, lines):
        for words, ws in FILT:
            for cont in ((tuple, list) if isinstance(words, tuple) else (str,)):
                con = f'{how}: lines with {cont(words)!r}'
                want = [l for l, s in zip(lines, lits) if any(w in s for w in ws)]
                guard(ctx, 'filter', con, lambda: expect_value(ctx, 'filter', con, call(A, 'read_from_file', args, {'contains': cont(words), 'logger': P('logger')}, d, pc=pc), lambda v: seq_is(v, want)))
        for kw, con, want in (({}, 'lines', lines), ({'lines': const(True)}, 'lines=True', lines), ({'contains': NONE}, 'contains=None', lines), ({'lines': const(False)}, 'lines=False', None),
                              ({'lines': const(False), 'contains': const('VOLUME')}, 'lines=False with a filter', None)):
            con = f'{how}: {con}'
            j = (lambda v: seq_is(v, lines)) if want is not None else (lambda v: text_is(v, lines))
            guard(ctx, 'read', con, lambda: expect_value(ctx, 'read', con, call(A, 'read_from_file', args, {'logger': P('logger'), **kw}, d, pc=pc), j))


def text_is(v, lines):
    want = ops.concat(*lines)
    return True if v is want else False if enc_ok(v) or known(v) else None


def enc_ok(v):
    return v.op in ('concat', 'tok', 'const')


def seq_is(v, want):
    if v.op not in ('list', 'tuple', 'nd'):
        return False if v.op == 'const' else None
    if len(v.args) == len(want) and all(a is b for a, b in zip(v.args, want)):
        return True
    return False if all(enc_ok(a) for a in v.args) else None


def is_const_value(want):
    def j(v):
        if is_const(v):
            g = cval(v)
            return type(g) is type(want) and g == want
        return False if known(v) else None
    return j


def kinds(ctx):
    A = ctx.A
    for data in ([], [1], ['a', 'b'], (), (1, 2), {}, {'a': 1}):
        con = f'is_sequence({data!r})'
        guard(ctx, 'kinds', con, lambda: expect_value(ctx, 'kinds', con, call(A, 'is_sequence', [data]), is_const_value(True)))
    for data in ('', 'text', 1, 1.5, None, True, T('word', 'w'), T('fix', 'x')):
        con = f'is_sequence({data!r})' if not isinstance(data, Term) else f'is_sequence of a {data.args[0]} text'
        guard(ctx, 'kinds', con, lambda: expect_value(ctx, 'kinds', con, call(A, 'is_sequence', [data]), is_const_value(False)))
    con = 'is_sequence of an array'
    guard(ctx, 'kinds', con, lambda: expect_value(ctx, 'kinds', con, run_doc(A, lambda st: A.call_value(st, fn(A, 'is_sequence'), [arr(A, st, [1, 2])], {}, None), [], doc_assume(), {}), is_const_value(True)))
    num = [T(k, 'n') for k in ('nat', 'int', 'neg', 'fix', 'dec', 'sci', 'expe', 'expE', 'inte')]
    no = [T('word', 'w'), T('stars', 's')]
    # texts that float() takes
    lit_num = ('1', '-1', '+1', '1.', '.5', '1e5', '1E-5', '-1.0e+05', 'nan', 'inf', '-inf', 'NaN', 'Infinity', ' 1 ', '1_0')
    lit_no = ('', ' ', 'a', '1a', '1.2.3', '1-2', '--1', '1 2', 'T', '.', 'e5', '1,5', '1d5')

    def one(name, arg, want, con=None, kw=None):
        con = con or f'{name}({arg!r})'
        guard(ctx, 'kinds', con, lambda: expect_value(ctx, 'kinds', con, call(A, name, [arg], kw), is_const_value(want)))
    for t in num + no:
        one('is_number', t, t in num, f'is_number of a {t.args[0]} text')
        one('is_numbers', t, t in num, f'is_numbers of a {t.args[0]} text')
    for s in lit_num + lit_no:
        try:
            float(s)
            ok = True
        except ValueError:
            ok = False
        one('is_number', s, ok)
    a, b, c, w = T('fix', 'a'), T('int', 'b'), T('sci', 'c'), T('word', 'w')
    for parts, want in (((a, ' ', b, ' ', c), True), (('  ', a, '   ', b, '  '), True), ((a, ' ', b, '\n'), True), ((a, ' ', w), False), ((w, ' ', a), False), ((a, ' ', w, ' ', b), False),
                        ((a, ' ', b, ' ', w, '\n'), False), (('  ',), False), (('\n',), False), ((' ', a, '\n'), True), ((a, ' ', b, ' \n'), True), ((a, ',', b), False)):
        one('is_numbers', text(*parts), want, f'is_numbers of {[p if isinstance(p, str) else p.args[0] for p in parts]}')
    for parts, want in (((a, ',', b), True), ((a, ' ,', b), True), ((a, ',', w), False), ((a, ' ', b), False), ((a, ',,', b), True), ((',',), False), (('',), False)):
        one('is_numbers', text(*parts), want, f'is_numbers of {[p if isinstance(p, str) else p.args[0] for p in parts]}, split at commas', {'splitter': ','})
    for s in ('', '   ', '1 2', '1 a', 'a', '1', '1 2 a 3', '1\n', '1  2.5 -3e5'):
        want = bool(s.split()) and all(isnum(x) for x in s.split(' ') if x.strip())
        one('is_numbers', s, want)
    for t in num:
        one('test_string_content', t, 'int' if t.args[0] in docs.INTK else 'float', f'test_string_content of a {t.args[0]} text')
    for t in no:
        one('test_string_content', t, 'string', f'test_string_content of a {t.args[0]} text')
    for s, want in (('1', 'int'), ('-1', 'int'), ('+10', 'int'), ('1.', 'float'), ('.5', 'float'), ('1.0', 'float'), ('1e5', 'float'), ('1E5', 'float'), ('nan', 'float'), ('NaN', 'float'), ('NAN', 'float'),
                    ('inf', 'float'), ('-Inf', 'float'), ('a', 'string'), ('', 'string'), ('1 2', 'string'), ('1.2.3', 'string'), ('T', 'string'), ('.TRUE.', 'string'), ('none', 'string')):
        one('test_string_content', s, want)


def isnum(x):
    try:
        float(x)
        return True
    except ValueError:
        return False


def coordinates(ctx):
    A = ctx.A
    lab = nd(*(nd(*(docs.val('float', f'l{i}{j}') for j in range(3))) for i in range(3)))
    vec = nd(*(docs.val('float', f'v{i}') for i in range(3)))

    def run(name, *ts):
        def thunk(st):
            v = A.call_value(st, fn(A, name), [A.alloc(st, 'arr', t) for t in ts], {}, None)
            return arrays.norm(A.freeze(st, v, deep=True))
        return run_doc(A, thunk, [], doc_assume(), {})

    def is_term(want):
        want = arrays.norm(want)
        return lambda v: True if v is want else same(v, want)
    tr = arrays.transpose(lab)
    for name, ts, want in (('dir_to_cart', (vec, lab), arrays.dot(vec, lab)), ('cart_to_dir', (vec, lab), arrays.dot(vec, arrays.inv(lab)))):
        guard(ctx, 'coordinates', name, lambda: expect_value(ctx, 'coordinates', f'{name}: any vector and lattice', run(name, *ts), is_term(want)))
    guard(ctx, 'coordinates', 'lat_to_reclat', lambda: expect_value(ctx, 'coordinates', 'lat_to_reclat: any lattice', run('lat_to_reclat', lab), lambda v: reciprocal(v, tr)))


def reciprocal(v, tr):
    return same(v, mk('mul', const(2 * math.pi), arrays.inv(tr)))


def handle(c):
    if c.op == 'isinstance' and c.args[0].op == 'param':
        return False


def line(ctx):
    A = ctx.A
    a, b, c, w = T('fix', 'a'), T('int', 'b'), T('sci', 'c'), T('word', 'w')
    flt, itg, tstr = mk('ext', 'float'), mk('ext', 'int'), mk('ext', 'str')
    cases = [((a, ' ', b, '  ', c), flt, [FLT(a), FLT(b), FLT(c)]), (('  ', a, '\n'), flt, FLT(a)), ((b,), itg, INT(b)), ((b, ' ', T('nat', 'd')), itg, [INT(b), INT(T('nat', 'd'))]),
             ((w, ' ', a), tstr, [w, a]), ((' ', w, ' \n'), tstr, w), ((a, '\t', b), flt, [FLT(a), FLT(b)]), ((w, ' ', w, ' ', a), tstr, [w, w, a]),
             ((a, ' ', a), flt, [FLT(a), FLT(a)]), ((b, ' ', b, ' ', b), itg, [INT(b)] * 3), (('T F ', w, ' T F'), tstr, [const('T'), const('F'), w, const('T'), const('F')]),
             (('',), tstr, []), (('  \n',), flt, [])]

    def judge(want):
        if isinstance(want, list):
            return lambda v: None if v.op not in ('list', 'tuple', 'nd') and not known(v) else False if v.op not in ('list', 'tuple', 'nd') or len(v.args) != len(want) else all3(
                True if x is y else same(x, y) for x, y in zip(v.args, want))
        return lambda v: False if v.op in ('list', 'tuple', 'nd') else True if v is want else same(v, want)
    for parts, ty, want in cases:
        nm = f'{[p if isinstance(p, str) else p.args[0] for p in parts]} to {ty.args[0]}'
        for how in ('text', 'handle'):
            con = f'{how} {nm}'
            if how == 'text':
                o = lambda: call(A, 'line_to_type', [text(*parts) if parts != ('',) else const(''), ty])
            else:
                ph = P('fobject')
                ls = lines_of([p for p in parts if p != '\n'], ['next ', T('int', 'z')])
                o = lambda: call(A, 'line_to_type', [ph, ty], d={ph: ls}, pc=given(ph), extra=handle)
            guard(ctx, 'line', con, lambda: expect_value(ctx, 'line', con, o(), judge(want)))
    for con, parts, want in (('no_split', ('  ', w, '  and ', T('word', 'x'), ' \n'), text(w, '  and ', T('word', 'x'))), ('no_split, one entry', ('  ', w, '\n'), w)):
        guard(ctx, 'line', con, lambda: expect_value(ctx, 'line', con, call(A, 'line_to_type', [text(*parts)], {'no_split': True}), judge(want)))
    guard(ctx, 'line', 'default type', lambda: expect_value(ctx, 'line', 'default type', call(A, 'line_to_type', [text(a, ' ', w)]), judge([a, w])))
    # two lines in turn from a handle
    ph = P('fobject')

    def turn(st):
        f = fn(A, 'line_to_type')
        x = A.call_value(st, f, [ph, flt], {}, None)
        y = A.call_value(st, f, [ph], {'no_split': const(True)}, None)
        return arrays.norm(A.freeze(st, mk('tuple', x, y), deep=True))
    ls = lines_of([a, ' ', b], ['  ', w, '  '])
    guard(ctx, 'line', 'two lines', lambda: expect_fields(ctx, 'line', 'two lines in turn', run_doc(A, turn, given(ph), doc_assume(handle), {ph: ls}), {(0, 0): FLT(a), (0, 1): FLT(b), (1,): w}))


def parameter(ctx):
    A = ctx.A
    n, m, f = T('int', 'n'), T('neg', 'm'), T('fix', 'f')

    def run(parts, key='NSW'):
        def thunk(st):
            d = A.from_data(st, {'nsw': 7, 'other': 3})
            A.call_value(st, fn(A, 'match_integer_param'), [d, const(key), text(*parts)], {}, None)
            return A.freeze(st, d, deep=True)
        return run_doc(A, thunk, [], doc_assume(), {})
    for con, parts, want in (('found', ('   NSW    =     ', T('nat', 'n'), '    number of steps\n'), INT(T('nat', 'n'))), ('negative', ('   NSW = ', m, '\n'), INT(m)), ('no blanks', (' NSW=', T('nat', 'n'), '\n'), INT(T('nat', 'n'))),
                             ('other tag', ('   NELM = ', n, '\n'), const(7)), ('not at the start', ('x  NSW = ', T('nat', 'n')), const(7)), ('longer tag', ('   NSWX = ', T('nat', 'n')), const(7)),
                             ('no value', ('   NSW = text',), const(7)),
                             *((f'value {x}', (f'   NSW    = {x};   NELM = 3\n',), const(int(x))) for x in ('0', '-1', '5', '60', '-12', '12345678', '123456789012345678901', '007')), ('empty', ('',), const(7))):
        guard(ctx, 'parameter', con, lambda: expect_fields(ctx, 'parameter', con, run(parts), {('nsw',): want, ('other',): const(3)}))


def exists(ctx):
    A = ctx.A
    p = P('file_path')

    def missing(c):
        if c.op == 'raises' and lit(c.args[0], 'OSError'):
            return True
    for con, ex, want in (('known path', None, True), ('unknown path', missing, False)):
        guard(ctx, 'exists', con, lambda: expect_value(ctx, 'exists', con, call(A, 'file_exists', [p], {'logger': P('logger')}, extra=ex, pc=given(p)), is_const_value(want)))
    for con, v in (('empty path', const('')), ('no path', NONE)):
        guard(ctx, 'exists', con, lambda: expect_end(ctx, 'exists', con, call(A, 'file_exists', [v], {'logger': P('logger')}), ('exit', 16)))


def newline(ctx):
    A = ctx.A
    w, x = T('word', 'w'), T('fix', 'x')
    for parts in ((w, ' ', x, '\n'), (w, '\n', x, '\n'), (w, '\n\n'), (x, '\n', w, '\n\n\n'), ('text\n',)):
        for num in (None, 1, 2, 3):
            k = num or 1
            if not parts[-1].endswith('\n' * k):
                continue
            con = f'{num or "default"} of {[p if isinstance(p, str) else p.args[0] for p in parts]}'
            want = text(*parts[:-1], parts[-1][:-k])

            def thunk(st):
                o = A.call_value(st, mk('ext', 'io.StringIO'), [], {}, None)
                for p in parts:
                    A.call_method(st, o, 'write', [p if isinstance(p, Term) else const(p)], {}, None)
                A.call_value(st, fn(A, 'remove_newline'), [o] + ([const(num)] if num else []), {}, None)
                return A.freeze(st, A.call_method(st, o, 'getvalue', [], {}, None), deep=True)
            guard(ctx, 'newline', con, lambda: expect_value(ctx, 'newline', con, run_doc(A, thunk, [], doc_assume(), {}), lambda v: True if v is want else False if enc_ok(v) else None))
