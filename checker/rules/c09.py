"""C09: INCAR content with a fault is rejected with the code of that fault, content without one is accepted.

Decided per fault class: the constructor is analysed over shape-abstract INCAR documents (layout and punctuation fixed, every
tag and value a labelled unknown of its kind) and the set of its possible endings is compared with the documented one."""
from ..docrun import *

T = tok


def docs_(tier):
    n, m, k = T('nat', 'n'), T('int', 'm'), T('neg', 'k')
    f, g, e, E2 = T('dec', 'f'), T('dec', 'g'), T('expe', 'e'), T('expE', 'E')
    w, v, u = T('word', 'w'), T('word', 'v'), T('word', 'u')
    out = []

    def d(code, name, *lines, **kw):
        out.append((code, name, lines, kw))
    # --- more than one equal sign
    d(101, 'one entry, two equal signs', ['ENCUT = ', n, ' = ', m])
    d(101, 'adjacent equal signs', ['ENCUT == ', n])
    d(101, 'three equal signs', ['ENCUT = ', n, ' = ', m, ' = ', k])
    d(101, 'second entry of a line', ['ENCUT = ', n, '; ISMEAR = ', m, ' = ', k])
    d(101, 'first of two entries', ['ENCUT = ', n, ' = ', m, '; ISMEAR = ', k])
    d(101, 'last of three lines', ['ENCUT = ', n], ['SIGMA = ', f], ['ISMEAR = ', m, ' = ', k])
    d(101, 'first of three lines', ['ISMEAR = ', m, ' = ', k], ['ENCUT = ', n], ['SIGMA = ', f])
    d(101, 'followed by a comment', ['ENCUT = ', n, ' = ', m, ' # ', w])
    d(101, 'missing semicolon', ['ENCUT = ', n, ' ISMEAR = ', m])
    d(101, 'system tag', ['SYSTEM = ', w, ' = ', v])
    d(101, 'magmom tag', ['MAGMOM = ', f, ' = ', g])
    # --- none
    d(102, 'no equal sign', ['ENCUT ', n])
    d(102, 'no equal sign, one word', [w])
    d(102, 'second entry of a line', ['ENCUT = ', n, '; ISMEAR ', m])
    d(102, 'equal sign only in the comment', ['ENCUT ', n, ' # ', w, ' = ', v])
    d(102, 'last of two lines', ['ENCUT = ', n], ['ISMEAR ', m])
    d(102, 'blanks in front', ['   ', w, ' ', n])
    # --- mixed values
    for nm, vals in (('int float', (n, f)), ('float int', (f, n)), ('int word', (m, w)), ('word int', (w, m)), ('word float', (w, f)), ('float word', (f, w)),
                     ('int int float', (n, m, f)), ('float float int', (f, g, k)), ('word word int', (w, v, n)), ('int word int', (n, w, m)),
                     ('exponent int', (e, n)), ('int exponent', (n, E2)), ('float int float', (f, n, g))):
        line = ['LANGEVIN_GAMMA = ']
        for x in vals:
            line += [x, ' ']
        d(104, nm, line)
    d(104, 'second entry of a line', ['ENCUT = ', n, '; ROPT = ', f, ' ', m])
    d(104, 'comment without sign', ['ENCUT = ', n, '  ', w])
    # --- unknown tags
    d(100, 'unknown tag', [w, ' = ', n])
    d(100, 'unknown tag among known ones', ['ENCUT = ', n], [w, ' = ', m], ['SIGMA = ', f])
    d(100, 'unknown tag after a semicolon', ['ENCUT = ', n, ';', w, ' = ', m])
    d(100, 'unknown tag is last', ['ENCUT = ', n], ['SIGMA = ', f], [w, ' = ', v])
    d(100, 'unknown tag, validation asked for', [w, ' = ', n], validate_tags=True)
    d(100, 'prefix of a known tag', ['ENCU = ', n])
    d(100, 'known tag with a suffix', ['ENCUTX = ', n])
    d(None, 'unknown tag, validation off', [w, ' = ', n], validate_tags=False)
    d(None, 'several unknown tags, validation off', [w, ' = ', n], [v, ' = ', f, '; ', u, ' = ', m], validate_tags=False)
    # --- valid content
    d(None, 'integer', ['ENCUT = ', n])
    d(None, 'negative integer', ['ISMEAR = ', k])
    d(None, 'float', ['SIGMA = ', f])
    d(None, 'exponent', ['EDIFF = ', e])
    d(None, 'exponent in upper case', ['EDIFF = ', E2])
    d(None, 'word', ['ALGO = ', w])
    d(None, 'several words', ['ALGO = ', w, ' ', v])
    d(None, 'logical', ['LWAVE = .TRUE.'], ['LCHARG = .F.'])
    d(None, 'list of integers', ['LDAUL = ', n, ' ', m, ' ', k])
    d(None, 'list of floats', ['LDAUU = ', f, ' ', g])
    d(None, 'floats in both notations', ['LDAUU = ', f, ' ', e, ' ', E2])
    d(None, 'system with mixed words', ['SYSTEM = ', w, ' ', n, ' ', f])
    d(None, 'magmom with multiplicities', ['MAGMOM = ', n, '*', f, ' ', m, '*', g])
    d(None, 'comment', ['ENCUT = ', n, ' # ', w])
    d(None, 'comment with equal signs', ['ENCUT = ', n, ' # ', w, ' = ', v, ' = ', u])
    d(None, 'comment with a semicolon', ['ENCUT = ', n, ' # ', w, '; ', v])
    d(None, 'two signs in a comment', ['ENCUT = ', n, ' # ', w, ' # ', v])
    d(None, 'comment line', ['# ', w, ' ', v], ['ENCUT = ', n])
    d(None, 'comment line with equal signs', ['ENCUT = ', n], [' # ', w, ' = ', v, ' = ', u])
    d(None, 'blank lines', [''], ['ENCUT = ', n], ['   '], ['SIGMA = ', f], [''])
    d(None, 'two entries in a line', ['ENCUT = ', n, ' ; ISMEAR = ', m])
    d(None, 'three entries without blanks', ['ENCUT=', n, ';ISMEAR=', m, ';SIGMA=', f])
    d(None, 'semicolon at the end', ['ENCUT = ', n, ';'])
    d(None, 'semicolon and blanks at the end', ['ENCUT = ', n, ' ;  '])
    d(None, 'two semicolons', ['ENCUT = ', n, ';; ISMEAR = ', m])
    d(None, 'semicolon in front', ['; ENCUT = ', n, ' ;  ; ISMEAR = ', m])
    d(None, 'precision given', ['ENCUT = ', n], ['SIGMA = ', f], prec=const(7))
    d(None, 'semicolon before a comment', ['ENCUT = ', n, '; # ', w])
    d(None, 'tag given twice', ['ENCUT = ', n], ['ENCUT = ', m])
    d(None, 'lower case tag', ['encut = ', n])
    d(None, 'mixed case tag', ['EnCut = ', n])
    d(None, 'tabs', ['\tENCUT\t=\t', n])
    d(None, 'nothing but comments', ['# ', w], ['#', n])
    return out


FAULTS = [
    (101, 'two equal signs', lambda t, q, i: [t, q, T('nat', f'a{i}'), q, T('int', f'b{i}')]),
    (101, 'a word and two equal signs', lambda t, q, i: [t, q, T('word', f'a{i}'), q, T('word', f'b{i}')]),
    (102, 'no equal sign', lambda t, q, i: [t, ' ', T('nat', f'a{i}')]),
    (104, 'integer and decimal', lambda t, q, i: [t, q, T('int', f'a{i}'), ' ', T('dec', f'b{i}')]),
    (104, 'words and an integer', lambda t, q, i: [t, q, T('word', f'a{i}'), ' ', T('word', f'b{i}'), ' ', T('nat', f'c{i}')]),
]
TAGS = ['ISMEAR', 'Sigma', 'nelm', 'LWAVE', 'ALGO', 'ediff']


def spell(t, how):
    return {'upper': t.upper(), 'lower': t.lower(), 'mixed': t.capitalize()}[how]


def placed(tier):
    """one fault at every place of an otherwise valid document"""
    for code, fname, fault in FAULTS + [(None, 'no fault', None)]:
        for sp in ('upper', 'lower', 'mixed'):
            for q in ('=', ' = ', '\t=  '):
                for k in (1, 2, 3, 4, 5):
                    for i in range(k):
                        for sep in ('; ', ';', '\n'):
                            if k == 1 and sep != '; ':
                                continue
                            parts = []
                            for j in range(k):
                                t = spell(TAGS[j], sp if j == i else 'upper')
                                parts += ([sep] if j else []) + (fault(t, q, j) if j == i and fault else [t, q, T('nat', f'v{j}')])
                            yield code, f'{fname}, entry {i + 1} of {k}, {sp} tag, {q!r} and {sep!r}', parts
    n = T('nat', 'n')
    # one fault in front of or behind an entry without one, with comments and blank lines in between
    for code, fname, fault in FAULTS:
        for pre in ([], ['\n'], [';'], ['ENCUT = ', n, ';;'], ['ENCUT = ', n, ' ; ; '], ['# ', T('word', 'c'), '\n'], ['ENCUT = ', n, ' # ', T('word', 'c'), ' = ', T('word', 'd'), '\n'], ['   ']):
            for post in ([], [' # ', T('word', 'e')], ['\n\n'], ['\nENCUT = ', n], [' ;'], ['\n# ', T('word', 'e'), '\n']):
                yield code, f'{fname} after {pre[:1]!r} before {post[:1]!r}', pre + fault('SIGMA', ' = ', 0) + post


def mixtures(tier):
    """every sequence of two to four kinds"""
    from itertools import product
    kinds = {'i': ('nat', 'neg', 'int', 'pos'), 'f': ('dec', 'expe', 'expE', 'dec'), 'w': ('word',) * 4}
    for ln in range(1, 5 if tier == 'quick' else 6):
        for combo in product('ifw', repeat=ln):
            parts = []
            for j, c in enumerate(combo):
                parts += ([' '] if j else []) + [T(kinds[c][j % 4], f'{c}{j}')]
            yield (None if len(set(combo)) == 1 else 104), ''.join(combo), parts


def split_lines(parts):
    out = [[]]
    for p in parts:
        if isinstance(p, str):
            bits = p.split('\n')
            out[-1].append(bits[0])
            for b in bits[1:]:
                out.append([b])
        else:
            out[-1].append(p)
    return out


def check(ctx):
    A = ctx.A
    ctx.rule('document', 'Over every document of the class the constructor ends with exactly the documented code (or returns when there is no fault)')
    ctx.rule('value', 'A dictionary or modify() value of the class is rejected with the documented code, a valid one accepted')
    keys = yaml_keys('incar.yml')
    ta = table_assume(keys)
    hows = ('path', 'string') if ctx.tier == 'quick' else ('path', 'handle', 'string')
    for code, name, lines, kw in docs_(ctx.tier):
        for how in hows:
            if how == 'handle' and not kw and code is None and ctx.tier == 'quick':
                continue
            con = f'Incar({how}): {name} -> {code or "accepted"}'

            def go():
                outs, ev = ctor(A, 'Incar', lines_of(*lines), how, extra=ta, **kw)
                expect_end(ctx, 'document', con, outs, ('exit', code) if code else ('ret', None))
                ctx.count('document classes x sources')
            guard(ctx, 'document', con, go)
    for j, (code, name, parts) in enumerate(placed(ctx.tier)):
        for how in ('string', 'path') if ctx.tier != 'quick' else (('string', 'path')[j % 2],):
            con = f'Incar({how}): {name} -> {code or "accepted"}'

            def go():
                outs, ev = ctor(A, 'Incar', lines_of(*split_lines(parts)), how, extra=ta)
                expect_end(ctx, 'document', con, outs, ('exit', code) if code else ('ret', None))
                ctx.count('placed faults')
            guard(ctx, 'document', con, go)
    for code, name, parts in mixtures(ctx.tier):
        for how in ('string', 'dict', 'list'):
            con = f'Incar({how}): value kinds {name} -> {code or "accepted"}'

            def go():
                if how == 'string':
                    outs, ev = ctor(A, 'Incar', lines_of(['ENCUT = 3'], ['LDAUL = '] + parts), how, extra=ta)
                else:
                    def thunk(st):
                        val = text(*parts)
                        if how == 'list':
                            val = A.alloc(st, 'list', mk('list', *(p for p in parts if not isinstance(p, str))))
                        d = A.alloc(st, 'dict', mk('dict', mk('kv', const('ISMEAR'), const(0)), mk('kv', const('ALGO'), val)))
                        return A.call_value(st, A.cls('Incar'), [], {'incar_dict': d, 'logger': P('logger')}, None)
                    if how == 'list':
                        return
                    outs = A.run(thunk, pc=given(P('logger')), assume=doc_assume(ta), docs={})[0]
                expect_end(ctx, 'document', con, outs, ('exit', code) if code else ('ret', None))
                ctx.count('kind sequences')
            guard(ctx, 'document', con, go)
    # dictionary values
    n, f, w, v, u = T('nat', 'n'), T('dec', 'f'), T('word', 'w'), T('word', 'v'), T('word', 'u')
    V = docs.val
    vals = [
        (103, 'two comment signs', text('', w, ' # ', v, ' # ', u)), (103, 'adjacent comment signs', text(n, ' ## ', w)), (103, 'three comment signs', text(n, '#', w, '#', v, '#', u)),
        (None, 'one comment sign', text(n, ' # ', w)), (None, 'text without comment', text(w)), (None, 'integer text', text(n)), (None, 'float text', text(f)),
        (104, 'mixed text', text(n, ' ', f)), (104, 'mixed text with words', text(w, ' ', n)), (104, 'mixed text with a comment', text(n, ' ', f, ' # ', w)),
        (105, 'None', NONE), (105, 'a tuple', V('tuple', 't')), (105, 'a dictionary', V('dict', 'd')), (105, 'an array', V('ndarray', 'a')), (105, 'an object', V('object', 'o')),
        (None, 'an integer', V('int', 'i')), (None, 'a float', V('float', 'x')), (None, 'True', TRUE), (None, 'False', FALSE), (None, 'a bool', V('bool', 'b')),
        (None, 'zero', const(0)), (None, 'a list', V('list', 'l')), (None, 'an empty list', 'L'), (None, 'a list of numbers', 'LN')]
    cls = A.cls('Incar')
    for code, name, value in vals:
        want = ('exit', code) if code else ('ret', None)
        con = f'Incar(dict): {name} -> {code or "accepted"}'

        def mkv(st):
            if value == 'L':
                return A.alloc(st, 'list', mk('list'))
            if value == 'LN':
                return A.alloc(st, 'list', mk('list', V('int', 'a'), V('int', 'b')))
            return value

        def thunk(st):
            d = A.alloc(st, 'dict', mk('dict', mk('kv', const('ISMEAR'), const(0)), mk('kv', const('ALGO'), mkv(st)), mk('kv', const('ENCUT'), const(300))))
            return A.call_value(st, cls, [], {'incar_dict': d, 'logger': P('logger')}, None)
        guard(ctx, 'value', con, lambda: expect_end(ctx, 'value', con, A.run(thunk, pc=given(P('logger')), assume=doc_assume(ta), docs={})[0], want))
        if code == 103 or (code is None and value is not None and isinstance(value, Term) and value.op == 'concat'):
            continue
        con2 = f'Incar.modify: {name} -> {code or "accepted"}'

        def thunk2(st):
            d = A.alloc(st, 'dict', mk('dict', mk('kv', const('ISMEAR'), const(0))))
            o = A.call_value(st, cls, [], {'incar_dict': d, 'logger': P('logger')}, None)
            return A.call_method(st, o, 'modify', [const('ALGO'), mkv(st)], {}, None)
        guard(ctx, 'value', con2, lambda: expect_end(ctx, 'value', con2, A.run(thunk2, pc=given(P('logger')), assume=doc_assume(ta), docs={})[0], want))
        ctx.count('value classes')
    # unknown tags in dictionaries
    for flag, want in ((TRUE, ('exit', 100)), (None, ('exit', 100)), (FALSE, ('ret', None))):
        con = f'Incar(dict): unknown tag, validate_tags={flag} -> {want[1] or "accepted"}'

        def thunk(st):
            d = A.alloc(st, 'dict', mk('dict', mk('kv', const('ENCUT'), const(0)), mk('kv', w, const(0))))
            kw = {'incar_dict': d, 'logger': P('logger')}
            if flag is not None:
                kw['validate_tags'] = flag
            return A.call_value(st, cls, [], kw, None)
        guard(ctx, 'value', con, lambda: expect_end(ctx, 'value', con, A.run(thunk, pc=given(P('logger')), assume=doc_assume(ta), docs={})[0], want))
    ctx.floor = 100
    ctx.assumptions = ['word fields stand for words that are none of the literals of the program', 'content outside the listed shape classes is not decided']
