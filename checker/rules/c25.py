"""C25: each configured error or warning of a stream is reported exactly when it should be."""
import itertools
import re
from .poscardoc import T
from .. import docs
from ..docrun import *

FIELDS = ('shortname', 'kind', 'message', 'suggestion', 'location', 'recover', 'inverse', 'recoverable')


def entry(name, regex, kind='ERROR', inverse=None, recover=None, location='STDOUT', suggestion=True, message=None):
    d = {'kind': kind, 'message': message or T('word', 'msg' + name), 'regex': regex}
    if location is not None:
        d['location'] = location
    if recover is not None:
        d['recover'] = recover
    if suggestion is True:
        d['suggestion'] = T('word', 'sug' + name)
    elif suggestion is not False:
        d['suggestion'] = suggestion
    if inverse is not None:
        d['inverse'] = inverse
    return d


def attributes(name, d):
    c = lambda v: v if isinstance(v, Term) else const(v)
    return mk('list', c(name), c(d['kind']), c(d['message']), c(d.get('suggestion')), c(d.get('location', 'STDOUT')), c(d.get('recover', False)), c(d.get('inverse', False)), c(d.get('recover', False)))


def reported(A):
    def f(st, o):
        l = A.getattr(st, o, 'entries', None)
        xs = A.known_seq(st, l)
        if xs is None:
            return mk('unknown entries')
        rows = []
        for x in xs:
            r = A.getattr(st, x, 'regex', None)
            rows.append(mk('list', *(A.getattr(st, x, n, None) for n in FIELDS), r.args[0] if r.op == 'regex' else r))
        return mk('list', mk('list', *rows), A.getattr(st, o, 'has_entries', None), A.getattr(st, o, 'number_of_entries', None))
    return f


# what stands in a line: names of the patterns in it
TEXT = {'a': 'alpha went wrong', 'b': 'beta failed', 'c': 'gamma: internal problem', 'w': 'warned about delta', 'v': 'epsilon advice', 'i': 'program started', 'j': 'job accepted', 'n': 'nothing to see', 'u': 'ALPHA WENT WRONG Beta Failed'}


def line(types, k):
    return ['  ', T('word', f'l{k}'), ' ', ' '.join(TEXT[t] for t in types) if types else ' ', ' ', T('float', f'x{k}')]


def expected(conf, stream, history):
    return expected2(conf, [[TEXT[t] for t in types] for types in stream], history)


def expected2(conf, stream, history):
    """per line the set of reports, then the inverse ones"""
    stream = [[x] if isinstance(x, str) else x for x in stream]
    out, seen = [], set()
    for types in stream:
        row = []
        for name, d in conf.items():
            pat = d['regex']
            if not d.get('inverse') and any(re.search(pat, t) for t in types) and (history or name not in seen):
                row.append(name)
                seen.add(name)
        if row:
            out.append(row)
    inv = [name for name, d in conf.items() if d.get('inverse') and not any(re.search(d['regex'], t) for types in stream for t in types)]
    if inv:
        out.append(inv)
    return out


def check(ctx):
    A = ctx.A
    ctx.rule('reported', 'a trigger is reported when its pattern occurs, once, or with history once per line it occurs in and in order; inverse ones when their pattern never occurs')
    ctx.rule('configuration', 'a supplied configuration overrides and extends the standard one')
    ctx.rule('unchanged', 'the supplied configuration is left as it is')
    ctx.rule('attributes', 'reported and configured entries carry the attributes of their configuration')
    ctx.rule('refused', 'an entry with an attribute of the wrong type is refused with a ValueError')
    ctx.rule('kinds', 'the kinds are those of the configuration, each once')
    ctx.rule('text', 'an entry as text names its kind, its name and its message, and the stream the number of entries and the kinds')
    ctx.floor = 300
    full = ctx.tier != 'quick'
    std = {'a': entry('a', 'alpha went wrong', recover=True), 'w': entry('w', 'about delta', kind='WARNING', location='STDERR', recover=False), 'i': entry('i', 'program.started', inverse=True, recover=True),
           'b': entry('b', 'beta', suggestion='', recover=False), 'v': entry('v', '^.*epsilon (advice|hint)', kind='WARNING', inverse=False), 'j': entry('j', 'job accepted', kind='WARNING', inverse=True, suggestion=False)}
    none = {}
    one = {'a': entry('a', 'alpha went wrong')}
    inv = {'i': entry('i', 'program started', inverse=True)}
    shared = {'a': entry('a', 'alpha'), 'a2': entry('a2', 'went wrong', kind='WARNING'), 'b': entry('b', 'beta'), 'a3': entry('a3', 'alpha|beta')}
    low = {'a': entry('a', 'alpha', kind='error'), 'w': entry('w', 'delta', kind='warning'), 'i': entry('i', 'program', kind='error', inverse=True)}
    mixed = {'a': entry('a', 'alpha', kind='error'), 'b': entry('b', 'beta', kind='ERROR'), 'i': entry('i', 'program', kind='ERROR', inverse=True), 'j': entry('j', 'job', kind='error', inverse=True),
             'w': entry('w', 'delta', kind='WARNING')}
    names = {'go': entry('go', 'program', inverse=True), 'go_on': entry('go_on', 'job', inverse=True), 'on': entry('on', 'beta', inverse=True, kind='WARNING'), 'a': entry('a', 'alpha'), 'ab': entry('ab', 'beta'),
             'b': entry('b', 'gamma', kind='WARNING')}
    streams = [(), ('',), ('u',), ('u', 'a', 'u', 'b'), ('n',), ('a',), ('a', 'a'), ('a', 'b', 'a'), ('b', 'a'), ('ab',), ('ab', 'a', 'ba'), ('aa',), ('w', 'a'), ('aw', 'v', 'a', 'w'), ('i',), ('i', 'j'), ('ij', 'i'), ('n', 'i', 'a', 'i', 'a'),
               ('ia', 'j'), ('j', 'n', ''), ('v', 'w', 'v', 'w'), ('n', 'n', 'n', 'a'), ('abwv', 'abwv'), ('a', 'n', 'b', 'n', 'w', 'n', 'v', 'n', 'i', 'n', 'j')]
    if full:
        streams += [s for k in (1, 2, 3) for s in itertools.product(('', 'a', 'b', 'w', 'ai', 'ab', 'j'), repeat=k) if s not in streams]
    else:
        streams += [s for s in itertools.product(('', 'a', 'b', 'w', 'ai', 'ab', 'j'), repeat=2) if s not in streams]

    def run(rule, nm, conf, stream, history, effective, how='path', cfg=None):
        ctx.count('streams')
        lines = lines_of(*(line(t, k) for k, t in enumerate(stream)))
        kw = {}
        if history is not None:
            kw['history'] = history
        made = []
        if cfg is not None:
            def mkd(st):
                made[:] = [A.from_data(st, cfg)]
                return {'config': made[0]}
            kw['_dict'] = mkd
        outs = query(A, 'Stream', lines, reported(A), how=how, _tables={'stream.yml': conf}, **kw)
        want = expected(effective, stream, history)
        expect_value(ctx, rule, nm, outs, lambda v: judge(v, want, effective))

    def judge(v, want, conf):
        if v.op != 'list' or len(v.args) != 3 or v.args[0].op != 'list' or not known(v.args[0]):
            return None
        rows = v.args[0].args
        n = sum(map(len, want))
        if len(rows) != n:
            return False
        k = 0
        for grp in want:
            got = rows[k:k + len(grp)]
            k += len(grp)
            exp = [mk('list', *attributes(name, conf[name]).args, const(conf[name]['regex'])) for name in grp]
            for e in exp:
                if e not in got:
                    return False
        if not known(v.args[1]) or not known(v.args[2]):
            return None
        return v.args[1] is const(bool(n)) and v.args[2] is const(n)

    confs = {'standard': std, 'one error': one, 'one inverse': inv, 'shared patterns': shared, 'lower case kinds': low, 'mixed case kinds': mixed, 'names containing names': names, 'empty': none}
    for cn, conf in confs.items():
        for s in streams:
            if not full and cn not in ('standard', 'shared patterns') and len(s) == 2 and s in streams[24:]:
                continue
            for hist in (None, True, False):
                if hist is False and cn != 'standard':
                    continue
                for how in ('path', 'handle') if cn == 'standard' and len(s) < 3 else ('path',):
                    nm = f'{cn} configuration, lines {"|".join(s) or "none"}, history {hist}, {how}'
                    guard(ctx, 'reported', nm, lambda: run('reported', nm, conf, s, hist, conf, how))
    # what a pattern may match: blanks, page breaks, the start and the end of a line
    odd = {'blank': entry('blank', r'^\s*$'), 'page': entry('page', '\f', kind='WARNING'), 'indent': entry('indent', '^ {4}'), 'tail': entry('tail', ' +$', kind='WARNING'), 'tab': entry('tab', '\t'),
           'empty': entry('empty', r'^$'), 'hash': entry('hash', '^ *#', kind='WARNING'), 'long': entry('long', '^.{100}'), 'break': entry('break', '\f', inverse=True), 'start': entry('start', '^start', kind='WARNING', inverse=True)}
    texts = [[''], ['   '], ['\f'], [' \f '], ['\t'], ['start', ''], ['', 'start'], ['', '', ''], ['start', ' \f ', 'start', '\f'], ['    start'], ['start  '], ['# start'], ['    ', '\t#', 'start'], ['x' * 120], ['x' * 99 + ' start'],
             ['-' * 80, '', ' ' * 120], ['start\tstart', '\f']]
    for lines in texts:
        for hist in (None, True):
            want = expected2(odd, [x + '\n' for x in lines], hist)
            con = f'patterns on blanks, lines {lines!r}, history {hist}'.replace('x' * 99, 'xxx...')
            ctx.count('streams')
            guard(ctx, 'reported', con, lambda: expect_value(ctx, 'reported', con, query(A, 'Stream', lines_of(*([x] for x in lines)), reported(A), _tables={'stream.yml': odd},
                                                                                        **({} if hist is None else {'history': hist})), lambda v: judge(v, want, odd)))
    # the shipped table
    table = yaml_keys('stream.yml')
    sample = {n: re.sub(r'[\\^$]', '', d['regex']).replace('.*', ' ').replace('.+', ' some ') for n, d in table.items()}
    sample = {n: t for n, t in sample.items() if re.search(table[n]['regex'], t)}
    for hist in (None, True):
        for nm, names in [(n, [n]) for n in sample] + [('every entry', list(sample)), ('every entry twice', list(sample) * 2), ('every entry backwards', list(sample)[::-1]), ('nothing', [])]:
            ctx.count('streams')
            want = expected2(table, [sample[n] for n in names], hist)
            con = f'shipped configuration, {nm}, history {hist}'
            guard(ctx, 'reported', con, lambda: expect_value(ctx, 'reported', con, query(A, 'Stream', lines_of(*([sample[n]] for n in names)), reported(A), _tables={'stream.yml': table},
                                                                                        **({} if hist is None else {'history': hist})), lambda v: judge(v, want, table)))
    # supplied configurations
    over = {'new entry': {'c': entry('c', 'gamma', recover=True)}, 'new inverse entry': {'c': entry('c', 'gamma', inverse=True)}, 'overridden pattern': {'a': entry('a', 'gamma', message=T('word', 'new'))},
            'overridden kind': {'a': entry('a', 'alpha', kind='WARNING', recover=False)}, 'overridden to inverse': {'a': entry('a', 'alpha', inverse=True)},
            'overridden from inverse': {'i': entry('i', 'program started', inverse=False)}, 'several': {'c': entry('c', 'gamma', location='STDERR'), 'b': entry('b', 'alpha'), 'j': entry('j', 'epsilon', inverse=True)},
            'fewer attributes': {'b': {'kind': 'ERROR', 'regex': 'beta', 'message': T('word', 'only')}}, 'nothing': {}}
    for on, cfg in over.items():
        for cn, conf in (('standard', std), ('one error', one), ('empty', none)):
            eff = {**conf, **cfg}
            for s in ((), ('a', 'c', 'b', 'n'), ('abcwvij',), ('i', 'j', 'a', 'a'), ('c', 'v', 'c'), ('n',)):
                for hist in (None, True):
                    nm = f'{cn} configuration with {on} supplied, lines {"|".join(s) or "none"}, history {hist}'
                    guard(ctx, 'configuration', nm, lambda: run('configuration', nm, conf, s, hist, eff, cfg=cfg))

            def kept(st, o):
                return made[0]
            made = []

            def mkd(st):
                made[:] = [A.from_data(st, cfg)]
                return {'config': made[0]}
            nm = f'{cn} configuration with {on} supplied'

            def frozen():
                want = []

                def f(st, o):
                    if not want:
                        want.append(A.freeze(st, A.from_data(st, cfg), deep=True))
                    return A.freeze(st, made[0], deep=True)
                outs = query(A, 'Stream', lines_of(line('ab', 0)), f, _tables={'stream.yml': conf}, _dict=mkd)
                expect_value(ctx, 'unchanged', nm, outs, lambda v: True if want and v is want[0] else False if known(v) else None)
            guard(ctx, 'unchanged', nm, frozen)

            def configured(st, o):
                d = A.getattr(st, o, 'configured_streams', None)
                rows = []
                c = A.content(st, d)
                if c is None or c.op != 'dict':
                    return mk('unknown')
                for x in c.args:
                    for y in A.known_seq(st, x.args[1]) or ():
                        r = A.getattr(st, y, 'regex', None)
                        rows.append(mk('list', x.args[0], *(A.getattr(st, y, n, None) for n in FIELDS), r.args[0] if r.op == 'regex' else r))
                return mk('list', *rows)

            def attrs():
                outs = query(A, 'Stream', lines_of(line('ab', 0)), configured, _tables={'stream.yml': conf}, _dict=mkd)

                def j(v):
                    if v.op != 'list' or not known(v):
                        return None
                    for name, d in eff.items():
                        if not d.get('inverse'):
                            e = mk('list', const(d['kind'].lower() + 's'), *attributes(name, d).args, const(d['regex']))
                            if v.args.count(e) != 1:
                                return False
                    return True
                expect_value(ctx, 'attributes', nm, outs, j)
            guard(ctx, 'attributes', nm, attrs)

    # attributes of the wrong type
    for cn, base in (('one error', one), ('empty', none), ('standard', std)):
        for an, ks in (('kind', (1, None, ['ERROR'])), ('message', (1, None, ['x'], 2.5)), ('suggestion', (1, ['x'], 2.5, True)), ('location', ('stdout', 'FILE', None, '', 1)), ('recover', (1, 'True', None, 0, 'yes')),
                       ('inverse', (1, 'True', None, 0))):
            for v in ks:
                for where in ('supplied', 'standard'):
                    bad = {**entry('z', 'zeta'), an: v}
                    nm = f'{cn} configuration, {where} entry with {an} {v!r}'
                    if where == 'supplied':
                        kw = {'_tables': {'stream.yml': base}, '_dict': lambda st: {'config': A.from_data(st, {'z': bad})}}
                    else:
                        kw = {'_tables': {'stream.yml': {**base, 'z': bad}}}
                    guard(ctx, 'refused', nm, lambda: expect_end(ctx, 'refused', nm, query(A, 'Stream', lines_of(line('a', 0)), reported(A), **kw), ('exc', 'ValueError')))
    for cn, base in (('one error', one), ('empty', none)):
        for key in (7, True, None, 2.5):
            for where in ('supplied', 'standard'):
                nm = f'{cn} configuration, {where} entry named {key!r}'
                new = {key: entry('z', 'zeta')}
                kw = {'_tables': {'stream.yml': base}, '_dict': lambda st: {'config': A.from_data(st, new)}} if where == 'supplied' else {'_tables': {'stream.yml': {**base, **new}}}
                guard(ctx, 'refused', nm, lambda: expect_end(ctx, 'refused', nm, query(A, 'Stream', lines_of(line('a', 0)), reported(A), **kw), ('exc', 'ValueError')))
    for kind in ('FATAL', '', 'errors', 'ERROR ', 7, None):
        nm = f'VaspStream of kind {kind!r}'

        def direct(st, o):
            return A.call_value(st, A.glob('stream', 'VaspStream'), [], {k: A.from_data(st, v) for k, v in (('shortname', 'z'), ('kind', kind), ('regex', 'zeta'), ('message', 'm'))}, None)
        guard(ctx, 'refused', nm, lambda: expect_end(ctx, 'refused', nm, query(A, 'Stream', lines_of(line('a', 0)), direct, _tables={'stream.yml': one}), ('exc', 'ValueError')))
    # kinds and texts
    for cn, conf in confs.items():
        def kinds(st, o):
            return A.freeze(st, A.getattr(st, o, 'kinds', None), True)
        want = {d['kind'] for d in conf.values()}

        def jk(v):
            if is_const(v):
                return False
            if v.op not in ('list', 'tuple') or not all(is_const(x) for x in v.args):
                return None
            return len(v.args) == len(want) and {cval(x) for x in v.args} == want
        guard(ctx, 'kinds', cn, lambda: expect_value(ctx, 'kinds', cn, query(A, 'Stream', lines_of(line('ab', 0)), kinds, _tables={'stream.yml': conf}), jk))

        def texts(st, o):
            xs = A.known_seq(st, A.getattr(st, o, 'entries', None))
            if xs is None:
                return mk('unknown entries')
            return mk('list', *(mk('list', *(A.getattr(st, x, n, None) for n in ('kind', 'shortname', 'message')), A.call_value(st, mk('ext', 'str'), [x], {}, None)) for x in xs), mk('list', const(str(len(xs))), *(const(k) for k in sorted(want)), A.call_value(st, mk('ext', 'str'), [o], {}, None)))

        def jt(v):
            if v.op != 'list' or not known(v):
                return None
            return all3(False if is_const(r.args[-1]) and not isinstance(cval(r.args[-1]), str) else None if docs.enc(r.args[-1]) is None else all(docs.enc(p) in docs.enc(r.args[-1]) for p in r.args[:-1]) for r in v.args)
        guard(ctx, 'text', cn, lambda: expect_value(ctx, 'text', cn, query(A, 'Stream', lines_of(line('abwvi', 0)), texts, _tables={'stream.yml': conf}), jt))
