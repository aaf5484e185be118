"""C20: truncated vasprun.xml files are recognised and parsed in recovery mode."""
from .vaspxml import *

MB = 1048576
TAILS = [('ends with the closing tag and a newline', b'</modeling>\n', False), ('ends with the closing tag', b'</modeling>', False),
         ('ends with an indented closing tag', b'  </modeling>  \n', False), ('ends with the closing tag and carriage return', b'</modeling>\r\n', False),
         ('everything in the last line', b' <structure name="finalpos" > </structure></modeling>\n', False),
         ('ends in the closing tag', b' </structure>\n</modelin', True), ('ends before the closing tag', b' </structure>\n', True), ('ends inside a row', b'   <v>       0.5000', True),
         ('ends after a calculation', b' </calculation>\n', True), ('ends after the opening tag of a second run', b'</modeling>\n<?xml version="1.0" encoding="ISO-8859-1"?>\n<modeling>\n', True),
         ('ends inside a second run', b'</modeling>\n<modeling>\n <generator>\n </generator>\n', True), ('ends after another closing tag', b'</modeling>\n </calculation>\n', True)]


def check(ctx):
    A = ctx.A
    ctx.rule('truncated', 'the flag says whether the last line of the file lacks the closing tag')
    ctx.rule('parser', 'recovering parser for truncated files, strict one for intact ones, event driven one only when requested or for intact files from the size limit on')
    ctx.rule('rewound', 'parsing starts at the first byte of a supplied handle')
    full = ctx.tier != 'quick'
    v = V(species=('Si',), nk=1, nb=1, ndos=1, steps=())

    def doc(tail, trunc, pad=1500, size=None):
        d = XDoc(v.root, last=tail, size=size, truncated=trunc, pad=pad)
        return d
    flag = lambda st, o: mk('list', A.getattr(st, o, 'truncated', None), st.m.get(('xlog',)) or mk('tuple'))
    pads = [('long file', 1500, None), ('file of unknown size', 1500, ('between', 1400, 400 * MB)), ('short file', 0, None)]
    head = len(b'<?xml version="1.0" encoding="ISO-8859-1"?>\n<modeling>\n')
    for name, tail, trunc in TAILS:
        for pn, pad, size in pads + ([(f'file of {k} bytes', ('exact', k), None) for k in ((1023, 1024, 1025) if full or name.startswith('ends with the closing') or 'inside a row' in name else ())]):
            if isinstance(pad, tuple):
                d = doc(tail, trunc, pad=0)
                fill = pad[1] - len(d.bytes)
                d.lines = d.lines[:1] + [b' ' * (fill - 1) + b'\n'] + d.lines[1:]
                d.bytes = b''.join(d.lines)
                d.size = const(len(d.bytes))
                assert len(d.bytes) == pad[1]
            else:
                d = doc(tail, trunc, pad, size)
            for how in ('path', 'handle'):
                con = f'{pn} that {name}, {how}'
                guard(ctx, 'truncated', con, lambda: one(ctx, con, xquery(A, d, flag, how=how), trunc, [('tree', trunc)], how))
            for pos, left in (('read to its end', 0), ('read up to its last line', len(tail))):
                con = f'{pn} that {name}, handle that has been {pos}'
                guard(ctx, 'truncated', con, lambda: one(ctx, con, xquery(A, d, flag, how='handle', _pos=mk('fromend', left)), trunc, [('tree', trunc)], 'handle'))
    sizes = [('just below the limit', const(500 * MB - 1), False), ('at the limit', const(500 * MB), True), ('just above the limit', const(500 * MB + 1), True),
             ('below the limit', mk('val', 'int', 'size', 1400, 500 * MB - 1), False), ('from the limit on', mk('val', 'int', 'size', 500 * MB, 1 << 50), True)]
    for sn, size, big in sizes:
        for trunc in (False, True):
            for ev in (False, True):
                for how in ('path', 'handle'):
                    d = doc(b' </calculation>\n' if trunc else b'</modeling>\n', trunc)
                    d.size = size
                    con = f'{"truncated" if trunc else "intact"} file {sn}, {how}' + (', event driven requested' if ev else '')
                    # what a requested event driven parser makes of a truncated file is not specified
                    want = [('events', None)] if ev else [('events', False)] if big and not trunc else [('tree', trunc)]
                    guard(ctx, 'parser', con, lambda: one(ctx, con, xquery(A, d, flag, how=how, event=ev), None if ev and trunc else trunc, want, how))
                    if how == 'handle':
                        con += ' that has been read from before'
                        guard(ctx, 'parser', con, lambda: one(ctx, con, xquery(A, d, flag, how=how, event=ev, _pos=mk('fromend', 16)), None if ev and trunc else trunc, want, how))


def one(ctx, con, outs, trunc, want, how):
    if trunc is not None:
        expect_value(ctx, 'truncated', con, outs, lambda v: same(v.args[0], const(trunc)) if v.op == 'list' and known(v.args[0]) else None)
    parsers(ctx, con, outs, want, how)


@percase
def parsers(ctx, con, outs, want, how):
    """every way the run ends, the content went through the wanted parser once, from its start"""
    seen = set()
    for o in outs:
        lg = o.val.args[1] if o.kind == 'return' and o.val.op == 'list' else o.st.m.get(('xlog',)) or mk('tuple')
        if lg.op != 'tuple' or not all(x.op == 'tuple' and all(is_const(y) for y in x.args) for x in lg.args):
            return ctx.undecided('parser', con, 'the parser is not known')
        seen.add(tuple(tuple(cval(y) for y in x.args) for x in lg.args))
    if not seen:
        return ctx.undecided('parser', con, 'no ending found')
    bad = [s for s in seen if len(s) != len(want) or any(a[0] != b[0] or b[1] not in (None, a[1]) for a, b in zip(s, want))]
    nm = {('tree', True): 'the recovering parser', ('tree', False): 'the strict parser', ('events', False): 'the event driven parser', ('events', True): 'the recovering event driven parser', ('events', None): 'the event driven parser'}
    if bad:
        ctx.viol('parser', con, f'goes through {", ".join(nm[a[0], a[1]] for a in bad[0]) or "no parser"}, expected {nm[want[0]]}')
    else:
        ctx.ok('parser', con)
    if how == 'handle':
        if any(not a[2] for s in seen for a in s):
            ctx.viol('rewound', con, 'the handle is not at its start when the content is parsed')
        else:
            ctx.ok('rewound', con)
