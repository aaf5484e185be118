"""C02: no file system effects outside write(); write() opens its target only with the content ready."""
from ..corpus import *
from ..common import shortw
from .c01 import write_runs

DESTRUCTIVE = ('os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.rmdir', 'os.removedirs', 'os.mkdir', 'os.makedirs', 'os.truncate',
               'os.link', 'os.symlink', 'os.chmod', 'os.utime', 'os.mkfifo', 'os.mknod', 'os.system', 'os.popen', 'os.open',
               'shutil.', 'subprocess.', 'tempfile.', 'numpy.save', 'numpy.savetxt', 'numpy.savez', 'pickle.dump', 'yaml.dump_to')
DESTRUCTIVE_METHODS = ('write_text', 'write_bytes', 'unlink', 'touch', 'mkdir', 'rmdir', 'rename', 'tofile', 'symlink_to')
UNSUPPORTED = ('Outcar', 'Doscar', 'Eigenval', 'Chgcar', 'Potcar', 'Stream', 'Xml')
SUPPORTED = ('Incar', 'Poscar', 'Kpoints')


def writing(mode):
    if is_const(mode):
        m = cval(mode)
        return isinstance(m, str) and any(c in m for c in 'wax+')
    if mode.op == 'ite':
        a, b = writing(mode.args[1]), writing(mode.args[2])
        return a if a is b else None
    return None


def nowrite(ctx, label, ev):
    for e in ev:
        if e.kind == 'open':
            w = writing(e.data[1])
            if w is True:
                ctx.viol('NOWRITE', label, f'a file is opened with mode {show(e.data[1])}', e.where())
                return
            if w is None:
                ctx.undecided('NOWRITE', label, f'open mode {show(e.data[1])}')
                return
        elif e.kind == 'extcall':
            n = e.data[0].args[0] if e.data[0].op == 'ext' else ''
            if any(n == d or (d.endswith('.') and n.startswith(d)) for d in DESTRUCTIVE):
                ctx.viol('NOWRITE', label, f'{n} is called', e.where())
                return
        elif e.kind == 'method' and e.data[1] in DESTRUCTIVE_METHODS:
            ctx.viol('NOWRITE', label, f'.{e.data[1]}() is called on {show(e.data[0])[:60]}', e.where())
            return
    ctx.ok('NOWRITE', label)


def check(ctx):
    A = ctx.A
    ctx.rule('NOWRITE', 'no constructor, accessor, modifier or renderer opens a file for writing or calls a file system mutator')
    ctx.rule('READY', 'after write() has opened its target the only operations that can still fail are operations on that file')
    ctx.rule('UNSUPPORTED', 'write() of a format without a writer raises NotImplementedError and opens nothing')
    ctx.rule('SUPPORTED', 'write() of a writable format returns after writing to the target')
    ctx.rule('HANDLE', 'write() renders to a supplied handle without opening any file')
    ctx.floor = 40
    for label, outs, ev, src, cname in ctor_runs(A):
        nowrite(ctx, label, ev)
    for label, outs, ev, cname, name in method_runs(A, select=lambda c, n, v: n != 'write' and (not n.startswith('_') or n.startswith('__'))):
        nowrite(ctx, label, ev)
    for label, outs, ev, names in function_runs(A):
        if not label.endswith('.open_close_file_handler') and not label.rsplit('.', 1)[-1].startswith('_'):
            nowrite(ctx, label, ev)
    n = 0
    for label, outs, ev, src, cname in write_runs(A, faults='all'):
        opened = [e for e in ev if e.kind == 'open']
        n += len(opened)
        if cname in UNSUPPORTED:
            bad = [e for e in opened if writing(e.data[1]) is not False]
            if bad:
                ctx.viol('UNSUPPORTED', label, 'the target is opened for writing although the format cannot be written', bad[0].where())
            elif any(o.kind == 'return' for o in outs):
                ctx.viol('UNSUPPORTED', label, 'write() returns normally for a format that cannot be written', '')
            elif not any(o.kind == 'raise' and o.val.args[0] == 'NotImplementedError' for o in outs):
                ctx.viol('UNSUPPORTED', label, 'write() does not raise NotImplementedError', '')
            else:
                ctx.ok('UNSUPPORTED', label)
            continue
        if src == 'file_handler':
            if opened:
                ctx.viol('HANDLE', label, 'a file is opened although a handle was supplied', opened[0].where())
            else:
                ctx.ok('HANDLE', label)
        good = any(o.kind == 'return' for o in outs) and (src == 'file_handler' or any(e.kind in ('fwrite', 'hcall') for e in ev))
        ctx.check('SUPPORTED', label, good, 'write() has no path that returns after writing', '')
        if src != 'file_path':
            continue
        bad = None
        for o in outs:
            if o.kind != 'raise':
                continue
            isopen = [e for e in opened if ('o', e.data[3]) in o.st.m and o.st.m[('o', e.data[3])] in (TRUE, FALSE) and writing(e.data[1]) is not False]
            if not isopen:
                continue
            f = [x for x in o.st.pc if x.op == 'fault']
            if f and f[-1].args[0].op in ('fileop', 'write'):
                continue
            bad = bad or (f'{o.val.args[0]} can be raised at {shortw(o.site)} after the target has been opened for writing', isopen[0].where())
        if bad:
            ctx.viol('READY', label, *bad)
        else:
            ctx.ok('READY', label)
    ctx.count('open() events in write()', n)
    if n < 2:
        raise AnalysisError('write() of the supported formats no longer opens its target through an analysed open()')
