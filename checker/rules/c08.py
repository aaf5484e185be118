"""C08: explicit UTF-8 for every text file; input is data, never code."""
from ..corpus import *
from .c01 import write_runs

EXEC = ('eval', 'exec', 'compile', '__import__', 'builtins.eval', 'builtins.exec', 'os.system', 'os.popen', 'os.execv', 'os.execve', 'os.execvp',
        'os.spawnv', 'os.spawnl', 'os.posix_spawn', 'subprocess.', 'pickle.load', 'pickle.loads', 'pickle.Unpickler', 'cPickle.', 'dill.', 'joblib.load',
        'marshal.load', 'marshal.loads', 'shelve.open', 'importlib.import_module', 'runpy.', 'code.', 'yaml.unsafe_load', 'yaml.full_load',
        'yaml.unsafe_load_all', 'yaml.full_load_all', 'pandas.eval', 'numexpr.', 'sympy.sympify', 'commands.', 'pty.', 'timeit.', 'jsonpickle.')
EXEC_EXACT = tuple(x for x in EXEC if not x.endswith('.'))
EXEC_PRE = tuple(x for x in EXEC if x.endswith('.'))
SAFE_LOADERS = ('SafeLoader', 'CSafeLoader', 'BaseLoader', 'CBaseLoader')
TEXT_METHODS = ('read_text', 'write_text')


def utf8(t):
    """True / False / None"""
    if t.op == 'ite':
        a, b = utf8(t.args[1]), utf8(t.args[2])
        return a if a is b else (False if a is False or b is False else None)
    if t.op == 'phi':
        r = [utf8(x) for x in t.args]
        return False if False in r else (True if all(r) else None)
    if is_const(t):
        v = cval(t)
        return isinstance(v, str) and v.lower().replace('-', '').replace('_', '') in ('utf8', 'u8', 'utf', 'cp65001')
    return None


def binary(t):
    return is_const(t) and isinstance(cval(t), str) and 'b' in cval(t)


def kwof(e, name):
    for k, v in (e.data[2] if len(e.data) > 2 else ()):
        if k == name:
            return v
    return None


def check(ctx):
    A = ctx.A
    ctx.rule('UTF8', 'the encoding reaching every open() of a text file is UTF-8 on every path')
    ctx.rule('ERRORS', 'undecodable bytes are not silently dropped or replaced')
    ctx.rule('DATA', 'no input reaches a code evaluating, unpickling, shell or unrestricted YAML loading call')
    ctx.floor = 100
    nopen = next_ = 0

    def effects(label, ev):
        nonlocal nopen, next_
        bad = und = None
        for e in ev:
            if e.kind == 'open':
                path, mode, enc = e.data[0], e.data[1], e.data[2]
                if binary(mode):
                    continue
                nopen += 1
                if enc.op == 'param' and 'encoding' in enc.args[0]:
                    continue
                r = utf8(enc)
                if r is False:
                    bad = bad or ('UTF8', f'a text file is opened with encoding {show(enc)}', e)
                elif r is None:
                    und = und or f'encoding {show(enc)[:80]}'
                errs = e.data[4]
                if is_const(errs) and cval(errs) not in (None, 'strict'):
                    bad = bad or ('ERRORS', f'a text file is opened with errors={cval(errs)!r}', e)
            elif e.kind == 'extcall':
                n = e.data[0].args[0] if e.data[0].op == 'ext' else ''
                next_ += 1
                if n in EXEC_EXACT or n.startswith(EXEC_PRE):
                    bad = bad or ('DATA', f'{n} is called', e)
                elif n in ('yaml.load', 'yaml.load_all'):
                    ld = kwof(e, 'Loader') or (e.data[1][1] if len(e.data[1]) > 1 else None)
                    s = show(ld) if ld is not None else ''
                    if not s.split('.')[-1].startswith(SAFE_LOADERS):
                        bad = bad or ('DATA', f'{n} is called with loader {s or "default"}', e)
                elif n in ('numpy.load', 'numpy.lib.npyio.load'):
                    ap = kwof(e, 'allow_pickle')
                    if ap is not None and ap is not FALSE:
                        bad = bad or ('DATA', f'{n} is called with allow_pickle={show(ap)}', e)
                elif n in ('codecs.open', 'io.open'):
                    enc = kwof(e, 'encoding') or (e.data[1][2] if len(e.data[1]) > 2 else NONE)
                    if utf8(enc) is False:
                        bad = bad or ('UTF8', f'{n} is called with encoding {show(enc)}', e)
            elif e.kind == 'method' and e.data[1] in TEXT_METHODS and not is_const(e.data[0]):
                bad = bad or ('UTF8', f'.{e.data[1]}() is called without a checked encoding', e) if not any(utf8(a) for a in e.data[2] if isinstance(a, Term)) and e.data[0].op == 'call' else bad
        if bad:
            ctx.viol(bad[0], label, bad[1], bad[2].where())
        elif und:
            ctx.undecided('UTF8', label, und)
        else:
            ctx.ok('UTF8', label)

    effects('module initialisation', A.load_events)
    for label, outs, ev, src, cname in ctor_runs(A):
        effects(label, ev)
    for label, outs, ev, cname, name in method_runs(A, select=lambda c, n, v: n != 'write'):
        effects(label, ev)
    for label, outs, ev, src, cname in write_runs(A):
        effects(label, ev)
    for label, outs, ev, names in function_runs(A):
        effects(label, ev)
    # parts of the source no analysed path reaches are looked at as syntax
    names = {}
    for mod, tree in A.trees.items():
        for n in ast.walk(tree):
            if isinstance(n, ast.Call):
                f = ast.unparse(n.func)
                names[f] = names.get(f, 0) + 1
                if f in ('eval', 'exec', 'os.system', 'pickle.load', 'pickle.loads', 'yaml.unsafe_load', 'yaml.full_load') or f.startswith('subprocess.'):
                    ctx.viol('DATA', f'{mod}: {f}', f'{f} is called', f'{mod.replace(".", "/")}.py:{n.lineno}')
    ctx.ok('DATA', f'{sum(names.values())} call expressions scanned')
    ctx.count('open() events on text files', nopen)
    ctx.count('external calls classified', next_)
    if nopen < 8:
        raise AnalysisError('fewer open() events than confirmed by hand')
