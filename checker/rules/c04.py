"""C04: no state is shared between parser objects; process-wide settings are left alone."""
from ..corpus import *
from ..effects import origins, describe, MUTATORS
from .c01 import write_runs

SETTINGS = ('os.chdir', 'os.fchdir', 'os.umask', 'os.putenv', 'os.unsetenv', 'os.setuid', 'locale.setlocale', 'numpy.seterr', 'numpy.seterrcall',
            'numpy.setbufsize', 'numpy.set_printoptions', 'numpy.set_string_function', 'numpy.random.seed', 'random.seed', 'random.setstate',
            'warnings.filterwarnings', 'warnings.simplefilter', 'warnings.resetwarnings', 'logging.disable', 'logging.captureWarnings',
            'logging.setLoggerClass', 'sys.setrecursionlimit', 'sys.settrace', 'sys.setprofile', 'sys.setswitchinterval', 'signal.signal',
            'decimal.setcontext', 'gc.disable', 'gc.enable', 'gc.collect', 'socket.setdefaulttimeout', 'resource.setrlimit', 'os.environ.update',
            'time.tzset', 'codecs.register', 'atexit.register', 'numpy.random.set_state', 'builtins.setattr', 'gc.set_threshold',
            'lxml.etree.set_default_parser', 'lxml.etree.register_namespace', 'lxml.etree.use_global_python_log', 'yaml.add_constructor',
            'yaml.add_representer', 'yaml.add_implicit_resolver', 'logging.root.setLevel', 'logging.addLevelName')
MUTABLE = ('list', 'dict', 'set', 'arr', 'obj', 'setv')


def path_fields(t):
    """(root field of self, depth) for a path term below self"""
    n = 0
    while t.args and t.op != 'param':
        if t.op == 'attr' and t.args[0].op == 'param':
            return t.args[1], n
        t = t.args[0]
        if not isinstance(t, Term):
            return None, n
        n += 1
    return None, n


def check(ctx):
    A = ctx.A
    ctx.rule('STATIC', 'no function reachable from a parser writes a module global, a class attribute, a default argument value or a table reachable from one')
    ctx.rule('ALIAS', 'an instance field that aliases a shared table is never mutated by any method')
    ctx.rule('SETTINGS', 'no process-wide setting is changed')
    ctx.rule('CACHE', 'no function result is cached across objects')
    ctx.floor = 100
    start = A.oid
    # opaque objects (results of library calls) that module globals and class attributes hold
    held = {v for k, v in A.base.items() if isinstance(v, Term) and v.op == 'call' and (k[0] == 'v' and k[1][0] == 'g' or k[0] == 'f' and k[1].op == 'class')}
    muts = {}          # (class, field) -> event
    fields = {}        # (class, field) -> label
    nm = 0

    def env_term(t):
        return t.op == 'attr' and t.args[0].op == 'ext' and t.args[0].args[0] == 'os' and t.args[1] == 'environ' or \
            (t.op == 'ext' and t.args[0] in ('os.environ', 'sys.path', 'sys.modules', 'sys.argv'))

    def effects(label, ev, cname=None):
        nonlocal nm
        bad = und = None
        for e in ev:
            if e.kind == 'gwrite':
                bad = bad or ('STATIC', f'{show(e.data[0])}.{e.data[1]} is rebound', e)
            elif e.kind in MUTATORS:
                nm += 1
                if env_term(e.data[0]):
                    bad = bad or ('SETTINGS', describe(e), e)
                    continue
                for kind, t in origins(e.data[0], start):
                    if kind == 'static' or kind == 'external' and t in held:
                        if t.op == 'ref' and t.args[1] in ('file', 'strio'):
                            continue
                        bad = bad or ('STATIC', 'shared ' + describe(e), e)
                    elif kind == 'unknown':
                        und = und or describe(e)
                if cname:
                    f, d = path_fields(e.data[0])
                    if f is not None:
                        muts.setdefault((cname, f), e)
            elif e.kind == 'extcall':
                n = e.data[0].args[0] if e.data[0].op == 'ext' else ''
                if n in SETTINGS or n.startswith('numpy.random.'):
                    bad = bad or ('SETTINGS', f'{n} is called', e)
            elif e.kind == 'method' and env_term(e.data[0]) and e.data[1] not in ('get', 'items', 'keys', 'copy'):
                bad = bad or ('SETTINGS', f'{show(e.data[0])}.{e.data[1]} is called', e)
        if bad:
            ctx.viol(bad[0], label, bad[1], bad[2].where())
        elif und:
            ctx.undecided('STATIC', label, und)
        else:
            ctx.ok('STATIC', label)

    def shared(st, v, depth=0, seen=None):
        """a mutable object that existed before the call and is reachable from v"""
        seen = seen if seen is not None else set()
        if v in seen or depth > 6:
            return None
        seen.add(v)
        if v in held:
            return v
        if v.op == 'ref':
            if v.args[0] <= start and v.args[1] in MUTABLE:
                return v
            c = st.get(('c', v))
            return shared(st, c, depth + 1, seen) if c is not None else None
        if v.op == 'ite':
            return shared(st, v.args[1], depth, seen) or shared(st, v.args[2], depth, seen)
        if v.op in ('list', 'dict', 'kv', 'each', 'opt', 'tuple', 'phi'):
            for x in v.args:
                if isinstance(x, Term):
                    r = shared(st, x, depth + 1, seen)
                    if r is not None:
                        return r
        return None

    for label, outs, ev, src, cname in ctor_runs(A):
        effects(label, ev, None)
        for o in outs:
            if o.kind != 'return':
                continue
            for (k, v) in list(o.st.m.items()):
                if k[0] == 'f' and k[1] is o.val and isinstance(v, Term):
                    r = shared(o.st, v)
                    if r is not None:
                        fields.setdefault((cname, k[2]), (label, r))
    for label, outs, ev, cname, name in method_runs(A, select=lambda c, n, v: n != 'write'):
        effects(label, ev, cname)
    for label, outs, ev, src, cname in write_runs(A):
        effects(label, ev, cname)
    for label, outs, ev, names in function_runs(A):
        effects(label, ev)
    nd = 0
    for label, outs, ev in default_runs(A):
        effects(label, ev)
        nd += 1
    # class attributes mutated through self
    for (cname, f), e in sorted(muts.items(), key=lambda kv: kv[0]):
        if (cname, f) in fields:
            ctx.viol('ALIAS', f'{cname}.{f}', f'the field aliases a shared table and {describe(e)}', e.where())
        else:
            ctx.ok('ALIAS', f'{cname}.{f}')
    # caching decorators
    for q, fi in sorted(A.funcs.items()):
        for d in getattr(fi.node, 'decorator_list', []):
            s = ast.unparse(d)
            if 'cache' in s and 'cached_property' not in s:
                ctx.viol('CACHE', q, f'decorated with {s}', f'{q}')
    ctx.count('mutation events classified', nm)
    ctx.count('functions run with a mutable default argument', nd)
    ctx.count('functions checked for caching decorators', len(A.funcs))
    ctx.count('instance fields aliasing shared tables', len(fields))
    if A.load_events is None:
        raise AnalysisError('no load events')
