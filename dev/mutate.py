"""dev: small changes of one file that the tests do not see. mutate.py FILE N OUT.json [seed] : pick N at random, run tests, keep survivors
   mutate.py check OUT.json C09,C10 : run the checks on each survivor"""
import sys, os, ast, json, copy, random, shutil, subprocess, tempfile, difflib
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
ARI = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult, ast.Pow: ast.Mult}


def sites(tree):
    """(node, [replacement source makers])"""
    for fn in ast.walk(tree):
        for name, val in ast.iter_fields(fn):
            for i, n in enumerate(val) if isinstance(val, list) else [(None, val)]:
                if isinstance(n, ast.AST):
                    yield fn, name, i, n


def variants(n, parent):
    """replacement nodes for n"""
    out = []
    c = copy.deepcopy
    if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
        m = c(n); m.ops[0] = SWAP[type(n.ops[0])](); out.append(m)
    if isinstance(n, ast.BoolOp):
        m = c(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); out.append(m)
        out.append(c(n.values[0])); out.append(c(n.values[-1]))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        out.append(c(n.operand))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        out.append(c(n.operand))
    if isinstance(n, ast.Constant) and not isinstance(parent, (ast.Expr, ast.JoinedStr, ast.FormattedValue)):
        if isinstance(n.value, bool):
            out.append(ast.Constant(not n.value))
        elif isinstance(n.value, (int, float)):
            out += [ast.Constant(n.value + 1)] + ([ast.Constant(n.value - 1)] if n.value > 0 else [])
        elif isinstance(n.value, str) and len(n.value) < 40:
            out += [ast.Constant(n.value + ' '), ast.Constant(n.value.upper() if n.value.upper() != n.value else n.value.lower())]
            if n.value:
                out.append(ast.Constant(n.value[:-1]))
        elif n.value is None:
            out.append(ast.Constant(0))
    if isinstance(n, ast.BinOp) and type(n.op) in ARI:
        m = c(n); m.op = ARI[type(n.op)](); out.append(m)
        out.append(c(n.left))
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        out.append(ast.Pass())
    if isinstance(n, ast.AugAssign):
        out.append(ast.Assign([c(n.target)], c(n.value), lineno=n.lineno))
    if isinstance(n, ast.Return) and n.value is not None:
        out.append(ast.Return(ast.Constant(None)))
    if isinstance(n, ast.Break):
        out.append(ast.Continue())
    if isinstance(n, ast.Continue):
        out.append(ast.Break())
    if isinstance(n, ast.If):
        m = c(n); m.test = ast.UnaryOp(ast.Not(), m.test); out.append(m)
        if n.orelse:
            m = c(n); m.orelse = []; out.append(m)
        m = c(n); m.test = ast.Constant(True); out.append(m)
        m = c(n); m.test = ast.Constant(False); out.append(m)
    if isinstance(n, ast.Call):
        if len(n.args) >= 2:
            m = c(n); m.args[0], m.args[1] = m.args[1], m.args[0]; out.append(m)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('strip', 'lower', 'upper', 'rstrip', 'lstrip', 'copy', 'flatten', 'capitalize', 'decode', 'tolist', 'astype'):
            out.append(c(n.func.value))
        if n.keywords:
            for k in range(len(n.keywords)):
                m = c(n); del m.keywords[k]; out.append(m)
        if len(n.args) >= 1 and isinstance(n.func, ast.Name) and n.func.id in ('abs', 'int', 'float', 'list', 'sorted', 'str', 'bool', 'set'):
            out.append(c(n.args[0]))
    if isinstance(n, ast.Slice):
        for a in ('lower', 'upper', 'step'):
            if getattr(n, a) is not None:
                m = c(n); setattr(m, a, None); out.append(m)
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
        m = c(n); m.slice.elts.reverse(); out.append(m)
    return out


def all_mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    res = []
    for parent, name, i, n in sites(tree):
        if isinstance(n, ast.Slice) and not hasattr(n, 'lineno'):
            continue
        if isinstance(parent, ast.Module) and isinstance(n, ast.Expr):
            continue
        try:
            vs = variants(n, parent)
        except Exception:
            continue
        for v in vs:
            ast.copy_location(v, n); ast.fix_missing_locations(v)
            try:
                if isinstance(n, ast.Slice):
                    text = ast.unparse(v)
                else:
                    text = ast.unparse(v)
                if isinstance(n, (ast.expr,)) and not isinstance(n, (ast.Slice, ast.Constant)) and not isinstance(parent, (ast.Expr, ast.Assign, ast.Return)):
                    text = '(' + text + ')'
            except Exception:
                continue
            s, e = off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
            if isinstance(n, ast.stmt) and '\n' in text:
                text = text.replace('\n', '\n' + ' ' * n.col_offset)
            new = (b[:s] + text.encode() + b[e:]).decode()
            try:
                if ast.dump(ast.parse(new)) == ast.dump(tree):
                    continue
            except SyntaxError:
                continue
            res.append((n.lineno, new))
    return res


def tests(R, file, new):
    w = tempfile.mkdtemp(prefix='mu_')
    try:
        shutil.copytree(R, w + '/r', symlinks=True, ignore=shutil.ignore_patterns('.git'))
        open(f'{w}/r/parsevasp/{file}', 'w').write(new)
        try:
            t = subprocess.run('ulimit -v 6000000; PYTHONPATH=$PWD /opt/venv/bin/python -m pytest -q -x tests -p no:cacheprovider 2>&1 | tail -1', shell=True, cwd=w + '/r', capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return False
        return '170 passed' in t.stdout
    finally:
        shutil.rmtree(w)


def main():
    if sys.argv[1] == 'check':
        return check(sys.argv[2], sys.argv[3].split(','), sys.argv[4] if len(sys.argv) > 4 else None)
    file, n, out = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    R = '/tmp/w/repo'
    src = open(f'{R}/parsevasp/{file}').read()
    ms = all_mutants(src)
    random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1).shuffle(ms)
    print(len(ms), 'mutants;', n, 'tried', flush=True)
    ms = ms[:n]
    with ThreadPoolExecutor(int(os.environ.get('J', '7'))) as ex:
        ok = list(ex.map(lambda m: tests(R, file, m[1]), ms))
    keep = [(l, ''.join(difflib.unified_diff(src.splitlines(keepends=True), new.splitlines(keepends=True), f'a/parsevasp/{file}', f'b/parsevasp/{file}', n=3))) for (l, new), k in zip(ms, ok) if k]
    json.dump(keep, open(out, 'w'))
    print(len(keep), 'survive', flush=True)


def check(path, checks, log=None):
    ms = json.load(open(path))
    todo = range(len(ms)) if log is None else [int(l.split()[1]) for l in open(log) if l.startswith('MISSED')]

    def one(k):
        w = tempfile.mkdtemp(prefix='mc_')
        try:
            shutil.copytree('/tmp/w/repo', w + '/r', symlinks=True)
            p = subprocess.run(['git', 'apply', '-'], input=ms[k][1], text=True, cwd=w + '/r', capture_output=True)
            if p.returncode:
                return k, 'noapply', p.stderr[:100]
            got = []
            for c in checks:
                r = subprocess.run(['python3', f'{V}/check.py', c, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w + '/r', VERIF_EVIDENCE=w, VERIF_JOBS='1'))
                if r.returncode:
                    got.append(f'{c}={r.returncode}')
                    if r.returncode == 1:
                        break
            return k, ' '.join(got), ''
        finally:
            shutil.rmtree(w)
    with ThreadPoolExecutor(int(os.environ.get('J', '7'))) as ex:
        for k, got, err in ex.map(one, todo):
            ch = [l.rstrip() for l in ms[k][1].splitlines() if l[:1] in '+-' and l[:3] not in ('+++', '---')]
            print(f'{"MISSED" if "=1" not in got else "caught"} {k} line {ms[k][0]} {got} {err}', flush=True)
            if '=1' not in got:
                for l in ch[:3] + (ch[2:] and ['...'] + ch[-1:]):
                    print('      ' + l[:170])


main()
