"""dev: behaviour-preserving edits. refactor.py [-b batch] [-i id,…] [-c C01,…] [-t] : apply to a copy, run tests, run checks"""
import sys, os, ast, glob, json, shutil, subprocess, tempfile, textwrap, argparse
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
REFS = []


def ref(id, file, func, new, batch=None, imports=''):
    """replace the function 'Class.name' / 'name' (or the text pairs of a list)"""
    REFS.append((id, batch, file, func, new, imports))


def apply(R, file, func, new, imports):
    p = f'{R}/parsevasp/{file}'
    s = open(p).read()
    if isinstance(func, list):
        for a, b in func:
            assert s.count(a) == 1, (s.count(a), a)
            s = s.replace(a, b)
    else:
        body = ast.parse(s).body
        node = None
        for part in func.split('.'):
            node = next(n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part)
            body = node.body
        lines = s.split('\n')
        first = min([node.lineno] + [d.lineno for d in node.decorator_list])
        new = textwrap.indent(textwrap.dedent(new).strip('\n'), ' ' * node.col_offset)
        lines[first - 1:node.end_lineno] = new.split('\n')
        s = '\n'.join(lines)
    if imports:
        i = s.index('\nimport ') + 1
        s = s[:i] + imports + '\n' + s[i:]
    ast.parse(s)
    open(p, 'w').write(s)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-b'); ap.add_argument('-i'); ap.add_argument('-c'); ap.add_argument('-t', action='store_true'); ap.add_argument('-k', action='store_true')
    a = ap.parse_args()
    for f in sorted(glob.glob(V + '/dev/refactors/*.py')):
        b = os.path.basename(f)[:-3]
        exec(compile(open(f).read(), f, 'exec'), {'ref': lambda id, file, func, new='', imports='', b=b: ref(id, file, func, new, b, imports)})
    todo = [r for r in REFS if (not a.b or r[1] in a.b.split(',')) and (not a.i or r[0] in a.i.split(','))]
    batches = {}
    for r in todo:
        batches.setdefault(r[1], []).append(r)
    checks = a.c.split(',') if a.c else [f'C{i:02d}' for i in [*range(1, 30), 34]]
    for b, rs in batches.items():
        w = tempfile.mkdtemp(prefix='rf_')
        try:
            shutil.copytree('/repo', w + '/r', symlinks=True)
            for id, _, file, func, new, imports in rs:
                try:
                    apply(w + '/r', file, func, new, imports)
                except Exception as e:
                    print('CANNOT APPLY', id, repr(e)[:300]); raise SystemExit
            t = subprocess.run('PYTHONPATH=$PWD /opt/venv/bin/python -m pytest -q -x tests -p no:cacheprovider 2>&1 | tail -15', shell=True, cwd=w + '/r', capture_output=True, text=True)
            last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else '?'
            print(f'== {b}: {len(rs)} edits; tests: {last}', flush=True)
            if 'failed' in last or 'error' in last:
                print(t.stdout)
            if a.t:
                continue

            def one(c):
                r = subprocess.run(['python3', f'{V}/check.py', c, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w + '/r', VERIF_EVIDENCE=w, VERIF_VERBOSE='1'))
                return c, r
            with ThreadPoolExecutor(3) as ex:
                for c, r in ex.map(one, checks):
                    L = [l for l in r.stdout.splitlines() if l.strip().startswith(('violated', 'undecided'))]
                    head = next((l for l in r.stdout.splitlines() if l.startswith(c)), '')
                    print(('     ' if r.returncode == 0 else 'ALARM') + f' {c} rc={r.returncode} {head[5:90]}', flush=True)
                    if r.returncode:
                        for l in [x for x in L if 'violated' in x][:4] + r.stderr.strip().splitlines()[-3:]:
                            print('         ' + l[:330])
                    else:
                        seen = set()
                        for l in L:
                            k = l.split(']')[-1][:60]
                            if k not in seen and len(seen) < 3:
                                seen.add(k)
                                print('         ' + l[:260])
        finally:
            if not a.k:
                shutil.rmtree(w)
            else:
                print(w)


main()
