#!/usr/bin/env python3
"""seedtool.py [ids...] : (re)build and confirm the planted changes listed in tools/seeds_*.py"""
import glob, json, os, shutil, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append((id, prop, edits, demo, needs, breaks))


def main(ids):
    for f in sorted(glob.glob(f'{V}/tools/seeds_*.py')):
        exec(compile(open(f).read(), f, 'exec'), {'seed': seed})
    for id, prop, edits, demo, needs, breaks in SEEDS:
        if ids and id not in ids:
            continue
        d = f'{V}/seeded/{id}'
        if os.path.isdir(f'{V}/dev/planted/{id}'):
            d = f'{V}/dev/planted/{id}'
        if not ids and os.path.exists(d):
            continue
        w = tempfile.mkdtemp(prefix='seed_')
        try:
            shutil.copytree('/repo', f'{w}/repo', symlinks=True)
            R = f'{w}/repo'
            for fn, old, new in edits:
                p = f'{R}/parsevasp/{fn}'
                s = open(p).read()
                if s.count(old) != 1:
                    print(id, 'ANCHOR', fn, s.count(old), repr(old[:70]))
                    raise SystemExit
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.run(['git', 'diff'], cwd=R, capture_output=True, text=True).stdout
            os.makedirs(d, exist_ok=True)
            open(f'{d}/patch.diff', 'w').write(diff)
            open(f'{d}/demo.py', 'w').write(demo.lstrip('\n'))
            open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nHERE=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$HERE/demo.py"\n')
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
            a = subprocess.run(['bash', f'{d}/demo.sh'], cwd='/repo', capture_output=True, text=True)
            b = subprocess.run(['bash', f'{d}/demo.sh'], cwd=R, capture_output=True, text=True)
            t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=R, capture_output=True, text=True,
                               env=dict(os.environ, PYTHONPATH=R, PYTHONDONTWRITEBYTECODE='1'))
            ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
            c = subprocess.run(['python3', f'{V}/check.py', prop, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=R))
            viol = [l for l in c.stdout.splitlines() if l.startswith('  violated')]
            print(f'{id} {prop} valid={ok} (base {a.returncode}, patched {b.returncode}, tests {t.returncode}) check exit={c.returncode} {viol[0][:200] if viol else c.stderr[-200:]}', flush=True)
            if a.returncode: print(a.stdout[-500:], a.stderr[-800:])
            if b.returncode == 0: print('  demo did not fail', b.stdout[-300:])
            elif os.environ.get('V'): print(b.stderr[-400:])
            if t.returncode: print(t.stdout[-600:])
        finally:
            shutil.rmtree(w)


main(sys.argv[1:])
