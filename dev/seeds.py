"""dev: run each planted change against the check of its property (or against the checks named with -c)"""
import sys, os, json, glob, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
a = sys.argv[1:]
chk = None
if '-c' in a:
    i = a.index('-c'); chk = a[i + 1].split(','); del a[i:i + 2]
ids = [os.path.basename(d) for d in sorted(glob.glob(V + '/seeded/*') + glob.glob(V + '/dev/planted/*')) if not a or any(x in os.path.basename(d) for x in a)]


def one(i):
    D = f'{V}/seeded/{i}' if os.path.isdir(f'{V}/seeded/{i}') else f'{V}/dev/planted/{i}'
    w = tempfile.mkdtemp(prefix='sd_')
    try:
        shutil.copytree('/repo', w + '/r', symlinks=True)
        p = subprocess.run(['git', 'apply', f'{D}/patch.diff'], cwd=w + '/r', capture_output=True, text=True)
        if p.returncode:
            return i, 'DOES NOT APPLY'
        out = []
        for c in chk or [json.load(open(f'{D}/meta.json'))['property']]:
            r = subprocess.run(['python3', f'{V}/check.py', c, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w + '/r', VERIF_EVIDENCE=w))
            v = [l for l in r.stdout.splitlines() if l.startswith('  violated')]
            out.append(f'{c} rc={r.returncode} {len(v)} {v[0][:170] if v else r.stderr[-150:]}')
        return i, ' | '.join(out)
    finally:
        shutil.rmtree(w)


with ThreadPoolExecutor(5) as ex:
    for i, o in ex.map(one, ids):
        print(('     ' if 'rc=1' in o else 'MISS ') + i, o, flush=True)
