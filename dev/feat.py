"""dev: constant programs must evaluate in docmode to what Python gives"""
import sys, os, shutil, tempfile, inspect
sys.path.insert(0, '/verif')
SRC = open('/verif/dev/feat_src.py').read()
d = tempfile.mkdtemp()
shutil.copytree('/repo/parsevasp', d + '/parsevasp')
open(d + '/parsevasp/feat.py', 'w').write(SRC)
os.environ['VERIF_REPO'] = d
from checker.docrun import *
from checker.engine import Analyzer
A = Analyzer(d)
ns = {}
exec(SRC, ns)
def conv(t):
    if is_const(t): return cval(t)
    if t.op in ('list', 'nd'): return [conv(x) for x in t.args]
    if t.op == 'tuple': return tuple(conv(x) for x in t.args)
    if t.op == 'setv': return set(conv(x) for x in t.args)
    if t.op == 'dict': return {conv(x.args[0]): conv(x.args[1]) for x in t.args if x.op == 'kv'}
    raise ValueError(show(t)[:300])
sel = sys.argv[1:]
for k, f in ns.items():
    if not (k.startswith('t_') and inspect.isfunction(f)) or (sel and k not in sel): continue
    w = f()
    try:
        outs, _ = A.run(lambda st: arrays.norm(A.freeze(st, A.call_value(st, A.glob('feat', k), [], {}, None), deep=True)), docs={})
        if len(outs) != 1: print(k, 'outs', [(o.kind, show(o.val)[:80]) for o in outs]); continue
        v = conv(outs[0].val)
        if v != w: print(k, 'DIFF', v, w)
    except Exception as e:
        print(k, 'EXC', type(e).__name__, str(e)[:250])
shutil.rmtree(d)
