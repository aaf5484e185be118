"""dev: variants of one computation must give the same term on unknown fields. eq_src.py: functions xx_1, xx_2, ... with parameters named after the inputs"""
import sys, os, shutil, tempfile, inspect, re
sys.path.insert(0, '/verif')
SRC = open('/verif/dev/eq_src.py').read()
d = tempfile.mkdtemp()
shutil.copytree('/repo/parsevasp', d + '/parsevasp')
open(d + '/parsevasp/feat.py', 'w').write(SRC)
os.environ['VERIF_REPO'] = d
from checker.docrun import *
from checker.engine import Analyzer
A = Analyzer(d)
T = tok
dec = lambda n: T('dec', n)
txt = lambda *p: text(*p)
IN = dict(
    line=txt('  ', dec('d1'), '  ', dec('d2'), ' ', T('word', 'w'), '  \n'),
    nums=txt('  ', dec('d1'), '  ', dec('d2'), ' ', dec('d3'), '\n'),
    ints=txt(' ', T('nat', 'n1'), '  ', T('nat', 'n2'), '\n'),
    w=T('word', 'w'), x=dec('x'), n=T('nat', 'n'), key=txt('  NSW    =   ', T('nat', 'nsw'), '    max steps\n'),
    entry=txt('ENCUT = ', dec('e'), ' # ', T('word', 'c')), two=txt('A = ', dec('e'), '; B=', T('nat', 'n'), ' ;'), blank=const('   \n'),
    val=txt(' ', dec('v'), ' eV; next = ', dec('u')), title=txt('PAW_PBE ', T('word', 'el'), '_pv 05Jan'),
)
LISTS = dict(lines=['line', 'nums', 'ints', 'blank', 'key'], rows=['nums', 'nums', 'nums'])
def arg(st, name):
    if name in LISTS:
        return A.alloc(st, 'list', mk('list', *(IN[x] for x in LISTS[name])))
    if name == 'p': return mk('param', 'p')
    if name == 'q': return mk('param', 'q')
    if name == 'fh': return mk('param', 'fh')
    return IN[name]
ns = {}
exec(SRC, ns)
groups = {}
for k, f in ns.items():
    m = re.match(r'(\w+?)_(\d+)$', k)
    if m and inspect.isfunction(f): groups.setdefault(m.group(1), []).append((k, f))
sel = sys.argv[1:]
for g, fs in groups.items():
    if sel and g not in sel: continue
    first = None
    for k, f in fs:
        ps = list(inspect.signature(f).parameters)
        try:
            outs, _ = A.run(lambda st: arrays.norm(A.freeze(st, A.call_value(st, A.glob('feat', k), [arg(st, p) for p in ps], {}, None), deep=True)), docs={})
            r = sorted((o.kind, show(unlist(o.val) if o.kind == 'return' else o.val.args[0] if isinstance(o.val.args[0], Term) else mk('x', o.val.args[0]))) for o in outs if 'pyexc' not in str(o.kind))
        except Exception as e:
            r = [('EXC', f'{type(e).__name__} {str(e)[:150]}')]
        if first is None:
            first = r
            if len(r) != 1: print(f'{k}: {len(r)} outcomes', [x[:2] for x in r][:3] if not sel else r)
        elif r != first:
            print(f'{k} DIFFERS\n     ', str(r)[:600], '\n     ', str(first)[:600])
shutil.rmtree(d)
