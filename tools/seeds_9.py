def _consts():
    a = open('/verif/tools/seeds_8.py').read()
    d = {'seed': lambda *x: None}
    exec(compile(a, 'seeds_8', 'exec'), d)
    return d['XML'], d['POT'], d['KP']


XML, POT, KP = _consts()

seed('c11-vel-scaled', 'C11', [('poscar.py', "                vel[0] = float(line[0])\n                vel[1] = float(line[1])\n                vel[2] = float(line[2])\n",
     "                vel[0] = float(line[0]) * scaling\n                vel[1] = float(line[1]) * scaling\n                vel[2] = float(line[2]) * scaling\n")], """
import sys
import numpy as np
from parsevasp.poscar import Poscar
t = 'c\\n2.0\\n3 0 0\\n0 3 0\\n0 0 3\\nSi\\n1\\nCartesian\\n0 0 0\\nCartesian\\n3 6 0\\n'
v = Poscar(poscar_string=t).entries['sites'][0].get_velocities()
sys.exit(0 if np.allclose(v, [0.5, 1, 0]) else 1)
""", 'Cartesian velocities with a scaling factor', 'the velocities are scaled')

seed('c10-system-number', 'C10', [('incar.py', "            if clean_tag in ('system', 'magmom', 'm_constr'):\n", "            if clean_tag in ('system', 'magmom', 'm_constr') and not utils.is_number(value.strip()):\n")], """
import sys
from parsevasp.incar import Incar
i = Incar(incar_string='SYSTEM = 007\\nMAGMOM = 2*1.0')
sys.exit(0 if i.get('system') == '007' and i.get('magmom') == '2*1.0' else 1)
""", 'a system name that is a number', 'the name is stored as a number')

seed('c23-ibrion-zero', 'C23', [('outcar.py', "            if ibrion > 0:\n", "            if ibrion >= 0:\n")], """
import io, sys
from parsevasp.outcar import Outcar
t = '   NELM   = 5\\n   NSW    = 3\\n   IBRION = 0\\n--- Iteration      1(   1) ---\\n--- Iteration      2(   1) ---\\n General timing and accounting informations for this job:\\n'
sys.exit(0 if Outcar(file_handler=io.StringIO(t)).get_run_status()['ionic_converged'] is None else 1)
""", 'a molecular dynamics run', 'reported as a converged relaxation')

seed('c05-warnings', 'C05', [('kpoints.py', """                    self._logger.info(
                        'None was detected for the weight, '
                        'but for excplicit mode a weight has '
                        'to be given. Setting it to 1.0. '
                        'Continuing.'
                    )
""", """                    import warnings
                    warnings.warn(
                        'None was detected for the weight, '
                        'but for excplicit mode a weight has '
                        'to be given. Setting it to 1.0. '
                        'Continuing.'
                    )
""")], KP + """
import logging, warnings
seen = []
class H(logging.Handler):
    def emit(self, r):
        seen.append(r.getMessage())
log = logging.getLogger('mine')
log.setLevel(logging.DEBUG)
log.addHandler(H())
k = Kpoints(kpoints_string='c\\n1\\nDirect\\n0 0 0\\n', logger=log)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    k.get_string()
sys.exit(0 if not w and any('weight' in m for m in seen) else 1)
""", 'writing points without weights', 'the message does not go to the logger')

seed('c03-lexch-lower', 'C03', [('potcar.py', """        return self._functional_tags.get(self.metadata.get('LEXCH').lower(), {}).get('name')
""", """        self.metadata['LEXCH'] = self.metadata.get('LEXCH').lower()
        return self._functional_tags.get(self.metadata['LEXCH'], {}).get('name')
""")], POT + """
p = pot(['LEXCH  = PE'])
a = p.lexch
p.functional
sys.exit(0 if a == p.lexch == 'PE' else 1)
""", 'asking for the functional before LEXCH', 'LEXCH changes its case')

seed('c22-weight-stars', 'C22', [('kpoints.py', """                if len(kentry) > 3:
                    weight = float(kentry[3])
""", """                if len(kentry) > 3 and utils.is_number(kentry[3]):
                    weight = float(kentry[3])
""")], KP + """
try:
    k = Kpoints(kpoints_string='c\\n1\\nDirect\\n0 0 0 1.O\\n')
    sys.exit(1)
except (ValueError, SystemExit) as e:
    sys.exit(0 if isinstance(e, ValueError) or e.code not in (1, 0) else 1)
""", 'a weight that is no number', 'the weight is dropped silently')

seed('c25-empty-line', 'C25', [('stream.py', """            # Go though all entries in the stream triggers
""", """            # Nothing to find on empty lines
            if not line.strip():
                continue
            # Go though all entries in the stream triggers
""")], """
import io, sys
from parsevasp.stream import Stream
c = {'pagebreak': {'kind': 'ERROR', 'regex': '\\f', 'message': 'm'}}
s = Stream(file_handler=io.StringIO('text\\n \\f \\ntext\\n'), config=c)
sys.exit(0 if [e.shortname for e in s.entries if e.shortname == 'pagebreak'] == ['pagebreak'] else 1)
""", 'a pattern that matches a line of white space', 'the trigger is not reported')

seed('c04-default-etype', 'C04', [('vasprun.py', "    def get_energies(self, status, etype=None, nosc=True):\n", "    def get_energies(self, status, etype=['energy_extrapolated'], nosc=True):\n"),
     ('vasprun.py', """        if etype is None:
            etype = ['energy_extrapolated']

""", """        if not nosc and 'energy_free' not in etype:
            # The energies of the steps come with the free energy
            etype.append('energy_free')

""")], XML + """
a = load(doc([calc(1)])).get_energies('last')
load(doc([calc(1)])).get_energies('last', nosc=False)
b = load(doc([calc(1)])).get_energies('last')
sys.exit(0 if sorted(a) == sorted(b) else 1)
""", 'a query for all electronic steps before another query', 'the default argument grows')

