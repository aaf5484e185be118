seed('c09-system-equals', 'C09', [('incar.py', "                    if len(final_split) > 2:", "                    if len(final_split) > 2 and final_split[0].strip().isupper():")], """
import sys
from parsevasp.incar import Incar
for s in ('ENCUT = 400 = 300', 'encut = 400 = 300'):
    try:
        Incar(incar_string=s)
    except SystemExit as e:
        if e.code != 101:
            sys.exit(1)
    else:
        sys.exit(1)
""", 'a lower case tag with two equal signs in one entry', 'the faulty entry is accepted and everything after the second equal sign is lost')

seed('c09-mixed-tail', 'C09', [('incar.py', "            if not all(x == content_type[0] for x in content_type):", "            if len(set(content_type[-2:])) > 1 or content_type[:1] != content_type[-1:]:")], """
import sys
from parsevasp.incar import Incar
for s in ('LDAUL = 1 2.5 3 4', 'LDAUL = 1 2 3 4.0'):
    try:
        Incar(incar_string=s)
    except SystemExit as e:
        if e.code != 104:
            sys.exit(1)
    else:
        sys.exit(1)
""", 'four or more words whose odd one out stands in front of the last two', 'values of mixed types are stored')

seed('c10-logical-false-short', 'C10', [('incar.py', "             or '.f.' in string \\\n             or '.F.' in string:", "             or '.f' == string \\\n             or '.F.' in string:")], """
import sys
from parsevasp.incar import Incar
i = Incar(incar_string='LWAVE = .f.\\nLCHARG = .F.', validate_tags=False)
sys.exit(0 if i.get('lwave') is False and i.get('lcharg') is False else 1)
""", 'the lower case short spelling .f.', '.f. is kept as text instead of False')

seed('c10-comment-split', 'C10', [('incar.py', "                splitted = splitted[0].split(';')\n", "                splitted = splitted[0].split(';', 1)\n                splitted = splitted[:1] + [part for part in splitted[1:] for part in part.split(';')[:2]]\n")], """
import sys
from parsevasp.incar import Incar
i = Incar(incar_string='ENCUT = 400; ISMEAR = 0; SIGMA = 0.1; NELM = 60')
sys.exit(0 if i.get('nelm') == 60 and i.get('sigma') == 0.1 else 1)
""", 'four entries on one line', 'entries after the third on a line are dropped')

seed('c11-vel-frame', 'C11', [('poscar.py', """                    position = self._to_direct(position, self._poscar_dict['unitcell'])
                    if velocities is not None:
                        velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
                    direct = True
""", """                    position = self._to_direct(position, self._poscar_dict['unitcell'])
                    if velocities is not None and site['predictors'] is None:
                        velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
                    direct = True
""")], """
import sys
import numpy as np
from parsevasp.poscar import Poscar
def make(pred):
    return {'comment': 'c', 'unitcell': np.eye(3) * 2.0, 'sites': [{'specie': 'Si', 'position': np.array([1.0, 1.0, 1.0]), 'selective': [True] * 3,
            'velocities': np.array([2.0, 0.0, 0.0]), 'predictors': pred, 'direct': False}]}
for pred in (None, np.zeros(3)):
    s = Poscar(poscar_dict=make(pred)).entries['sites'][0]
    if not np.allclose(s.get_velocities(), [1.0, 0.0, 0.0]):
        sys.exit(1)
""", 'a Cartesian site dictionary with velocities and predictors', 'velocities stay Cartesian while the site is marked direct')

seed('c11-scale-twice', 'C11', [('poscar.py', """            position[0] = float(line[0]) * scaling
            position[1] = float(line[1]) * scaling
            position[2] = float(line[2]) * scaling
            if not direct:
""", """            position[0] = float(line[0]) * scaling
            position[1] = float(line[1]) * scaling
            position[2] = float(line[2])
            if not direct:
                position[2] = position[2] * (scaling if not selective else 1.0)
""")], """
import sys
import numpy as np
from parsevasp.poscar import Poscar
for sel, fl in (('', ''), ('Selective\\n', ' T T F')):
    text = 'x\\n2.0\\n1 0 0\\n0 1 0\\n0 0 1\\nSi\\n1\\n' + sel + 'Cartesian\\n0.5 0.5 0.5' + fl + '\\n'
    p = Poscar(poscar_string=text).entries['sites'][0].get_position()
    if not np.allclose(p, 0.5):
        sys.exit(1)
""", 'selective dynamics together with Cartesian positions and a scaling factor that is not one', 'the third coordinate misses the scaling factor')

seed('c12-group-flags', 'C12', [('poscar.py', "            if False in select:\n                selective = True\n", "            selective = False in select\n")], """
import sys
from parsevasp.poscar import Poscar
text = '''x
1.0
1 0 0
0 1 0
0 0 1
Si C
1 1
Selective
Direct
0 0 0 F F F
.5 .5 .5 T T T
'''
p = Poscar(poscar_string=text)
sys.exit(0 if 'Selective' in p.get_string() else 1)
""", 'constrained sites followed by a last site without constraints', 'the selective dynamics block is lost')

seed('c12-conserve-group', 'C12', [('poscar.py', "            if species_concat and species_concat[-1] == specie:\n                num_species[-1] = num_species[-1] + 1\n", "            if specie in species_concat:\n                num_species[species_concat.index(specie)] += 1\n")], """
import sys
from parsevasp.poscar import Poscar
text = '''x
1.0
1 0 0
0 1 0
0 0 1
Si C Si
1 1 1
Direct
0 0 0
.5 .5 .5
.2 .2 .2
'''
p = Poscar(poscar_string=text, conserve_order=True)
out = p.get_string().splitlines()
sys.exit(0 if out[5].split() == ['Si', 'C', 'Si'] else 1)
""", 'conserve_order and a species that appears in two separate groups', 'species, counts and site lines no longer agree in order')

seed('c13-scaling-zero', 'C13', [('poscar.py', "        scaling = float(poscar[1].split()[0])\n        if scaling < 0.0:", "        scaling = float(poscar[1].split()[0])\n        if scaling < -1.0:")], """
import sys
from parsevasp.poscar import Poscar
text = 'x\\n%s\\n1 0 0\\n0 1 0\\n0 0 1\\nSi\\n1\\nDirect\\n0 0 0\\n'
for s in ('-20.0', '-0.5'):
    try:
        Poscar(poscar_string=text % s)
    except SystemExit as e:
        if e.code != 307:
            sys.exit(1)
    else:
        sys.exit(1)
""", 'a negative scaling factor (cell volume) of magnitude below one', 'the negative scaling factor is applied as a plain factor')

seed('c13-kpoints-line-cart', 'C13', [('kpoints.py', "            reference = kpoints[3].split()[0][0].lower()\n            if reference in ('r', 'd'):\n                direct = True", "            reference = kpoints[3].strip().lower()\n            if 'r' in reference or reference.startswith('d'):\n                direct = True")], """
import sys
from parsevasp.kpoints import Kpoints
t = 'k\\n10\\nLine-mode\\n%s\\n0 0 0\\n0.5 0 0\\n'
Kpoints(kpoints_string=t % 'Reciprocal')
for w in ('k', 'Cartesian'):
    try:
        Kpoints(kpoints_string=t % w)
    except SystemExit as e:
        if e.code != 200:
            sys.exit(1)
    else:
        sys.exit(1)
""", 'line mode with the reference spelled Cartesian', 'Cartesian line mode points are taken as direct ones')

seed('c14-shift-order', 'C14', [('kpoints.py', """                for vec in generating_vectors:
                    file_handler.write(""", """                for vec in (generating_vectors if divisions is None else []):
                    file_handler.write("""), ('kpoints.py', "            shifts = entries['shifts']\n            if shifts is not None:\n                file_handler.write(", "            shifts = entries['shifts']\n            if shifts is not None and any(shifts) and entries['centering'] != 'Reciprocal':\n                file_handler.write(")], """
import sys
from parsevasp.kpoints import Kpoints
t = 'k\\n0\\nReciprocal\\n0.25 0 0\\n0 0.25 0\\n0 0 0.25\\n0.5 0.5 0.5\\n'
out = Kpoints(kpoints_string=t).get_string().splitlines()
sys.exit(0 if [float(x) for x in out[-1].split()] == [0.5] * 3 else 1)
""", 'generating vectors with a shift', 'the shift of a generating vector mesh is written as zeros')

seed('c14-weight-zero', 'C14', [('kpoints.py', "                if weight is None:\n", "                if not weight:\n")], """
import sys
from parsevasp.kpoints import Kpoints
t = 'k\\n2\\nReciprocal\\n0 0 0 1\\n0.5 0 0 0\\n'
out = Kpoints(kpoints_string=t).get_string().splitlines()
sys.exit(0 if float(out[4].split()[3]) == 0.0 else 1)
""", 'a point with zero weight, as used for band structures with hybrid functionals', 'zero weights are written as one')
