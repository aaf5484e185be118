seed('c07-path-first', 'C07', [('utils.py', "    if input_file_handler is not None:\n        inputfile = input_file_handler\n", "    if input_file_handler is not None and not (file_name is not None and os.path.isfile(file_name)):\n        inputfile = input_file_handler\n")], """
import io, os, sys, tempfile
from parsevasp.eigenval import Eigenval
from parsevasp.outcar import Outcar
d = tempfile.mkdtemp()
p = os.path.join(d, 'OUTCAR')
with open(p, 'w') as f:
    f.write(' vasp.6.1.0\\n')
class H(io.StringIO):
    used = 0
    def readlines(self, *a):
        H.used += 1
        return io.StringIO.readlines(self, *a)
try:
    Outcar(file_path=p, file_handler=H(' vasp.5.4.4\\n'))
except (Exception, SystemExit):
    pass
os.remove(p)
os.rmdir(d)
sys.exit(0 if H.used else 1)
""", 'both a path to an existing file and a handle', 'the path is read and the handle ignored')

seed('c15-unitcell-stored-first', 'C15', [('poscar.py', """            if entry == 'unitcell':
                self._check_unitcell(unitcell=value)

            self.entries[entry] = value
""", """            self.entries[entry] = value
            if entry == 'unitcell':
                self._check_unitcell()
""")], """
import sys
import numpy as np
from parsevasp.poscar import Poscar, Site
u = np.eye(3) * 4.0
p = Poscar(poscar_dict={'comment': 'c', 'unitcell': u, 'sites': [Site('Si', np.array([0.0, 0.0, 0.0]))]})
try:
    p.modify('unitcell', np.eye(2))
except SystemExit as e:
    if e.code != 13:
        sys.exit(1)
else:
    sys.exit(1)
sys.exit(0 if p.entries['unitcell'] is u else 1)
""", 'a refused unit cell in modify followed by use of the object', 'the refused value stays stored in the object')

seed('c15-tetra-first-only', 'C15', [('kpoints.py', "                for element in tetra:\n                    if not isinstance(element, list):", "                for element in sorted(tetra, key=lambda element: isinstance(element, list))[:1]:\n                    if not isinstance(element, list):")], """
import sys
import numpy as np
from parsevasp.kpoints import Kpoints, Kpoint
pts = [Kpoint(np.array([0.0, 0.0, 0.0]), 1.0), Kpoint(np.array([0.5, 0.0, 0.0]), 1.0)]
d = {'comment': 'c', 'divisions': None, 'generating_vectors': None, 'shifts': None, 'points': pts, 'tetra': [[1, 1, 1, 1, 1]], 'tetra_volume': 0.1,
     'mode': 'explicit', 'centering': None, 'num_kpoints': 2}
k = Kpoints(kpoints_dict=d)
try:
    k.modify('tetra', [[1, 1, 1, 1, 1], [1, 2, 2, 2.5, 2]])
except SystemExit as e:
    sys.exit(0 if e.code == 13 else 1)
sys.exit(1)
""", 'the second of two tetrahedra with a wrong connector', 'an invalid tetrahedron list is stored')

seed('c15-point-bound', 'C15', [('poscar.py', "            if entry == 'comment':\n                self._check_comment(comment=value)\n            if entry == 'unitcell':", "            if entry == 'comment' and 'comment' not in self.entries:\n                self._check_comment(comment=value)\n            if entry == 'unitcell':")], """
import sys
import numpy as np
from parsevasp.poscar import Poscar, Site
p = Poscar(poscar_dict={'comment': 'c', 'unitcell': np.eye(3), 'sites': [Site('Si', np.array([0.0, 0.0, 0.0]))]})
try:
    p.modify('comment', 5)
except SystemExit as e:
    sys.exit(0 if e.code == 13 and p.entries['comment'] == 'c' else 1)
sys.exit(1)
""", 'a comment that is no string in an object that has one', 'the comment is stored unchecked')

seed('c16-vec-glued', 'C16', [('kpoints.py', "                        '{:{width}.{prec}f} {:{width}.{prec}f} '\n                        '{:{width}.{prec}f}\\n'.format(vec[0], vec[1], vec[2], prec=self._prec, width=self._width)",
 "                        '{:{width}.{prec}f}{:{width}.{prec}f}'\n                        '{:{width}.{prec}f}\\n'.format(vec[0], vec[1], vec[2], prec=self._prec, width=self._width + 1)")], """
import sys
import numpy as np
from parsevasp.kpoints import Kpoints
d = {'comment': 'c', 'divisions': None, 'generating_vectors': [[0.1, 0.0, 0.0], [0.0, -1234.5, -1234.5], [0.0, 0.0, 0.1]], 'shifts': None, 'points': None, 'tetra': None,
     'tetra_volume': None, 'mode': 'automatic', 'centering': 'Reciprocal', 'num_kpoints': 0}
t = Kpoints(kpoints_dict=d).get_string().splitlines()
sys.exit(0 if all(len(l.split()) == 3 for l in t[3:6]) else 1)
""", 'generating vectors with large negative components', 'two numbers run into each other')

seed('c16-prec-cap', 'C16', [('poscar.py', "            self._prec = prec\n", "            self._prec = min(prec, 16)\n")], """
import sys
import numpy as np
from parsevasp.poscar import Poscar, Site
p = Poscar(poscar_dict={'comment': 'c', 'unitcell': np.eye(3), 'sites': [Site('Si', np.array([0.1, 0.0, 0.0]))]}, prec=18)
w = [x for l in p.get_string().splitlines()[1:5] for x in l.split()]
sys.exit(0 if all(len(x.split('.')[1]) >= 18 for x in w) else 1)
""", 'a requested precision above 16', 'fewer decimals than requested are written')

seed('c16-weight-general', 'C16', [('kpoints.py', "                    '{:{width}.{prec}f} {:{width}.{prec}f}\\n'.format(\n                        coordinate[0], coordinate[1], coordinate[2], weight,", "                    '{:{width}.{prec}f} {:{width}.{prec}}\\n'.format(\n                        coordinate[0], coordinate[1], coordinate[2], float(weight),")], """
import sys
import numpy as np
from parsevasp.kpoints import Kpoints, Kpoint
pts = [Kpoint(np.array([0.0, 0.0, 0.0]), 0.000012345)]
d = {'comment': 'c', 'divisions': None, 'generating_vectors': None, 'shifts': None, 'points': pts, 'tetra': None, 'tetra_volume': None,
     'mode': 'explicit', 'centering': None, 'num_kpoints': 1}
sys.exit(1 if 'e' in Kpoints(kpoints_dict=d).get_string().splitlines()[3] else 0)
""", 'a small weight', 'the weight is written in exponent notation')
