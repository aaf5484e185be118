XML = '''
import io, sys
import numpy as np
from parsevasp.vasprun import Xml

def vs(rows, tag='v'):
    return ''.join('<%s> %s </%s>\\n' % (tag, ' '.join('%.8f' % x for x in r), tag) for r in rows)

def struct(k):
    return '<structure><crystal><varray name="basis">%s</varray></crystal><varray name="positions">%s</varray></structure>' % (
        vs(np.eye(3) * (3 + k)), vs([[0.1 * k, 0.2, 0.3]]))

def calc(k, extra=''):
    e = lambda x: '<energy><i name="e_fr_energy"> %.8f </i><i name="e_wo_entrp"> %.8f </i><i name="e_0_energy"> %.8f </i></energy>' % (x, x + 0.1, x + 0.2)
    return '<calculation><scstep>%s</scstep>%s<varray name="forces">%s</varray><varray name="stress">%s</varray>%s%s</calculation>\\n' % (
        e(-k), struct(k), vs([[0.01 * k, 0, 0]]), vs(np.eye(3) * k), e(-k - 0.5), extra)

KPTS = [[0, 0, 0], [0.25, 0, 0], [0.5, 0, 0]]

def doc(calcs, spin=1, nb=2, kpts=KPTS, head='', extra_par=''):
    return ('<?xml version="1.0" encoding="ISO-8859-1"?>\\n<modeling>\\n<generator><i name="version" type="string">5.4.4 </i></generator>\\n'
            '<kpoints><varray name="kpointlist">%s</varray><varray name="weights">%s</varray></kpoints>\\n'
            '<parameters><separator name="electronic"><i type="int" name="NBANDS"> %d </i><separator name="electronic spin"><i type="int" name="ISPIN"> %d </i></separator></separator>%s</parameters>\\n'
            '<atominfo><array name="atoms"><set><rc><c>Si</c><c>1</c></rc></set></array></atominfo>\\n%s%s</modeling>\\n' % (
            vs(kpts), vs([[1.0 / len(kpts)]] * len(kpts)), nb, spin, extra_par, head, ''.join(calcs))).encode()

def load(text, **kw):
    return Xml(file_handler=io.BytesIO(text), **kw)
'''

POT = '''
import io, sys
from parsevasp.potcar import Potcar
def pot(lines, titel='PAW_PBE Fe_pv 06Sep2000'):
    return Potcar(file_handler=io.StringIO(' PAW_PBE\\n 8.0\\n parameters from PSCTR are:\\n   VRHFIN =Fe: d7s1\\n   TITEL  = %s\\n' % titel + ''.join('   %s\\n' % l for l in lines) + '  END of PSCTR-controll parameters\\n'))
'''

KP = """
import sys
import numpy as np
from parsevasp.kpoints import Kpoint, Kpoints
"""
seed('c09-adjacent-equals', 'C09', [('incar.py', "                    final_split = ntry.split('=')\n", "                    final_split = [part for part in ntry.split('=') if part.strip()]\n")], """
import sys
from parsevasp.incar import Incar
try:
    Incar(incar_string='ENCUT == 520')
except SystemExit as e:
    sys.exit(0 if e.code == 101 else 1)
sys.exit(1)
""", 'two equal signs next to each other', 'the entry is accepted')

seed('c10-bool-list', 'C10', [('incar.py', "            string = ' '.join(map(self._convert_value_to_string, value))\n", "            string = ' '.join(str(element) for element in value)\n")], """
import sys
from parsevasp.incar import Incar
s = Incar(incar_dict={'lvdw': [True, False]}, validate_tags=False).get_string()
sys.exit(0 if s.split() == ['LVDW', '=', '.TRUE.', '.FALSE.'] else 1)
""", 'a list of logicals', 'written as True False')

seed('c14-stale-count', 'C14', [('kpoints.py', "            file_handler.write(f\"{len(entries['points']):6d}\\n\")\n", "            file_handler.write(f\"{entries['num_kpoints']:6d}\\n\")\n")], KP + """
k = Kpoints(kpoints_string='c\\n1\\nDirect\\n0 0 0 1\\n')
k.modify('points', [Kpoint(np.zeros(3), 1.0), Kpoint(np.ones(3) / 2, 1.0)])
sys.exit(0 if k.get_string().splitlines()[1].strip() == '2' else 1)
""", 'replacing the point list by one of another length, then writing', 'the count does not match the points')

seed('c14-odd-line', 'C14', [('kpoints.py', """            if entries['points'] and complete_set == 1:
                # The blank line after the last pair
                utils.remove_newline(file_handler)
""", """            if entries['points'] and complete_set:
                # The blank line after the last pair
                utils.remove_newline(file_handler)
""")], KP + """
k = Kpoints(kpoints_string='c\\n10\\nLine\\nReciprocal\\n0 0 0\\n0 0 0.5\\n\\n0.5 0 0\\n')
t = k.get_string()
sys.exit(0 if t.endswith('\\n') and len(t.splitlines()) == 8 else 1)
""", 'an odd number of points in line mode', 'the last line has lost its newline')

seed('c12-stale-compound', 'C12', [('poscar.py', "        elif compound not in comment:\n", "        elif not comment.startswith('Compound: '):\n")], """
import sys
import numpy as np
from parsevasp.poscar import Poscar, Site
p = Poscar(poscar_string='# Compound: Si2. Old comment: x\\n1.0\\n3 0 0\\n0 3 0\\n0 0 3\\nSi\\n2\\nDirect\\n0 0 0\\n0.5 0.5 0.5\\n')
p.modify('sites', [Site('ge', np.zeros(3))])
sys.exit(0 if 'Compound: Ge.' in p.get_string().splitlines()[0] else 1)
""", 'changing the sites of a file this package wrote', 'the comment names the old compound')

seed('c16-tetra-glued', 'C16', [('kpoints.py', "                        '{:6d} {:6d} {:6d} {:6d} {:6d}\\n'.format(\n", "                        '{:6d}{:7d}{:7d}{:7d}{:7d}\\n'.format(\n")], KP + """
k = Kpoints(kpoints_string='c\\n1\\nDirect\\n0 0 0 1\\nTetrahedra\\n1 0.1\\n1 1 1 1 1\\n')
k.modify('tetra', [[1, 1234567, 12345678, 3, 4]])
sys.exit(0 if k.get_string().splitlines()[-1].split() == ['1', '1234567', '12345678', '3', '4'] else 1)
""", 'a tetrahedron index of seven digits', 'two numbers run together')

seed('c27-band-order', 'C27', [('eigenval.py', """            for point in kpbs:
                eigenvalues[:, k, int(point[0]) - 1] = point[1:num_spins + 1]
""", """            for band, point in enumerate(kpbs):
                eigenvalues[:, k, band] = point[1:num_spins + 1]
""")], """
import io, sys
from parsevasp.eigenval import Eigenval
t = ' 1 1 1 1\\n 1.0 2.0 3.0 4.0 5.0\\n 1.0\\n CAR\\n sys\\n 2 1 2\\n\\n 0.0 0.0 0.0 1.0\\n 2 5.5 0.0\\n 1 -3.0 1.0\\n'
e = Eigenval(file_handler=io.StringIO(t)).get_eigenvalues()
sys.exit(0 if list(e[0, 0]) == [-3.0, 5.5] else 1)
""", 'bands that are not printed in increasing order', 'the band number is ignored')

seed('c28-suffix-last', 'C28', [('potcar.py', "        self._element = self._symbol.split('_')[0]\n", "        self._element = self._symbol.rpartition('_')[0] or self._symbol\n")], POT + """
v = [pot(['LEXCH  = PE'], t).element for t in ('PAW_PBE Fe_pv 06Sep2000', 'PAW_PBE Si 05Jan2001', 'PAW_PBE Ti_sv_GW 05Dec2013')]
sys.exit(0 if v == ['Fe', 'Si', 'Ti'] else 1)
""", 'a symbol with two suffixes', 'the element keeps a suffix')

seed('c17-three-atoms', 'C17', [('vasprun.py', """                if num_entrypos > num_atoms:
                    pos[2]""", """                if num_entrypos > 3:
                    pos[2]""")], XML + """
x = load(doc([calc(1), calc(2)]), extract_all=True)
sys.exit(0 if np.allclose(x.get_positions('last'), [[0.2, 0.2, 0.3]]) else 1)
""", 'two or three steps of a single atom', 'the last positions are those of the first step')

seed('c13-cart-spelling', 'C13', [('kpoints.py', "            if third_line[0].lower() not in ['k', 'c']:\n", "            if third_line.lower() not in ['k', 'c', 'kartesian', 'cartesian']:\n")], KP + """
bad = 0
for w in ('Cartesian', 'c', 'Cart', 'cartesian coordinates', 'K'):
    try:
        Kpoints(kpoints_string='c\\n1\\n%s\\n0 0 0 1\\n' % w)
        bad += 1
    except SystemExit as e:
        bad += e.code != 200
sys.exit(1 if bad else 0)
""", 'a Cartesian mode line with another spelling', 'the points are taken as direct')

seed('c23-mask-first', 'C23', [('outcar.py', "           (not finished and all(mask[:-1]) and iter_counter[0] > 1):\n", "           (not finished and all(mask[:-1]) and len(mask) > 2):\n")], """
import io, sys
from parsevasp.outcar import Outcar
def out(steps, nelm=2):
    t = '   NELM   = %d\\n   NSW    = 9\\n   IBRION = 2\\n' % nelm
    for i, n in enumerate(steps):
        t += ''.join('--- Iteration %6d(%4d) ---\\n' % (i + 1, j + 1) for j in range(n))
    return Outcar(file_handler=io.StringIO(t)).get_run_status()['consistent_nelm_breach']
sys.exit(0 if [out(s) for s in ([2, 1], [2, 2, 1], [1, 1], [2])] == [True, True, False, False] else 1)
""", 'an unfinished run in its second ionic step', 'the breach is not reported')

seed('c20-handle-rewind', 'C20', [('vasprun.py', """                self._file_handler.seek(shift)
                last_line = self._file_handler.readlines()[-1]
                # Reset pointer
                self._file_handler.seek(0)
""", """                position = self._file_handler.tell()
                self._file_handler.seek(shift)
                last_line = self._file_handler.readlines()[-1]
                # Reset pointer
                self._file_handler.seek(position)
"""), ('vasprun.py', """            # f.seek(0, 2) moved the pointer to the end of the file, then
            # f.tell will give the size in bytes from the start
            self._file_handler.seek(0, 2)
            file_size = self._file_handler.tell()
            # Reset before returning
            self._file_handler.seek(0)
""", """            # f.seek(0, 2) moved the pointer to the end of the file, then
            # f.tell will give the size in bytes from the start
            position = self._file_handler.tell()
            self._file_handler.seek(0, 2)
            file_size = self._file_handler.tell()
            # Reset before returning
            self._file_handler.seek(position)
""")], XML + """
f = io.BytesIO(doc([calc(1)]))
f.read(40)
try:
    x = Xml(file_handler=f)
    ok = not x.truncated and x.get_version() == '5.4.4'
except BaseException:
    ok = False
sys.exit(0 if ok else 1)
""", 'a handle that has been read from before', 'parsing starts in the middle of the file')

seed('c07-write-both', 'C07', [('base.py', """        if ('file_path' in kwargs and 'file_handler' in kwargs) or \\
           ('file_path' not in kwargs and 'file_handler' not in kwargs):
""", """        if not any(kwargs.get(target) for target in ('file_path', 'file_handler')):
""")], KP + """
import io, os, tempfile
k = Kpoints(kpoints_string='c\\n0\\nGamma\\n2 2 2\\n')
with tempfile.TemporaryDirectory() as d:
    try:
        k.write(file_path=os.path.join(d, 'K'), file_handler=io.StringIO())
        ok = False
    except SystemExit as e:
        ok = e.code == 10 and not os.listdir(d)
sys.exit(0 if ok else 1)
""", 'writing with both a path and a handle', 'the call is accepted and the handle ignored')
