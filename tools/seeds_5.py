# ---- C22
seed('c22-dos-stars', 'C22', [('doscar.py', """        data = [utils.line_to_type(line, d_type=float) for line in doscar[6:]]
""", """        data = [utils.line_to_type(line.replace('*', '0'), d_type=float) for line in doscar[6:]]
""")], """
import io, sys
from parsevasp.doscar import Doscar
head = '1 1 0 0\\n1 1 1 1 1\\n1.0\\n  CAR\\n X\\n 1.0 0.0 2 0.5 1.0\\n'
def run(field):
    try:
        return Doscar(file_handler=io.StringIO(head + '0.0 1.0 1.0\\n0.5 %s 1.0\\n' % field)).get_dos()
    except (ValueError, SystemExit):
        return None
ok = run('2.0') is not None and run('******') is None
sys.exit(0 if ok else 1)
""", 'a density of states value printed as asterisks', 'asterisks become zero')

seed('c22-eigenval-overflow', 'C22', [('eigenval.py', """            for point in kpbs:
                eigenvalues[:, k, int(point[0]) - 1] = point[1:num_spins + 1]
""", """            for point in kpbs:
                if utils.is_numbers(' '.join(point)):
                    eigenvalues[:, k, int(point[0]) - 1] = point[1:num_spins + 1]
""")], """
import io, sys
from parsevasp.eigenval import Eigenval
head = '1 1 1 1\\n1 1 1 1 1\\n1e-4\\n CAR\\n X\\n 4 1 2\\n\\n'
def run(field):
    try:
        return Eigenval(file_handler=io.StringIO(head + '0.0 0.0 0.0 1.0\\n1 %s 1.0\\n2 3.0 1.0\\n' % field)).get_eigenvalues()
    except (ValueError, SystemExit):
        return None
sys.exit(0 if run('2.0') is not None and run('*******') is None else 1)
""", 'an eigenvalue that overflowed its field', 'the eigenvalue is stored as zero')

seed('c22-poscar-scaling', 'C22', [('poscar.py', """        scaling = float(poscar[1].split()[0])
""", """        scaling = float(poscar[1].split()[0]) if utils.is_number(poscar[1].split()[0]) else 1.0
""")], """
import sys
from parsevasp.poscar import Poscar
t = 'c\\n%s\\n3.0 0 0\\n0 3.0 0\\n0 0 3.0\\nSi\\n1\\nDirect\\n0.1 0.2 0.3\\n'
def run(s):
    try:
        return Poscar(poscar_string=t % s).get_dict()
    except (ValueError, SystemExit):
        return None
sys.exit(0 if run('1.5') is not None and run('1.5*2') is None else 1)
""", 'a scaling factor that is no number', 'the cell is silently left unscaled')

seed('c22-elastic-overflow', 'C22', [('outcar.py', """                for idx in range(3, 9):
                    tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
                self._data['elastic_moduli']['total'] = np.asarray(tensor)
""", """                for idx in range(3, 9):
                    tensor.append([
                        float(item) if utils.is_number(item) else float('nan')
                        for item in outcar[index + idx].strip().split()[1:]
                    ])
                self._data['elastic_moduli']['total'] = np.asarray(tensor)
""")], """
import io, sys
from parsevasp.outcar import Outcar
rows = lambda bad: ''.join(' %s ' % n + ' '.join(bad if (bad and i == 2 and j == 3) else '%.4f' % (i + j) for j in range(6)) + '\\n' for i, n in enumerate(('XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX')))
t = '   NSW    =      1\\n   NELM   =     60;\\n ----- Iteration    1(   1) -----\\n TOTAL ELASTIC MODULI (kBar)\\n Direction XX YY ZZ XY YZ ZX\\n ------\\n%s\\n'
def run(bad):
    try:
        return Outcar(file_handler=io.StringIO(t % rows(bad))).get_elastic_moduli()['total']
    except (ValueError, SystemExit):
        return None
sys.exit(0 if run(None) is not None and run('*********') is None else 1)
""", 'an elastic modulus printed as asterisks', 'the entry becomes nan instead of an error')

# ---- C23
HEAD = '''
import io, sys, logging
from parsevasp.outcar import Outcar
logging.disable(logging.CRITICAL)
def out(steps, nsw=5, nelm=4, ibrion=2, fin=True):
    t = '   NELM   =    %3d;   NELMIN=  2\\n   NSW    =    %3d    number of steps\\n   IBRION =    %3d    ionic\\n' % (nelm, nsw, ibrion)
    for k, n in enumerate(steps):
        for e in range(n):
            t += '--------- Iteration  %5d(%4d)  -----\\n' % (k + 1, e + 1)
    if fin:
        t += ' General timing and accounting informations for this job:\\n'
    return Outcar(file_handler=io.StringIO(t)).get_run_status()
'''

seed('c23-breach-missing-last', 'C23', [('outcar.py', """        if (finished and all(mask)) or \\
           (not finished and all(mask[:-1]) and iter_counter[0] > 1):
""", """        if all(mask[:-1]) and iter_counter[0] > 1:
""")], HEAD + """
ok = not out([4, 4, 2])['consistent_nelm_breach'] and out([4])['consistent_nelm_breach'] and out([4, 4, 2], fin=False)['consistent_nelm_breach']
sys.exit(0 if ok else 1)
""", 'a finished run of which only the last step converged, or with one step', 'consistent breach reported for a converged run')

seed('c23-order-by-text', 'C23', [('outcar.py', "sorted(nelec_steps.items(), key=lambda x: x[0])]", "sorted(nelec_steps.items(), key=lambda x: str(x[0]))]")], HEAD + """
s = out([4] * 11 + [1], nsw=20, fin=False)
ok = s['consistent_nelm_breach'] and not out([4] * 8 + [1] + [4], nsw=20, fin=False)['consistent_nelm_breach']
sys.exit(0 if ok else 1)
""", 'an unfinished run with ten or more ionic steps', 'the step left out is not the last one')

seed('c23-single-step-relax', 'C23', [('outcar.py', """                elif iter_counter[0] == nsw and nsw > 1:
""", """                elif iter_counter[0] == nsw and nsw >= 1:
""")], HEAD + """
ok = out([2], nsw=1)['ionic_converged'] is None and out([2, 2], nsw=2)['ionic_converged'] is False and out([2], nsw=2)['ionic_converged'] is True
sys.exit(0 if ok else 1)
""", 'a relaxation with NSW equal to one', 'not converged instead of undecided')

# ---- C24
# ---- C25
STREAM = '''
import io, sys
from parsevasp.stream import Stream
def names(text, **kw):
    return [e.shortname for e in Stream(file_handler=io.StringIO('running vasp.6\\n' + text), **kw).entries]
def cfg(kind, regex, **kw):
    return dict(kind=kind, location='STDOUT', message='m', suggestion='', recover=False, regex=regex, **kw)
'''
seed('c25-ignore-shared-kind', 'C25', [('stream.py', """        for kind, _ in stream_triggers.items():
            ignore[kind] = []
""", """        seen = []
        for kind, _ in stream_triggers.items():
            ignore[kind] = seen
""")], STREAM + """
config = {'zz%d' % i: cfg('WARNING', 'my warning number %d$' % i) for i in range(40)}
ok = True
for i in range(40):
    n = names('BRMIX: very serious problems\\ninternal error in subroutine IBZKPT\\nWARNING: CNORMN\\nmy warning number %d\\n' % i, config=config)
    ok = ok and sorted(n) == sorted(['brmix', 'ibzkpt', 'cnormn', 'zz%d' % i])
sys.exit(0 if ok else 1)
""", 'a warning whose index within its kind equals that of an error seen before', 'the warning is not reported')

seed('c25-inverse-kind-of-hit', 'C25', [('stream.py', """                if trigger.shortname not in self._inverse_streams:
""", """                if not any(name.startswith(trigger.shortname) for name in self._inverse_streams):
""")], STREAM + """
config = {'start': cfg('WARNING', 'started at', inverse=True), 'start_par': cfg('WARNING', 'running on', inverse=True)}
ok = sorted(names('running on 4\\n', config=config)) == ['start'] and sorted(names('started at\\n', config=config)) == ['start_par']
sys.exit(0 if ok else 1)
""", 'two inverse triggers of which one name starts with the other', 'an inverse trigger that should be reported is not')

seed('c25-overlapping-lines', 'C25', [('stream.py', """                                # full history of streams (e.g. multiple stream occurrences recorded)
                                ignore[kind].append(index)
""", """                                # full history of streams (e.g. multiple stream occurrences recorded)
                                ignore[kind].append(index)
                            break
""")], STREAM + """
config = {'zza': cfg('WARNING', 'first thing'), 'zzb': cfg('WARNING', 'thing two')}
sys.exit(0 if sorted(names('first thing two\\n', config=config)) == ['zza', 'zzb'] else 1)
""", 'one line that matches two triggers of one kind', 'only the first trigger is reported')

seed('c25-override-merge', 'C25', [('stream.py', """            stream_config.update(self._config)
""", """            for key, entry in self._config.items():
                stream_config.setdefault(key, {}).update(entry)
""")], STREAM + """
e = Stream(file_handler=io.StringIO('x\\n'), config={'nostart': dict(kind='ERROR', regex='vasp', message='m')})
names_ = [x.shortname for x in e.entries]
f = Stream(file_handler=io.StringIO('my vasp\\n'), config={'nostart': dict(kind='ERROR', regex='my vasp', message='m')})
sys.exit(0 if names_ == [] and [x.shortname for x in f.entries] == ['nostart'] else 1)
""", 'an override that leaves out an attribute of the standard entry', 'attributes of the overridden entry leak into the override')

# ---- C26
seed('c26-total-spin-interleaved', 'C26', [('doscar.py', """                dos[name] = dos_data[:, 1 + i * num_spin:1 + (i + 1) * num_spin]
""", """                dos[name] = dos_data[:, 1 + i:1 + i + num_spin]
""")], """
import io, sys
from parsevasp.doscar import Doscar
t = '1 1 0 0\\n1 1 1 1 1\\n1.0\\n  CAR\\n X\\n 1.0 0.0 2 0.5 1.0\\n0.0 1 2 3 4\\n0.5 1 2 3 4\\n'
d = Doscar(file_handler=io.StringIO(t)).get_dos()
sys.exit(0 if d['total'].tolist() == [[1, 2], [1, 2]] and d['integrated'].tolist() == [[3, 4], [3, 4]] else 1)
""", 'a spin polarised total density of states', 'the integrated density takes the down column of the total')

seed('c26-noncollinear-f', 'C26', [('doscar.py', """    np.dtype([('energy', float), ('s', float, (4,)), ('p', float, (4,)), ('d', float, (4,)), ('f', float, (4,))]),
""", """    np.dtype([('energy', float), ('s', float, (4,)), ('p', float, (4,)), ('f', float, (4,)), ('d', float, (4,))]),
""")], """
import io, sys
from parsevasp.doscar import Doscar
row = lambda e: '%s ' % e + ' '.join(str(i) for i in range(1, 17)) + '\\n'
h = '1.0 0.0 2 0.5 1.0\\n'
t = '1 1 1 0\\n1 1 1 1 1\\n1.0\\n  CAR\\n X\\n ' + h + '0.0 1 1\\n0.5 1 1\\n' + h + row(0.0) + row(0.5)
p = Doscar(file_handler=io.StringIO(t), non_collinear=True).get_pdos()
sys.exit(0 if p['d'][0, 0].tolist() == [9, 10, 11, 12] and p['f'][0, 0].tolist() == [13, 14, 15, 16] else 1)
""", 'a non-collinear l-decomposed file with f states', 'd and f exchanged')

seed('c26-second-ion', 'C26', [('doscar.py', """                start += (ndos + 1)
""", """                start = data.index(line_2, start) + 1 if line_2 in data[start:] else start
""")], """
import io, sys
from parsevasp.doscar import Doscar
row = lambda e, k: '%s ' % e + ' '.join(str(10 * k + i) for i in range(1, 4)) + '\\n'
h = '1.0 0.0 2 0.5 1.0\\n'
t = '2 2 1 0\\n1 1 1 1 1\\n1.0\\n  CAR\\n X\\n ' + h + '0.0 1 1\\n0.5 1 1\\n'
for k in (0, 1):
    t += (h if k == 0 else '1.0 0.0 2 0.5000 0.9999\\n') + row(0.0, k) + row(0.5, k)
p = Doscar(file_handler=io.StringIO(t)).get_pdos()
sys.exit(0 if p['s'].tolist() == [[1, 1], [11, 11]] else 1)
""", 'a header of a later ion that differs from the first in its weight', 'the data of the first ion stored again for the second')

# ---- C27
seed('c27-spin-down', 'C27', [('eigenval.py', """                eigenvalues[:, k, int(point[0]) - 1] = point[1:num_spins + 1]
""", """                eigenvalues[:, k, kpbs.index(point)] = point[1:num_spins + 1]
""")], """
import io, sys
from parsevasp.eigenval import Eigenval
t = '1 1 1 1\\n1 1 1 1 1\\n1e-4\\n CAR\\n X\\n 4 1 3\\n\\n0.0 0.0 0.0 1.0\\n2 3.0 1.0\\n1 2.0 1.0\\n3 4.0 1.0\\n'
e = Eigenval(file_handler=io.StringIO(t)).get_eigenvalues()
sys.exit(0 if e.tolist() == [[[2.0, 3.0, 4.0]]] else 1)
""", 'bands that are not printed in ascending order', 'eigenvalues stored under the wrong band')

seed('c27-volume-columns', 'C27', [('chgcar.py', """            volume = np.dot(lattice_vectors[0], np.cross(lattice_vectors[1], lattice_vectors[2]))
""", """            volume = lattice_vectors[0, 0] * lattice_vectors[1, 1] * lattice_vectors[2, 2] + np.prod(
                np.diag(np.roll(lattice_vectors, 1, axis=1))
            ) + np.prod(np.diag(np.roll(lattice_vectors, 2, axis=1)))
""")], """
import io, sys
import numpy as np
from parsevasp.chgcar import Chgcar
def chg(a, b, c):
    f = lambda v: ' '.join('%.6f' % x for x in v) + '\\n'
    t = 'c\\n1.0\\n' + f(a) + f(b) + f(c) + 'Si\\n1\\nDirect\\n0 0 0\\n\\n 1 1 2\\n1.0 2.0\\n'
    return Chgcar(file_handler=io.StringIO(t)).charge_density
ok = True
for l in ([[2, 0, 0], [0, 2, 0], [0, 0, 2]], [[0, 2, 2], [2, 0, 2], [2, 2, 0]], [[2, 1, 0], [1, 2, 0], [0, 0, 2]]):
    ok = ok and np.allclose(chg(*l).ravel(), np.array([1, 2]) / np.linalg.det(l))
sys.exit(0 if ok else 1)
""", 'a cell whose determinant has a negative product', 'the densities are divided by a wrong volume')

# ---- C28
POT = '''
import io, sys
from parsevasp.potcar import Potcar
def pot(lines, titel='PAW_PBE Fe_pv 06Sep2000'):
    return Potcar(file_handler=io.StringIO(' PAW_PBE\\n 8.0\\n parameters from PSCTR are:\\n   VRHFIN =Fe: d7s1\\n   TITEL  = %s\\n' % titel + ''.join('   %s\\n' % l for l in lines) + '  END of PSCTR-controll parameters\\n'))
'''
seed('c28-lexch-lower-class', 'C28', [('potcar.py', """        return self._functional_tags.get(self.metadata.get('LEXCH').lower(), {}).get('class')
""", """        return self._functional_tags.get(self.metadata.get('LEXCH').lower(), {'class': 'GGA'}).get('class')
""")], POT + """
p = pot(['LEXCH  = XX'])
q = pot(['LEXCH  = ca'])
sys.exit(0 if p.functional is None and p.functional_class is None and q.functional_class == 'LDA' else 1)
""", 'an unknown LEXCH code', 'a class without a functional')

seed('c28-logical-dot', 'C28', [('potcar.py', """            'LCOR': lambda val: re.match(r'^\\.?([TFtf])[A-Za-z]*\\.?', val).group(1).lower() in ['t'],
""", """            'LCOR': lambda val: re.match(r'^\\.?([A-Za-z])[A-Za-z]*\\.?', val).group(1) in ['T'],
""")], POT + """
v = [pot(['LEXCH  = PE', 'LCOR   = %s   correct aug' % s]).lcor for s in ('T', '.TRUE.', '.t.', 'F', '.false.')]
sys.exit(0 if v == [True, True, True, False, False] else 1)
""", 'a flag in lower case', 'a true flag read as false')

# ---- C29
seed('c29-element-shift', 'C29', [('constants.py', """    'uus': 117,
    'uuo': 118,
""", """    'uus': 118,
    'uuo': 118,
""")], """
import sys
from parsevasp.constants import elements
ok = len(set(elements.values())) == len(elements) and sorted(elements.values()) == list(range(119))
sys.exit(0 if ok else 1)
""", 'a lookup of element 117', 'two elements with one number')

seed('c29-incar-tag-case', 'C29', [('incar.yml', """
aggac:
""", """
AGGAC:
""")], """
import sys
from parsevasp.constants import incar_tags
sys.exit(0 if all(t == t.lower() for t in incar_tags) else 1)
""", 'an INCAR with that tag', 'a valid tag is rejected as unsupported')

seed('c24-cell-moment-components', 'C24', [('outcar.py', """                self._data['magnetization']['full_cell'] = [float(_val) for _val in outcar[index].strip().split()[5:]]
""", """                self._data['magnetization']['full_cell'] = [float(_val) for _val in outcar[index].strip().split()[5:6]]
""")], HEAD + """
t = '   NELM   =     60;\\n   NSW    =     1\\n -- Iteration    1(   1) --\\n number of electron      12.0000000 magnetization       0.5000000  0.2500000  1.5000000\\n'
m = Outcar(file_handler=io.StringIO(t)).get_magnetization()['full_cell']
sys.exit(0 if m == [0.5, 0.25, 1.5] else 1)
""", 'a non-collinear run', 'only the x component is kept')

seed('c24-f-orbital-one-ion', 'C24', [('outcar.py', """                            self._data['magnetization']['sphere'][f'{_proj}']['total_magnetization'] = self._data[
                                'magnetization']['sphere'][f'{_proj}']['site_moment'][list(
                                    self._data['magnetization']['sphere'][f'{_proj}']['site_moment'].keys()
                                )[0]]
""", """                            self._data['magnetization']['sphere'][f'{_proj}']['total_magnetization'] = self._data[
                                'magnetization']['sphere']['x']['site_moment'][list(
                                    self._data['magnetization']['sphere'][f'{_proj}']['site_moment'].keys()
                                )[0]]
""")], HEAD + """
blk = lambda p, v: ' magnetization (%s)\\n\\n# of ion   s   p   d   tot\\n-----------------------\\n 1  %s %s %s %s\\n\\n\\n' % ((p,) + v)
t = '   NELM   =     60;\\n   NSW    =     1\\n -- Iteration    1(   1) --\\n' + blk('x', (0.1, 0.2, 0.3, 0.6)) + blk('y', (0.0, 0.0, 0.5, 0.5)) + blk('z', (0.7, 0.0, 0.0, 0.7))
m = Outcar(file_handler=io.StringIO(t)).get_magnetization()['sphere']
ok = m['x']['total_magnetization']['tot'] == 0.6 and m['y']['total_magnetization']['tot'] == 0.5 and m['z']['total_magnetization']['tot'] == 0.7
sys.exit(0 if ok else 1)
""", 'a non-collinear run with one ion', 'the total of y and z is that of x')

seed('c27-grid-sorted', 'C27', [('chgcar.py', """        ngf.reverse()
""", """        ngf.sort(reverse=True)
""")], """
import io, sys
import numpy as np
from parsevasp.chgcar import Chgcar
t = 'c\\n1.0\\n2 0 0\\n0 1 0\\n0 0 1\\nSi\\n1\\nDirect\\n0 0 0\\n\\n 3 1 2\\n1.0 2.0 3.0 4.0 5.0\\n6.0\\n'
d = Chgcar(file_handler=io.StringIO(t)).charge_density
sys.exit(0 if d.shape == (2, 1, 3) else 1)
""", 'a grid whose divisions are not in ascending order', 'the density is reshaped with a wrong grid')

seed('c27-reciprocal-blocks', 'C27', [('eigenval.py', """            kpi = [float(x) for x in kpbs.pop(0)]
            kpoints[k] = kpi
""", """            kpi = [float(x) for x in kpbs.pop(0)]
            kpoints[k] = kpi
            if k and kpi == list(kpoints[k - 1]):
                continue
""")], """
import io, sys
from parsevasp.eigenval import Eigenval
blk = lambda e: '0.0 0.0 0.0 0.5\\n1 %s 1.0\\n2 %s 1.0\\n' % (e, e + 1)
t = '1 1 1 1\\n1 1 1 1 1\\n1e-4\\n CAR\\n X\\n 4 2 2\\n\\n' + blk(1.0) + '\\n' + blk(3.0)
e = Eigenval(file_handler=io.StringIO(t)).get_eigenvalues()
sys.exit(0 if e.tolist() == [[[1.0, 2.0], [3.0, 4.0]]] else 1)
""", 'two consecutive equal k-points', 'the eigenvalues of the second one are left zero')

seed('c28-element-two-letters', 'C28', [('potcar.py', """        self._element = self._symbol.split('_')[0]
""", """        self._element = self._symbol[:2].strip('_')
""")], POT + """
v = [pot(['LEXCH  = PE'], 'PAW_PBE %s 08Apr2002' % s).element for s in ('C_s', 'Fe_pv', 'O', 'H1.25')]
sys.exit(0 if v == ['C', 'Fe', 'O', 'H1.25'] else 1)
""", 'a symbol of one letter with a fractional charge', 'the element name is cut')

seed('c28-step-words', 'C28', [('potcar.py', """re.split(r'\\s+', val.strip()) if not y.isalpha()],
""", """re.split(r'\\s', val.strip()) if y[:1].isdigit()],
""")], POT + """
v = pot(['LEXCH  = PE', 'STEP   =  -20.000   1.050', 'RWIGS  = 1.3']).step
sys.exit(0 if v == [-20.0, 1.05] else 1)
""", 'a STEP entry that is negative or starts with a decimal point', 'the entry is silently dropped')

seed('c29-element-typo', 'C29', [('constants.py', """    'tb': 65,
""", """    'Tb': 65,
""")], """
import sys
from parsevasp.constants import elements
sys.exit(0 if elements.get('tb') == 65 and all(k == k.lower() for k in elements) else 1)
""", 'terbium', 'the element is not found')
