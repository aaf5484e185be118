XML = '''
import io, sys
import numpy as np
from parsevasp.vasprun import Xml

def vs(rows, tag='v'):
    return ''.join('<%s> %s </%s>\\n' % (tag, ' '.join('%.8f' % x for x in r), tag) for r in rows)

def struct(k):
    return '<structure><crystal><varray name="basis">%s</varray></crystal><varray name="positions">%s</varray></structure>' % (
        vs(np.eye(3) * (3 + k)), vs([[0.1 * k, 0.2, 0.3]]))

def calc(k, extra=''):
    e = lambda x: '<energy><i name="e_fr_energy"> %.8f </i><i name="e_wo_entrp"> %.8f </i><i name="e_0_energy"> %.8f </i></energy>' % (x, x + 0.1, x + 0.2)
    return '<calculation><scstep>%s</scstep>%s<varray name="forces">%s</varray><varray name="stress">%s</varray>%s%s</calculation>\\n' % (
        e(-k), struct(k), vs([[0.01 * k, 0, 0]]), vs(np.eye(3) * k), e(-k - 0.5), extra)

KPTS = [[0, 0, 0], [0.25, 0, 0], [0.5, 0, 0]]

def doc(calcs, spin=1, nb=2, kpts=KPTS, head='', extra_par=''):
    return ('<?xml version="1.0" encoding="ISO-8859-1"?>\\n<modeling>\\n<generator><i name="version" type="string">5.4.4 </i></generator>\\n'
            '<kpoints><varray name="kpointlist">%s</varray><varray name="weights">%s</varray></kpoints>\\n'
            '<parameters><separator name="electronic"><i type="int" name="NBANDS"> %d </i><separator name="electronic spin"><i type="int" name="ISPIN"> %d </i></separator></separator>%s</parameters>\\n'
            '<atominfo><array name="atoms"><set><rc><c>Si</c><c>1</c></rc></set></array></atominfo>\\n%s%s</modeling>\\n' % (
            vs(kpts), vs([[1.0 / len(kpts)]] * len(kpts)), nb, spin, extra_par, head, ''.join(calcs))).encode()

def load(text, **kw):
    return Xml(file_handler=io.BytesIO(text), **kw)
'''

seed('c17-last-by-text', 'C17', [('vasprun.py', "            largest_key = max(self._data['stress'].keys())\n", "            largest_key = max(self._data['stress'].keys(), key=str)\n")], XML + """
x = load(doc([calc(k) for k in range(1, 12)]))
sys.exit(0 if np.allclose(x.get_stress('last'), np.eye(3) * 11) else 1)
""", 'ten or more ionic steps', 'the stress of the last step is that of the ninth')

seed('c17-middle-step', 'C17', [('vasprun.py', '            if max_entries > 6:\n', '            if max_entries > 9:\n')], XML + """
x = load(doc([calc(k) for k in range(1, 4)]))
p = x.get_positions('all')
ok = sorted(p) == [1, 2, 3] and np.allclose(p[2], [[0.2, 0.2, 0.3]]) and np.allclose(x.get_positions('last'), [[0.3, 0.2, 0.3]])
sys.exit(0 if ok else 1)
""", 'exactly three ionic steps and at most three atoms', 'the middle step is lost and the keys are wrong')

seed('c18-projector-spin-two', 'C18', [('vasprun.py', """            pdata[1] = np.asarray(np.split(pdata[1], num_kpoints))
            pdata[1] = np.asarray(np.split(pdata[1], num_bands, axis=1))
""", """            pdata[1] = pdata[1].reshape(num_bands, num_kpoints, num_atoms, 9)
""")], XML + """
nk, nb = 3, 2
val = lambda s, k, b: 100 * s + 10 * k + b
bands = lambda c: ''.join('<set comment="%s">' % (c % (s + 1)) + ''.join('<set comment="kpoint">%s</set>' % vs([[val(s, k, b), 1.0] for b in range(nb)], 'r') for k in range(nk)) + '</set>' for s in range(2))
proj = ''.join('<set comment="spin%d">' % (s + 1) + ''.join('<set comment="k">' + ''.join('<set comment="b">%s</set>' % vs([[val(s, k, b) + 0.01 * j for j in range(9)]], 'r') for b in range(nb)) + '</set>' for k in range(nk)) + '</set>' for s in range(2))
eig = '<eigenvalues><array><set>%s</set></array></eigenvalues>' % bands('spin %d')
x = load(doc([calc(1, eig + '<projected>%s<array><set>%s</set></array></projected>' % (eig, proj))], spin=2))
p = x.get_projectors()
ok = all(abs(p[c][0, b, k, 0] - val(s, k, b)) < 1e-6 for s, c in enumerate(('up', 'down')) for k in range(nk) for b in range(nb))
sys.exit(0 if ok else 1)
""", 'spin polarised projectors with more than one k-point and band', 'projectors of the second spin at wrong bands and k-points')

seed('c18-dos-event-down', 'C18', [('vasprun.py', """            dos_ispin = self._convert_array2D_f(entry_total_ispin2, 3)
            _dosdown['total'] = dos_ispin[:, 1]
            _dosdown['integrated'] = dos_ispin[:, 2]
            if entry_partial_ispin2:
                dos_ispin = self._convert_array2D_f(entry_partial_ispin2, 10)
                # do not need the energy term (similar to total)
                _dosdown['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
""", """            dos_ispin = self._convert_array2D_f(entry_total_ispin2, 3)
            _dosdown['total'] = dos_ispin[:, 1]
            _dosdown['integrated'] = dos_ispin[:, 2]
            if entry_partial_ispin2:
                dos_ispin = self._convert_array2D_f(entry_partial_ispin2, 10)
                # do not need the energy term (similar to total), place the atomic index first
                _dosdown['partial'] = np.swapaxes(dos_ispin[:, 1:10].reshape(-1, num_atoms, 9), 0, 1)
""")], XML + """
tot = lambda s: '<set comment="spin %d">%s</set>' % (s, vs([[e, s, s] for e in range(4)], 'r'))
par = lambda a, s: '<set comment="spin %d">%s</set>' % (s, vs([[e] + [100 * a + 10 * s + e + 0.01 * j for j in range(9)] for e in range(4)], 'r'))
dos = '<dos><i name="efermi"> 1.0 </i><total><array><set>%s</set></array></total><partial><array><set>%s</set></array></partial></dos>' % (
    tot(1) + tot(2), ''.join('<set comment="ion">%s</set>' % (par(a, 1) + par(a, 2)) for a in range(2)))
t = doc([calc(1, dos)], spin=2).replace(b'<rc><c>Si</c><c>1</c></rc>', b'<rc><c>Si</c><c>1</c></rc><rc><c>O</c><c>2</c></rc>')
t = t.replace(b'<v> 0.10000000 0.20000000 0.30000000 </v>', b'<v> 0.1 0.2 0.3 </v><v> 0.5 0.5 0.5 </v>').replace(b'<v> 0.01000000 0.00000000 0.00000000 </v>', b'<v> 0.01 0 0 </v><v> 0 0 0 </v>')
d = load(t).get_dos()['down']['partial']
ok = d.shape == (2, 4, 9) and all(abs(d[a, e, 0] - (100 * a + 20 + e)) < 1e-6 for a in range(2) for e in range(4))
sys.exit(0 if ok else 1)
""", 'spin polarised partial density of states with more than one atom', 'the rows of the second spin are mixed between the atoms')

seed('c19-symprec-anywhere', 'C19', [('vasprun.py', "        entry = self._find(xml, './/parameters/separator[@name=\"symmetry\"]/'\n                           'i[@name=\"SYMPREC\"]')\n", "        entry = self._find(xml, './/i[@name=\"SYMPREC\"]')\n")], XML + """
t = doc([calc(1)], head='', extra_par='<separator name="symmetry"><i name="SYMPREC"> 0.00001 </i></separator>')
t = t.replace(b'<kpoints>', b'<incar><i name="SYMPREC"> 0.5 </i></incar><kpoints>', 1)
sys.exit(0 if abs(load(t).get_parameters()['symprec'] - 1e-5) < 1e-12 else 1)
""", 'SYMPREC among the tags given by the user', 'the value as given, not the one used, is stored')

seed('c19-nelm-anywhere', 'C19', [('vasprun.py', "                        and element.getparent().attrib['name'] == 'electronic convergence':\n", "                        and 'convergence' in element.getparent().attrib['name']:\n")], XML + """
par = ('<separator name="electronic"><separator name="electronic convergence"><i type="int" name="NELM"> 60 </i>'
       '<separator name="electronic convergence detail"><i type="int" name="NELM"> 1 </i></separator></separator></separator>')
t = doc([calc(1)], extra_par=par)
a, b = load(t), load(t, event=True)
sys.exit(0 if a.get_parameters()['nelm'] == b.get_parameters()['nelm'] == 60 else 1)
""", 'event driven parser and another NELM in a nested separator', 'the NELM of another section is stored')

seed('c20-tag-anywhere', 'C20', [('vasprun.py', """                with open(self._file_path, 'rb') as file_handler:
                    file_handler.seek(shift)
                    last_line = file_handler.readlines()[-1]
""", """                with open(self._file_path, 'rb') as file_handler:
                    file_handler.seek(shift)
                    last_line = file_handler.read()
""")], XML + """
import os, tempfile
t = doc([calc(k) for k in range(1, 6)])
d = tempfile.mkdtemp()
p = os.path.join(d, 'vasprun.xml')
with open(p, 'wb') as f:
    f.write(t + b'<?xml version="1.0" encoding="ISO-8859-1"?>\\n<modeling>\\n')
try:
    ok = Xml(file_path=p).truncated is True
except Exception:
    ok = False
os.remove(p)
os.rmdir(d)
sys.exit(0 if ok else 1)
""", 'a path to a file in which a second run was started after the closing tag', 'the file is taken for intact')

seed('c20-large-truncated', 'C20', [('vasprun.py', """        if ((file_size < self._sizecutoff) or self._xml_truncated) and \\
           not self._event:
""", """        if file_size < self._sizecutoff and not self._event:
""")], XML + """
class Big(io.BytesIO):
    # pretends to be 600 MB long
    pad = 600 * 1048576
    end = False
    def seek(self, pos, whence=0):
        self.end = whence == 2
        if whence == 0 and pos > self.pad:
            pos -= self.pad
        return io.BytesIO.seek(self, pos, whence)
    def tell(self):
        return io.BytesIO.tell(self) + (self.pad if self.end else 0)
t = doc([calc(k) for k in range(1, 6)])
t = t[:t.rindex(b'</calculation>')]
try:
    x = Xml(file_handler=Big(t))
    ok = x.truncated and len(x.get_kpoints()) == 3
except Exception:
    ok = False
sys.exit(0 if ok else 1)
""", 'a truncated file of 500 MB or more', 'the strict event driven parser is used and fails')

seed('c21-specific-fermi', 'C21', [('vasprun.py', """        # If no entries for spin 1, eject right away
        if entry_total_ispin1 is None:
            return dos, None
""", """        # If no entries for spin 1, eject right away
        if entry_total_ispin1 is None and fermi_level is None:
            return dos, None
""")], XML + """
tot = '<total><array><set><set comment="spin 1">%s</set></set></array></total>' % vs([[e, 1, 1] for e in range(4)], 'r')
t = doc([calc(1, '<dos><i name="efermi"> 1.0 </i>%s</dos><dos comment="interpolated"><i name="efermi"> 1.1 </i></dos>' % tot)])
try:
    x = load(t)
    ok = x.get_dos_specific() is None and abs(x.get_fermi_level() - 1.0) < 1e-9
except Exception:
    ok = False
sys.exit(0 if ok else 1)
""", 'a density of states on specific k-points with a Fermi level only', 'TypeError instead of None')

seed('c21-final-energy', 'C21', [('vasprun.py', """                data = self._findall(calc, './energy/i[@name="' + supported_key + '"]')
                if data is None:
                    return None
                data = self._convert_f(data[0])
""", """                data = self._findall(calc, './energy/i[@name="' + supported_key + '"]')
                data = self._convert_f(data[0])
""")], XML + """
c = calc(1)
i, j = c.rindex('<energy>'), c.rindex('</energy>') + 9
try:
    x = load(doc([c[:i] + c[j:]]))
    ok = x.get_energies('last') is None
except TypeError:
    ok = False
sys.exit(0 if ok else 1)
""", 'a calculation that has electronic steps but no final energies', 'TypeError instead of None')
