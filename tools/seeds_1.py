seed('c01-xml-tail-leak', 'C01', [('vasprun.py', """                with open(self._file_path, 'rb') as file_handler:
                    file_handler.seek(shift)
                    last_line = file_handler.readlines()[-1]
""", """                file_handler = open(self._file_path, 'rb')
                file_handler.seek(shift)
                last_line = file_handler.readlines()[-1]
                file_handler.close()
""")], """
import builtins, io, os, sys, tempfile
opened = []
real = builtins.open
class Bad(io.BytesIO):
    def readlines(self, *a):
        raise OSError('disk error')
def fake(f, mode='r', *a, **k):
    h = Bad(b'x' * 4000) if mode == 'rb' and str(f).endswith('vasprun.xml') else real(f, mode, *a, **k)
    opened.append(h)
    return h
from parsevasp.vasprun import Xml
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'vasprun.xml')
    with open(p, 'w') as f:
        f.write('<modeling>\\n' + '<!-- x -->\\n' * 400 + '</modeling>\\n')
    builtins.open = fake
    try:
        Xml(file_path=p)
    except OSError:
        pass
    finally:
        builtins.open = real
    sys.exit(0 if opened and all(h.closed for h in opened) else 1)
""", 'a read error on the file between opening its tail and closing it', 'the vasprun.xml handle opened for the truncation check stays open')

seed('c02-chgcar-write-noop', 'C02', [('chgcar.py', "        raise NotImplementedError('Writing CHGCAR files is not supported.')", "        self._logger.error('Writing CHGCAR files is not supported.')")], """
import os, shutil, sys, tempfile
from parsevasp.chgcar import Chgcar
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'CHGCAR')
    shutil.copy('tests/CHGCAR', p)
    before = open(p).read()
    try:
        Chgcar(file_path=p).write(file_path=p)
    except NotImplementedError:
        pass
    else:
        sys.exit(1)
    sys.exit(0 if open(p).read() == before else 1)
""", 'write() on a parsed CHGCAR with the path of an existing file', 'the unsupported write returns normally and leaves an empty file')

seed('c03-poscar-sort-in-place', 'C03', [('poscar.py', "        for site in self.entries['sites']:\n            specie = site.get_specie()\n            select = site.get_selective()",
  "        stored = self.entries['sites']\n        if not self._conserve_order:\n            stored.sort(key=lambda site: site.get_specie())\n        for site in stored:\n            specie = site.get_specie()\n            select = site.get_selective()")], """
import sys
from parsevasp.poscar import Poscar
text = '''x
1.0
1 0 0
0 1 0
0 0 1
Si C
1 1
Direct
0 0 0
0.5 0.5 0.5
'''
p = Poscar(poscar_string=text)
a = [s['specie'] for s in p.get_dict()['sites']]
p.get_string()
b = [s['specie'] for s in p.get_dict()['sites']]
sys.exit(0 if a == b else 1)
""", 'species that are not in alphabetical order and a query after a rendering', 'rendering a POSCAR reorders the stored sites')

seed('c04-stream-config-cache', 'C04', [('stream.py', "        stream_config = self._load_config_from_file()\n        # Then override", "        if Stream._standard_config is None:\n            Stream._standard_config = self._load_config_from_file()\n        stream_config = Stream._standard_config\n        # Then override"),
   ('stream.py', "    def __init__(self, file_path=None, file_handler=None, logger=None, history=False, config=None):", "    _standard_config = None\n\n    def __init__(self, file_path=None, file_handler=None, logger=None, history=False, config=None):")], """
import io, sys
from parsevasp.stream import Stream
n = len(Stream(file_handler=io.StringIO('nothing\\n')).configured_streams['errors'])
cfg = {'mine': {'kind': 'ERROR', 'regex': 'nothing', 'message': 'm', 'suggestion': 's', 'location': 'STDOUT', 'recover': True, 'inverse': False}}
Stream(file_handler=io.StringIO('nothing\\n'), config=cfg)
m = Stream(file_handler=io.StringIO('nothing\\n'))
sys.exit(0 if len(m.configured_streams['errors']) == n and not [e for e in m.entries if e.shortname == 'mine'] else 1)
""", 'two Stream objects in one process, the first with an override configuration', 'the override configuration of one parser leaks into every later one')

seed('c05-incar-modify-logger', 'C05', [('incar.py', """        entry = IncarItem(tag, value, comment, logger=self._logger)
        # Store or modify""", """        entry = IncarItem(tag, value, comment)
        # Store or modify""")], """
import logging, sys
from parsevasp.incar import Incar
class H(logging.Handler):
    def __init__(self):
        super().__init__(); self.r = []
    def emit(self, x):
        self.r.append(x)
mine = logging.getLogger('mine'); h = H(); mine.addHandler(h); mine.propagate = False
other = H(); logging.getLogger().addHandler(other)
p = Incar(incar_string='ENCUT = 300', logger=mine)
h.r.clear(); other.r.clear()
try:
    p.modify('ediff', {'a': 1})
except SystemExit:
    pass
sys.exit(0 if h.r and not other.r else 1)
""", 'an invalid value passed to modify() on an INCAR with a supplied logger', 'the error message goes to the root logger')

seed('c06-kpoints-tetra-code', 'C06', [('kpoints.py', """                        self._logger.error(self.ERROR_MESSAGES[self.ERROR_TETRA_FIVE])
                        sys.exit(self.ERROR_TETRA_FIVE)
                    for entry""", """                        self._logger.error(self.ERROR_MESSAGES[self.ERROR_TETRA_FIVE])
                        sys.exit(self.ERROR_KEY_INVALID_TYPE)
                    for entry""")], """
import sys
from parsevasp.kpoints import Kpoints, Kpoint
import numpy as np
d = {'comment': 'x', 'divisions': None, 'shifts': None, 'points': [Kpoint(np.array([0.0, 0.0, 0.0]), 1.0)], 'tetra': [[1, 1, 1, 1]], 'tetra_volume': 0.1,
     'mode': 'explicit', 'centering': None, 'num_kpoints': 1, 'generating_vectors': None}
import logging
class H(logging.Handler):
    def __init__(self):
        super().__init__(); self.r = []
    def emit(self, x):
        self.r.append(x.getMessage())
lg = logging.getLogger('q'); lg.propagate = False; h = H(); lg.addHandler(h)
try:
    Kpoints(kpoints_dict=d, logger=lg)
except SystemExit as e:
    sys.exit(0 if Kpoints.ERROR_MESSAGES[e.code] in h.r[-1] else 1)
sys.exit(2)
""", 'an explicit KPOINTS dictionary with a tetrahedron of fewer than five entries', 'the exit code does not belong to the logged message')

seed('c08-write-locale', 'C08', [('base.py', "            file_handler = open(file_name, status, encoding=encoding)", "            file_handler = open(file_name, status, encoding=encoding if 'r' in status else None)")], """
import os, subprocess, sys, tempfile
code = '''
import sys
from parsevasp.incar import Incar
i = Incar(incar_dict={'SYSTEM': 'caf\\\\u00e9'})
i.write(file_path=sys.argv[1])
'''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'INCAR')
    env = dict(os.environ, LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    r = subprocess.run([sys.executable, '-c', code, p], env=env, capture_output=True)
    ok = r.returncode == 0 and 'caf\\u00e9' in open(p, encoding='utf8').read()
    sys.exit(0 if ok else 1)
""", 'a non UTF-8 locale and non-ASCII text in the written file', 'files are written in the platform encoding')
