# ---- second round for the properties of all entry points
seed('c01-stream-decode-leak', 'C01', [('stream.py', """        stream = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
        self._from_list(stream)
""", """        if self._file_handler is not None or not Path(self._file_path).is_file():
            stream = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
        else:
            file_handler = open(self._file_path, 'r', encoding='utf8')
            stream = file_handler.readlines()
            file_handler.close()
        self._from_list(stream)
""")], """
import builtins, os, sys, tempfile
from parsevasp.stream import Stream
real, opened = builtins.open, []
def track(*args, **kw):
    f = real(*args, **kw)
    opened.append(f)
    return f
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'out')
    with real(p, 'wb') as f:
        f.write(b'text \\xff\\xfe text\\n')
    builtins.open = track
    try:
        Stream(file_path=p)
    except UnicodeDecodeError:
        pass
    builtins.open = real
sys.exit(0 if opened and all(f.closed for f in opened) else 1)
""", 'a stream file that cannot be decoded', 'the file stays open after the exception')

seed('c02-string-via-file', 'C02', [('kpoints.py', """        string_object = io.StringIO()
        self._write(file_handler=string_object)
        kpoints_string = string_object.getvalue()
        string_object.close()
""", """        import tempfile
        with tempfile.TemporaryFile('w+', encoding='utf8') as string_object:
            self._write(file_handler=string_object)
            string_object.seek(0)
            kpoints_string = string_object.read()
""")], """
import sys, tempfile
from parsevasp.kpoints import Kpoints
made = []
real = tempfile.TemporaryFile
def fake(*a, **k):
    made.append(a)
    return real(*a, **k)
tempfile.TemporaryFile = fake
import os
opened = []
sys.addaudithook(lambda e, a: opened.append(a) if e == 'open' and isinstance(a[2], int) and a[2] & (os.O_CREAT | os.O_WRONLY | os.O_RDWR) else None)
t = 'c\\n0\\nGamma\\n2 2 2\\n'
s = Kpoints(kpoints_string=t).get_string()
sys.exit(0 if 'Gamma' in s and not made and not opened else 1)
""", 'rendering k-points to a string where files are watched', 'a file is created for the rendering')

seed('c03-etype-sort', 'C03', [('vasprun.py', """        # Check if the supplied etype is in the support list
        for item in etype:
""", """        # Keep the order of the types reproducible
        etype.sort()

        # Check if the supplied etype is in the support list
        for item in etype:
""")], """
import sys
from parsevasp.vasprun import Xml
import parsevasp.vasprun as m
e = ['energy_free', 'energy_extrapolated']
x = Xml.__new__(Xml)
x._get_energies = lambda *a: None
x.get_energies('all', e)
sys.exit(0 if e == ['energy_free', 'energy_extrapolated'] else 1)
""", 'several energy types that are not in alphabetical order', 'the list of the caller is reordered')

seed('c04-tags-remembered', 'C04', [('incar.py', """        if not self._validate_tags:
            return

        allowed_keys""", """        if not self._validate_tags:
            # These are fine from now on
            for key in self.entries:
                constants.incar_tags.setdefault(key, None)
            return

        allowed_keys""")], """
import sys, logging
from parsevasp.incar import Incar
logging.disable(logging.CRITICAL)
def accepted():
    try:
        Incar(incar_string='foobar = 1')
        return True
    except SystemExit:
        return False
before = accepted()
Incar(incar_string='foobar = 1', validate_tags=False)
sys.exit(0 if not before and not accepted() else 1)
""", 'a file read without validation before one with the same unknown tag', 'the later file is accepted')

seed('c05-kpoints-reader-logger', 'C05', [('kpoints.py', """        kpoints = utils.read_from_file(self._file_path, self._file_handler, logger=self._logger)
""", """        kpoints = utils.read_from_file(self._file_path, self._file_handler)
""")], """
import io, logging, sys
from parsevasp.kpoints import Kpoints
mine, other = io.StringIO(), io.StringIO()
logging.getLogger().addHandler(logging.StreamHandler(other))
l = logging.getLogger('mine')
l.propagate = False
l.addHandler(logging.StreamHandler(mine))
try:
    Kpoints(file_path='/nonexistent/KPOINTS', logger=l)
except SystemExit:
    pass
sys.exit(0 if mine.getvalue() and not other.getvalue() else 1)
""", 'a KPOINTS file that does not exist', 'the message goes to another logger')

seed('c06-divisions-code', 'C06', [('kpoints.py', """                            f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
                            "The elements in the key 'divisions' should be integers."
                        )
                        sys.exit(self.ERROR_KEY_INVALID_TYPE)
""", """                            f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
                            "The elements in the key 'divisions' should be integers."
                        )
                        sys.exit(self.ERROR_WRONG_OBJECT)
""")], """
import logging, sys
from parsevasp.kpoints import Kpoints
logging.disable(logging.CRITICAL)
d = {'comment': 'c', 'mode': 'automatic', 'centering': 'Gamma', 'num_kpoints': 0, 'divisions': [2, 2.5, 2], 'shifts': None, 'generating_vectors': None, 'tetra': None, 'tetra_volume': None, 'points': None}
try:
    Kpoints(kpoints_dict=d)
    code = None
except SystemExit as e:
    code = e.code
k = Kpoints
sys.exit(0 if code == k.ERROR_KEY_INVALID_TYPE else 1)
""", 'a division that is no integer', 'the exit code is that of another condition')


seed('c08-eval-grid', 'C08', [('chgcar.py', """        ngf = [int(item) for item in ngf_string.split()]
""", """        ngf = [int(eval(item, {})) for item in ngf_string.split()]
""")], """
import io, sys
from parsevasp.chgcar import Chgcar
t = 'c\\n1.0\\n1 0 0\\n0 1 0\\n0 0 1\\nX\\n1\\nDirect\\n0 0 0\\n\\n1 1 1+1\\n1.0 2.0\\n'
try:
    Chgcar(file_handler=io.StringIO(t))
except ValueError:
    sys.exit(0)
sys.exit(1)
""", 'a grid line that holds an expression', 'text of the file is evaluated')

seed('c08-stream-latin', 'C08', [('utils.py', """        inputfile = open_close_file_handler(file_name=file_name, status='r', encoding=encoding, logger=logger)
""", """        encoding = encoding if lines else None
        inputfile = open_close_file_handler(file_name=file_name, status='r', encoding=encoding, logger=logger)
""")], """
import builtins, os, sys, tempfile
from parsevasp.potcar import Potcar
enc = []
real = builtins.open
def track(f, mode='r', *a, **k):
    if str(f).endswith('POTCAR'):
        enc.append(k.get('encoding'))
    return real(f, mode, *a, **k)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'POTCAR')
    with real(p, 'w') as f:
        f.write('PAW_PBE Fe 08Apr2002\\n')
    builtins.open = track
    try:
        Potcar(file_path=p)
    except Exception:
        pass
    builtins.open = real
sys.exit(0 if enc and all(str(e).lower().replace('-', '') == 'utf8' for e in enc) else 1)
""", 'a CHGCAR or POTCAR file on a platform whose locale is not UTF-8', 'the file is decoded with the encoding of the locale')
