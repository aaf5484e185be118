# ---- C34
seed('c34-nan-is-int', 'C34', [('utils.py', """                         ('n' not in string.lower())) else 'float'
""", """                         ('n' not in string)) else 'float'
""")], """
import sys
from parsevasp.utils import test_string_content as kind
sys.exit(0 if [kind(x) for x in ('nan', 'NaN', 'NAN', 'inf', '12', '1.0', 'x')] == ['float'] * 4 + ['int', 'float', 'string'] else 1)
""", 'not a number or infinity in capital letters', 'the text is called an integer although int() refuses it')

seed('c34-reciprocal-transposed', 'C34', [('utils.py', """    lattice_trans = np.transpose(lattice)
    lattice_rec = 2 * math.pi * np.linalg.inv(lattice_trans)
""", """    lattice_rec = 2 * math.pi * np.linalg.inv(lattice)
""")], """
import sys
import numpy as np
from parsevasp.utils import lat_to_reclat
l = np.array([[1.0, 2.0, 0.0], [0.0, 3.0, 1.0], [0.5, 0.0, 2.0]])
sys.exit(0 if np.allclose(np.dot(lat_to_reclat(l), l.T), 2 * np.pi * np.eye(3)) else 1)
""", 'a lattice that is not symmetric', 'rows and columns of the reciprocal lattice are swapped')

seed('c34-word-between', 'C34', [('utils.py', """        if not is_number(entry):
            is_nums = False
            return is_nums
""", """        is_nums = is_number(entry)
        if not is_nums and entry is entries[0]:
            return is_nums
""")], """
import sys
from parsevasp.utils import is_numbers
ok = is_numbers('1 2.5 -3e1') and not is_numbers('1 x 2') and not is_numbers('x 1') and not is_numbers('1 x')
sys.exit(0 if ok else 1)
""", 'a line with a word between numbers', 'the line is taken as a line of numbers')

seed('c34-newline-count', 'C34', [('utils.py', """    remove_chars = len(os.linesep) + num_newlines - 1
""", """    remove_chars = len(os.linesep) + min(num_newlines, 2) - 1
""")], """
import io, sys
from parsevasp.utils import remove_newline
def cut(t, n):
    f = io.StringIO()
    f.write(t)
    remove_newline(f, n)
    return f.getvalue()
sys.exit(0 if [cut('a\\n\\n\\n', n) for n in (1, 2, 3)] == ['a\\n\\n', 'a\\n', 'a'] else 1)
""", 'three or more newlines to be removed', 'a newline stays at the end')

seed('c34-line-first-entry', 'C34', [('utils.py', """        result = [d_type(item) for item in line.split()]
""", """        result = [d_type(item) for item in dict.fromkeys(line.split())] if d_type is str else [d_type(item) for item in line.split()]
""")], """
import sys
from parsevasp.utils import line_to_type
ok = line_to_type('a b c') == ['a', 'b', 'c'] and line_to_type('a b a') == ['a', 'b', 'a'] and line_to_type('1 1', int) == [1, 1]
sys.exit(0 if ok else 1)
""", 'a line with a repeated word', 'the repeated entry is dropped')

seed('c34-negative-parameter', 'C34', [('utils.py', """([-0-9]+)', string)
""", """(-?[0-9]{1,6})', string)
""")], """
import sys
from parsevasp.utils import match_integer_param
d = {'nelm': 0}
match_integer_param(d, 'NELM', '   NELM   = 12345678;   NELMIN= 2')
sys.exit(0 if d == {'nelm': 12345678} else 1)
""", 'a value of more than six digits', 'the value is cut after six digits')
