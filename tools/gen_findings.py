"""Write known_findings.json: the genuine defects that were recorded (known) or repaired (fixed)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = []
WHAT = ('the fields px and pz of the lm-decomposed partial density of states are swapped (VASP prints s, py, pz, px; the code names the columns s, py, px, pz); '
        'not repaired because the existing tests compare the field order of these layouts')
for cols, ncl in ((10, 'collinear'), (17, 'collinear'), (19, 'collinear'), (33, 'collinear'), (37, 'non-collinear'), (65, 'non-collinear')):
    KNOWN.append(dict(property='C26', rule='order', construct=f'{cols} columns, {ncl}: px and pz', what=f'in the layout of {cols} columns, {ncl}, ' + WHAT, status='known'))
PROPS = {
    '87b1e4b': 'C01', 'e2bd998': 'C01', '6607f79': 'C05', '0bf917f': 'C02', '147c896': 'C06', '950712e': 'C07', 'fd4264a': 'C10', '69d4a4d': 'C09', '7cb7b35': 'C10',
    '04e7a8e': 'C10', '3ca29b3': 'C10', 'fa62de3': 'C15', 'f122360': 'C15', 'c67c2d3': 'C15', 'ef1cc37': 'C15', '805d92f': 'C11', '4a7c5e6': 'C11', '5e1168f': 'C12',
    'ae910fd': 'C13', '82d4835': 'C13', 'f469497': 'C14', '0cf94cc': 'C14', '3fea16c': 'C13', '2956f92': 'C14', 'b124fbb': 'C03', '2572f72': 'C15', '5c7f6da': 'C15',
    'b715da7': 'C16', 'ac9d6ae': 'C17', '20feae3': 'C17', 'b5674c6': 'C18', '35b86e6': 'C18', 'c7a67fd': 'C19', '18b89e0': 'C19', '52586cb': 'C21', '6399409': 'C21',
    '0226eb4': 'C21', 'd7a6276': 'C20', '38b3eb9': 'C21', 'e2ce03f': 'C21', 'aaedae1': 'C22', '8b60397': 'C24', '4e8f1dd': 'C24'}
SUBJ = {'take the second word of TITEL whatever separates the words': 'C28', 'filter the lines of a file by whole words, each line once': 'C34', 'refuse None as the value of a POSCAR site or KPOINTS point': 'C15', 'report missing POSCAR and KPOINTS entries with their error code': 'C15', 'store every DOSCAR column under its own spin component': 'C26', 'convert the whole number of a POTCAR parameter': 'C28', 'do not drop POSCAR predictors that are no numbers': 'C22'}
MORE = os.path.join(HERE, 'tools', 'fixed_subjects.json')
if os.path.exists(MORE):
    SUBJ.update(json.load(open(MORE)))
fixed = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '7c31b05..HEAD'], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(' ', 1)
    s = s.removeprefix('fix: ')
    p = PROPS.get(h[:7]) or SUBJ.get(s)
    if p is None:
        print('no property for', h, s)
        continue
    fixed.append(dict(property=p, status='fixed', commit=h[:7], what=s, text=f'fixed: property={p} {h[:7]} {s}'))
json.dump(KNOWN + fixed, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(KNOWN), 'known', len(fixed), 'fixed')
