#!/usr/bin/env python3
"""Source of truth for properties.jsonl (and, with registry info, MANIFEST.json)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    **({'state': state} if state else {}),
                    'observe_at': observe or [], 'hook_needed': None}})


B = 'parsevasp/base.py'; U = 'parsevasp/utils.py'; I = 'parsevasp/incar.py'; K = 'parsevasp/kpoints.py'
PO = 'parsevasp/poscar.py'; S = 'parsevasp/stream.py'; O = 'parsevasp/outcar.py'; D = 'parsevasp/doscar.py'
E = 'parsevasp/eigenval.py'; C = 'parsevasp/chgcar.py'; PT = 'parsevasp/potcar.py'; X = 'parsevasp/vasprun.py'
CO = 'parsevasp/constants.py'
ALL = [B, U, I, K, PO, S, O, D, E, C, PT, X, CO]

prop('C01', 'Every file the package opens is closed; supplied handles never are',
     'Whenever a parser or writer opens a file itself (because it was given a path), that file is closed again on every path out of '
     'the call: normal return, a reported error exit, and an exception raised while reading, parsing or writing its content. '
     'A file handle supplied by the caller is never closed by the package, whichever parser it is passed to and whether it is read or written.',
     ['inputs', 'fault_sequences'], 'every public constructor and write() call, with a path or with a handle, and every point at which reading or writing can fail',
     'Tests read a few intact files and never look at the handle afterwards; they do not make the read or the write fail half way.',
     [B, U, X, S], [('open_close_file_handler', B), ('BaseParser.write', B), ('read_from_file', U), ('Xml._set_xml_truncated', X)],
     ['the state of file objects after the call'])
prop('C02', 'Parsing never writes files; write() opens its target only with content ready',
     'Constructing any parser, querying it and rendering it to a string never creates, truncates, renames or deletes a file. '
     'write() opens the requested path for writing only after the complete content has been validated and rendered, so a rejected or '
     'unsupported write leaves an existing target file untouched, and formats that cannot be written raise NotImplementedError instead of producing an empty file.',
     ['inputs', 'fault_sequences'], 'every parser class, every content whose validation or rendering fails, every existing target',
     'Tests write valid content to fresh temporary paths; none has a pre-existing target and a failing write.',
     ALL, [('BaseParser.write', B), ('_write of every class', B)], ['the file system', 'the target file after a failing write'])
prop('C03', 'Accessors, string renderings and writers do not change the object or its inputs',
     'Calling any accessor (get*, properties, truncated, __str__, __repr__), get_string() or write() leaves the parser object, its stored '
     'entries and items, and the arguments passed to the call unchanged, so repeated or reordered queries return the same answer and a write never alters what a later query returns.',
     ['histories'], 'every sequence of accessor, rendering and write calls on every parser',
     'Tests query an object once in one order; a mutation only shows in a later query of another accessor.',
     [I, K, PO, S, O, D, E, C, PT, X], [('get_* methods', X), ('Poscar._sort_and_group_sites', PO), ('Incar._write', I), ('Kpoints._write', K)],
     ['values returned by a second query'])
prop('C04', 'Parser objects are independent: no state is shared between instances',
     'Creating, parsing, modifying, querying or writing one parser object never changes module-level tables, class-level attributes, default '
     'argument values, or process-wide settings (working directory, locale, environment, numpy, warning or random state), so the result for one file does not depend on which files were handled before.',
     ['histories'], 'every sequence of operations over any number of parser instances in one process',
     'Each test builds its own object and checks it at once; leakage needs a second instance and an order the tests do not run.',
     ALL, [('class and module tables', D), ('BaseParser.ERROR_MESSAGES', B), ('_functional_tags', PT), ('incar_tags', CO)],
     ['results of a second parser instance'])
prop('C05', 'Diagnostics go to the logger the caller supplied',
     'When a logger is passed to a parser, every message the package emits while constructing, modifying, querying or writing with that parser goes to that logger: '
     'nothing is printed and no other logger is used, including for missing files and errors found in helper functions. The supplied logger is never reconfigured (no handler added, no level changed).',
     ['inputs', 'configurations'], 'every parser class, every diagnostic on every path, with a caller-supplied logger',
     'Tests pass a logger only as a fixture and never check where the messages went.',
     ALL, [('BaseParser.__init__', B), ('utils.read_from_file logger argument', U), ('IncarItem logger argument', I)], ['log records received by the supplied logger'])
prop('C06', 'Error exits carry the declared code and its message',
     'Every program exit the package takes uses one of its declared error codes, no two declared codes share a number, every such exit is preceded by a log message, '
     'and where that message is taken from the message table it is the message registered for exactly the code being returned, so the code and the text can be relied on to name the same condition. A file of the caller that cannot be opened ends the call with the code for a file that is not found. Looking the message up never itself fails.',
     ['inputs'], 'every reachable error exit of every parser',
     'Tests trigger only a few of the error exits and most do not check the code or message.',
     ALL, [('ERROR_* constants and ERROR_MESSAGES', B), ('sys.exit call sites', PO)], ['SystemExit.code', 'log record before the exit'])
prop('C07', 'A parser accepts exactly one content source',
     'Constructing a parser with no content source (no string, dictionary, path or handle) is rejected before anything is opened, with error code 10 (510 for vasprun.xml, ValueError for POTCAR). '
     'INCAR, KPOINTS and POSCAR also reject with code 10 every combination of more than one of string, dictionary and file, and accept each single one. When both a path and a handle are given the handle is the one read and the path is not opened for its content. write() in turn rejects with code 10 a call without a target or with both a path and a handle, before anything is opened.',
     ['configurations'], 'every combination of supplied and omitted source arguments, for each parser class',
     'Tests try single sources and at most one or two of the invalid combinations.',
     [B, I, K, PO, S, O, D, E, C, PT, X], [('constructors', I), ('read_from_file handler precedence', U)], ['SystemExit.code at construction', 'opened paths'])
prop('C08', 'Files are read and written as UTF-8 and input is never executed',
     'Every text file the package opens, for reading or writing, is opened with an explicit UTF-8 encoding regardless of platform locale. '
     'File content, strings, dictionaries and configuration are treated as data: they are never evaluated, unpickled, passed to a shell or loaded with a YAML loader that can construct arbitrary objects.',
     ['inputs', 'configurations'], 'every file access and every input, under every locale',
     'Tests run under one UTF-8 locale with benign content.',
     ALL, [('open_close_file_handler encoding', B), ('yaml.safe_load', S), ('encoding arguments of read_from_file', U)], ['decoded content under a non-UTF-8 locale'])
prop('C09', 'INCAR: malformed or unsupported entries are rejected with the documented code',
     'An INCAR line with more than one equal sign in one entry is rejected with code 101, an entry without any with 102, a dictionary value containing more than one # with 103, '
     'a value mixing integers, floats and strings with 104, a value that is not a string, bool, number or list with 105, and, when tag validation is on, any tag not in the official table with 100. '
     'Input free of these faults is not rejected, and with validation off no tag is.',
     ['inputs'], 'every INCAR string, file and dictionary, with validation on and off',
     'Tests contain one example of some of these faults and a few valid files.',
     [I, CO], [('Incar._from_list', I), ('Incar._from_dict', I), ('Incar.validate', I), ('IncarItem._clean_entry', I)], ['SystemExit.code'])
prop('C10', 'INCAR: values keep their type, tags and comments',
     'An INCAR value given as text is stored as int, float or string according to its spelling, a single word as a scalar and several words as a list in the given order, with every Fortran logical spelling the parser accepts '
     '(.TRUE., .True., .true., .T., .t. and the false forms) stored as the matching bool; SYSTEM, MAGMOM and M_CONSTR keep their text. Tags are stored and looked up in lower case and written in upper case and sorted order, bools are written as .TRUE./.FALSE., '
     'lists as their elements separated by blanks, and comments are written only on request, behind a #.',
     ['inputs'], 'every INCAR entry, as text or as a dictionary value',
     'Tests parse and write a handful of INCAR files.',
     [I, U], [('IncarItem._clean_entry', I), ('IncarItem._test_string_for_bool', I), ('Incar._write', I), ('Incar._convert_value_to_string', I), ('test_string_content', U)], ['get()', 'get_dict()', 'get_string()'])
prop('C11', 'POSCAR: coordinates carry one consistent frame end to end',
     'Positions and velocities are stored in direct coordinates whatever frame the file, string or dictionary used: Cartesian input is converted exactly once with the inverse of the (scaled) unit cell, direct input not at all, and the universal scaling factor multiplies the unit cell and Cartesian positions only. '
     'The writer and get_dict return direct coordinates, or exactly one conversion with the unit cell when Cartesian output was requested, and the frame header or flag always matches the numbers; predictor coordinates are never converted.',
     ['inputs', 'configurations'], 'every combination of input frame, selective dynamics, velocities and output frame',
     'Tests compare a few files in direct coordinates; mixed frames and velocities are hardly covered.',
     [PO, U], [('Poscar._from_list', PO), ('Poscar._from_dict', PO), ('Poscar._write', PO), ('Poscar.get_dict', PO), ('cart_to_dir/dir_to_cart', U)], ['get_dict()', 'get_string()'])
prop('C12', 'POSCAR: the written file has the VASP layout and consistent counts',
     'A written POSCAR consists, in this order, of the comment line (starting with # and naming the compound as it is grouped, with the old comment kept behind it), a scaling factor of one, the three unit cell vectors, the species line, the counts line, the selective dynamics line exactly when some flag is off, the frame line, one line per site with T/F flags exactly when selective, '
     'then velocities and predictors only when present. Species, counts and site lines are produced from one common grouping so they always agree in order and number, and each site keeps its own position, flags, velocity and predictor.',
     ['inputs', 'configurations'], 'every stored structure, with and without order conservation, selective flags, velocities, predictors',
     'Tests write a few structures and compare against re-parsed output.',
     [PO], [('Poscar._write', PO), ('Poscar._sort_and_group_sites', PO)], ['get_string()', 'file written'])
prop('C13', 'POSCAR and KPOINTS: malformed or unsupported content is rejected with its code',
     'A POSCAR with a negative scaling factor (307), in VASP 4 format (301) or whose trailing block does not start with numbers (302), and a KPOINTS that is not in direct coordinates (200), is fully automatic (202), in expert mode (203) or has a tetrahedron line without five entries (201), '
     'is rejected with the given code before any object is returned; content free of these faults is not rejected with them.',
     ['inputs'], 'every POSCAR and KPOINTS text',
     'Tests sample one or two of the faults.',
     [PO, K], [('Poscar._from_list', PO), ('Kpoints._from_list', K)], ['SystemExit.code'])
prop('C14', 'KPOINTS: written text follows the mode and can be read back by the reader',
     'A written KPOINTS has the comment line, the number line, the mode line and then exactly the block of its mode: explicit lists direct points with weights (1.0 when missing) under a count, then tetrahedra if present; automatic writes 0, the centering, '
     'divisions or generating vectors and a shift line (zeros when unset); line mode writes the points in pairs separated by blank lines. Every keyword written is one the reader maps to the same mode, centering and frame.',
     ['inputs', 'configurations'], 'every stored k-point set in every mode',
     'Tests write one file per mode.',
     [K], [('Kpoints._write', K), ('Kpoints._from_list', K)], ['get_string()', 'file written'])
prop('C15', 'POSCAR and KPOINTS: nothing invalid is stored or written',
     'Setting or replacing an entry is refused with its error code, leaving the object unchanged, when the entry name is not one of the supported ones, the value has the wrong type, or the site or point index is not an integer or is outside the existing range on either side; '
     'deleting checks the index in the same way. The whole content, with no required entry missing, is validated at construction and again before anything is written.',
     ['inputs', 'histories'], 'every modify/delete call and every content at construction and write',
     'Tests call modify with valid values and a few invalid ones.',
     [PO, K], [('modify, delete_site, delete_point', PO), ('_check_* functions', K), ('_validate', PO)], ['SystemExit.code', 'entries after a refused call'])
prop('C16', 'Written numbers stay separated and keep the requested precision',
     'In POSCAR and KPOINTS output every two adjacent numbers on a line are separated by a literal blank whatever their magnitude or sign, every line ends in exactly one newline, and every floating point number is written in fixed notation with at least the number of decimals requested at construction (12 and 9 by default).',
     ['inputs', 'configurations'], 'every stored value and every precision',
     'Tests write numbers of ordinary magnitude, which never fill the field width.',
     [PO, K], [('Poscar._write', PO), ('Kpoints._write', K)], ['get_string()', 'file written'])
prop('C17', 'vasprun.xml: the requested ionic step is the one returned',
     'For forces, stress, unit cell, positions and energies alike, initial returns the entry of the first ionic step, last the entry of the highest step number stored and all the complete set (where a single ionic step may appear as both the first and the last); any other status ends with code 507, and None is returned when the section is absent. '
     'Energies for all steps are concatenated in increasing step order with the step counts in the same order, the final energies come from outside the electronic cycle, and with nosc only the last electronic step of each ionic step is kept.',
     ['inputs', 'configurations'], 'every status value, energy type, nosc flag and number of ionic steps',
     'Tests use a few files where several choices coincide.',
     [X], [('Xml.get_forces, get_stress, get_unitcell, get_positions', X), ('Xml._get_energies', X), ('Xml._check_calc_status', X)], ['accessor results'])
prop('C18', 'vasprun.xml: array axes and channels are what the accessors document',
     'Eigenvalues and occupancies are indexed band then k-point (k-point then band when k_before_band is set) and eigenvelocities and projectors accordingly, with the ion first and the orbital last for projectors; up is spin channel 1 and down spin channel 2, an unpolarised file gives only total, '
     'eigenvalues are the first and occupancies the second column. The density of states uses column 0 as energy, 1 as total, 2 as integrated, and the orbital columns from 1 on split per ion.',
     ['inputs', 'configurations'], 'every spin setting, k_before_band setting and size',
     'Tests check shapes and a few numbers of one file per setting; square or symmetric sizes hide swaps.',
     [X], [('Xml._extract_eigenvalues', X), ('Xml._extract_eigenvelocities', X), ('Xml._extract_projectors', X), ('Xml._extract_dos', X)], ['get_eigenvalues()', 'get_projectors()', 'get_dos()'])
prop('C19', 'vasprun.xml: each result is taken from its own place in the file',
     'Every parameter, lattice quantity and data set the parser stores is read from the XML section that carries it (for example NBANDS from the electronic parameters, forces from the varray named forces of a calculation, spin channel 1 and 2 from the sets of that name), converted to its documented type, and stored under its own name (of the version only the three leading numbers are kept), '
     'independently of the other sections. The event driven parser, used for large files or on request, takes the same quantities from the same sections.',
     ['inputs', 'configurations'], 'every file content, both parsing methods',
     'Tests compare a handful of files, in which many sections are absent, and the event driven parser on fewer.',
     [X], [('Xml._parsew and _fetch_* locators', X), ('Xml._parsee section flags', X)], ['get_dict()'])
prop('C20', 'vasprun.xml: truncated files are recognised and parsed in recovery mode',
     'A file whose last line carries the closing modeling tag is reported as not truncated and every file whose last line lacks it as truncated, identically for a path and for a handle. Unless the event driven parser was requested, truncated files are parsed with the recovering parser and intact ones with the strict one; '
     'the event driven parser is used exactly when requested or when an intact file reaches the size limit; and a supplied handle is rewound before the content is parsed.',
     ['inputs', 'configurations'], 'every file length and end, path or handle, event flag and size',
     'Tests have one truncated file.',
     [X], [('Xml._set_xml_truncated', X), ('Xml._set_file_size', X), ('Xml._parse', X), ('Xml._parsew', X)], ['truncated', 'parser chosen'])
prop('C21', 'Accessors of absent sections return None',
     'For a vasprun.xml that lacks a section (density of states, dielectric tensors, forces, energies, projectors, version, and so on) the accessor for that section returns None and never raises, whichever other sections are present. Only a file that lacks what sets the size of its own data (the counts, the k-point list or the atoms that its arrays refer to) may end while parsing, with one of the codes 501 to 505.',
     ['inputs'], 'every subset of absent sections, every accessor',
     'Tests query mostly sections that exist in the test files.',
     [X], [('Xml.get_* methods', X)], ['accessor results'])
prop('C22', 'Malformed or overflowing numbers are never silently replaced',
     'When a field that a parser reads as a number holds something that cannot be converted (asterisks, two numbers run together, a malformed literal) and the file is not cut short, the parser ends with an error code or raises; it never stores zero, the previous value, None or a default in its place. '
     'Exceptions by design: the timing and memory entries of OUTCAR become None when they are not numbers, INCAR keeps text that is no number as text, and an OUTCAR line is a parameter line (NSW, NELM, IBRION) only when an integer follows the name. '
     'Fields VASP printed as asterisks in vasprun.xml scalars end with code 509.',
     ['inputs'], 'every input file, every malformed number at every position',
     'Tests contain well formed numbers and one overflow example.',
     [X, O, K, PO, E, D, C, PT], [('Xml._convert_* functions', X), ('exception handlers around numeric conversions', O)], ['stored values', 'exceptions and exit codes'])
prop('C23', 'OUTCAR: the run status follows the documented convergence rules',
     'For a finished run with IBRION above zero ionic convergence is True when fewer ionic steps than NSW ran, False when NSW above one was reached, and None when it cannot be decided (NSW at most one, or no relaxation); electronic convergence is True exactly when the last step took fewer electronic steps than NELM. '
     'A run that did not finish is never reported as converged; contains_nelm_breach is set exactly when some ionic step reached NELM, and consistent_nelm_breach exactly when all of them did, excluding the last one when the run did not finish (which then needs at least one other step).',
     ['inputs', 'histories'], 'every ordering of step counts against NSW and NELM, finished or not, every IBRION',
     'Tests have a few OUTCAR files covering some of the orderings.',
     [O], [('Outcar._from_list status block', O)], ['get_run_status()'])
prop('C24', 'OUTCAR: each quantity is filed under its own label',
     'Elastic moduli printed under the plain, symmetrized and total headings are stored under the matching key; site moments and totals of a magnetization block are stored under the projection named in its heading with s, p, d, f and tot taken from their own columns; '
     'symmetry data are filed as static or dynamic according to the analysis they belong to, and every time and memory figure of the final accounting under its own label (None when the field is empty). The set of result keys, apart from these figures, does not depend on the file content.',
     ['inputs'], 'every OUTCAR content and order of blocks',
     'Tests check a few files where not all blocks occur.',
     [O], [('Outcar._from_list', O), ('initial result template', O)], ['get_elastic_moduli()', 'get_magnetization()', 'get_symmetry()', 'get_run_status()'])
prop('C25', 'Stream: each configured error or warning is reported exactly when it should be',
     'Scanning a stream reports a non-inverse trigger when its pattern occurs in some line, once per trigger (once for every line it occurs in, in order, when history is requested), and independently of other triggers of the same or another kind. Inverse triggers are reported exactly when their pattern never occurred. '
     'A supplied configuration overrides or extends the standard one without changing it, and every reported entry carries all attributes of its configuration entry; an entry whose kind, message, suggestion, location, recover or inverse attribute has the wrong type (or an unknown location) is refused with a ValueError.',
     ['inputs', 'histories', 'configurations'], 'every stream, every trigger configuration, with and without history',
     'Tests scan a few lines with the standard configuration.',
     [S, 'parsevasp/stream.yml'], [('Stream._from_list', S), ('Stream._add_inverse_triggers', S), ('VaspStream.check_line', S), ('Stream._load_config', S)], ['entries', 'configured_streams'])
prop('C26', 'DOSCAR: every column is stored under its own orbital and spin component',
     'The number of columns determines orbital names and spin components so that names times components plus the energy equals the column count, for every supported layout; in the total and partial density of states each field receives exactly its own consecutive columns, starting after the energy, with no column used twice or dropped. '
     'Unsupported column counts are rejected rather than guessed.',
     ['inputs', 'configurations'], 'every supported column layout, collinear and non-collinear',
     'Tests check shapes and field names for a few layouts, not which column went where.',
     [D], [('DTYPES_* and COLSPIN_* tables', D), ('Doscar._from_list', D)], ['get_dos()', 'get_pdos()'])
prop('C27', 'EIGENVAL and CHGCAR: values land at their own index',
     'EIGENVAL eigenvalues are stored at [spin, k-point, band] with the band taken from its printed number and the k-point from the order of the blocks, next to the coordinates and weight of that k-point, and metadata fields come from their own header positions. '
     'CHGCAR data sets are all reshaped with the reversed grid and divided by the cell volume, the first being the total, the second the collinear magnetization, and the second to fourth the x, y and z components.',
     ['inputs'], 'every EIGENVAL and CHGCAR content and size',
     'Tests compare small files and a few elements.',
     [E, C], [('Eigenval._from_list', E), ('Chgcar._from_file', C)], ['get_eigenvalues()', 'get_kpoints()', 'charge_density', 'magnetization_density'])
prop('C28', 'POTCAR: metadata are typed and the functional is identified',
     'Every known POTCAR parameter is converted to its own type (logical flags to bool by their first letter, counts to int, energies and radii to float including exponents, text stripped), unknown parameters are ignored, the symbol is the second word of the TITEL entry (the first if there is only one) and the element the part of it before the first underscore, '
     'and functional name and class are looked up together from the LEXCH code, case-insensitively, in a table in which every code has both a name and a class.',
     ['inputs'], 'every POTCAR header',
     'Tests read a few POTCAR headers.',
     [PT], [('Potcar._generate_metadata', PT), ('Potcar._functional_tags', PT)], ['metadata', 'symbol', 'element', 'functional', 'functional_class'])
prop('C29', 'Static tables are consistent: elements, INCAR tags and stream definitions',
     'The element table maps every chemical symbol to its atomic number, without gaps, duplicates or alternative numbers (the youngest elements under their temporary or final symbol, and a placeholder for zero); every entry of the standard stream definition has a supported kind and location, a compilable pattern, a message and boolean flags under the names the loader accepts; '
     'and every INCAR tag in the official table is lower case so that tags, which are stored in lower case, can match.',
     ['configurations'], 'every entry of the shipped tables',
     'Tests look up a few elements, triggers and tags.',
     [CO, S, 'parsevasp/stream.yml', 'parsevasp/incar.yml'], [('elements', CO), ('stream.yml', 'parsevasp/stream.yml'), ('incar.yml', 'parsevasp/incar.yml')], ['get_species()', 'Stream configuration', 'Incar.validate'])
prop('C30', 'Written files read back to equal content',
     'For every stored INCAR, POSCAR and KPOINTS content, writing it and parsing the result yields equal entries within the written precision.',
     ['inputs'], 'every content', 'Tests round-trip a handful of files.', [I, PO, K], [('_write and _from_list', PO)], ['get_dict() after a round trip'])
prop('C31', 'Recovered truncated vasprun.xml yields all complete data',
     'For every prefix of a vasprun.xml, all values completely contained in the prefix are returned correctly and nothing incomplete is.',
     ['crash_points', 'inputs'], 'every truncation point', 'Tests have one truncated file.', [X], [('lxml recovery mode', X)], ['get_dict()'])
prop('C32', 'Numerical values of parsed results equal the printed ones',
     'Every number returned by an accessor equals the decimal number printed in the file within floating point precision.',
     ['inputs'], 'every file', 'Tests compare selected numbers.', [X, O, D, E, C], [('numeric conversions', X)], ['accessor results'])
prop('C33', 'Memory and time stay proportional to file size',
     'Parsing time and memory grow at most linearly with the size of the input file, and event driven parsing does not hold the whole document.',
     ['inputs'], 'every file size', 'Tests use small files.', [X], [('Xml._parsee', X)], ['time and memory'])
prop('C34', 'Shared helpers do what they document',
     'The helpers of parsevasp.utils keep their contract for every input. Reading a file (by path or handle, the handle taking precedence) returns its lines, or its whole text for lines=False; with a word or a list or tuple of words it returns exactly the lines that contain one of them as text, in the order of the file, repeated lines repeated and no line more than once. '
     'is_sequence holds for lists, tuples, dictionaries and arrays and for no text, number or None; is_number holds exactly for texts that float() takes, is_numbers for texts with at least one entry between splitters whose entries all are numbers, and test_string_content names integers int, other numbers (nan and inf included) float, and the rest string. '
     'Direct to cartesian is the product with the lattice, cartesian to direct the product with its inverse, and the reciprocal lattice 2 pi times the inverse of the transposed lattice. '
     'line_to_type converts every entry of the given text or of the next line of a handle to the type in order and returns a single entry by itself (with no_split the stripped line as text); match_integer_param stores the integer of an indented "TAG = n" line under the lower case tag and leaves everything else alone; '
     'file_exists tells whether the path is known to the system and exits with the code of an empty path for none; remove_newline cuts exactly the given number of last newlines.',
     ['inputs'], 'every text, list of words, lattice and vector', 'Most of these helpers have no test of their own, or one with a single value.',
     ['parsevasp/utils.py'], [('read_from_file', 'parsevasp/utils.py'), ('is_number, is_numbers, is_sequence, test_string_content', 'parsevasp/utils.py'), ('dir_to_cart, cart_to_dir, lat_to_reclat', 'parsevasp/utils.py'), ('line_to_type, match_integer_param, remove_newline, file_exists', 'parsevasp/utils.py')],
     ['utils functions'])

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
