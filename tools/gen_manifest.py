#!/usr/bin/env python3
"""writes MANIFEST.json from the table of rules present in checker/rules"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('interprocedural typestate of file objects over gated value graphs with an exception at every possibly failing call', 'every entry point, every exit'),
 'C02': ('interprocedural effect analysis (file-system effects) and ordering of open() against possibly failing calls', 'every entry point'),
 'C03': ('interprocedural ownership/mutation (purity) analysis of accessors, renderings and writers', 'every accessor and writer'),
 'C04': ('interprocedural ownership analysis of mutations against module, class and default-argument objects; effect lint on process settings', 'every entry point'),
 'C05': ('value-flow analysis of the receivers of logging calls', 'every logging call on every path where a logger is supplied'),
 'C06': ('must-log-before-exit dataflow plus constant propagation of exit codes and message table lookups', 'every exit'),
 'C07': ('path-condition analysis of constructors over the finite partition of source arguments (given / None)', 'all combinations of sources'),
 'C08': ('constant propagation of encodings to open() call sites and a forbidden-sink effect analysis', 'every open() and external call'),
 'C09': ('guard extraction: gating conditions of error exits on the value graph of the INCAR parser over shape-abstract entries', 'the partition of entry classes in the evidence'),
 'C10': ('provenance of stored and written values on the value graph of the INCAR parser and writer', 'the partition of entry classes in the evidence'),
 'C11': ('value-flow (frame) analysis: conversion operators on every path from source coordinates to stored and written coordinates', 'all sources, frames and outputs, small site counts'),
 'C12': ('structural layout of the written text: value graph of the output stream, section by section', 'all combinations of selective, velocities and predictors, small site counts'),
 'C13': ('guard extraction of error exits in the POSCAR and KPOINTS readers over shape-abstract documents', 'the partition of document layouts in the evidence'),
 'C14': ('structural layout of the written text compared with the keyword tables of the reader', 'all modes'),
 'C15': ('must-validate-before-store dataflow and guard extraction of the checks', 'modify, delete, constructor and writer entry points'),
 'C16': ('format-specification lint over the value graph of the written text', 'every formatted number'),
 'C17': ('provenance of accessor results over the finite partition of status values and step counts', 'all accessors and statuses, small step counts'),
 'C18': ('provenance of every array element to its place in the document', 'all spin and ordering cases with pairwise different small sizes'),
 'C19': ('provenance of every stored result to its element of the document, for both parsers', 'every stored quantity'),
 'C20': ('path-condition analysis of the parser dispatch, and provenance of the truncation flag', 'all combinations of flags, ends and size classes'),
 'C21': ('nullness dataflow of accessor results for absent sections', 'every accessor, every section and every single element left out'),
 'C22': ('exception-path analysis: where a field that cannot be converted ends up', 'every number field of the document layouts, every kind of malformed text'),
 'C23': ('decision tables of the run status extracted from the gated value graph by interval classes of NSW and NELM', 'all orderings of the counters for the listed step counts'),
 'C24': ('provenance of every stored result to its heading and column; key set comparison', 'all headings and block orders in the evidence'),
 'C25': ('decision tables of trigger registration over the finite partition of configuration flags; loader analysis of the shipped table', 'all flag combinations'),
 'C26': ('provenance of every field of the structured arrays to its column', 'all supported column counts and their neighbours'),
 'C27': ('index provenance of every stored element; polynomial identity of the volume', 'the document sizes in the evidence'),
 'C28': ('provenance and conversion type of every metadata key; regular expressions followed over character automata of the fields', 'all keys and number formats'),
 'C34': ('value graph of every helper over shape-abstract texts; algebraic identity of the coordinate conversions', 'the texts, word lists and kinds of number in the evidence'),
 'C29': ('lint of static tables and data files in the source tree and analysis of their loaders', 'all table rows'),
}
NA = {
 'C30': 'equality of re-parsed values quantifies over runtime decimal rendering and parsing of every stored number; no sound static argument in reach bounds it (the structural half, layout and keywords read and written, is claimed in C12, C14 and C16)',
 'C31': 'what the recovering lxml parser builds from a cut file is decided inside libxml2 at run time, per prefix; the dispatch to it is claimed in C20',
 'C32': 'decimal to binary conversion and arithmetic happen inside numpy/float at run time; where values come from and that none is silently replaced is claimed in C17-C19 and C22',
 'C33': 'run time and memory are quantitative run-time properties dominated by library code; no static bound is in reach',
}
checks, na = [], []
for pid in [f'C{i:02d}' for i in range(1, 35)]:
    if pid in NA:
        na.append({'property': pid, 'reason': NA[pid]})
    elif os.path.exists(f'{V}/checker/rules/{pid.lower()}.py'):
        tech, note = T[pid]
        checks.append({'property': pid, 'quick_cmd': f'python3 /verif/check.py {pid} quick', 'thorough_cmd': f'python3 /verif/check.py {pid} thorough',
                       'technique': 'static analysis: ' + tech, 'level': 'other',
                       'level_note': f'decided from the source on every run for {note}; undecided obligations are counted in the evidence and stay quiet'})
    else:
        na.append({'property': pid, 'reason': 'no check has been built yet for this property'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
