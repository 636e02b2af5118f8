#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects (commit looked up by subject in /repo) and open ones."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h%x09%s'], capture_output=True, text=True).stdout
H = {}
for l in log.splitlines():
    h, s = l.split('\t', 1)
    H[s] = h
F = [
 ('P01', 'keep each gap once', 'two statuses were placed on the same bits: a gap taken partly was put back twice'),
 ('P03', 'keep a gap not write safe', 'the gap left beside a config was marked write safe after a status took part of it, so an explicit irq clear could overwrite the config'),
 ('P04', 'widths occupied by a one register ArrayNRegs', 'an array access within one register and not starting at bit 0 had wrong register widths'),
 ('P08', 'non-atomic status arrays', 'a non-atomic status array not filling its last register crashed the placement'),
 ('P06', 'exact alignment to power of 2', 'alignment of large sizes to a power of 2 went through floating point and was inexact'),
 ('P11', 'exact bit width of ranges', 'width of ranges with large or zero right bound'),
 ('P13', 'keep type arguments apart', 'type T(n) U(n + 1): the argument of the inner type was looked up in the wrong scope; arguments were not resolved in all symbols'),
 ('P19', 'evaluate parenthesised expressions', 'an expression in parentheses was not evaluated'),
 ('P24', 'negation operator and call of a qualified', 'the `!` operator and a call of a qualified identifier crashed the parser'),
 ('P18', 'exact integer arithmetic in expressions', 'integer overflow wrapped silently and division by zero crashed'),
 ('P13', 'report missing, redundant and unknown arguments', 'missing, redundant and unknown arguments were ignored or crashed'),
 ('P20', 'report constants whose value depends on itself', 'const a = b, const b = a never terminated'),
 ('P20', 'report types derived from itself', 'cyclic and recursive types never terminated'),
 ('P13', 'resolve arguments against the type the functionality', 'arguments were resolved against the outer type'),
 ('P14', 'report repeated names of all', 'repeated names of irqs, groups, black boxes, members of groups and float constants were accepted'),
 ('P12', 'bit strings of negative values', 'negative init values gave bit strings of a wrong width and wide ones were checked with a wrapped bound'),
 ('P09', 'ID value and TIMESTAMP access', 'value of the ID and access of the TIMESTAMP ignored the width of the bus'),
 ('P22', 'report array size that cannot be evaluated', 'an array size which is not a number crashed'),
 ('P17', 'report constants of unsupported types', 'constants of unsupported types crashed or were lost'),
 ('P18', 'report ceil and floor arguments', 'ceil and floor of a value which is not a number crashed'),
 ('P21', 'strip fbd- prefix', 'an imported package with the fbd- prefix kept the prefix in its name'),
 ('P21', 'package directories with short file names', 'a file with a short name in a package directory crashed'),
 ('P14', 'report functionality instantiated in multiple files', 'a functionality instantiated in two files of the package was accepted'),
 ('P22', 'location in the width and range conflict', 'the message of the width and range conflict lacked an argument'),
 ('P10', 'report width property set for a block', 'width of a block was accepted and ignored'),
 ('P18', 'report results of built-in functions', 'log2(0), log10(-1) and ceil of huge numbers gave meaningless integers'),
 ('P23', 'words with multiple hyphens', 'words with multiple hyphens, and N-1, were tokenized wrongly'),
 ('P22', 'qualified identifiers without symbol name', 'qualified identifiers without a symbol name crashed'),
 ('P24', 'properties set after the body of an inner', 'a property after the body of an inner functionality was lost'),
 ('P23', 'positions of strings spanning', 'positions after strings spanning multiple lines were wrong'),
 ('P23', 'float literals with signed exponent', '1e-3 was tokenized as an expression'),
 ('P22', 'error code of unexpected end of file', 'unexpected end of file crashed while the error was printed'),
 ('P25', 'keep documentation of inner', 'documentation of inner functionalities, constants and types was dropped'),
 ('P25', 'documentation comments separated', 'documentation separated by empty lines was attached; that of the first constant of a group was lost'),
 ('P10', 'respect width of the main bus set in its type', 'width of the main bus set in its type was ignored'),
 ('P22', 'report main bus which is not a bus', 'a main bus of another kind crashed'),
 ('P10', 'time literals which nanoseconds', 'large time literals overflowed'),
 ('P27', 'extend octal bit strings', 'octal bit strings could not be extended'),
 ('P21', 'broken symlink stops package discovery', 'a broken symbolic link crashed the package discovery'),
 ('P16', 'report functionalities instantiated in functionalities without', 'a functionality inside a config, irq, status... was silently dropped'),
 ('P15', 'report group set virtual after', 'a group with irqs, params or returns could be virtual when the property was set in a derived type'),
 ('P16', 'report bus instantiated in a block', 'a bus inside a block was accepted as a block'),
  ('P21', 'match imports with whole elements', 'import "b" bound package fbd-bb or was ambiguous with it'),
 ('P24', 'allow comments in indented imports', 'a comment line among indented imports was rejected'),
 ('P24', 'allow comment and inequality operator right after number', 'width = 12# comment was rejected'),
 ('P04', 'place interrupt enable bit within', 'with a bus one bit wide the enable bit of an interrupt was placed at bit 1 of a register'),
 ('P12', 'report values of widths which are too large', 'an initial value of a functionality 2^62 bits wide crashed'),
 ('P08', 'counting registers of single access hangs', 'a functionality 2^62 bits wide was never placed'),
 ('P06', 'report blocks which are too large', 'sizes and addresses of large arrays overflowed silently'),
 ('P07', 'array marker of a type was ignored', 'type T [3]config; an instantiation of T was a single config'),
 ('P23', 'error at empty lines showed more than', 'an error at the end of a line followed by empty lines showed an empty line more and marked several characters'),
]
out = []
import sys
extra = os.path.join(here, 'tools', 'findings_more.py')
if os.path.exists(extra):
    exec(open(extra).read())
for p, sub, what in F:
    m = [s for s in H if s.startswith('fix: ' + sub)]
    assert len(m) == 1, (sub, m)
    out.append({'property': p, 'status': 'fixed', 'commit': H[m[0]], 'what': what, 'line': 'fixed: property=%s %s %s' % (p, H[m[0]], what)})
KINDS = ['config-status', 'config-mask', 'status-mask', 'config-array-status-array', 'proc-stream',
 'proc-param-proc-return', 'proc-param-stream-param', 'proc-param-stream-return', 'proc-return-stream-param',
 'proc-return-stream-return', 'stream-param-stream-return', 'block-config-block-status']
for k in KINDS:
    out.append({'property': 'P28', 'status': 'known', 'assertion': 'P28:kind-' + k,
                'what': 'the kind is not hashed: descriptions which differ only in the kind of a functionality (%s) have the same ID' % k})
fixes = {s for s in H if s.startswith('fix:')}
used = {s for s in H for _, sub, _ in F if s.startswith('fix: ' + sub)}
for s in fixes - used:
    print('not recorded:', H[s], s)
json.dump(out, open(os.path.join(here, 'known_findings.json'), 'w'), indent=1)
print(len(out), 'findings')
