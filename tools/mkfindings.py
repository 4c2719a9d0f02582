#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects by commit, and findings that are recorded rather than repaired."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [   # (start of the commit subject, property, what failed)
    ("restore the caller's variables however an external function ends", 'C02', "a failing or interrupted external function left the caller with the function's variables"),
    ("restore the caller's variables however an inline function ends", 'C03', "a failing or interrupted inline function left its assignments in the caller's variables"),
    ('an error in any statement of an inline function fails the call', 'C03', '{1/0 newline 2} yielded 2: an error in a statement before the last was ignored'),
    ('only a failed read of an external function file is reported as one', 'C05', 'KeyboardInterrupt or SystemExit during the read of a function file became a calculation error'),
    ('reset() and delete() leave the variables alone', 'C14', 'reset() and delete() changed the variables of a stateless calculation'),
    ('assignment operators fail in a stateless', 'C14', 'x += 1 in a stateless calculation always failed'),
    ('a failure at one set of elements', 'C17', "max([1, 2], ['x', 3]) failed as a whole instead of yielding an error and 3"),
    ('errors outside of any operation leak', 'C18', "'(' * 250 + '1' + ')' * 250 leaked RecursionError, as did showing an array nested 156 deep"),
    ('a failed element of an array is joined', 'C18', "join([1, 2] / [0, 1], ',') yielded a string with the text of the error in it"),
    ('simplifying a unit fails when', 'C17', '[4 kg / (3 feet m), 5 m] failed as a whole with IndexError: units of one dimension that are not the first'),
    ('a failed operation on a number that cannot be shown', 'C17', '[fact(71), 3] & 3 failed as a whole: showing the operand in the message failed'),
    ('delete() of a variable holding an array', 'C01', 'qa = [qb, qc]; delete(qa) deleted qb and qc and left qa'),
    ('recognise a continued statement by its items', 'C12', 'two statements of the same text were taken for one when the first was continued'),
    ('finalizing an answer does not change the stored value', 'C10', 'reading a variable changed the unit of the stored value'),
    ("an operation's result takes on its number type", 'C10', 'x + 0xF changed the representation of x or of a constant'),
    ('converting to a unit held in a variable', 'C10', 'a to b changed the unit held in b'),
    ('each calculator calculates with its own precision', 'C06', 'the precision and rounding of the last created calculator applied to all; a calculator used on another thread lost its own'),
    ('settings of one calculator changed during', 'C06', 'creating or configuring a calculator inside a calculation of another changed the precision and rounding of the latter'),
    ('a calculation does not depend on the decimal context of the thread', 'C25', 'with Emax=99 in the thread\'s decimal context fact(70) failed, and under a trap on Inexact 1 / 3 did'),
    ('installing the special functions does not', 'C25', 'creating a calculator with the special functions changed the warning filters of the whole program'),
    ('an error value taken out of an array', 'C18', 'abs(element([1,2]/0,2)) leaked AttributeError'),
    ('joining an array that holds arrays', 'C12', "join([[1],[2]], ',') contained memory addresses, which differ at each run"),
    ('the error for an operand that is not a boolean', 'C12', 'the message for [1] and true contained memory addresses, which differ at each run'),
    ('the error for an array that is not a function', 'C12', 'the message for calling [[1]] contained memory addresses, which differ at each run'),
    ('an inline function inside an array or argument', 'C03', '[{qz = 1 newline qz}]: the statements of the function were joined into one'),
    ('the unit an answer is simplified to', 'C15', 'after installing the same features in another order, 2 N * m and the like were simplified to another unit'),
    ('a feature that is not known', 'C15', "install_features('no.such') raised KeyError (or NameError) and left the name among the features to install"),
    ('features install before the subfeatures', 'C15', 'subfeatures of a metafeature did not count as asked for, so a feature that is to follow one was installed before it'),
    ('features that were only partly installed', 'C15', 'an install interrupted in a unit definition and made again left its units twice in list_units()'),
    ('a feature file is loaded from the file', 'C16', 'import_feature_file of a second file of the same base name, or of a changed file, gave the features of the first; a file called random.py or a.b.py gave none'),
]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
fixed = []
for line in log:
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    m = [(p, w) for start, p, w in PROPS if s[5:].startswith(start)]
    if len(m) != 1:
        raise SystemExit('no entry for %s' % line)
    fixed.append('fixed: property=%s %s %s' % (m[0][0], h, m[0][1]))
old = json.load(open(os.path.join(HERE, 'known_findings.json')))
json.dump({'findings': old['findings'], 'fixed': fixed}, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(fixed), 'fixed')
