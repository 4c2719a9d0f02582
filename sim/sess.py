"""Sessions: operations on a calculator as data, what a caller sees of each, and generated histories.

Operations (JSON):
 {'k':'calc','text':..,'flags':{..},'faults':[..]}    calculate()
 {'k':'prec'|'size'|'round'|'simplify','v':..}        number and unit settings
 {'k':'option','f':feature,'o':option,'v':..}         a feature option
 {'k':'systems','v':[..]}                             preferred unit systems
 {'k':'install','names':[..]}                         features
 {'k':'inventory'}                                    what is installed
 {'k':'read'}                                         all variables
 {'k':'ambient','prec':..,'rounding':..}              the embedding program changes the thread's decimal context
"""
import decimal
import re

from . import gen
from . import lib
from . import world as W

ROUNDINGS = ['ROUND_HALF_UP', 'ROUND_DOWN', 'ROUND_UP', 'ROUND_CEILING', 'ROUND_FLOOR', 'ROUND_HALF_EVEN', 'ROUND_HALF_DOWN']

OPTIONS = [
    ('nonfunctional.comments', 'Symbol', '#', ['//', ';']),
    ('structure.terminator', 'Symbol', None, [';', '|']),
    ('structure.functionpointers', 'Symbol', '@', ['&&', '$$']),
    ('strings.strings', 'Symbol', "'", ['"', '`']),
    ('strings.strings', 'Escape Char', '\\', ['^', '~']),
    ('numerical.expnumbers', 'Symbol', 'E', ['X', 'EE']),
    ('arrays.arrays', 'Open', '[', ['<<']),
    ('arrays.arrays', 'Close', ']', ['>>']),
    ('arrays.arrays', 'Range', '..', ['...', '--']),
    ('arrays.arrays', 'Param', ',', [';', '|']),
    ('arrays.arrays', 'Step', 'step', ['by', 'skip']),
    ('dates.dates', 'Date Format', '%Y-%m-%d', ['%d/%m/%Y', '%m/%d/%Y', '%Y.%j']),
    ('dates.dates', 'Date Padding', '0>10', ['', '_>14']),
    ('dates.dates', 'Date + Time Format', '%Y-%m-%dT%H:%M:%S', ['%d/%m/%Y %H:%M:%S', '%Y-%m-%d %H:%M:%S', '%H:%M:%S %m/%d/%Y']),
    ('dates.dates', 'Date + Hi Res Time Format', '%Y-%m-%dT%H:%M:%S.%f', ['%d/%m/%Y %H:%M:%S.%f', '%Y-%m-%d %H:%M:%S:%f']),
    ('dates.dates', 'Date + Timezone Format', '%Y-%m-%d%z', ['%d/%m/%Y %z', '%z %Y-%m-%d']),
    ('dates.dates', 'Date + Time + Timezone Format', '%Y-%m-%dT%H:%M:%S%z', ['%d/%m/%Y %H:%M:%S %z']),
    ('dates.datefunctions', 'Human Readable Date Format', '%A, %d-%b-%Y', ['%d %B %Y', '%x']),
    ('dates.datefunctions', 'Human Readable Date Padding', '', ['*>30']),
    ('dates.datefunctions', 'Human Readable Date + Time Format', '%A, %d-%b-%Y at %H:%M:%S', ['%c']),
    ('units', 'systems', None, []),
    ('units', 'normaliser', None, []),
]
FOCI = sorted({o[0] for o in OPTIONS})


def a_focus(rng):
    f = rng.choice(FOCI + ['units'])
    return rng.choice([o for o in OPTIONS if o[0] == f])

SENSITIVE = ["1 / 3", "2 / 3", "-2 / 3", "2 ^ 0.5", "sqrt2", "2.5", "-0.5 * 1", "(2 / 3) as percentage", "(1 / 7) as scientific", "(1 / 7) as hexadecimal",
             "sin(1)", "cos(2)", "exp(1)", "log(10, 2)", "10 ^ 40 + 1 / 3", "pi", "e", "pi * 10 ^ 20", "1 / 3 miles to km", "[1 / 3, 2 / 3, 1.5]", "sum([1 / 3, 1 / 7])",
             "mean([1, 2, 4])", "stdev([1, 2, 4])", "round(2.5)", "round(-2.5)", "round(1.005, 2)", "floor(-2.5)", "100 / 7 as percentage", "fact(30)", "fact(60)",
             "2 ^ 200", "2 ^ 400 / 3", "0.1 + 0.2", "1E50 / 3", "format(12345.678 m, si)", "scientific(123.456789)", "5 / 9 * (100 F to C)", "1 mile to feet", "(1 / 3) +$ ''",
             "string(1 / 3)", "(1/3) == (2/6)", "1 / 3 * 3 == 1", "tan(1) ^ 2", "0x1F / 3", "0b101 / 3", "1.5E3 / 7", "12.345E-6", "compact(3661 seconds)", "3 N * 2 m", "1 gallon to litres", "3 pints to ml", "2 tons to kg", "5 cups to ml", "1 fl oz to ml",
             "100 J / 2 kg to Sv", "6 kg * 7 m / s^2", "2 m * 3 m", "10 mph * 2 hours", "5 kW * 3 hours", "1000 g + 1 tonne", "5 m / 2 s", "now()", "dateadd('2000-01-31', 1 month)",
             "datedifference('2000-01-01', '2001-02-03', 'days')", "'2001-02-03' + 1 day", "sort([3, 1, 2])", "[1 .. 5] * 2", "[1 .. 9 step 2]", "'ab' +$ 'c'", "upper('q')", "'a' == 'A'",
             "'a\\'b'", "1 + 2 # note", "3; 4", "[1, 2; 3]", "true and false", "1 == 1 then 2 else 3", "999 as base36", "36z1Z + 1", "50% of 10", "10 + 50%", "-5 \\ 2", "-5 % 3", "5 ^ -2",
             "1 +", "(1", "1 / 0", "1 m + 1 s", "nosuch(1)", "abs('x')", "element([1], 5)", "q_undefined + 1", "1 2 3", "[1, 2", "'abc", ")", "2 +\n3", "[1,\n2,\n3]", "(1 +\n2) * 3", "4\n+ 5", "7\n\n8"]

STRINGS_IN_OTHER_SETTINGS = ['"ab" +$ "c"', "`x` +$ `y`", "<<1, 2, 3>>", "<<1 ... 4>>", "[1 ... 4]", "[1; 2; 3]", "[1 | 2]", "[1 .. 9 by 2]", "1.5X3 + 1", "2EE3 / 7", "1 // note", "1 ; 2", "1 | 2"]


INPUTS = {'inp%d' % n: '%sINPUT array\ncount(PARAM1)' % c for n, c in enumerate(['#', '//', ';'])}

# texts whose meaning depends on an option, in its default and other settings
OPTION_TEXTS = {
    ('nonfunctional.comments', 'Symbol'): ["1 + 2 # note", "1 + 2 // note", "1 + 2 ; note", "#INPUT number", "3 #", "4 // 5"] + ["qf = './inp%d'\n@qf(%s)" % (n, a) for n in range(3) for a in ('[1, 2, 3]', '4')],
    ('structure.terminator', 'Symbol'): ["1\n2", "1; 2", "1 | 2", "1 +\n2", "1 + ; 2", "qz; 2\n3", "7 |"],
    ('structure.functionpointers', 'Symbol'): ["@zfa(3)", "&&zfa(3)", "$$zfa(3)", "@zfa([1, 2])", "&&zfa([1, 2]) + 1"],
    ('strings.strings', 'Symbol'): ["'ab' +$ 'c'", '"ab" +$ "c"', '`x` +$ `y`', "'a\\'b'", '"a\\"b"', "upper('q')", 'upper("q")'],
    ('strings.strings', 'Escape Char'): ["'a\\'b'", "'a^'b'", "'a~'b'", "'a\\\\b'", "'a^^b' +$ 'c'", "'x\\ny'"],
    ('numerical.expnumbers', 'Symbol'): ["1.5E3 / 7", "1.5X3 / 7", "2EE3 / 7", "(1 / 7) as scientific", "'3E2' + 1", "'3X2' + 1", "2E-3", "scientific(123.456789)", "number('1E3')", "[1E2, 2E3]"],
    ('arrays.arrays', 'Open'): ["[1, 2, 3]", "<<1, 2, 3]", "[1, 2] + 1", "<<1 .. 3]"],
    ('arrays.arrays', 'Close'): ["[1, 2, 3]", "[1, 2, 3>>", "[1 .. 3>>", "[[1], [2]]"],
    ('arrays.arrays', 'Range'): ["[1 .. 4]", "[1 ... 4]", "[1 -- 4]", "[1 .. 9 step 3]"],
    ('arrays.arrays', 'Param'): ["[1, 2, 3]", "[1; 2; 3]", "[1 | 2]", "max(1, 2)"],
    ('units', 'systems'): ["1 pint to litres", "3 pints to ml", "2 gallons to litres", "1 ton to kg", "2 tons + 1 kg", "5 fl oz to ml", "1 fluid ounce to ml", "3 quarts to litres", "4 litres to pints", "1000 kg to tons",
                           "1 gallon == 8 pints", "2 gallons / 1 quart", "10 kg * 3 m / s^2", "12 oz + 1 lb", "3 knots to mph", "1 cup to ml", "4 kg to stone", "[1 pint, 2 quarts] to litres", "pint", "3 tons", "kb to bytes"],
    ('units', 'normaliser'): ["6 kg * 7 m / s^2", "5 kW * 3 hours", "10 mph * 2 hours", "2 m * 3 m", "100 J / 2 kg to Sv", "3 N * 2 m", "12 km / hour * 2 hours", "0.001 kg * 2 m / s^2", "5000 V * 3 A", "0 kg * 7 m / s^2", "8 miles * 3 feet",
                              "3 / 4 s", "2 km * 3 km * 4 km", "5 acre * 2 m", "1 / (4 ohms)", "9 C / 3 s"],
    ('arrays.arrays', 'Step'): ["[1 .. 9 step 2]", "[1 .. 9 by 2]", "[1 .. 9 skip 2]"],
}

DATES = ["'2001-02-03' + 1 day", "dateadd('2000-01-31', 1 month)", "dateformat('2001-02-03')", "datedifference('2000-01-01', '2001-02-03')", "dateformat('2001-02-03T04:05:06')", "dateadd('2001-02-03', 90 minutes)",
         "dateadd('2001-02-03', 0.5 seconds)", "dateadd('03/02/2001', 1 day)", "'02/03/2001' + 2 days", "dateformat('02/03/2001')", "dateadd('2001.033', 1 day)", "dateadd('2001-02-03+0100', 3 hours)", "dateformat('2001-02-03+0100')",
         "datedifference('2001-02-03T04:05:06', '2001-02-03', 'days')", "['2001-02-03', '2002-03-04', 'x'] + 1 day", "dateformat(['2001-02-03', '2002-03-04'])", "datesubtract('0101-02-03', 2 days)", "dateadd('2001-02-03T04:05:06.789', 1 second)",
         "dateadd('2001-02-03T04:05:06+0100', 1 hour)", "dateformat('1999-12-31')", "dateformat('2004-02-29')", "dateadd('1999-12-31', 1 second)", "'2001-02-03 04:05:06' + 1 hour", "dateadd('03/02/2001 04:05:06', 1 hour)",
         "datedifference(dateadd('2001-02-03', 26 hours), '2001-02-03', seconds)"]
OPTION_TEXTS.update({o[:2]: DATES for o in OPTIONS if o[0].startswith('dates.')})

# values to put in variables, and evaluations over variables {a}, {b}
VALUES = ['6 kg * 7 m / s^2', '[3 N * 2 m, 2 kW * 3 hours]', '12 km / hour * 2 hours', 'speedoflight * 2 s', '10 m^2 / 2 cm', '[6 kg * 7 m / s^2, 1 m, 4 s / 2 minutes]', '3 V * 2 A', 'km', 'feet', 'km / hour', 'seconds', 's^-1', '[m, km]', '1 / 3', '0xFF', '0b1011', '50%', '(1 / 7) as scientific', '2.50', '3 miles', '100 F', '[3, 1, 2]', '[[1, 2], [3, 4 m]]', "'ab'", "['b', 'a', 'c']", 'true', '5 kg m / s^2',
          '[1 m, 2 km, 3 feet]', '12 km / hour', '[0xF, 50%, 1 / 3]', '[true, false, true]', "'2001-02-03'", '0', '-1.5', '3 hours', '255 as hexadecimal', '[5 .. 1 step -1]', '1 kWh', '3600 J', '{PARAM1 * 2}', '36z1Z']
OVER = ['sort({a})', 'reverse({a})', 'sort({a})\nreverse({a})', '{a} + 1', '{a} * {b}', '{a} / {b}', '-{a}', '{a} + {b}', '{a} - {b}', 'sum({a})', 'mean({a})', 'round({a}, 1)', '{a} to feet', '{a} to km', 'compact({a})', 'filter({a}, {a} > 1)',
        '{a} as hexadecimal', '{a} as percentage', 'hex({a})', 'dec({a})', 'bin({a})', 'scientific({a})', '{a} +$ {b}', 'element({a}, 1)', 'concat({a}, {b})', "join({a}, ',')", '{a} == {b}', '{a} to {b}', '{a} to {b}', '5 miles to {a}', '3 Hz to {a}', '5 {a}', '6 N / 3 {a}', '{a} {b}', '{a} / {b}', '{a} ^ 2', '7 {a} {b}', '{a} then {b} else {a}', '{a} and {b}', '[{a}, {b}]',
        'sqrt2 * {a}', '{a} ^ 2', 'pi * {a}', '{a} * pi', 'sin({a})', 'speedoflight / {a}', '{a} * earthgravity', '{a} m', '{a} km', 'abs({a})', 'floor({a})', 'max({a})', 'min({a})', 'median({a})', 'stdev({a})', '@{a}({b})', '@zfa({a})', '@zfb({a})',
        'pi', 'e', 'tau * 1 m', 'speedoflight to mph', 'count({a}, {b})', 'format({a}, 3)', '{a} % {b}', '{a} \\ {b}', '{a} & {b}', '~{a}', '{a} << 1', '{a} +% {b}', '{a} -% 10', '{a} cm to m', 'upper({a})', 'datedifference({a}, now())', '{a} + 1 day', 'G * {a} * {a} / 1 m^2',
        '({a})', '[{a}, {a}] + [1, 2]', '{a} {b}', 'probe({a}, {b})', 'probea({a}, {b})', '{a} to seconds', 'mode({a})', 'act(0, {a})']


class Texts:
    """A source of calculation texts.  Most sources favour one option: texts and settings turn on it."""

    def __init__(self, rng, assign=True, focus=None):
        self.focus = focus or (a_focus(rng) if rng.random() < 0.6 else None)
        self.rng = rng
        self.corpus = [t for t in lib.corpus() if 'externalfunctions' not in t]
        self.g = gen.Gen(rng, err=rng.choice([0, 0.03]), depth=rng.choice([1, 2]), vars=gen.VARS[:4])
        self.assign = assign

    def any(self):
        r = self.rng
        if self.focus is not None and r.random() < 0.35:
            return r.choice(OPTION_TEXTS[self.focus[:2]])
        k = r.random()
        if k < 0.35:
            return r.choice(SENSITIVE)
        if k < 0.45:
            return r.choice(STRINGS_IN_OTHER_SETTINGS)
        if k < 0.7:
            return r.choice(self.corpus)
        return gen.program([self.g.statement(read_only=not self.assign) for _ in range(r.choice([1, 1, 2, 3]))])

    def setter(self):
        self.g.vars = gen.VARS[:4]
        v = self.rng.choice(gen.VARS[:4])
        t = self.rng.choice(['num', 'num', 'len', 'arr', 'str', 'time'])
        s = ['set', v, self.g.expr(t, 1)]
        self.g.remember(v, t)
        return gen.stmt_text(s)

    def retyped(self, text):
        """The same values written differently."""
        r = self.rng

        def other(m):
            n = int(m.group(0))
            return r.choice(['0x%X' % n, '0b%s' % bin(n)[2:], '0o%o' % n, '%d00%%' % n, '%dE0' % n, '%d.0' % n, '(%d as hexadecimal)' % n, m.group(0), '(%d * 1)' % n, '%d m' % n])
        return re.sub(r'(?<![\w.\'])\d{1,9}(?![\w.%\'])', other, text)

    def broken(self, text):
        """A text near to the given one, mostly not what it was."""
        r = self.rng
        if r.random() < 0.3:
            return self.retyped(text)
        k = r.random()
        if k < 0.4 and len(text) > 1:
            return text[:r.randint(1, len(text) - 1)]
        if k < 0.6 and len(text) > 1:
            return text[r.randint(1, len(text) - 1):]
        if k < 0.75:
            return text + r.choice([' )', ' +', '\n(', " '", ' [', ' / 0', '\n1 / 0', ' 1 2', ' to nowhere', '\n'])
        if k < 0.85:
            return text.swapcase()
        i = r.randint(0, len(text))
        return text[:i] + r.choice('()[]{}+-*/^ \n\'"#@.,0123456789abE') + text[i:]


def a_preference(rng):
    s = ['gregorian', 'si', 'us', 'uk', 'asu', 'nautical', 'iec']
    rng.shuffle(s)
    return {'k': 'systems', 'v': s}


def a_normaliser(rng):
    a, v = rng.choice([('simplify_allow_prefixed_units', False), ('simplify_preferred_magnitude', 3), ('simplify_preferred_magnitude', -2), ('simplify_penalty', 1)])
    return {'k': 'normaliser', 'a': a, 'v': v}


def setting(rng, focus=None, p=0.5):
    if focus is not None and rng.random() < p:
        if focus[1] == 'systems':
            return a_preference(rng)
        if focus[1] == 'normaliser':
            return a_normaliser(rng) if rng.random() < 0.7 else {'k': 'simplify', 'v': rng.random() < 0.8}
        return {'k': 'option', 'f': focus[0], 'o': focus[1], 'v': rng.choice(focus[3] + [focus[2]] * (focus[2] is not None))}
    k = rng.random()
    if k < 0.2:
        return {'k': 'prec', 'v': rng.choice([3, 5, 10, 20, 50])}
    if k < 0.35:
        return {'k': 'size', 'v': rng.choice([20, 40, 60, 150, 300])}
    if k < 0.55:
        return {'k': 'round', 'v': rng.choice(ROUNDINGS)}
    if k < 0.65:
        return {'k': 'simplify', 'v': True}
    if k < 0.72:
        return a_preference(rng)
    if k < 0.76:
        return a_normaliser(rng)
    f, o, d, vs = rng.choice([o for o in OPTIONS if o[0] != 'units'])
    return {'k': 'option', 'f': f, 'o': o, 'v': rng.choice(vs)}


def undo(op, c):
    """The operation that puts a setting back to what it is now on c."""
    k = op['k']
    if k == 'prec':
        return {'k': k, 'v': c.number_prec_get()}
    if k == 'size':
        return {'k': k, 'v': c.number_size_get()}
    if k == 'round':
        return {'k': k, 'v': c.number_rounding}
    if k == 'simplify':
        return {'k': k, 'v': c.unit_simplification_get()}
    if k == 'systems':
        return {'k': k, 'v': list(c.unit_normaliser.systems_preference)} if c.unit_normaliser is not None else op
    if k == 'normaliser':
        return dict(op, v=getattr(c.unit_normaliser, op['a'], op['v']))
    if k == 'option':
        o = c.feature_options.get(op['f'])
        return dict(op, v=o[op['o']]) if o is not None and op['o'] in o else op
    return op


def apply(c, op, w, timings=False):
    """Perform an operation; what the caller sees of it, canonically."""
    k = op['k']
    try:
        if k == 'calc':
            faults = op.get('faults', [])
            saved = w.points, w.armed, w.fired_now
            w.begin_op(faults)
            leaf = w if any(f['point'].startswith('leaf') for f in faults) else None
            d, resp = lib.outcome(c, op['text'], op.get('flags'), timings=timings, leaf=leaf)
            w.last_response = resp
            d['fired'] = [[f['point'], f['kind']] for f in w.fired_now]
            w.points, w.armed, w.fired_now = saved
            return d
        if k == 'prec':
            c.number_prec_set(op['v'])
        elif k == 'size':
            c.number_size_set(op['v'])
        elif k == 'round':
            c.number_set_rounding(op['v'])
        elif k == 'simplify':
            c.unit_simplification_set(op['v'])
        elif k == 'systems':
            if c.unit_normaliser is not None:
                c.unit_normaliser.systems_preference[:] = op['v']
        elif k == 'normaliser':
            if hasattr(c.unit_normaliser, op['a']):
                setattr(c.unit_normaliser, op['a'], op['v'])
        elif k == 'option':
            o = c.feature_options.get(op['f'])
            if o is not None and op['o'] in o:
                o[op['o']] = op['v']
        elif k == 'install':
            c.install_features(list(op['names']))
        elif k == 'import':
            return sorted(c.import_feature_file(w.path(op['file'])))
        elif k == 'inventory':
            return inventory(c)
        elif k == 'read':
            return lib.canon_vars(c.vars, c) if hasattr(c, 'vars') else None
        elif k == 'ambient':
            decimal.getcontext().prec = op['prec']
            decimal.getcontext().rounding = op['rounding']
        else:
            raise ValueError(k)
        return None
    except W.Discard:
        raise
    except Exception as err:
        return {'raised': type(err).__name__, 'message': lib.scrub(lib.safe_str(err))}


def inventory(c):
    """What a user can find out about a calculator's configuration."""
    inv = {
        'features': sorted(c.installed_features),
        'known': sorted(c.list_features()),
        'options': {k: {a: str(b) for a, b in sorted(v.items())} for k, v in sorted(c.feature_options.items())},
        'prec': [c.number_prec_get(), c.number_size_get(), c.number_rounding],
        'simplify': c.unit_simplification_get(),
        'ops': [sorted(p) for p in c.ops],
        'parsers': [p['name'] for p in c.parsers],
        'numbers': sorted(c.number_types),
        'presets': sorted(c.list_presets()),
    }
    if hasattr(c, 'funcs'):
        inv['funcs'] = sorted(c.funcs)
    if hasattr(c, 'constants'):
        inv['constants'] = sorted(c.constants)
    if c.unit_normaliser is not None:
        inv['units'] = len(c.unit_normaliser.list_units())
        inv['unitnames'] = len(c.unit_normaliser.unitnames)
    return inv


def gen_fault(rng, labels=()):
    """A fault for an arbitrary calculation."""
    kind = rng.choice(W.INTERRUPTS)
    k = rng.random()
    if k < 0.3 and labels:
        return {'point': 'probe@' + rng.choice(labels), 'n': 0, 'kind': kind if rng.random() < 0.6 else rng.choice(W.ERRORS)}
    if k < 0.5:
        return {'point': 'clock', 'n': rng.randint(0, 12), 'kind': kind}
    if k < 0.55:
        return {'point': 'wall', 'n': 0, 'kind': kind}
    return {'point': 'leaf', 'n': int(10 ** rng.uniform(0, 3)), 'kind': kind}
