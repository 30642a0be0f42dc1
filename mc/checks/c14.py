"""C14  strings are classified as the value they spell"""
import datetime as dtm
import itertools
import re
import unicodedata
import warnings
import numpy as np
from dateutil.parser import parse as dateparse
from .. import scale
from .. import terms as t
from ..core import Space, require, STAT

D, T = t.D, t.T
PROPERTY = 'C14'
TECHNIQUE = ('exhaustive enumeration of strings (every string up to a length over an alphabet of significant characters, every '
             'component table of times, dates and differences, every code point); each classification is compared with a reference '
             'classifier written from the documented order of preference')
NOTE = ('Exhaustive within the bounds. The dateutil library is trusted on what spells a date once the other kinds are excluded. '
        'Plurals of units by repeated s are left unspecified.')
BOUNDS = {'quick': 'all strings of length <= 4 over 21 characters, <= 7 over 6 numeric characters, <= 9 over 3; all code points; component tables',
          'thorough': 'all strings of length <= 5 over 21 characters, <= 8 over 7 numeric characters; larger component tables'}

STRING, NULL, I, R, B, DATE, DT, TIME = (t.STR, t.ds(('null',)), t.ct('int64'), t.ct('float64'), t.ct('bool'), t.ds(('date',)),
                                         t.ds(('dt', None)), t.ds(('time', None)))
# what Python takes for blanks around a number
BLANK = ''.join(c for c in map(chr, range(0x3001)) if c.isspace() and c not in '\x1c\x1d\x1e\x1f')
UNITS = {'ns': 'ns', 'us': 'us', 'ms': 'ms', 's': 's', 'm': 'm', 'h': 'h', 'D': 'D', 'W': 'W', 'M': 'M', 'Y': 'Y'}
for long, short in (('year', 'Y'), ('week', 'W'), ('day', 'D'), ('date', 'D'), ('hour', 'h'), ('second', 's'), ('millisecond', 'ms'),
                    ('microsecond', 'us'), ('nanosecond', 'ns')):
    UNITS[long] = UNITS[long + 's'] = short
INT = re.compile(r'[+-]?[0-9]+(_[0-9]+)*\Z')
FLT = re.compile(r'[+-]?([0-9]+(_[0-9]+)*\.?([0-9]+(_[0-9]+)*)?|\.[0-9]+(_[0-9]+)*)(e[+-]?[0-9]+(_[0-9]+)*)?\Z', re.I)
WORD = re.compile(r'[+-]?(nan|inf|infinity)\Z', re.I)
CLOCK = re.compile(r'(2[0-3]|[01]?[0-9]):([0-5]?[0-9]):([0-5]?[0-9])(\.[0-9]{1,6})?\Z')
LEAP = re.compile(r'(2[0-3]|[01]?[0-9]):([0-5]?[0-9]):6[01](\.[0-9]{1,6})?\Z')


def ascii_digits(s):
    return ''.join(str(unicodedata.decimal(c)) if unicodedata.category(c) == 'Nd' else c for c in s)


def ref(s):
    """-> term, or a set of terms where it is unspecified which"""
    if not s:
        return NULL
    n = ascii_digits(s.strip(BLANK))
    if INT.match(n) and len(n) < 4000:
        return I
    if INT.match(n) or FLT.match(n) or WORD.match(n):
        return R
    if s in ('True', 'true', 'False', 'false'):
        return B
    parts = s.split()
    if len(parts) == 2:
        a, u = ascii_digits(parts[0]), parts[1]
        if INT.match(a) or FLT.match(a):
            x = float(a)
            if x == -2.0 ** 63:                # what NumPy takes for not-a-time
                return None
            if x.is_integer() and -2 ** 63 < x < 2 ** 63:
                if u in UNITS:
                    return t.ds(('td', UNITS[u]))
                if u.endswith('ss') or u[-1:] == 's' and len(u) > 2 and u[:-1] in UNITS:
                    return None
    if CLOCK.match(ascii_digits(s)):
        return TIME
    if s.isalpha() or s.isspace():
        return STRING
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            d = dateparse(s, default=dtm.datetime(2000, 1, 1))
        except (ValueError, ArithmeticError):
            return STRING
    return DATE if d.time() == dtm.time() else DT


def disc(s):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return t.observe(D.discover(s))


def run(s):
    want = ref(s)
    got = disc(s)
    if want is None:
        require(got[2][0] in ('td', 'str', 'dt', 'date'), 'discover(%r) is %s', s, got)
        return 'unspecified'
    require(t.strict_eq(got, want), 'discover(%s) is %s instead of %s', ascii(s), ascii(t.text(got)), ascii(t.text(want)))
    return got[2][0]


def run_many(prefix_alpha_len):
    """all strings with a given prefix"""
    prefix, alpha, k = prefix_alpha_len
    for w in itertools.product(alpha, repeat=k):
        run(prefix + ''.join(w))
        STAT.add('states')
        STAT.add('traces')
    return 'all'


def run_value(case):
    """numbers and booleans in text are classified like the values themselves"""
    kind, x = case
    v = {'int': int, 'float': float, 'bool': lambda y: y == 'True'}[kind](x)
    forms = [str(v), ' %s' % v, '%s\n' % v]
    if kind == 'bool':
        forms = [str(v), str(v).lower()]
    for s in forms:
        require(disc(s) == disc(v), 'discover(%r) is %s, discover(%r) is %s', s, disc(s), v, disc(v))
    return kind


class Clock(object):
    """a fixed date for dateutil"""
    def __init__(self, y, m, d):
        self.now_ = dtm.datetime(y, m, d, 13, 14, 15, 16)

    def __enter__(self):
        import dateutil.parser._parser as p
        now = self.now_
        self.p, self.old = p, p.datetime

        class DT(dtm.datetime):
            @classmethod
            def now(cls, tz=None):
                return now

            @classmethod
            def today(cls):
                return now

        class Fake(object):
            def __getattr__(self, k):
                return DT if k == 'datetime' else getattr(dtm, k)
        p.datetime = Fake()

    def __exit__(self, *a):
        self.p.datetime = self.old


CLOCKS = [(2023, 1, 31), (2023, 2, 28), (2024, 2, 29), (2024, 12, 31), (2025, 6, 15), (2026, 4, 30)]


def run_clock(s):
    out = []
    for c in CLOCKS:
        with Clock(*c):
            out.append(disc(s))
        STAT.add('transitions')
    require(len(set(out)) == 1, 'discover(%r) depends on the date of today: %s', s, dict(zip(CLOCKS, out)))
    require(disc(s) == out[0], 'discover(%r) depends on the date of today', s)
    return out[0][2][0]


def dates(q):
    ds = ['2014-01-02', '2014-1-2', '20140102', '2014/01/02', '01/02/2014', '1/2/14', '02.01.2014', 'Jan 2 2014', 'January 2, 2014', '2 Jan 2014',
          '2014-02-30', '2014-13-01', '29 Feb 2013', '29 Feb 2012', '2014', '201401', 'Jan 2014', 'Feb 29', 'Jan 31', '31 Apr', 'Thu Jan 2 2014',
          'Thursday, January 2, 2014', '0000-00-00', '9999-12-31', '10000-01-01', '1-1-1', '2014-W01', '2014-001', '12-2014', '1st Jan 2014']
    ts = ['', '00:00:00', '00:00', '0:0:0', '12:34', '12:34:56', '12:34:56.789', '24:00', '23:59:60', '12 am', '12:00 AM', '1 pm', '3:04 p.m.', 'Z', '12:34Z', '00:00Z',
          '00:00:00.000000', '00:00:00.000001', '12:34+02:00', '00:00 UTC', '00:00-05:00', '1h', '10h36m', '0h0m0s']
    seps = [' ', 'T', '  ', ', ', ''] + ([] if q else ['\t', '\n', '_', 't', ' at '])
    out = [d + s + x for d in ds for s in seps for x in ts] + [x + s + d for d in ds for s in seps[:2] for x in ts]
    return out


def grown(tier):
    """long texts in which one character is odd"""
    out = []
    for n in scale.sizes(*((20, scale.EDGES[:11]) if tier == 'quick' else (70, scale.MORE))):
        for base in ('1', '0', '9', 'a', ' ', '.', '-'):
            for i in scale.positions(n, 0, 20):
                for c in '.e-+_ x:\t0' if n < 70 else '.e_ x':
                    s = base * i + c + base * (n - 1 - i)
                    out += [s, '-' + s] if base in '109' else [s]
        for s in ('1' * n + ' days', '-' + '0' * n + '1 ms', '0.' + '0' * n + ' s', '1e' + '0' * n, '1.' + '0' * n, '1' + '_1' * n, ' ' * n + '1', '1' + ' ' * n, '1' + ' ' * n + 'day', '1 day' + 's' * n,
                  '12:34:56.' + '1' * n, '12:34:56' + ' ' * n, '0' * n + '1:00:00', 'true' + ' ' * n, ' ' * n + 'true', '2014-01-02' + ' ' * n, '2014-01-02' + ' ' * n + '12:34:56',
                  '2014-01-02 12:34:56.' + '0' * n, 'nan' * n, '1e' + '1' * n, '1' * n + '.0 days', '1' * n + '.5 days', '+' * n + '1', '-' * n + '1'):
            out.append(s)
    return list(dict.fromkeys(out))


def spaces(tier):
    q = tier == 'quick'
    alpha = '0129:.-+/, _eTaZdsnm\t'
    k = 4 if q else 5
    lens = [('', alpha, n) for n in range(3)] + [(''.join(p), alpha, n) for n in range(1, k - 1) for p in itertools.product(alpha, repeat=2)]
    num = '0.e-_ '
    nums = [(''.join(p), num, n) for n in range(2, 6) for p in itertools.product(num, repeat=2)] + \
           [(''.join(p), '1:.', n) for n in range(3, 7) for p in itertools.product('1:.', repeat=3)]
    if not q:
        nums += [(''.join(p), '0.e-_ +', 5) for p in itertools.product('0.e-_ +', repeat=3)]
    words = ['sunday', 'monday', 'Tuesday', 'jan', 'January', 'may', 'am', 'pm', 'z', 'utc', 'UTC', 'now', 'today', 'noon', 'nan', 'NaN', 'inf', 'Infinity',
             'infinite', 'true', 'TRUE', 'tRue', 'True', 'yes', 'no', 'null', 'None', 'NA', 'N/A', 'day', 'days', 'e', 'E', 'x', 'T', 'at', 'of', 'st', 'é', 'ß', '日']
    words = [''.join(p) for n in (1, 2, 3) for p in itertools.product('aeminft', repeat=n)] + words + \
            [a + s + b for a in words for s in ('', ' ', '-', ', ', '.') for b in words]
    H = ['0', '00', '1', '09', '9', '12', '19', '20', '23', '24', '25', '29', '30', '', '-1', ' 1', '001', '1_0']
    M = ['0', '00', '5', '09', '59', '60', '61', '', '+1', '1 ', '005']
    S = ['0', '00', '7', '59', '60', '61', '62', '', ' 1', '1e1', '5x']
    F = [None, '', '0', '1', '123456', '1234567', '000', 'x', '5 ', '-1']
    times = [':'.join((h, m, s)) + ('' if f is None else '.' + f) for h in H for m in M for s in S for f in F]
    times += [w + x + y for x in ('12:34:56', '1:2:3.5', '12:34', '12:34:56:78', '12', '12:', ':12:34') for w in ('', ' ', '\t', '\n', 'x', '-', '+') for y in ('', ' ', '\n', 'x', 'am', ' pm', 'Z', ' UTC')]
    nvals = ['-1.5', '+2.5', '-0.5', '-.5', '-2.25', '-1e-1', '-1.0', '-0', '0.1', '-1e300', '1.9999', '-123456.5', '0', '1', '-1', '+3', '1.0', '2.5', '.0', '1e3', '1e-3', '1e300', '1e19', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '9.2e18',
             '1_000', 'nan', 'inf', '-inf', 'x', '', '0x1', '--1', '1e', '٣', '1,000', '１２', '1e18', '-9.3e18', 'True', '1.', '½', '²']
    us = sorted(UNITS) + ['', 'minute', 'minutes', 'month', 'months', 'Days', 'DAY', 'd', 'H', 'x', 'y', 'w', 'sec', 'min', 'ps', 'fs', 'Ms', 'day.', '1', 'day1', 'b', 'generic', 'us.']
    seps = [' ', '  ', '\t', '\n', '', '_', '-', ' - ', '\u00a0', '\u2003', ' 1 ']
    deltas = [w + n + s + u + w2 for n in nvals for u in us for s in seps for w in ('', ' ') for w2 in ('', ' ', '\n')]
    chars = [chr(c) for c in range(0x110000) if not (0xd800 <= c < 0xe000)]
    if q:
        chars = chars[:0x3000] + chars[0xf800:0xf800 + 0x800] + chars[0x10000:0x1f000:16]
    surr = [chr(c) for c in range(0xd800, 0xe000, 64)]
    around = [f % c for c in chars[:0x250] + chars[0x600:0x700] + surr for f in ('1%s', '%s1', '1%s1', '%s day', '1 %s', '12:34%s56', 'a%s', '%s%s'.replace('%s%s', '%s'))]
    around = [x for x in around]
    longs = ['1' * n for n in (18, 19, 20, 400, 3000)] + ['9' * 5000, '-' + '1' * 4500, '9' * 5000 + ' days', '9' * 5000 + '.5', 'x' * 5000, '(' * 2000, '1 ' * 500, '1-' * 500, ' ' * 5000,
             '2014-01-01 ' * 50, ':' * 1000, '1:' * 300, '1.1.' * 100]
    vals = [('int', str(n)) for n in list(range(-300, 301)) + [2 ** k for k in range(63)] + [-2 ** k for k in range(63)] + [2 ** k - 1 for k in range(63)]]
    vals += [('float', repr(float(x))) for x in [0, 1, -1, .5, 1e10, 1e16, 1e22, 1e300, 1e-300, 5e-324, float('inf'), float('-inf'), float('nan')] +
             [n / 7.0 * 10 ** e for n in range(-20, 21) for e in range(-20, 21, 3)]]
    vals += [('bool', 'True'), ('bool', 'False')]
    dd = dates(q)
    clock = list(dict.fromkeys(dd[::1 if not q else 3] + ['Feb 29', 'Jan 31', 'Apr 31', '30 Feb', 'feb 2014', '2014-02', '10:00', '12 am', '5 pm', '31st', 'mon 5', '29 february', '02/29', '2/30', '02-29']
                             + words[:600:7] + times[:600:11] + [a + ' ' + b for a in ('jan', 'feb', 'april', 'dec') for b in [str(n) for n in range(0, 33)]]))
    deltas, times, dd, words = (list(dict.fromkeys(x)) for x in (deltas, times, dd, words))
    sh = ascii
    return [
        Space('short strings', lens, run_many, None, 0, lambda c: '%r + %d of %r' % (c[0], c[2], c[1])),
        Space('numeric strings', nums, run_many, None, 0, lambda c: '%r + %d of %r' % (c[0], c[2], c[1])),
        Space('words', words, run, len(words), 0, sh),
        Space('times', times, run, len(times), 0, sh),
        Space('differences', deltas, run, len(deltas), 0, sh),
        Space('dates', dd, run, len(dd), 0, sh),
        Space('code points', chars + surr, run, len(chars) + len(surr), 0, sh),
        Space('code points in context', around, run, len(around), 0, sh),
        Space('long strings', longs, run, len(longs), 0, lambda s: ascii(s[:40])),
        Space('growth', grown(tier), run, None, 0, lambda s: ascii(s[:200])),
        Space('values', vals, run_value, len(vals), 0, repr),
        Space('clock', clock, run_clock, len(clock), None, sh),
    ]
