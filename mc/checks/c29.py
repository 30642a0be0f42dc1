"""C29  the work of an operation is bounded by a small power of the size of what it is given"""
import copy
import itertools
import pickle
import sys
import numpy as np
from .. import scale
from .. import terms as t
from ..core import Space, require, STAT
from datashape import lexer
from datashape.util import collect
from datashape.util.testing import assert_dshape_equal

D, T = t.D, t.T
PROPERTY = 'C29'
TECHNIQUE = ('exhaustive enumeration of the ways of nesting up to a period and of growing in breadth, at doubling sizes, times all operations; the steps executed '
             'are counted one by one and every run is cut off as soon as it exceeds the bound that the run of half the size sets')
NOTE = ('Exhaustive within the bounds: families of nestings of period up to three. Steps are lines and calls executed in Python; work inside C functions is only '
        'bounded by the limit on the processor time of a case.')
BOUNDS = {'quick': '11 wrappers, their pairs and a third of their triples at depth 5 to 20 times 35 operations; 16 kinds of breadth at 32 to 128; data of 14 wrappers, pairs',
          'thorough': 'all triples at depth 5 to 40; breadth at 32 to 256; triples of wrappers of data'}
FACTOR, SLACK = 10, 3000


class TooMuch(BaseException):
    pass


def steps(f, limit):
    """number of lines and calls executed by f(), at most limit"""
    n = [0]

    def local(frame, event, arg):
        n[0] += 1
        if n[0] > limit:
            raise TooMuch()
        return local
    old = sys.gettrace()
    sys.settrace(local)
    try:
        try:
            f()
        except Exception:
            pass                     # a refusal has its cost as well
    except TooMuch:
        return None
    finally:
        sys.settrace(old)
    return n[0]


def grows(what, make, sizes, op):
    """the operation op on make(n): doubling n multiplies the steps by no more than FACTOR"""
    last = None
    for n in sizes:
        f = op(make(n))
        limit = 10 ** 6 if last is None else FACTOR * last + SLACK
        k = steps(f, limit)
        STAT.add('transitions')
        STAT.add('traces')
        require(k is not None, '%s takes more than %d steps at size %d, and %s at half of it', what, limit, n, last)
        last = k
    return last


# ------------------------------------------------------------------ types
I8, STR = 'int8', 'string'
WRAP = [
    ('array', lambda s: '3 * ' + s), ('var', lambda s: 'var * ' + s), ('record', lambda s: '{a: %s}' % s), ('option', lambda s: '?(%s)' % s),
    ('tuple', lambda s: '(%s, int8)' % s), ('argument', lambda s: '(%s) -> int8' % s), ('result', lambda s: '() -> %s' % s), ('map', lambda s: 'map[%s, int8]' % s),
    ('value', lambda s: 'map[int8, %s]' % s), ('units', lambda s: "units['m', %s]" % s), ('struct', lambda s: "struct[['a', 'b'], [int8, %s]]" % s),
    ('late field', lambda s: '{b: int8, a: %s}' % s), ('option of array', lambda s: '?3 * ' + s),
]


def nested(names, n, core):
    s = core
    w = dict(WRAP)
    for k in reversed(range(n)):
        s = w[names[k % len(names)]](s)
    return s


class Both(object):
    """what the operations are given: the text of a type, the type and one that differs from it innermost"""
    def __init__(self, s, other):
        self.s, self.x, self.y, self.z = s, D.dshape(s), D.dshape(s), D.dshape(other)
        try:
            self.dtype = self.x.measure.to_numpy_dtype()
        except Exception:
            self.dtype = np.dtype('i4')


P = D.predicates
OFF = dict.fromkeys(['check_dim', 'check_tz', 'check_timedelta_unit', 'check_str_encoding', 'check_str_fixlen', 'check_record_order'], False)
OPS = [
    ('reading', lambda o: lambda: D.dshape(o.s)),
    ('reading with an end too many', lambda o: lambda: D.dshape(o.s + ']')),
    ('reading without the end', lambda o: lambda: D.dshape(o.s[:-1])),
    ('reading half', lambda o: lambda: D.dshape(o.s[:len(o.s) // 2] + ' * ]')),
    ('lexing', lambda o: lambda: list(lexer.lex(o.s))),
    ('printing', lambda o: lambda: str(o.x)),
    ('the representation', lambda o: lambda: repr(o.x)),
    ('the representation of the measure', lambda o: lambda: repr(o.x.measure)),
    ('printing in width 1', lambda o: lambda: D.pprint(o.x, 1)),
    ('printing in width 40', lambda o: lambda: D.pprint(o.x, 40)),
    ('printing in any width', lambda o: lambda: D.pprint(o.x, 10 ** 6)),
    ('hashing', lambda o: lambda: hash(o.x)),
    ('comparing with an equal type', lambda o: lambda: o.x == o.y),
    ('comparing with another type', lambda o: lambda: o.x != o.z),
    ('a set', lambda o: lambda: {o.x, o.y, o.z, o.x.measure, o.z.measure}),
    ('pickling (0)', lambda o: lambda: pickle.loads(pickle.dumps(o.x, 0))),
    ('pickling', lambda o: lambda: pickle.loads(pickle.dumps([o.x, o.y, o.z], 2))),
    ('copying', lambda o: lambda: copy.copy(o.x)),
    ('deep copying', lambda o: lambda: copy.deepcopy(o.x)),
    ('making a datashape', lambda o: lambda: D.dshape([3, o.x])),
    ('multiplying', lambda o: lambda: 3 * (2 * o.x)),
    ('a record', lambda o: lambda: T.Record([('a', o.x), ('b', o.y)])),
    ('a tuple', lambda o: lambda: T.Option(T.Tuple([o.x, o.y]))),
    ('searching', lambda o: lambda: (D.has_var_dim(o.x), D.has_ellipsis(o.x))),
    ('collecting', lambda o: lambda: list(collect(lambda x: isinstance(x, T.CType), o.x))),
    ('the predicates', lambda o: lambda: [f(o.x) for f in (P.isdimension, P.ishomogeneous, P.istabular, P.isfixed, P.isscalar, P.isrecord, P.iscollection, P.isnumeric,
                                                            P.isboolean, P.isdatelike, P.isreal)]),
    ('going to NumPy', lambda o: lambda: T.to_numpy(o.x)),
    ('coming from NumPy', lambda o: lambda: T.from_numpy((2,), o.dtype)),
    ('asserting equality', lambda o: lambda: assert_dshape_equal(o.x, o.y)),
    ('asserting the equality of different types', lambda o: lambda: assert_dshape_equal(o.x, o.z)),
    ('asserting with all flags off', lambda o: lambda: assert_dshape_equal(o.x, o.z, **OFF)),
    ('being a subschema', lambda o: lambda: (D.issubschema(o.x, o.y), D.issubschema(o.x, o.z))),
    ('validating a value', lambda o: lambda: D.validate(o.x, [1, 2, 3])),
    ('the parts', lambda o: lambda: [o.x.subarray(k) for k in range(len(o.x))]),
    ('indexing', lambda o: lambda: (o.x.subshape[0], o.x.subshape[1:], o.x.subshape[:, 0])),
    ('concatenating', lambda o: lambda: D.cat_dshapes([o.x, o.y, o.y])),
]
BYNAME = dict(OPS)
DEPTHS = []


def run_nested(names):
    made = {}

    def make(n):
        if n not in made:
            made[n] = Both(nested(names, n, 'int32'), nested(names, n, 'int64'))
        return made[n]
    # reading comes first: nothing is built before it is known to be bounded
    for op in (OPS[4], OPS[0]):
        grows('%s %s nested' % (op[0], ' in '.join(names)), lambda n: _Text(nested(names, n, 'int32')), DEPTHS, op[1])
    for name, op in OPS[1:]:
        grows('%s %s nested' % (name, ' in '.join(names)), lambda n: fresh(make(n)), DEPTHS, op)
    return 'bounded'


class _Text(object):
    def __init__(self, s):
        self.s = s


def fresh(o):
    """the same types again, of which nothing has been remembered (hashes, for one)"""
    r = _Text(o.s)
    r.x, r.y, r.z, r.dtype = pickle.loads(pickle.dumps((o.x, o.y, o.z), 2)) + (o.dtype,)
    return r


def run_broad(case):
    name, top = case
    f, first = scale.GROW[name]
    made = {}

    def make(n):
        if n not in made:
            made[n] = Both(t.text(f(n, None)), t.text(f(n, n - 1)))
        return made[n]
    ns = [n for n in (16, 32, 64, 128, 256) if n <= top]
    for op in (OPS[4], OPS[0]):
        grows('%s many %s' % (op[0], name), lambda n: _Text(t.text(f(n, None))), ns, op[1])
    for what, op in OPS[1:]:
        grows('%s many %s' % (what, name), lambda n: fresh(make(n)), ns, op)
    return 'bounded'


# ------------------------------------------------------------------- data
DATA = [
    ('list', lambda s: [s]), ('tuple', lambda s: (s,)), ('before', lambda s: [s, 1]), ('after', lambda s: ['text', s]), ('dictionary', lambda s: {'a': s}),
    ('dictionary of two', lambda s: {'b': 1, 'a': s}), ('records', lambda s: [{'a': s}]), ('rows', lambda s: [(1, s), (2, None)]), ('missing', lambda s: [[s], [None]]),
    ('lacking', lambda s: [{'a': s, 'b': 1}, {'b': 2}]), ('lengths', lambda s: [[s], [None, None]]), ('of two kinds', lambda s: (s, {'b': 2.5})), ('empty', lambda s: [s, []]),
    ('row', lambda s: [(1, 'text', s)]),
]
APART = [
    ('rows apart', lambda s: [(s, 1), ('text', 1j)]), ('records apart', lambda s: [{'a': s}, {'a': 1j}]), ('columns apart', lambda s: [[s], [1j]]),
    ('pairs apart', lambda s: (s, (1, 2.5))), ('lists apart', lambda s: [[s, 1j], [1, 'text']]),
]


def datum(names, n):
    w = dict(DATA + APART)
    x = 1
    for k in reversed(range(n)):
        x = w[names[k % len(names)]](x)
    return x


SIZES = []


def run_data(names):
    names = tuple(names)
    grows('discovering %s nested' % ' in '.join(names), lambda n: datum(names, n), SIZES, lambda x: lambda: D.discover(x))
    grows('printing the type of %s nested' % ' in '.join(names), lambda n: datum(names, n), SIZES, lambda x: (lambda ds: lambda: str(ds))(D.discover(x)))

    def both(n):
        x = datum(names, n)
        return x, D.discover(x)
    grows('validating %s nested' % ' in '.join(names), both, SIZES, lambda p: lambda: D.validate(p[1], p[0]))
    grows('validating %s nested by text' % ' in '.join(names), both, SIZES, lambda p: lambda: D.validate(str(p[1]), p[0]))
    return 'bounded'


BROAD = {
    'numbers': lambda n: list(range(n)), 'texts': lambda n: ['t%d' % k for k in range(n)], 'mixed': lambda n: [(1, 'text', 2.5, None)[k % 4] for k in range(n)],
    'rows': lambda n: [(k, 't', None if k % 3 else 1.5) for k in range(n)], 'columns': lambda n: [tuple(range(n))] * 2, 'records': lambda n: [{'a': k, 'b': 't'} for k in range(n)],
    'fields': lambda n: {'f%d' % k: k for k in range(n)}, 'records of fields': lambda n: [{'f%d' % k: k for k in range(n)}] * 2,
    'growing records': lambda n: [{'f%d' % k: k for k in range(j)} for j in range(int(n ** .5) * 2)], 'lengths': lambda n: [[1] * (k % 5) for k in range(n)],
    'digits': lambda n: '1' * n, 'letters': lambda n: 'a b' * n, 'blanks': lambda n: ' ' * n + 'x' + ' ' * n, 'sets': lambda n: set(range(n)), 'rows apart': lambda n: [(1, k) for k in range(n)] + [(1j, 't')],
    'colons': lambda n: '1:' * n, 'points': lambda n: '.' * n, 'signs': lambda n: '-' * n, 'units': lambda n: '1 ' + 'day' + 's' * n,
}


def run_broad_data(case):
    name, top = case
    ns = [n for n in (25, 50, 100, 200, 400) if n <= top]
    grows('discovering many %s' % name, BROAD[name], ns, lambda x: lambda: D.discover(x))
    grows('validating many %s' % name, lambda n: (lambda x: (D.discover(x), x))(BROAD[name](n)), ns, lambda p: lambda: D.validate(*p))
    return 'bounded'


def spaces(tier):
    q = tier == 'quick'
    DEPTHS[:] = [5, 10, 20] if q else [5, 10, 20, 40]
    SIZES[:] = [3, 6, 12] if q else [3, 6, 12, 24]
    names = [n for n, _ in WRAP]
    P3 = list(itertools.product(names, repeat=3))
    N = [(x,) for x in names] + list(itertools.product(names, repeat=2)) + (P3[::3] if q else P3)
    B = [(name, 128 if q else 256) for name in scale.GROW]
    dn = [n for n, _ in DATA]
    Z = [(x,) for x in dn] + list(itertools.product(dn, repeat=2)) + ([] if q else list(itertools.product(dn, repeat=3)))
    A = [(x,) for x, _ in APART]
    R = [(name, 200 if q else 400) for name in BROAD]
    return [
        Space('nested types', N, run_nested, len(N), None, lambda c: ' in '.join(c), 'wrappers one in another, again and again; each operation at doubling depths'),
        Space('broad types', B, run_broad, len(B), None, lambda c: 'many %s' % c[0]),
        Space('nested data', Z, run_data, len(Z), None, lambda c: ' in '.join(c)),
        Space('data without a common type', A, run_data, len(A), None, lambda c: ' in '.join(c)),
        Space('broad data', R, run_broad_data, len(R), None, lambda c: 'many %s' % c[0]),
    ]
