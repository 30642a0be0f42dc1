"""C12  the datashape discovered for data describes that data"""
import collections
import datetime as dtm
import enum
import itertools
import warnings
from collections import OrderedDict
import numpy as np
from .. import terms as t
from .. import values as V
from .. import scale
from ..core import Space, require, STAT

D, T = t.D, t.T
PROPERTY = 'C12'
TECHNIQUE = ('exhaustive enumeration of nested values up to a depth and width over one scalar of each kind; the value is '
             'checked to inhabit the discovered type by a model of inhabitation')
NOTE = ('Exhaustive within the bounds; the elements of sets are enumerated through sets of one kind. Integers are within int64, '
        'keys are texts, and object arrays hold one kind of element, of which the library looks at the first five.')
BOUNDS = {'quick': 'sequences of up to 3 of 34 scalars; two levels over 120 values; three levels over 40 values; records of up to 2 fields',
          'thorough': 'sequences of up to 4 scalars; two levels over 300 values; three levels over 90; four levels over 25'}


def discover(c):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        v = V.val(c)
        r = repr(v)
        ds = D.discover(v)
        require(repr(v) == r, 'discover(%s) changed its argument to %r', r, v)
    return v, ds


def run(c):
    v, ds = discover(c)
    require(isinstance(ds, T.Mono) and (not isinstance(ds, T.DataShape) or len(ds) > 1 or True), 'discover(%r) is a %s', v, type(ds))
    term = t.observe(ds)
    require(V.fits(c, term), '%r is not described by %s', v, ds)
    # what was discovered is an ordinary type
    s = D.dshape(ds) if not isinstance(ds, T.DataShape) else ds
    require(t.strict_eq(t.observe(D.dshape(str(s))), term), 'the type %s of %r cannot be read back', s, v)
    _, again = discover(c)
    require(again == ds and hash(again) == hash(ds), 'discover(%r) is %s and then %s', v, ds, again)
    return kind(term)


def kind(term):
    return '%d dims, %s' % (len(term[1]), term[2][0])


# ------------------------------------------------------------------- arrays
def arrays():
    out = []
    codes = ['?', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f2', 'f4', 'f8', 'c8', 'c16', 'S3', 'U4', 'M8[D]', 'M8[s]', 'M8[ns]',
             'm8[s]', 'm8[D]', 'ostr', 'oint', 'onone', 'omix5']
    recs = [(('a', x), ('b', y)) for x in ('i4', 'ostr', 'oint', 'S3') for y in ('f8', 'ostr', 'oint', 'onone')]
    for sh in [(), (0,), (1,), (3,), (7,), (2, 3), (0, 4), (2, 1, 2)]:
        for c in codes + recs:
            out.append((sh, c))
    return out


def arr(sh, c):
    if isinstance(c, tuple):
        a = np.zeros(sh, dtype=[(n, 'O' if x[0] == 'o' else x) for n, x in c])
        for n, x in c:
            if x[0] == 'o':
                a[n] = arr(sh, x)
        return a
    if c[0] == 'o':
        a = np.empty(sh, dtype=object)
        v = {'ostr': 'text', 'oint': 5, 'onone': None, 'omix5': 'text'}[c]
        for i in np.ndindex(*sh):
            a[i] = v
        if c == 'omix5' and a.size:
            a.flat[0] = 3
        return a
    return np.zeros(sh, dtype=c)


def arr_measure(sh, c):
    if isinstance(c, tuple):
        return ('rec', tuple((n, t.ds(arr_measure(sh, x))) for n, x in c))
    if c[0] == 'o':
        return V.STRING if c == 'ostr' or 0 in sh else ('ct', 'object')
    if c[0] in 'SU':
        return ('str', int(c[1:]), 'A' if c[0] == 'S' else 'U32')
    if c[0] == 'M':
        return ('date',) if c == 'M8[D]' else ('dt', None)
    if c[0] == 'm':
        return ('td', c[3:-1])
    n = np.dtype(c).name
    return ('ct', {'complex64': 'complex[float32]', 'complex128': 'complex[float64]'}.get(n, n))


def run_array(case):
    sh, c = case
    a = arr(sh, c)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ds = D.discover(a)
        want = ('D', tuple(('F', n) for n in sh), arr_measure(sh, c))
        require(t.strict_eq(t.observe(ds), want), 'discover of an array of shape %s of %s is %s instead of %s', sh, c, ds, want)
        # arrays inside lists and records
        r = D.discover([a, a])
        require(t.strict_eq(t.observe(r), ('D', (('F', 2),) + want[1], want[2])), 'discover of two arrays of shape %s of %s is %s', sh, c, r)
        r = D.discover({'x': a, 'y': 1})
        require(t.strict_eq(t.observe(r), t.rec(('x', want), ('y', t.ds(V.I64)))), 'discover of a record of an array: %s', r)
        if sh:
            b = arr((sh[0] + 1,) + sh[1:], c)
            wb = arr_measure((sh[0] + 1,) + sh[1:], c)
            if wb == want[2]:
                r = D.discover([a, b])
                require(t.strict_eq(t.observe(r), ('D', (('F', 2), ('V',)) + want[1][1:], want[2])),
                        'discover of arrays of different lengths is %s', r)
    return str(want[2][0])


def run_scalar(case):
    """NumPy scalars are discovered like arrays without dimensions"""
    c = case
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        x = np.zeros((), dtype=c)[()]
        ds = D.discover(x)
        if isinstance(x, str):
            want = t.ds(V.NULL)
        elif isinstance(x, bytes):
            want = t.ds(('str', None, 'A'))
        else:
            want = t.ds(arr_measure((), c))
        require(t.strict_eq(t.observe(ds), want), 'discover(%r) is %s', x, ds)
    return want[2][0]


def run_foreign(case):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        x = {'object': object(), 'function': run_foreign, 'class': int, 'generator': (i for i in []),
             'ellipsis': Ellipsis, 'slice': slice(1)}[case]
        for v in (x, [x], {'a': x}, [1, x]):
            try:
                ds = D.discover(v)
            except NotImplementedError:
                continue
            require(False, 'discover(%r) is %s', v, ds)
    return 'refused'


class Thing(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def run_array_like(case):
    """an object with a shape and a dtype is discovered like the array (and said to be deprecated); with one of them it is refused"""
    sh, c, has = case
    kw = {'shape': sh, 'dtype': np.dtype(c)}
    x = Thing(**{k: kw[k] for k in has})
    whole = len(has) == 2
    want = ('D', tuple(('F', n) for n in sh), arr_measure(sh, c)) if whole else None
    around = [(x, want), ([x], want and ('D', (('F', 1),) + want[1], want[2])), ([x, x], want and ('D', (('F', 2),) + want[1], want[2])),
              ({'a': x}, want and t.rec(('a', want)))]
    for v, w in around:
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter('always')
            try:
                ds = D.discover(v)
            except NotImplementedError:
                require(not whole, 'discover of an object with shape %s and dtype %s is refused', sh, c)
                continue
        require(whole, 'discover of an object with %s alone is %s', has, ds)
        require(t.strict_eq(t.observe(ds), w), 'discover of an object with shape %s and dtype %s is %s', sh, c, ds)
        require(any(issubclass(m.category, DeprecationWarning) for m in seen), 'discover of an array-like object gives no warning')
    return 'like an array' if whole else 'refused'


# ------------------------------------------------------- derived classes
BASES = (int, float, complex, str, bytes, list, tuple, dict, OrderedDict, set, frozenset, dtm.date, dtm.datetime, dtm.time, dtm.timedelta)
DERIVED = {b: type('Derived' + b.__name__.title(), (b,), {}) for b in BASES}
class Mixed(object):
    pass


# of a class derived from one derived, and from others besides
FURTHER = {b: type("Further" + b.__name__.title(), (d, Mixed), {}) for b, d in DERIVED.items()}


def derive(c, classes, at, k=None):
    """the value of c with its node number `at` (None: each) replaced by an instance of a derived class"""
    k = [0] if k is None else k
    here = at is None or k[0] == at
    k[0] += 1
    if c[0] == 'v':
        x = V.LEAVES[c[1]][0]
        if not here or type(x) not in classes:
            return x
        cls = classes[type(x)]
        if isinstance(x, dtm.datetime):
            return cls(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond)
        if isinstance(x, dtm.date):
            return cls(x.year, x.month, x.day)
        if isinstance(x, dtm.time):
            return cls(x.hour, x.minute, x.second, x.microsecond)
        if isinstance(x, dtm.timedelta):
            return cls(x.days, x.seconds, x.microseconds)
        return cls(x)
    if c[0] in 'dom':
        x = V.val((c[0], ()))
        pairs = [(n, derive(y, classes, at, k)) for n, y in c[1]]
        return classes.get(type(x), type(x))(pairs) if here and type(x) in classes else type(x)(dict(pairs))
    b = {'l': list, 't': tuple, 's': set, 'f': frozenset}[c[0]]
    items = [derive(y, classes, at, k) for y in c[1]]
    return (classes[b] if here else b)(items)


def nodes(c):
    return 1 + (0 if c[0] == 'v' else sum(nodes(x[1] if c[0] in 'dom' else x) for x in c[1]))


def run_derived(case):
    """instances of classes derived from those of Python are discovered like these"""
    c, far, at = case
    _, want = discover(c)
    v = derive(c, FURTHER if far else DERIVED, at)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ds = D.discover(v)
    require(t.strict_eq(t.observe(ds), t.observe(want)), 'discover of %r is %s, where instances of derived classes are in the place of those of Python '
            '(number %s), instead of %s', v, ds, at, want)
    return 'like its base'


def objects(*xs):
    a = np.empty(len(xs), dtype=object)
    a[:] = xs
    return a


def special():
    P = collections.namedtuple('P', 'x y')
    E = enum.IntEnum('E', 'a b')
    W = enum.Enum('W', [('a', '12'), ('b', 'text')], type=str)
    d = collections.defaultdict(int, a=1, b='text')
    m = np.ma.array([1, 2], mask=[0, 1])
    return [(P(1, 'text'), (1, 'text')), ([P(1, 'text'), P(2, None)], [(1, 'text'), (2, None)]), (P(1, 2), (1, 2)), (E.a, 1), ([E.a, 2.5], [1, 2.5]), (W.a, '12'),
            (W.b, 'text'), ({'k': W.b, 'l': E.b}, {'k': 'text', 'l': 2}), (d, dict(d)), ([d, {'a': 1}], [dict(d), {'a': 1}]), (collections.Counter('aab'), {'a': 2, 'b': 1}),
            (np.arange(3).view(np.recarray), np.arange(3)), (np.ones((2, 2)).view(np.matrix), np.ones((2, 2))), (m, np.array([1, 2])), ([m, m], [np.array([1, 2])] * 2),
            (objects(DERIVED[str]('a'), 'b'), objects('a', 'b')), (objects('a', FURTHER[str]('b')), objects('a', 'b')), (objects(W.a, W.b), objects('12', 'text')),
            (objects(DERIVED[int](1), 'b'), objects(1, 'b')), ([objects(DERIVED[str]('a'))], [objects('a')]),
            (collections.ChainMap({'a': 1}), None), ([P((1, 2), P(1, 2))], [((1, 2), (1, 2))]), (P([P(1, 2)], None), ([(1, 2)], None))]


def run_special(i):
    v, like = special()[i]
    if like is None:
        return 'open'
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ds, want = D.discover(v), D.discover(like)
    require(t.strict_eq(t.observe(ds), t.observe(want)), 'discover(%r) is %s instead of %s', v, ds, want)
    return 'like its base'


def leaves():
    return [('v', n) for n in V.LEAVES]


def seqs(vals, n, kinds='lt', lo=0):
    for k in range(lo, n + 1):
        for xs in itertools.product(vals, repeat=k):
            for c in kinds:
                yield (c, xs)


_one, _two = ('v', '1'), ('v', 'text')
WRAP = [lambda x: ('d', (('p', x),)), lambda x: ('o', (('p', x),)), lambda x: ('m', (('p', x),)), lambda x: ('l', (x,)), lambda x: ('t', (x,)), lambda x: ('t', (x, _one)),
        lambda x: ('d', (('p', x), ('q', _two))), lambda x: ('d', (('o', _one), ('p', x))), lambda x: ('l', (x, x)), lambda x: ('l', (('t', (_one, x)), ('t', (_one, x)))),
        lambda x: ('l', (('d', (('p', x),)), ('d', (('p', ('v', 'None')),)))), lambda x: ('l', (('d', (('p', x),)), ('d', ()))), lambda x: ('d', (('p', ('l', (x,))),)),
        lambda x: ('d', (('p', ('d', (('q', x),))),)), lambda x: ('l', (('l', (x,)), ('l', (x, x))))]


def grown(tier):
    """long and deep data, in which one place is odd"""
    q = tier == 'quick'
    one, two = ('v', '1'), ('v', 'text')
    odd = [('v', n) for n in ('None', '2.5', 'text', 'True', '1j', 'empty', 'date', 'i32')] + [('l', ()), ('d', ())]
    out = []
    for n in scale.sizes(*((12, scale.EDGES[:11]) if q else (30, scale.EDGES))):
        out += [('l', (one,) * n), ('t', (one,) * n), ('d', tuple(('k%d' % k, one) for k in range(n))), ('o', tuple(('k%d' % k, one) for k in range(n))),
                ('l', (('d', tuple(('k%d' % k, one) for k in range(n))),) * 2), ('l', (('t', (one, two)),) * n), ('l', (('l', (one, one)),) * n)]
        few = n > 12
        for i in scale.positions(n, 0, 12 if q else 30):
            def put(base, x, i=i, n=n):
                return tuple(x if k == i else base for k in range(n))
            for x in (odd[:3] if few else odd):
                out += [('l', put(one, x)), ('t', put(x, one)), ('l', put(two, x)), ('l', tuple(('t', (y,)) for y in put(one, x))),
                        ('l', tuple(('t', (one, y)) for y in put(two, x))), ('l', tuple(('d', (('a', one), ('b', y))) for y in put(one, x))),
                        ('d', tuple(('k%d' % (n - k), y) for k, y in enumerate(put(one, x)))), ('l', (('t', put(one, x)), ('t', (one,) * n))),
                        ('l', (('t', put(one, x)), ('t', put(two, one)))),
                        ('l', (('d', tuple(('k%d' % k, y) for k, y in enumerate(put(one, x)))), ('d', tuple(('k%d' % k, one) for k in range(n)))))]
            a, ab, b = ('d', (('a', one),)), ('d', (('a', one), ('b', two))), ('d', ())
            out += [('l', put(ab, a)), ('l', put(a, ab)), ('l', put(ab, b)), ('l', put(ab, ('v', 'None'))), ('l', put(ab, ('o', (('b', two), ('a', one)))))]
            out += [('l', put(('l', (one, one)), y)) for y in (('l', (one,)), ('l', (one, one, one)), ('l', ()), ('l', (one, ('v', '2.5'))), ('v', 'None'), ('t', (one, one)), ('l', (two, two)))]
            keys = tuple(('k%d' % k, one) for k in range(n))
            out.append(('l', (('d', keys), ('d', keys[:i] + keys[i + 1:]))))
            out.append(('l', (('d', keys[:i] + keys[i + 1:]), ('d', keys))))
    # what is big, or odd in one place, inside every kind of container
    inner = [x for x in out if len(x[1]) <= 6 or x[0] in 'do' and len(x[1]) <= 17]
    for x in inner:
        out += [w(x) for w in WRAP]
    for n in range(1, 13 if q else 20):
        for i in range(n):
            for leaf in odd[:4]:
                x = leaf
                for k in reversed(range(n)):
                    x = ('l', (x, x)) if k == i else ('l', (x,))
                out.append(x)
                x = leaf
                for k in reversed(range(n)):
                    x = ('d', (('a', x), ('b', two))) if k == i else ('d', (('a', x),))
                out.append(x)
                x = leaf
                for k in reversed(range(n)):
                    x = ('l', (('d', (('a', x),)),)) if k == i else ('l', (x,))
                out.append(x)
                x = ('l', (leaf, leaf))
                y = ('l', (one,))
                for k in reversed(range(n)):
                    x, y = (('l', (x, y)), ('l', (y,))) if k == i else (('l', (x,)), ('l', (y,)))
                out.append(x)
    return list(dict.fromkeys(out))


def run_object_array(case):
    """an array of objects holds text exactly when its first elements do"""
    sh, i, x = case
    a = np.empty(sh, dtype=object)
    for j in np.ndindex(*sh):
        a[j] = 'text'
    a.flat[i] = {'None': None, '5': 5, 'bytes': b'x', 'list': [1]}[x]
    b = np.zeros(sh, dtype=[('p', 'i4'), ('q', 'O')])
    b['q'] = a
    for v, want in ((a, ('ct', 'object')), (b, ('rec', (('p', t.I32), ('q', t.ds(('ct', 'object'))))))):
        ds = D.discover(v)
        require(t.strict_eq(t.observe(ds), ('D', tuple(('F', n) for n in sh), want)), 'discover of an array of shape %s with %s at %d is %s', sh, x, i, ds)
    return 'object'


def levels(tier):
    q = tier == 'quick'
    L = leaves()
    pick = [('v', n) for n in ('None', '1', '2.5', 'text', "'12'", 'True', 'date', 'datetime', 'empty', "'time'")]
    few = pick[:4]
    one = [x for c in 'lt' for k in (0, 1, 2) for x in [(c, y) for y in itertools.product(pick[:5], repeat=k)]]
    recs = [('d', tuple(zip('ab', xs))) for k in (0, 1, 2) for xs in itertools.product(pick[:5], repeat=k)]
    recs += [('d', (('b', x),)) for x in few] + [('o', (('b', few[1]), ('a', few[3]))), ('m', (('a', few[1]),)), ('d', (('c', few[2]), ('a', few[1])))]
    three = [('l', y) for y in itertools.product(few[:3], repeat=3)]
    level1 = L[:12] + one + recs + three
    return q, L, pick, few, one, recs, level1


def spaces(tier):
    q, L, pick, few, one, recs, level1 = levels(tier)
    mid = level1 if not q else pick[:6] + one[::2] + recs[::2]
    s1 = list(seqs(L, 3 if q else 3, 'l')) + list(seqs(L, 2, 't')) + ([] if q else list(seqs(pick, 5, 'l', 4)))
    dicts = [('d', tuple(zip('ab', xs))) for k in (1, 2) for xs in itertools.product(L, repeat=k)]
    dicts += [('l', (('d', ((1, x), (2, y))), ('d', ((2, x),)))) for x in L for y in L]
    sets = [(c, (x,)) for c in 'sf' for x in L] + [('s', ()), ('f', ())] + [(c, xs) for c in 'sf' for xs in
                                                                             [(('v', '0'), ('v', '1'), ('v', '-7')), (('v', 'text'), ('v', 'word')), (('v', '2.5'), ('v', 'inf'))]]
    sets += [('l', (x, y)) for x in sets for y in sets[::7]]
    s2 = list(seqs(mid, 2, 'lt', 1)) + [('l', xs) for xs in itertools.product(mid[::3], repeat=3)]
    rows = [('t', xs) for xs in itertools.product(L, repeat=2)]
    col = [('l', (('t', (x,)), ('t', (y,)), ('t', (z,)))) for x in L for y in L for z in pick]
    col2 = [('l', xs) for xs in itertools.product(rows[::23 if q else 7], repeat=2)]
    tables = [('l', xs) for k in (1, 2, 3) for xs in itertools.product(recs[::1 if k < 3 else 3], repeat=k)]
    base3 = [('l', xs) for k in (1, 2) for xs in itertools.product(few + one[::7] + recs[::7], repeat=k)]
    b3 = base3[::3 if q else 1]
    s3 = [('l', xs) for k in (1, 2) for xs in itertools.product(b3, repeat=k)] + \
         [('d', (('k', x), ('a', y))) for x in b3[::3] for y in base3[::5]] + [('l', (('d', (('k', x),)), ('d', (('k', y),)))) for x in b3 for y in b3[::4]]
    deep = [('l', (x, y)) for x in s3[::97 if q else 11] for y in s3[::1511 if q else 397]]
    S = []
    for name, cs in (('scalars', L), ('sequences', s1), ('records', dicts), ('sets', sets), ('columns', col), ('two columns', col2),
                     ('tables of records', tables), ('two levels', s2), ('three levels', s3), ('four levels', deep)):
        cs = list(dict.fromkeys(cs))
        S.append(Space(name, cs, run, len(cs), 0, V.show))
    A = arrays()
    S.append(Space('arrays', A, run_array, len(A), 0, repr))
    G = grown(tier)
    S.append(Space('growth', G, run, len(G), 0, lambda c: V.show(c)[:300], 'long and deep data with one odd place'))
    K = [(sh, c, has) for sh in [(), (0,), (3,), (2, 3), (2, 0, 1)] for c in ['?', 'i1', 'i8', 'u4', 'f4', 'f8', 'c16', 'S3', 'U4', 'M8[D]', 'M8[s]', 'm8[s]']
         for has in [('shape', 'dtype'), ('shape',), ('dtype',), ()]]
    S.append(Space('array-like objects', K, run_array_like, len(K), 0, repr))
    O = [(sh, i, x) for sh in [(n,) for n in range(1, 13)] + [(2, 2), (3, 3), (2, 2, 2), (1, 5), (5, 1), (100,)] for i in range(min(5, int(np.prod(sh)))) for x in ('None', '5', 'bytes', 'list')]
    S.append(Space('object arrays', O, run_object_array, len(O), 0, repr))
    Z = [x for x in dict.fromkeys(L + dicts[:len(L)] + sets[:40] + level1 + mid[:60] + s2[::211 if q else 17] + tables[::41 if q else 7] + s3[::911 if q else 101])]
    Z = [(x, far, at) for x in Z for far in (False, True) for at in [None] + list(range(nodes(x)))]
    S.append(Space('derived classes', Z, run_derived, len(Z), 0, lambda z: '%s, %s, %s' % (V.show(z[0])[:300], z[1], z[2]),
                   'each node, or all, of a value replaced by an instance of a class derived once or twice'))
    S.append(Space('well-known derived classes', list(range(len(special()))), run_special, len(special()), 0, lambda i: repr(special()[i][0])))
    sc = ['?', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f2', 'f4', 'f8', 'c8', 'c16', 'S3', 'U4', 'M8[D]', 'M8[s]', 'M8[ns]', 'm8[s]', 'm8[D]']
    S.append(Space('NumPy scalars', sc, run_scalar, len(sc), 0, repr))
    S.append(Space('other objects', ['object', 'function', 'class', 'generator', 'ellipsis', 'slice'], run_foreign, 6, 0, repr))
    return S
