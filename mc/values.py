"""Python values to be discovered, and a model of discovery.

A value is coded as a nested tuple so that it can be enumerated, stored and
replayed:   ('v', name of a leaf)  ('l' | 't' | 's' | 'f', items)   list, tuple, set, frozenset
            ('d' | 'o' | 'm', ((key, value), ...))                   dict, OrderedDict, mapping proxy
"""
import datetime as dtm
from collections import OrderedDict
from types import MappingProxyType
import numpy as np
from . import terms as t

# leaf name -> (value, type discovered: a measure or a term)
STRING = ('str', None, 'U8')
NULL = ('null',)
I64, R, B, DATE, DT, TIME, C = (('ct', 'int64'), ('ct', 'float64'), ('ct', 'bool'), ('date',), ('dt', None), ('time', None),
                                ('ct', 'complex[float64]'))
TD = ('td', 'us')
I32 = ('ct', 'int32')
# b is a value of type a as well: the documented order
UP = {I32: (I64,), I64: (R,), R: (STRING,), DATE: (DT,), DT: (STRING,), TD: (STRING,), B: (STRING,), NULL: (STRING,)}


def ups(m):
    out = [m]
    for x in out:
        out += [y for y in UP.get(x, ()) if y not in out]
    return out


def least(ms):
    """least upper bound in the documented order, None if there is none"""
    common = [x for x in ups(ms[0]) if all(x in ups(m) for m in ms[1:])]
    for x in common:
        if all(y in ups(x) for y in common):
            return x
    return None


LEAVES = OrderedDict([
    ('None', (None, NULL)), ('True', (True, B)), ('False', (False, B)), ('0', (0, I64)), ('1', (1, I64)), ('-7', (-7, I64)),
    ('big', (2 ** 62, I64)), ('2.5', (2.5, R)), ('1.0', (1.0, R)), ('nan', (float('nan'), R)), ('inf', (float('inf'), R)), ('1j', (1j, C)),
    ('text', ('hello world', STRING)), ('word', ('monday', STRING)), ('empty', ('', NULL)), ("'12'", ('12', I64)), ("'1.5'", ('1.5', R)),
    ("'true'", ('true', B)), ("'date'", ('2014-01-02', DATE)), ("'datetime'", ('2014-01-02 03:04:05', DT)), ("'time'", ('12:34:56', TIME)),
    ("'delta'", ('3 days', ('td', 'D'))), ('space', (' ', STRING)),
    ('date', (dtm.date(2014, 1, 2), DATE)), ('datetime', (dtm.datetime(2014, 1, 2, 3, 4, 5), DT)), ('time', (dtm.time(1, 2, 3), TIME)),
    ('delta', (dtm.timedelta(1, 2, 3), TD)), ('bytes', (b'x', ('str', None, 'A'))),
    ('i32', (np.int32(3), I32)), ('i8', (np.int8(3), ('ct', 'int8'))), ('u64', (np.uint64(3), ('ct', 'uint64'))), ('i64', (np.int64(3), I64)),
    ('f32', (np.float32(1.5), ('ct', 'float32'))), ('f64', (np.float64(1.5), R)), ('c64', (np.complex64(1), ('ct', 'complex[float32]'))),
])


def val(c):
    k = c[0]
    if k == 'v':
        return LEAVES[c[1]][0]
    if k == 'l':
        return [val(x) for x in c[1]]
    if k == 't':
        return tuple(val(x) for x in c[1])
    if k == 's':
        return {val(x) for x in c[1]}
    if k == 'f':
        return frozenset(val(x) for x in c[1])
    if k == 'd':
        return {n: val(x) for n, x in c[1]}
    if k == 'o':
        return OrderedDict((n, val(x)) for n, x in c[1])
    if k == 'm':
        return MappingProxyType({n: val(x) for n, x in c[1]})
    raise KeyError(k)


def show(c):
    return repr(val(c))


# ------------------------------------------------------------ inhabitation
def fits(c, term):
    """does the value coded by c (None: absent) inhabit the type?"""
    dims, m = term[1], term[2]
    if dims:
        if c is None or c[0] not in 'ltsf':
            return False
        d = dims[0]
        if d[0] == 'F' and d[1] != len(c[1]) or d[0] not in 'FV':
            return False
        rest = ('D', dims[1:], m)
        return all(fits(x, rest) for x in c[1])
    k = m[0]
    none = c is None or c[0] == 'v' and LEAVES[c[1]][1] == NULL
    if k == 'opt':
        return none or fits(c, m[1])
    if k == 'null':
        return none
    if c is None:
        return False
    if c[0] == 'v':
        v, cm = LEAVES[c[1]]
        if isinstance(v, str):
            return m == STRING or m in ups(cm)
        return not none and m in ups(cm)
    if k == 'rec':
        if c[0] not in 'dom':
            return False
        kv = {str(n): x for n, x in c[1]}
        names = [n for n, _ in m[1]]
        return set(kv) <= set(names) and all(fits(kv.get(n), x) for n, x in m[1])
    if k == 'tup':
        return c[0] in 'ltsf' and len(c[1]) == len(m[1]) and all(map(fits, c[1], m[1]))
    return False


# ------------------------------------------------------------ reference discovery
class NoUnion(Exception):
    pass


def D(m, *dims):
    return ('D', tuple(dims), m)


def column(types):
    """common type of the values of a column"""
    if len(set(types)) == 1:
        return types[0]
    good = [x for x in types if x != D(NULL)]
    null = len(good) < len(types)

    def missing(x):
        return D(('opt', x)) if null else x
    if not good:
        return D(NULL)
    if len(set(good)) == 1:
        return missing(good[0])
    if all(not x[1] and x[2][0] not in ('rec', 'tup', 'opt') for x in good):
        m = least([x[2] for x in good])
        if m is None:
            raise NoUnion
        return missing(D(m))
    if all(not x[1] and x[2][0] == 'rec' for x in good):
        names = []
        for x in good:
            names += [n for n, _ in x[2][1] if n not in names]
        fields = []
        for n in names:
            fields.append((n, basecol([dict(x[2][1]).get(n, D(NULL)) for x in good])))
        return missing(D(('rec', tuple(fields))))
    return merge(types)


def basecol(types):
    """the same, for a field of united records: no merging of dimensions"""
    good = [x for x in types if x != D(NULL)]
    if len(set(good)) <= 1 or all(not x[1] and x[2][0] not in ('tup', 'opt') for x in good):
        return column(types)
    raise NoUnion


def merge(types):
    if all(x[1] for x in types) and len(set((x[1][1:], x[2]) for x in types)) == 1:
        ds = set(x[1][0] for x in types)
        d = ds.pop() if len(ds) == 1 else ('V',)
        return ('D', (d,) + types[0][1][1:], types[0][2])
    raise NoUnion


def several(types):
    """type of a sequence whose elements have these types"""
    n = ('F', len(types))
    if len(set(types)) == 1:
        return ('D', (n,) + types[0][1], types[0][2])
    try:
        x = merge(types)
        return ('D', (n,) + x[1], x[2])
    except NoUnion:
        return D(('tup', tuple(types)))


def ref(c):
    k = c[0]
    if k == 'v':
        m = LEAVES[c[1]][1]
        return m if m[0] == 'D' else D(m)
    if k in 'dm':
        return D(('rec', tuple((str(n), ref(x)) for n, x in sorted(c[1], key=lambda kv: kv[0]))))
    if k == 'o':
        return D(('rec', tuple((str(n), ref(x)) for n, x in c[1])))
    items = c[1]
    if not items:
        return D(STRING, ('V',))
    n = ('F', len(items))
    if all(x[0] in 'lt' for x in items) and len(set(len(x[1]) for x in items)) == 1:
        try:
            types = [column([ref(x) for x in col]) for col in zip(*[x[1] for x in items])]
            if not types:
                return D(('tup', ()), n)
            row = several(types)
            return ('D', (n,) + row[1], row[2])
        except NoUnion:
            pass
    if all(x[0] in 'do' for x in items):
        keys = sorted(set(k for x in items for k, _ in x[1]))
        try:
            fs = []
            for key in keys:
                fs.append((str(key), column([ref(dict(x[1]).get(key, ('v', 'None'))) for x in items])))
            return D(('rec', tuple(fs)), n)
        except NoUnion:
            pass
    return several([ref(x) for x in items])
