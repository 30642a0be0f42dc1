"""Growth: one thing at a time gets big.

GROW[name](n, i) is a term in which the thing called name has size n; if i is not None, it differs in its i-th part
(and only there) from GROW[name](n, None).  The sizes are consecutive up to a bound and then straddle the powers of
two and round numbers at which implementations like to change their behaviour (cuts, caches, buffers).
"""
from . import terms as t

I, F, S = t.I32, t.F64, t.STR
ALPHA = 'abcdefghijklmnopqrstuvwxyz'


def _name(i):
    return 'n%d' % i


def _dims(n, i):
    return t.arr(I, *[('F', 2 + k % 3 + (10 if k == i else 0)) for k in range(n)])


def _mixed_dims(n, i):
    kinds = [('F', 3), ('V',), ('T', 'M')]
    return t.arr(I, *[('V',) if k == i and k % 3 != 1 else ('F', 3) if k == i else kinds[k % 3] for k in range(n)])


def _rec_types(n, i):
    return t.rec(*[(_name(k), F if k == i else I) for k in range(n)])


def _rec_names(n, i):
    return t.rec(*[('other' if k == i else _name(k), (I, F, S)[k % 3]) for k in range(n)])


def _rec_swap(n, i):
    f = [(_name(k), I) for k in range(n)]
    if i is not None:
        f[i], f[i - 1] = f[i - 1], f[i]
    return t.rec(*f)


def _tup(n, i):
    return t.tup(*[F if k == i else I for k in range(n)])


def _tup_dims(n, i):
    return t.tup(*[t.arr(I, t.V) if k == i else t.arr(I, t.F3) for k in range(n)])


def _fn(n, i):
    return t.fn([F if k == i else I for k in range(n)], S)


def _cats(n, i):
    return t.ds(('cat', tuple('other' if k == i else 'c%d' % k for k in range(n)), S[2], False))


def _icats(n, i):
    return t.ds(('cat', tuple(-5 if k == i else k for k in range(n)), ('ct', 'int64'), True))


def _chars(n, i):
    return ''.join('Z' if k == i else ALPHA[k % 26] for k in range(n))


def _field_name(n, i):
    return t.rec((_chars(n, i), I), ('b', F))


def _quoted_name(n, i):
    return t.rec((''.join('"' if k == i else ' a'[k % 2] for k in range(n)), I))


def _tz(n, i):
    return t.ds(('dt', _chars(n, i)))


def _unit(n, i):
    return t.ds(('units', _chars(n, i), F))


def _tv(n, i):
    return t.arr(I, ('T', 'T' + _chars(n, i)))


def _length(n, i):
    return t.arr(I, ('F', int('1' + ''.join('7' if k == i else '0' for k in range(n)))))


def _fixlen(n, i):
    return t.ds(('str', n if i is None else n + 1 + i, 'U16'))


def _nest(f):
    def g(n, i):
        x = I
        for k in reversed(range(n)):
            x = f(k == i)(x)
        return x
    return g


GROW = {
    'dimensions': (_dims, 0), 'kinds of dimensions': (_mixed_dims, 0), 'field types': (_rec_types, 0), 'field names': (_rec_names, 0),
    'field order': (_rec_swap, 1), 'tuple items': (_tup, 0), 'tuple arrays': (_tup_dims, 0), 'arguments': (_fn, 0),
    'categories': (_cats, 0), 'integer categories': (_icats, 0), 'name': (_field_name, 0), 'quoted name': (_quoted_name, 0),
    'time zone': (_tz, 0), 'unit': (_unit, 0), 'type variable': (_tv, 0), 'dimension': (_length, 0),
}
DEEP = {
    'records': _nest(lambda odd: lambda x: t.rec(('b' if odd else 'a', x))),
    'records with more': _nest(lambda odd: lambda x: t.rec(('x', F if odd else I), ('a', x))),
    'tuples': _nest(lambda odd: lambda x: t.tup(x, F) if odd else t.tup(x)),
    'options of arrays': _nest(lambda odd: lambda x: t.opt(t.arr(x, t.V if odd else t.F3))),
    'arrays of records': _nest(lambda odd: lambda x: t.arr(t.rec(('a', x)), t.V if odd else t.F3)),
    'maps': _nest(lambda odd: lambda x: t.mp(I if odd else S, x)),
    'map keys': _nest(lambda odd: lambda x: t.mp(x, I if odd else S)),
    'functions': _nest(lambda odd: lambda x: t.fn([I] if odd else [], x)),
    'function arguments': _nest(lambda odd: lambda x: t.fn([x], I if odd else S)),
    'units': _nest(lambda odd: lambda x: t.ds(('units', 'g' if odd else 'm', x))),
    'options': _nest(lambda odd: lambda x: t.opt(t.rec(('a', x))) if odd else t.opt(x)),
    'mixture': _nest(lambda odd: lambda x: t.arr(t.rec(('a', t.opt(t.tup(x, t.mp(S, I))))), t.V if odd else t.F3)),
}
EDGES = [31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]


def sizes(top, edges=None):
    return list(range(1, top + 1)) + [n for n in (EDGES if edges is None else edges) if n > top]


def positions(n, first, all_to):
    if n <= all_to:
        return range(first, n)
    keep = set(range(first, first + 4)) | set(range(n - 4, n)) | {n // 2}
    for e in (8, 10, 16, 20, 32, 50, 64, 80, 100, 128, 200, 256):
        keep |= {e - 1, e}
    return sorted(k for k in keep if first <= k < n)


MORE = EDGES + [199, 200, 499, 500, 511, 512, 513, 999, 1000, 1023, 1024, 1025]


def families(tier, only=None, without=(), limit=None):
    """[(name, n, positions)]"""
    quick = tier == 'quick'
    out = []
    for name, (f, first) in GROW.items():
        if only is not None and name not in only or name in without:
            continue
        for n in sizes(*((12, EDGES) if quick else (40, MORE))):
            if n > 260 and 'dimensions' in name or limit is not None and n > limit:
                continue  # the reader recurses over dimensions
            out.append((name, n, list(positions(n, first, 17 if quick else 70))))
    for name in DEEP:
        if only is not None and name not in only or name in without:
            continue
        for n in list(range(1, 9 if quick else 21)) + ([12, 16, 17, 24] if quick else [24, 31, 32, 33]):
            out.append((name, n, list(range(n))))
    return out


def cases(tier, **kw):
    """[(name, n, i)]: every grown term and every variant of it that differs in one place"""
    return [(name, n, i) for name, n, at in families(tier, **kw) for i in [None] + at]


def term(case):
    name, n, i = case
    return GROW[name][0](n, i) if name in GROW else DEEP[name](n, i)


def show(case):
    return '%d %s%s' % (case[1], case[0] if case[0] in GROW else 'nested ' + case[0], '' if case[2] is None else ', %d changed' % case[2])
