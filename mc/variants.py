"""Families of types that differ in one parameter, one position or one class only."""
from . import terms as t


def family():
    I, F, S = t.I32, t.F64, t.STR
    out = list(t.atoms())
    for n in (None, 0, 1, 2, 30):
        for e in ('A', 'U8', 'U16', 'U32'):
            out.append(t.ds(('str', n, e)))
    for z in (None, '', 'UTC', 'utc', 'UTC '):
        out += [t.ds(('time', z)), t.ds(('dt', z))]
    out += [t.ds(('td', u)) for u in t.UNITS]
    out += [t.ds(('dec', p, s)) for p in (0, 1, 2, 7) for s in (0, 1, 2, 7)]
    for u in ('', 'm', 'kg', 'm/s'):
        for x in (F, I, S, t.arr(F, t.F3), t.opt(F), t.ds(('units', 'm', F))):
            out.append(t.ds(('units', u, x)))
    out += [t.ds(('tv', n)) for n in ('T', 'U', 'T1', 'Tt')]
    cats = [(), ('a',), ('b',), ('a', 'b'), ('b', 'a'), ('a', 'b', 'c'), ('', 'a')]
    for c in cats:
        for ty in (S[2], ('str', 1, 'U8'), ('opt', S)):
            for o in (False, True):
                out.append(t.ds(('cat', c, ty, o)))
    for c in ((1, 2), (2, 1), (1,)):
        for ty in (('ct', 'int64'), ('ct', 'int32')):
            out.append(t.ds(('cat', c, ty, False)))
    # numbers that Python hashes alike
    big = 2 ** 61 - 1
    for c in ((-1,), (-2,), (0,), (big,), (1, -1), (1, -2), (1 + big, -1)):
        out.append(t.ds(('cat', c, ('ct', 'int64'), False)))
    for n in (0, 3):
        for x in (I, t.rec(('a', I))):
            out += [t.arr(x, ('F', n)), t.arr(x, ('F', n + big)), t.arr(x, t.V, ('F', n + big)), t.opt(t.arr(x, ('F', n + big)))]
    inner = [I, F, S, t.opt(I), t.arr(I, t.F3), t.arr(I, t.V), t.opt(t.arr(I, t.F3)), t.arr(t.opt(I), t.F3)]
    dimlists = [()] + [(d,) for d in t.DIMS] + [('F', 4), ('T', 'N'), ('E', 'B')][0:0]
    dims = t.DIMS + [('F', 1), ('F', 4), ('T', 'N'), ('E', 'B')]
    dimlists = [()] + [(d,) for d in dims] + [(a, b) for a in dims for b in dims
                                             if not (a[0] == 'E' and b[0] == 'E')]
    for dl in dimlists:
        for x in (I, S, t.opt(I), t.ds(('tv', 'T')), t.rec(('a', I)), t.tup(I)):
            out.append(t.arr(x, *dl))
    for x in inner:
        out += [t.opt(x), t.opt(t.opt(x)), t.rec(('a', x)), t.rec(('b', x)), t.rec(('a b', x)), t.tup(x), t.tup(x, x),
                t.fn([], x), t.fn([x], I), t.fn([x, I], I), t.fn([I, x], I), t.fn([I], x), t.fn([x], x)]
        for y in inner:
            out += [t.mp(x, y), t.rec(('a', x), ('b', y)), t.rec(('b', y), ('a', x)), t.rec(('a', y), ('b', x)),
                    t.tup(x, y), t.fn([x], y), t.rec(('x', t.rec(('a', x), ('b', y)))), t.rec(('x', x), ('y', y), ('z', I))]
    out += [t.rec(*[('f%d' % i, I) for i in range(n)]) for n in range(5)]
    out += [t.tup(*[I] * n) for n in range(5)]
    out += [t.rec(('a', t.rec())), t.tup(t.tup()), t.tup(t.rec()), t.opt(t.rec()), t.rec(('', I)), t.rec(('A', I))]
    return list(dict.fromkeys(out))
