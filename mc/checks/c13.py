"""C13  discovery unites types independently of the order of the data"""
import itertools
import warnings
from .. import terms as t
from .. import values as V
from ..core import Space, require, STAT
from . import c12

D, T = t.D, t.T
PROPERTY = 'C13'
TECHNIQUE = ('exhaustive enumeration of tables of values, all their permutations, representations and extensions; the discovered '
             'type is compared with a reference model of uniting types and with the laws relating the executions')
NOTE = ('Exhaustive within the bounds. Where values have no common type the table is described by a tuple of the types of its '
        'parts; the laws then ask for the permuted tuple.')
BOUNDS = {'quick': 'columns of up to 3 values of 34 kinds and of 4 of 10 kinds in every order; tables of 2 columns and 3 rows; records over 3 keys; the values of C12',
          'thorough': 'columns of up to 4 values of 20 kinds; tables of 3 columns; the values of the thorough C12'}


def disc(v):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return t.observe(D.discover(v))


def run_ref(c):
    got = disc(V.val(c))
    want = V.ref(c)
    require(t.strict_eq(got, want), 'discover(%s) is %s instead of %s', V.show(c), ascii(t.text(got)), ascii(t.text(want)))
    return c12.kind(got)


def lst(xs):
    return ('l', tuple(xs))


def elem(term, n):
    """element type of a table of n rows, or None where it is described part by part"""
    if term[1] and term[1][0] == ('F', n):
        return ('D', term[1][1:], term[2])
    return None


FORMS = [('l', 'l'), ('t', 'l'), ('l', 't'), ('t', 't')]


def run_column(xs):
    """xs: values of one column, as a sorted tuple"""
    n = len(xs)
    base = None
    shown = V.show(lst(xs))
    for perm in sorted(set(itertools.permutations(xs))):
        for outer, inner in FORMS:
            term = disc(V.val((outer, tuple((inner, (x,)) for x in perm))))
            e = elem(term, n)
            if e is not None:
                require(e[1] and e[1][0] == ('F', 1), 'the rows of %s are %s', shown, e)
                e = ('D', e[1][1:], e[2])
            else:
                require(term[2][0] == 'tup' and len(term[2][1]) == n, 'the column %s is %s', shown, term)
                require(list(term[2][1]) == [disc(V.val(('l', (x,)))) for x in perm], 'the column %s is %s', shown, term)
                e = 'parts'
            if base is None:
                base = e
            require(t.strict_eq(base, e), 'the column %s has type %s or %s depending on its order and form', shown, base, e)
            STAT.add('transitions')
        # the same column in records
        term = disc(V.val(lst(('d', (('k', x),)) for x in perm)))
        e = elem(term, n)
        if base == 'parts':
            require(e is None and term[2][0] == 'tup', 'the column %s has no common type but %s in records', shown, term)
        else:
            require(e == t.rec(('k', base)), 'the column %s has type %s but %s in records', shown, base, term)
        STAT.add('transitions')
    if base == 'parts':
        return 'no common type'
    # repeating rows changes the length only
    for k in (2, 3):
        term = disc(V.val(lst([('t', (x,)) for x in xs] * k)))
        require(term == ('D', (('F', n * k), ('F', 1)) + base[1], base[2]), 'repeating the column %s gives %s', shown, term)
    # a missing value makes it optional and changes nothing else
    want = base if base[2] == V.NULL and not base[1] or base[2][0] == 'opt' and not base[1] else t.ds(('opt', base))
    for pos in range(n + 1):
        for miss in (('v', 'None'), ('v', 'empty')):
            ys = xs[:pos] + (miss,) + xs[pos:]
            term = disc(V.val(lst(('t', (x,)) for x in ys)))
            require(term == ('D', (('F', n + 1), ('F', 1)) + want[1], want[2]), 'a missing value in %s gives %s instead of %s', shown, term, want)
            STAT.add('transitions')
    # least: it is what the model of the documented order gives
    ms = [V.LEAVES[x[1]][1] for x in xs if V.LEAVES[x[1]][1] != V.NULL]
    if ms:
        inner = base[2][1] if base[2][0] == 'opt' else base
        require(inner == t.ds(V.least(ms)), 'the column %s has type %s', shown, base)
    return c12.kind(base)


def run_table(rows):
    """rows: tuples of equal length; a table's row type is that of its columns"""
    n, k = len(rows), len(rows[0])
    shown = V.show(lst(('t', r) for r in rows))
    cols = []
    for j in range(k):
        e = elem(disc(V.val(lst(('t', (r[j],)) for r in rows))), n)
        if e is None:
            cols = None
            break
        cols.append(('D', e[1][1:], e[2]))
    first = None
    for perm in sorted(set(itertools.permutations(rows))):
        for outer, inner in FORMS:
            term = disc(V.val((outer, tuple((inner, r) for r in perm))))
            STAT.add('transitions')
            e = elem(term, n)
            if cols is None:
                if e is None:
                    require(term[2][0] == 'tup' and [x for x in term[2][1]] == [disc(V.val(('t', r))) for r in perm],
                            'the table %s is %s', shown, term)
                continue
            want = V.several(cols)
            require(e == want, 'the rows of %s are %s, but its columns are %s', shown, term, [t.text(c) for c in cols])
            first = first or e
        # as records: columns by name
        if cols is not None:
            names = ['p', 'q', 'r'][:k]
            term = disc(V.val(lst(('d', tuple(zip(names, r))) for r in perm)))
            require(elem(term, n) == t.rec(*zip(names, cols)), 'the table %s as records is %s', shown, term)
            term = disc(V.val(lst(('o', tuple(reversed(list(zip(names, r))))) for r in perm)))
            require(elem(term, n) == t.rec(*zip(names, cols)), 'the table %s as ordered records is %s', shown, term)
    return 'parts' if cols is None else 'row of one type' if len(set(cols)) == 1 else 'row of several types'


def run_records(recs):
    """records over some keys: each key is a column in which it may be missing"""
    n = len(recs)
    keys = sorted(set(k for r in recs for k, _ in r))
    shown = V.show(lst(('d', r) for r in recs))
    cols = {}
    for k in keys:
        col = [dict(r).get(k, ('v', 'None')) for r in recs]
        e = elem(disc(V.val(lst(('t', (x,)) for x in col))), n)
        cols[k] = None if e is None else ('D', e[1][1:], e[2])
    for perm in sorted(set(itertools.permutations(recs))):
        for form in 'do':
            term = disc(V.val(lst((form, r) for r in perm)))
            STAT.add('transitions')
            e = elem(term, n)
            if any(c is None for c in cols.values()):
                require(e is None or len(set(disc(V.val((form, r))) for r in perm)) == 1, '%s is %s', shown, term)
                continue
            require(e == t.rec(*[(k, cols[k]) for k in keys]), '%s has rows %s', shown, term)
            # a key that is missing somewhere is optional, or always null
            for k, x in e[2][1]:
                if any(k not in dict(r) for r in recs):
                    require(x[2][0] in ('opt', 'null') and not x[1], 'the field %s of %s is %s', k, shown, x)
    return '%d keys' % len(keys)


def spaces(tier):
    q = tier == 'quick'
    L = c12.leaves()
    pick = [('v', n) for n in ('None', 'True', '1', '2.5', 'text', "'12'", "'1.5'", 'date', 'datetime', 'i32')]
    more = pick + [('v', n) for n in ('delta', 'time', "'date'", "'datetime'", "'true'", '1j', 'bytes', 'i8', 'f32', "'delta'")]
    cols = [xs for k in (1, 2) for xs in itertools.combinations_with_replacement(L, k)]
    cols += list(itertools.combinations_with_replacement(L if not q else more, 3))
    cols += list(itertools.combinations_with_replacement(pick if q else more, 4))
    if not q:
        cols += list(itertools.combinations_with_replacement(pick[1:7], 5))
    cols = list(dict.fromkeys(cols))
    row2 = list(itertools.product(pick, repeat=2))
    tabs = [xs for xs in itertools.combinations_with_replacement(row2, 2)]
    few = [('v', n) for n in ('None', '1', '2.5', 'text', 'date')]
    f2 = list(itertools.product(few, repeat=2))
    tabs += list(itertools.combinations_with_replacement(f2, 3))
    f3 = list(itertools.product(few[:4], repeat=3))
    tabs += list(itertools.combinations_with_replacement(f3, 2))
    nest = [('l', (few[1],)), ('l', (few[1], few[1])), ('t', (few[1], few[3])), ('d', (('a', few[1]),)), ('d', (('a', few[2]), ('b', few[3]))), ('l', ())]
    f4 = list(itertools.product(few[:2] + nest, repeat=2))
    tabs += list(itertools.combinations_with_replacement(f4, 2))
    if not q:
        tabs += list(itertools.combinations_with_replacement(f3, 3))[::3]
        tabs += list(itertools.combinations_with_replacement(f4, 3))
    rec1 = [tuple(zip(ks, xs)) for n in range(4) for ks in itertools.combinations('abc', n) for xs in itertools.product(few[:4], repeat=n)]
    rr = rec1 if not q else rec1[::3]
    recs = [xs for xs in itertools.combinations_with_replacement(rec1, 2)] + [xs for xs in itertools.combinations_with_replacement(rr[::2], 3)]
    shc = lambda xs: V.show(lst(xs))
    sht = lambda rows: V.show(lst(('t', r) for r in rows))
    S = [Space('columns', cols, run_column, len(cols), None, shc),
         Space('tables', list(dict.fromkeys(tabs)), run_table, len(tabs), None, sht),
         Space('records', list(dict.fromkeys(recs)), run_records, len(recs), None, lambda rs: V.show(lst(('d', r) for r in rs)))]
    seen = {}
    for sp in c12.spaces(tier):
        if sp.run is c12.run and sp.name != 'sets':
            for c in sp.cases:
                seen[c] = 1
    for c in c12.grown(tier):
        seen[c] = 1
    # records inside columns: uniting of nested records
    inner = [('d', tuple(zip(ks, xs))) for n in range(3) for ks in itertools.combinations('ab', n)
             for xs in itertools.product(few[:4] + [('d', (('x', few[1]),)), ('l', (few[1],))], repeat=n)] + [few[0]]
    for a in inner:
        for b in inner:
            for f in ((lambda x: ('t', (x,))), (lambda x: ('d', (('k', x),))), (lambda x: ('d', (('k', ('d', (('m', x),))),)))):
                seen[lst([f(a), f(b)])] = 1
                seen[lst([f(a), f(b), f(few[0])])] = 1
    ref = list(seen)
    S.append(Space('reference model', ref, run_ref, len(ref), 0, V.show))
    return S
