"""C11  a datashape decomposes consistently into dimensions and measure"""
import itertools
from .. import scale
from .. import terms as t
from ..variants import family
from ..core import Space, require, STAT

D, T = t.D, t.T
PROPERTY = 'C11'
TECHNIQUE = ('exhaustive enumeration of datashapes (every list of dimensions up to a length times a closed set of measures) '
             'and of every list of datashapes to concatenate; every accessor at every position is compared with the model')
NOTE = 'Exhaustive within the bounds; negative numbers of leading dimensions are left unspecified.'
BOUNDS = {'quick': 'up to 4 dimensions of 7 kinds times 20 measures, 3 dimensions times all variants; concatenations of up to 3 of 60 datashapes and of up to 5 lengths',
          'thorough': 'up to 5 dimensions, every type term of depth 2; concatenations of up to 4'}


def comps(term):
    return list(term[1]) + [term[2]]


def obs(x):
    return t.obs_dim(x) if isinstance(x, (T.Fixed, T.Var, T.Ellipsis)) else t.obs_measure(x)


def same(term, i, x):
    n = len(term[1])
    if i < n:
        return t.strict_eq(t.obs_dim(x), term[1][i])
    return t.strict_eq(t.obs_measure(x), term[2])


def run(term):
    ds = t.build(term)
    s = ascii(t.text(term))
    n = len(term[1])
    c = comps(term)
    require(len(ds) == n + 1, 'len(%s) is %s', s, len(ds))
    require(type(ds.shape) is tuple and len(ds.shape) == n, 'the shape of %s is %r', s, ds.shape)
    its = list(ds)
    require(len(its) == n + 1 and len(ds.parameters) == n + 1, 'iterating over %s gives %r', s, its)
    for i in range(n + 1):
        xs = [ds[i], ds[i - n - 1], its[i], ds.parameters[i], ds.info()[1][i]] + ([ds.shape[i]] if i < n else [ds.measure])
        for x in xs:
            require(same(term, i, x), 'component %d of %s is %r', i, s, x)
            require(x == xs[0] and hash(x) == hash(xs[0]), 'component %d of %s is not the same everywhere', i, s)
        STAT.add('transitions', len(xs))
    for i in (n + 1, -n - 2):
        try:
            ds[i]
        except IndexError:
            pass
        else:
            require(False, '(%s)[%d] exists', s, i)
    for a in range(n + 2):
        for b in range(a, n + 2):
            require(list(ds[a:b]) == its[a:b], '(%s)[%d:%d] is %r', s, a, b, ds[a:b])
            STAT.add('transitions')
    for k in range(n + 1):
        sub = ds.subarray(k)
        want = ('D', term[1][k:], term[2])
        require(isinstance(sub, T.DataShape) and t.strict_eq(t.observe(sub), want), '(%s).subarray(%d) is %r', s, k, sub)
        require(sub == t.build(want) and hash(sub) == hash(t.build(want)), '(%s).subarray(%d) is not equal to %s', s, k, want)
        back = T.DataShape(*(ds.shape[:k] + (sub,)))
        require(back == ds and hash(back) == hash(ds) and t.strict_eq(t.observe(back), term), 'recomposing %s at %d gives %r', s, k, back)
        for j in range(n + 1 - k):
            require(sub.subarray(j) == ds.subarray(k + j), '(%s).subarray(%d).subarray(%d)', s, k, j)
            STAT.add('transitions')
        x = sub
        for d in reversed(ds.shape[:k]):
            x = d * x
        require(x == ds, 'multiplying the dimensions of %s back gives %r', s, x)
        STAT.add('transitions', 3)
    for k in (n + 1, n + 2, n + 7):
        try:
            r = ds.subarray(k)
        except IndexError:
            pass
        else:
            require(False, '(%s).subarray(%d) is %r', s, k, r)
    m = ds.measure
    require(T.DataShape(*ds) == ds and T.DataShape(*ds.parameters) == ds and type(ds)(*ds.parameters) == ds, 'recomposing %s', s)
    require(ds.info()[0] is T.DataShape, 'info of %s', s)
    # the measure on its own
    require(m.measure is m and len(m) == 1, 'the measure of %s is not its own measure', s)
    if not isinstance(m, (T.Record, T.Option)):
        require(m.shape == () and m[0] is m and m[-1] is m and list(m) == [m], 'the measure of %s as a datashape: %r', s, m.shape)
    require(m.subarray(0) is m, 'subarray(0) of the measure of %s', s)
    for k in (1, 2):
        try:
            m.subarray(k)
        except IndexError:
            pass
        else:
            require(False, 'the measure of %s has a subarray(%d)', s, k)
    require(t.strict_eq(t.observe(ds), term), '%s changed', s)
    return '%d dimensions' % n


# ----------------------------------------------------------------- concatenation
def run_cat(terms):
    dss = [t.build(x) for x in terms]
    shown = 'cat_dshapes(%s)' % ', '.join(ascii(t.text(x)) for x in terms)
    ok = len(terms) == 1 or (all(x[1] and x[1][0][0] == 'F' for x in terms) and
                             len(set((x[1][1:], x[2]) for x in terms)) == 1)
    try:
        r = D.cat_dshapes(dss)
    except (TypeError, ValueError) as e:
        require(not ok, '%s is refused: %s', shown, e)
        return 'refused'
    require(ok, '%s is %s', shown, r)
    if len(terms) == 1:
        want = terms[0]
    else:
        want = ('D', (('F', sum(x[1][0][1] for x in terms)),) + terms[0][1][1:], terms[0][2])
    require(isinstance(r, T.DataShape) and t.strict_eq(t.observe(r), want), '%s is %s instead of %s', shown, r, ascii(t.text(want)))
    require(r == t.build(want) and hash(r) == hash(t.build(want)), '%s is not equal to %s', shown, ascii(t.text(want)))
    for a, x in zip(dss, terms):
        require(t.strict_eq(t.observe(a), x), '%s changed its argument', shown)
    for k in range(1, len(dss)):                       # every way of splitting the list
        r2 = D.cat_dshapes([D.cat_dshapes(dss[:k]), D.cat_dshapes(dss[k:])])
        require(r2 == r and str(r2) == str(r), '%s split at %d is %s', shown, k, r2)
        STAT.add('transitions')
    require(D.cat_dshapes(tuple(dss)) == r, '%s of a tuple', shown)
    return 'concatenated %d' % len(terms)


def run_cat0(_):
    try:
        D.cat_dshapes([])
    except ValueError:
        return 'refused'
    require(False, 'cat_dshapes([]) is accepted')


def run_big_cat(case):
    """two big datashapes that differ in one place are not concatenated"""
    x, y = scale.term((case[0], case[1], None)), scale.term(case)
    if sum(d[0] == 'E' for d in x[1] + y[1]):
        return 'skipped'
    X, Y = ('D', (('F', 2),) + x[1], x[2]), ('D', (('F', 3),) + y[1], y[2])
    run_cat((X, Y))
    run_cat((X, X, Y))
    return run_cat((X, ('D', (('F', 3),) + x[1], x[2])))


def grown_cats(tier):
    out = []
    for n in scale.sizes(*((12, scale.EDGES[:6]) if tier == 'quick' else (40, scale.EDGES))):
        base = [('D', (('F', k % 5), t.F3), ('ct', 'int32')) for k in range(n)]
        out.append(tuple(base))
        for i in scale.positions(n, 0, 17):
            for odd in (('D', (('F', 2), t.F3), ('ct', 'int64')), ('D', (('F', 2), ('F', 4)), ('ct', 'int32')), ('D', (t.V, t.F3), ('ct', 'int32')),
                        ('D', (('F', 2 ** 40), t.F3), ('ct', 'int32')), t.ds(('ct', 'int32')), ('D', (('F', 2), t.F3, t.F3), ('ct', 'int32'))):
                out.append(tuple(base[:i] + [odd] + base[i + 1:]))
    return out


def spaces(tier):
    q = tier == 'quick'
    dims = t.DIMS + [('F', 2 ** 40)]
    meas = [x[2] for x in t.small_atoms() if not x[1]] + [('opt', t.I32), ('opt', t.arr(t.I32, t.F3)), ('rec', (('a', t.I32), ('b c', t.arr(t.STR, t.V)))),
            ('tup', (t.I32, t.F64)), ('fn', (t.I32,), t.F64), ('map', t.I32, t.STR), ('ct', 'void')]

    def lists(n):
        for k in range(n + 1):
            for dl in itertools.product(dims, repeat=k):
                if sum(d[0] == 'E' for d in dl) < 2:
                    yield dl
    a = [('D', dl, m) for dl in lists(4 if q else 5) for m in meas]
    fam = family()
    more, e = t.bfs(t.atoms(), t.contexts(), 1 if q else 2)
    b = list(dict.fromkeys(fam + more))
    show = lambda x: ascii(t.text(x))
    # concatenation
    inner = [(), (t.F3,), (('F', 4),), (t.V,), (t.M,), (t.E,), (t.F3, t.V)]
    ms = [('ct', 'int32'), ('ct', 'int64'), ('rec', (('a', t.I32),)), ('rec', (('b', t.I32),)), ('opt', t.I32)]
    heads = [('F', 0), ('F', 5), t.V, t.M]
    full = [('D', (h,) + i, m) for h in heads for i in inner for m in ms[:2]] + [t.ds(m) for m in ms] + \
           [('D', (h,) + i, m) for h in heads[1:3] for i in inner[:2] for m in ms[2:]]
    cats = [(x,) for x in full] + list(itertools.product(full, repeat=2))
    fix = [('F', n) for n in (0, 1, 2, 7, 2 ** 40)]
    runs = [tuple(('D', (d,) + i, m) for d in dl) for n in range(2, 6 if q else 7) for dl in itertools.product(fix, repeat=n)
            for i, m in ((inner[0], ms[0]), (inner[6], ms[2]))]
    few = [x for x in full if x[2] in (ms[0], ms[2])][::1 if not q else 2]
    cats += list(itertools.product(few, repeat=3))
    # one odd element at each position of a matching list
    odd = [tuple(('D', (('F', 2), t.F3), ms[0]) if j != i else x for j in range(n)) for n in (2, 3, 4, 5) for i in range(n)
           for x in full + [('D', (('F', 2), t.F3), m) for m in [y[2] for y in t.atoms()]]]
    sc = lambda c: ', '.join(ascii(t.text(x)) for x in c)
    return [
        Space('dimension lists', a, run, len(a), None, show),
        Space('all variants', b, run, len(b), None, show),
        Space('concatenations', list(dict.fromkeys(cats)), run_cat, len(full), None, sc),
        Space('concatenations of runs', runs, run_cat, len(runs), None, sc),
        Space('one odd one out', list(dict.fromkeys(odd)), run_cat, len(odd), None, sc),
        Space('growth', [c for c in scale.cases(tier, limit=33 if q else 65) if c[2] in (None, 0)] +
              [c for c in scale.cases(tier, without=('dimensions', 'kinds of dimensions')) if c[2] is None], lambda c: run(scale.term(c)), None, None, scale.show),
        Space('growth of concatenations', grown_cats(tier), run_cat, None, None, lambda c: sc(c)[:400]),
        Space('concatenations of growth', scale.cases(tier, limit=130 if q else None), run_big_cat, None, None, scale.show),
        Space('nothing to concatenate', [()], run_cat0, 1, 0, repr),
    ]
