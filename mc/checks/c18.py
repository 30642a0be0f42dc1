"""C18  variable dimensions and ellipses are found wherever they occur"""
import itertools
from .. import scale
from .. import terms as t
from ..variants import family
from ..core import Space, require, STAT
from .c17 import tvs

D, T = t.D, t.T
PROPERTY = 'C18'
TECHNIQUE = ('exhaustive enumeration of type terms up to a depth, and of every position of a term at which a variable dimension or '
             'ellipsis can be planted; the searches are compared with a traversal of the term')
NOTE = ('Exhaustive within the bounds. Collecting is checked for predicates on native types, text, dimensions, records, tuples, '
        'options, units and their disjunctions; the name of an ellipsis is not counted as a term.')
BOUNDS = {'quick': 'all terms of depth 2 from 45 atoms, depth 3 from 13; planting at every position of terms of depth 3',
          'thorough': 'depth 3 from all atoms, depth 4 from 4 atoms'}

PREDS = [
    ('V', lambda x: isinstance(x, T.Var), lambda k, x: k == 'dim' and x[0] == 'V'),
    ('VE', lambda x: isinstance(x, (T.Var, T.Ellipsis)), lambda k, x: k == 'dim' and x[0] in 'VE'),
    ('F', lambda x: isinstance(x, T.Fixed), lambda k, x: k == 'dim' and x[0] == 'F'),
    ('ct', lambda x: isinstance(x, T.CType), lambda k, x: k == 'm' and x[0] == 'ct'),
    ('int32 or var', lambda x: x == T.int32 and not isinstance(x, T.DataShape) or isinstance(x, T.Var),
     lambda k, x: k == 'm' and x == ('ct', 'int32') or k == 'dim' and x[0] == 'V'),
    ('str', lambda x: isinstance(x, T.String), lambda k, x: k == 'm' and x[0] == 'str'),
    ('rec', lambda x: isinstance(x, T.Record), lambda k, x: k == 'm' and x[0] == 'rec'),
    ('opt|ct', lambda x: isinstance(x, (T.Option, T.CType)), lambda k, x: k == 'm' and x[0] in ('opt', 'ct')),
    ('tup|fn', lambda x: isinstance(x, (T.Tuple, T.Function)), lambda k, x: k == 'm' and x[0] in ('tup', 'fn')),
    ('units|map|dt', lambda x: isinstance(x, (T.Units, T.Map, T.DateTime)), lambda k, x: k == 'm' and x[0] in ('units', 'map', 'dt')),
    ('none', lambda x: False, lambda k, x: False),
]


def collected(pred, term):
    out = []
    for d in term[1]:
        if pred('dim', d):
            out.append(('dim', d))
    m = term[2]
    if pred('m', m):
        out.append(('m', m))
    elif m[0] == 'cat':
        out += collected(pred, t.ds(m[2]))
    else:
        for c in t.children(m):
            out += collected(pred, c)
    return out


def as_term(x):
    return ('dim', t.obs_dim(x)) if isinstance(x, (T.Var, T.Fixed, T.Ellipsis)) else ('m', t.obs_measure(x))


def run(term):
    ds = t.build(term)
    s = ascii(t.text(term))
    kinds = set(d[0] for d in t.dims_anywhere(term))
    v, e = bool(kinds & set('VE')), 'E' in kinds
    forms = [ds, [ds], (t.build(t.I32), ds)] + ([ds.measure] if not term[1] else [])
    for f in forms:
        require(D.has_var_dim(f) is v, 'has_var_dim(%s) is %r', s, D.has_var_dim(f))
        require(D.has_ellipsis(f) is e, 'has_ellipsis(%s) is %r', s, D.has_ellipsis(f))
        STAT.add('transitions', 2)
    fx = D.isfixed(ds)
    require(not (fx and v), 'isfixed(%s) is %r', s, fx)
    if not tvs(term):
        require(fx is (not v), 'isfixed(%s) is %r', s, fx)
    for name, p, mp in PREDS:
        want = collected(mp, term)
        got = [as_term(x) for x in D.util.collect(p, ds)]
        require(got == want, 'collect of %s in %s finds %s', name, s, got)
        STAT.add('transitions')
    got = [as_term(x) for x in D.util.collect(PREDS[1][1], [ds, ds.measure, (ds,)])]
    a = collected(PREDS[1][2], term)
    require(got == a + collected(PREDS[1][2], ('D', (), term[2])) + a, 'collect in a list of %s finds %s', s, got)
    require(t.strict_eq(t.observe(ds), term), '%s changed', s)
    return 'var' * v + ' ellipsis' * e


def plant(term):
    """the term with one more dimension of each kind, at each position"""
    for i in range(len(term[1]) + 1):
        for d in (t.V, t.E, t.EA):
            if d[0] == 'E' and any(x[0] == 'E' for x in term[1]):
                continue
            yield ('D', term[1][:i] + (d,) + term[1][i:], term[2])
    m = term[2]
    k = m[0]
    dims = term[1]
    if k == 'opt':
        for c in plant(m[1]):
            yield ('D', dims, ('opt', c))
    elif k == 'rec':
        for i, (n, x) in enumerate(m[1]):
            for c in plant(x):
                yield ('D', dims, ('rec', m[1][:i] + ((n, c),) + m[1][i + 1:]))
    elif k == 'tup':
        for i, x in enumerate(m[1]):
            for c in plant(x):
                yield ('D', dims, ('tup', m[1][:i] + (c,) + m[1][i + 1:]))
    elif k == 'fn':
        for i, x in enumerate(m[1]):
            for c in plant(x):
                yield ('D', dims, ('fn', m[1][:i] + (c,) + m[1][i + 1:], m[2]))
        for c in plant(m[2]):
            yield ('D', dims, ('fn', m[1], c))
    elif k == 'map':
        for c in plant(m[1]):
            yield ('D', dims, ('map', c, m[2]))
        for c in plant(m[2]):
            yield ('D', dims, ('map', m[1], c))
    elif k == 'units':
        for c in plant(m[2]):
            yield ('D', dims, ('units', m[1], c))


def run_grown(case):
    x = scale.term(case)
    return run(x)


def run_planted(case):
    """one more dimension at each position of a grown term"""
    for y in itertools.islice(plant(scale.term(case[0])), case[1], case[1] + 20):
        run(y)
        STAT.add('traces')
    return case[0][0]


def spaces(tier):
    q = tier == 'quick'
    a, e1 = t.bfs(t.atoms(), t.contexts(), 2 if q else 3)
    b, e2 = t.bfs(t.small_atoms()[:6] if q else t.small_atoms(), t.contexts(), 3)
    ctx = [c for c in t.contexts() if c[0] not in ('dimvar', 'dim...', 'dimA...', 'dim0', 'dimM')]
    p, e3 = t.bfs([t.I32, t.STR], ctx, 3 if q else 4)
    wide = [t.rec(*[('f%d' % i, t.I32) for i in range(n)]) for n in (1, 2, 5, 30)] + [t.tup(*[t.I32] * n) for n in (1, 2, 5, 30)] + \
           [t.fn([t.I32] * n, t.I32) for n in (1, 2, 5, 30)]
    planted = {}
    for x in p + wide:
        for y in plant(x):
            planted[y] = 1
    planted = list(planted)
    fam = family()
    grown = scale.cases(tier)
    gplant = [((n, k, None), j) for n, k, at in scale.families(tier, limit=33 if q else 130) if n not in ('name', 'quoted name', 'time zone', 'unit', 'type variable', 'dimension')
              for j in range(0, sum(1 for _ in plant(scale.term((n, k, None)))), 20)]
    show = lambda x: ascii(t.text(x))
    return [
        Space('nesting', a, run, len(a), None, show),
        Space('deep nesting', b, run, len(b), None, show),
        Space('planted', planted, run, len(planted), None, show),
        Space('growth', grown, run_grown, len(grown), None, scale.show),
        Space('planted growth', gplant, run_planted, len(gplant), None, lambda c: scale.show(c[0])),
        Space('variants', fam, run, len(fam), None, show),
    ]
