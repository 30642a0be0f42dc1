"""C06  equality of types is structural, an equivalence, and agrees with hashing"""
import copy
import pickle
import itertools
import numpy as np
from .. import terms as t
from .. import scale
from ..variants import family
from ..core import Space, require, STAT

D, T = t.D, t.T
PROPERTY = 'C06'
TECHNIQUE = ('exhaustive enumeration of all ordered pairs of model states, each obtained by several construction '
             'routes, with term identity as the oracle')
NOTE = ('All ordered pairs of the stated term sets; since equality is shown to coincide with term identity on them it '
        'is an equivalence there. Category values 1, True and 1.0, which Python identifies, are not mixed.')
BOUNDS = {'quick': 'all pairs of 2.3k one-parameter variants and of 3.1k depth-2 terms',
          'thorough': 'all pairs of the variants closed under one more context (9k), and of depth-2 terms over all atoms'}

ROUTES = ['constructor', 'text', 'pickle', 'multiply', 'deepcopy', 'list', 'measure']


def make(term, route):
    if route == 'constructor':
        return t.build(term)
    if route == 'text':
        return D.dshape(t.text(term))
    if route == 'pickle':
        o = t.build(term)
        hash(o)
        return pickle.loads(pickle.dumps(o, 2))
    if route == 'multiply':
        o = t.build_measure(term[2])
        for d in reversed(term[1]):
            o = t.build_dim(d) * o
        return o
    if route == 'deepcopy':
        o = t.build(term)
        hash(o)
        return copy.deepcopy(o)
    if route == 'list':
        return D.dshape([t.build_dim(d) for d in term[1]] + [t.build_measure(term[2])])
    if route == 'measure':
        return None if term[1] else t.build_measure(term[2])


def pair(a, b, same, what):
    require((a == b) is same, '%s: == gives %r', what, a == b)
    require((a != b) is (not same), '%s: != gives %r', what, a != b)
    if same:
        require(hash(a) == hash(b), '%s: equal but hashes differ', what)


def run_routes(term):
    objs = [(r, make(term, r)) for r in ROUTES]
    objs = [(r, o) for r, o in objs if o is not None]
    for (ra, a), (rb, b) in itertools.product(objs, repeat=2):
        pair(a, b, True, '%s by %s and by %s' % (ascii(t.text(term)), ra, rb))
        pair(a, b, True, '%s by %s and by %s, again' % (ascii(t.text(term)), ra, rb))
    require(len({o for _, o in objs}) == 1, '%s: several entries in a set', ascii(t.text(term)))
    STAT.add('traces', len(objs) ** 2)
    return '%d routes' % len(objs)


_objs = {}


def pairs(name, terms):
    left = right = None

    def setup():
        _objs[name] = ([make(x, 'constructor') for x in terms], [make(x, 'text') for x in terms],
                       [make(x, 'measure') for x in terms])

    def run(i):
        A, B, M = _objs[name]
        x = terms[i]
        for j, y in enumerate(terms):
            same = i == j
            for a in (A[i], M[i]):
                if a is None:
                    continue
                for b in ((B[j], M[j]) if a is A[i] else (B[j],)):
                    if b is not None and ((a == b) is not same or (a != b) is same or same and hash(a) != hash(b)):
                        pair(a, b, same, '%s and %s' % (ascii(t.text(x)), ascii(t.text(y))))
        STAT.add('traces', len(terms))
        STAT.add('transitions', len(terms))
        STAT.add('states', 1)
        return 'ok'
    return Space(name, list(range(len(terms))), run, None, None, lambda i: ascii(t.text(terms[i])),
                 'all ordered pairs; equal exactly when the terms are identical', setup=setup)


def run_growth(fam):
    """one big type and every other that differs from it in one place"""
    name, n, at = fam
    cs = [(name, n, i) for i in [None] + at]
    terms = [scale.term(c) for c in cs]
    A, B = [t.build(x) for x in terms], [D.dshape(t.text(x)) for x in terms]
    hs = [hash(a) for a in A]
    cnt = 0
    for i, a in enumerate(A):
        for j, b in enumerate(B):
            if n > 70 and i and j and abs(i - j) > 1:
                continue
            cnt += 1
            same = i == j
            require((a == b) is same and (b == a) is same and (a != b) is (not same), '%s and %s: == gives %r', scale.show(cs[i]), scale.show(cs[j]), a == b)
            require(not same or hash(b) == hs[i], '%s: hashes differ', scale.show(cs[i]))
    require(len(set(A + B)) == len(cs), '%s: %d types as %d entries of a set', scale.show(cs[0]), len(cs), len(set(A + B)))
    run_routes(terms[0])
    run_routes(terms[-1])
    STAT.add('states', len(cs))
    STAT.add('transitions', cnt)
    STAT.add('traces', cnt)
    return name


def run_set(case):
    terms = case
    objs = [make(x, 'constructor') for x in terms]
    table = {o: i for i, o in enumerate(objs)}
    require(len(table) == len(terms), 'a dictionary of %d types has %d entries', len(terms), len(table))
    for i, x in enumerate(terms):
        require(table.get(make(x, 'text')) == i, '%s is not found in a dictionary of types', ascii(t.text(x)))
        m = make(x, 'measure')
        if m is not None:
            require(table.get(m) == i, 'the measure %s is not found', ascii(t.text(x)))
    return 'ok'


class Odd(object):
    pass


FOREIGN = [None, 0, 3, -1, 1.5, True, '', 'int32', '3 * int32', (), [], {}, (3,), set(), object(), Odd(), int, Odd,
           b'', 3 + 0j, range(3), NotImplemented, Ellipsis, type, D.dshape]


def run_foreign(term):
    o = t.build(term)
    for x in FOREIGN:
        require((o == x) is False and (o != x) is True, '%s equals %r', ascii(t.text(term)), x)
        require((x == o) is False and (x != o) is True, '%r equals %s', x, ascii(t.text(term)))
    return 'ok'


def dim_objects():
    out = []
    for n in (0, 1, 3, 4, 10 ** 12):
        out += [(('F', n), D.Fixed(n)), (('F', n), n), (('F', n), D.Fixed(np.int64(n)))]
    out += [(('V',), D.Var()), (('V',), D.var), (('V',), D.dshape('var * int32')[0])]
    for n in 'MNT':
        out += [(('T', n), D.TypeVar(n)), (('T', n), D.dshape(n + ' * int32')[0])]
    out += [(('E', None), T.Ellipsis()), (('E', None), D.dshape('... * int32')[0])]
    for n in 'AB':
        out += [(('E', n), T.Ellipsis(D.TypeVar(n))), (('E', n), D.dshape(n + '... * int32')[0])]
    return out


def run_dims(i):
    x, a = dim_objects()[i]
    for y, b in dim_objects():
        if isinstance(a, int) and isinstance(b, int):
            continue
        pair(a, b, x == y, 'dimensions %r and %r' % (a, b))
    for f in FOREIGN:
        if isinstance(a, int) or isinstance(f, int) and not isinstance(a, D.Fixed):
            continue
        if isinstance(f, int) and int(a) == f:
            continue
        require((a == f) is False and (a != f) is True, 'dimension %r equals %r', a, f)
    require(str(D.DataShape(a, D.int32)) == str(D.DataShape(b, D.int32)) if x == y else True, 'text')
    return x[0]


def spaces(tier):
    q = tier == 'quick'
    fam = family()
    d2, e2 = t.bfs(t.small_atoms()[:8] if q else t.atoms(), t.contexts(), 2)
    both = list(dict.fromkeys(fam + d2))
    show = lambda x: ascii(t.text(x))
    out = [Space('routes', both, run_routes, len(both), e2, show, 'all pairs of construction routes'),
           Space('foreign objects', both, run_foreign, len(both), 0, show),
           Space('dimensions', list(range(len(dim_objects()))), run_dims, None, None, lambda i: repr(dim_objects()[i])),
           Space('dictionary', [both], run_set, len(both), 0, lambda c: '%d types' % len(c),
                 encode=lambda c: None, decode=lambda c: both),
           Space('growth', scale.families(tier, limit=None if not q else 130), run_growth, None, None, lambda f: scale.show((f[0], f[1], None)),
                 'one thing at a time gets big; all pairs of types that differ in one place'),
           pairs('variant pairs', fam), pairs('depth-2 pairs', d2)]
    if not q:
        f2, _ = t.bfs(fam, t.contexts(), 1)
        out.append(pairs('variants in a context', f2))
    return out
