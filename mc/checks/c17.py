"""C17  type predicates depend only on what they are documented to depend on"""
import itertools
from .. import scale
from .. import terms as t
from ..variants import family
from ..core import Space, require, STAT

D, T = t.D, t.T
PROPERTY = 'C17'
TECHNIQUE = ('exhaustive enumeration of type terms up to a depth times prefixes of dimensions times option wrapping; every predicate '
             'in every input form is compared with a model on terms')
NOTE = ('Exhaustive within the bounds. Whether json is a scalar, whether a time difference is numeric, whether a dimension that is a '
        'type variable makes a collection, a fixed or a homogeneous type are left unspecified (they must only not fail).')
BOUNDS = {'quick': 'types of depth 1 times 43 prefixes of up to 2 dimensions, depth 2 from all atoms, all variants',
          'thorough': 'types of depth 2 times all prefixes, depth 3 from 13 atoms'}
ANY = object()
SCALARS = {'ct', 'str', 'date', 'time', 'dt', 'td', 'units', 'dec', 'null', 'bytes', 'tv', 'cat'}
NUM = {n for n in t.CTYPES if n[:3] in ('int', 'uin', 'flo', 'com')}
FLOATS = {'float16', 'float32', 'float64'}


def strip(m):
    """option removed; None where it wraps an array"""
    if m[0] == 'opt':
        return m[1][2] if not m[1][1] else None
    return m


def scalar(term):
    if term[1]:
        return False
    m = strip(term[2])
    if m is None:
        return False
    return ANY if m[0] == 'json' else m[0] in SCALARS


def record(term):
    m = strip(term[2])
    return not term[1] and m is not None and m[0] == 'rec'


def numeric(term):
    m = strip(term[2])
    if m is None:
        return False
    if m[0] == 'td':
        return ANY
    return m[0] == 'dec' or m[0] == 'ct' and m[1] in NUM


def real(term):
    m = strip(term[2])
    return m is not None and m[0] == 'ct' and m[1] in FLOATS


def boolean(term):
    return strip(term[2]) == ('ct', 'bool')


def datelike(term):
    m = strip(term[2])
    return m is not None and m[0] in ('date', 'dt')


def collection(term):
    if term[1] and term[1][0][0] == 'T':
        return ANY
    return bool(term[1])


def tabular(term):
    return len(term[1]) == 1 and record(('D', (), term[2]))


def tvs(term):
    return any(d[0] == 'T' for d in t.dims_anywhere(term)) or any(s[2][0] == 'tv' for s in t.subterms(term))


def varying(term):
    return any(d[0] in 'VE' for d in t.dims_anywhere(term))


def fixed(term):
    if tvs(term):
        return ANY
    return not varying(term)


def types(term):
    """distinct data types inside"""
    s = scalar(term)
    if s is ANY:
        raise LookupError
    if s:
        return {term}
    out = set()
    for d in term[1]:
        if d[0] == 'T':
            raise LookupError
    for c in ([('D', (), term[2])] if term[1] else t.children(term[2])):
        out |= types(c)
    return out


def homogeneous(term):
    try:
        return len(types(('D', (), term[2]))) == 1
    except LookupError:
        return ANY


MODEL = [('isscalar', scalar), ('isrecord', record), ('isnumeric', numeric), ('isreal', real), ('isboolean', boolean), ('isdatelike', datelike),
         ('iscollection', collection), ('istabular', tabular), ('isfixed', fixed), ('ishomogeneous', homogeneous)]


def run(term):
    ds = t.build(term)
    s = ascii(t.text(term))
    fs = [ds, t.text(term)] + ([ds.measure] if not term[1] else [])
    key = []
    for name, model in MODEL:
        want = model(term)
        for f in fs:
            got = getattr(D, name)(f)
            STAT.add('transitions')
            if want is ANY:
                require(got is True or got is False or got is None, '%s(%s) is %r', name, s, got)
                if name == 'isfixed' and got:
                    require(not varying(term), 'isfixed(%s) is %r', s, got)
            else:
                require(bool(got) == want and got is not None, '%s(%s) is %r', name, s, got)
        key.append({True: '1', False: '0'}.get(want, '?'))
    require(t.strict_eq(t.observe(ds), term), '%s changed', s)
    return ''.join(key)


def run_grown(case):
    return run(scale.term(case))


def run_dim(case):
    k, x = case
    if k == 'dim':
        o, want = t.build_dim(x), x[0] != 'T'
    elif k == 'm':
        o, want = t.build_measure(x), False
    elif k == 'ds':
        o, want = t.build(x), False
    elif k == 'int':
        o, want = x, True
    else:
        o, want = {'None': None, 'str': '3', 'float': 3.0, 'list': [3], 'object': object()}[x], False
    require(D.isdimension(o) == want, 'isdimension(%r) is %r', o, D.isdimension(o))
    return k


def prefixes():
    ds = t.DIMS
    out = [()] + [(d,) for d in ds] + [p for p in itertools.product(ds, repeat=2) if not (p[0][0] == 'E' and p[1][0] == 'E')]
    return out


def prefixed(terms):
    out = {}
    for x in terms:
        for p in prefixes():
            if any(d[0] == 'E' for d in x[1]) and any(d[0] == 'E' for d in p):
                continue
            out[t.arr(x, *p)] = 1
    return list(out)


def spaces(tier):
    q = tier == 'quick'
    atoms = t.atoms() + [t.ds(('td', u)) for u in t.UNITS] + [t.ds(('dec', p, s)) for p in (1, 19, 38) for s in (0, 2)]
    d1, e1 = t.bfs(atoms, t.contexts(), 1)
    a = prefixed(d1)
    b, e2 = t.bfs(atoms, t.contexts(), 2)
    fam = family()
    if not q:
        b = prefixed(b)
    c, e3 = t.bfs(t.small_atoms(), t.contexts(), 2 if q else 3)
    dimc = [('dim', d) for d in t.DIMS + [('F', 0), ('F', 1)]] + [('m', x[2]) for x in atoms] + [('ds', x) for x in d1] + \
           [('int', n) for n in (0, 1, -1, 10 ** 20)] + [('x', n) for n in ('None', 'str', 'float', 'list', 'object')]
    grown = scale.cases(tier)
    show = lambda x: ascii(t.text(x))
    return [
        Space('prefixes', a, run, len(a), None, show),
        Space('nesting', b, run, len(b), None, show),
        Space('variants', fam, run, len(fam), None, show),
        Space('deep nesting', c, run, len(c), None, show),
        Space('growth', grown, run_grown, len(grown), None, scale.show),
        Space('components', dimc, run_dim, len(dimc), 0, repr),
    ]
